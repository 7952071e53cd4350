//! C17: the Python module, in live interpreters, against the Rust decoders.
use super::builds::{gen_op, Op, What};
use super::formats::*;
use super::image::*;
use super::pvrtc;
use crate::engine::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Server {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
pub fn start() -> Result<Server, String> {
    let home = std::env::var("T2D_VERIF_HOME").unwrap_or_else(|_| "/verif".into());
    let python = std::env::var("PYO3_PYTHON").unwrap_or_else(|_| "python3".into());
    let mut c = Command::new(python);
    c.arg("-I").arg("-B")
        .arg(format!("{home}/py/server.py"))
        .arg(format!("{home}/target-py/checked/libtexture2ddecoder_rs.so"))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = c.spawn().map_err(|e| e.to_string())?;
    let inp = child.stdin.take().unwrap();
    let out = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
    Ok(Server { child, inp, out })
}
impl Server {
    fn ask(&mut self, q: &Value, data: &[u8]) -> Result<(Value, Vec<u8>), String> {
        let mut m = q.to_string().into_bytes();
        m.push(b'\n');
        m.extend_from_slice(data);
        self.inp.write_all(&m).and_then(|_| self.inp.flush()).map_err(|e| e.to_string())?;
        let mut line = String::new();
        match self.out.read_line(&mut line) {
            Ok(n) if n > 0 => {}
            _ => return Err("the interpreter ended".into()),
        }
        let v: Value = serde_json::from_str(&line).map_err(|e| format!("{e}: {line}"))?;
        let mut b = vec![0; v["n"].as_u64().unwrap_or(0) as usize];
        self.out.read_exact(&mut b).map_err(|e| e.to_string())?;
        Ok((v, b))
    }
}
thread_local! {
    static PY: RefCell<Option<Server>> = const { RefCell::new(None) };
}
/// Err: the interpreter died.
fn ask(q: &Value, data: &[u8]) -> Result<(Value, Vec<u8>), String> {
    PY.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            *p = Some(start().expect("HARNESS: python starts"));
        }
        let r = p.as_mut().unwrap().ask(q, data);
        if let Err(e) = &r {
            let how = p.as_mut().unwrap().child.wait().map(|s| s.to_string()).unwrap_or_default();
            *p = None;
            return Err(format!("{e} ({how})"));
        }
        r
    })
}
/// Does the module load and answer at all?
pub fn preflight() -> Result<(), String> {
    start()?.ask(&json!({"op": "names", "n": 0}), &[]).map(|_| ())
}

/// The Python function of a call, and its trailing arguments.
fn python(op: &Op) -> Option<(String, Vec<usize>)> {
    Some(match op.what {
        What::Image(Dec::F(f)) if !f.name.contains('(') => (f.name.to_string(), vec![]),
        What::Image(Dec::Astc(a, b)) => ("decode_astc".into(), vec![a, b]),
        What::Image(Dec::Pvrtc { two, .. }) => (if two { "decode_pvrtc_2bpp" } else { "decode_pvrtc_4bpp" }.into(), vec![]),
        What::Crunch(true) => ("decode_unity_crunch".into(), vec![]),
        What::Crunch(false) => ("decode_crunch".into(), vec![]),
        _ => return None,
    })
}
const PARAMS: [&str; 5] = ["data", "width", "height", "block_width", "block_height"];

/// Ask for it; compare with the Rust decoder into a buffer of the right size.
fn compare(s: &mut Src, o: &mut Obs, op: &Op) -> Check {
    let Some((f, extra)) = python(op) else { return Ok(()) };
    let mut specs: Vec<String> = vec![if s.chance(1, 12) { "dsub:" } else { "d:" }.into()];
    for v in [op.w, op.h].iter().chain(&extra) {
        specs.push(format!("{}:{v}", if s.chance(1, 12) { "x" } else { "i" }));
    }
    let by_name = match s.below(4) {
        0 => s.usize(0, specs.len()),
        _ => specs.len(),
    };
    let kw: serde_json::Map<String, Value> =
        specs.iter().enumerate().skip(by_name).map(|(i, x)| (PARAMS[i].to_string(), json!(x))).collect();
    let threads = if s.chance(1, 40) { 3 } else { 1 };
    let q = json!({"op": "call", "f": f, "args": specs[..by_name], "kw": kw, "n": op.data.len(), "threads": threads});
    let detail = || json!({"function": f, "arguments": q, "data": hex(&op.data[..op.data.len().min(4000)])});
    let exact = Op { len: op.w * op.h, ..op.clone() };
    let (r, img) = exact.here(0);
    if r == 2 {
        return Ok(()); // a panic in the decoder itself is C14's or C15's business
    }
    o.calls += 2;
    o.label(op.label());
    let (a, bytes) = match ask(&q, &op.data) {
        Ok(x) => x,
        Err(e) => return fail(format!("{f} {}x{}: {e}", op.w, op.h), detail()),
    };
    if let Some(c) = a["changed"].as_str() {
        return fail(format!("{f} {}x{}: {c}", op.w, op.h), detail());
    }
    let raised = a["raised"].as_array();
    match (r, raised) {
        (0, None) => {
            o.label("image");
            if a["type"] != "bytes" {
                return fail(format!("{f} returns {}", a["type"]), detail());
            }
            let want: Vec<u8> = img.iter().flat_map(|p| [*p as u8, (*p >> 8) as u8, (*p >> 16) as u8, (*p >> 24) as u8]).collect();
            if bytes.len() != want.len() {
                return fail(format!("{f} {}x{} returns {} bytes, not {}", op.w, op.h, bytes.len(), want.len()), detail());
            }
            if let Some(i) = (0..want.len()).find(|&i| bytes[i] != want[i]) {
                return fail(
                    format!("{f} {}x{}: byte {} of pixel {} is {:02x}, Rust decodes {:02x}", op.w, op.h, i % 4, i / 4, bytes[i], want[i]),
                    detail(),
                );
            }
        }
        (0, Some(c)) => return fail(format!("{f} {}x{} raises {} ({}), Rust decodes it", op.w, op.h, c[0], a["message"]), detail()),
        (_, None) => return fail(format!("{f} {}x{} returns {}, Rust reports an error", op.w, op.h, a["type"]), detail()),
        (_, Some(c)) => {
            o.label("ValueError");
            if !c.iter().any(|x| x == "ValueError") {
                return fail(format!("{f} {}x{} raises {} ({}), not ValueError", op.w, op.h, c[0], a["message"]), detail());
            }
        }
    }
    o.nontrivial(op.key());
    o.sample(|| json!({"call": f, "width": op.w, "height": op.h, "data_bytes": op.data.len(), "keywords": specs.len() - by_name}));
    Ok(())
}

fn calls(s: &mut Src, o: &mut Obs) -> Check {
    let mut x = Obs::default();
    let op = gen_op(s, &mut x, true);
    let op = match op.what {
        // a block: as an image of one
        What::Block(d) => Op { what: What::Image(d), ..op },
        _ => op,
    };
    // an empty image
    let op = match s.below(40) {
        39 => Op { w: 0, ..op },
        38 => Op { h: 0, ..op },
        _ => op,
    };
    if op.w * op.h == 0 {
        o.label("empty image");
    }
    compare(s, o, &op)
}
/// Every function in turn, each at a handful of sizes.
fn functions(s: &mut Src, o: &mut Obs) -> Check {
    let k = s.enumerated(36 * 4) as usize;
    let d = match k % 36 {
        i if i < 33 => Dec::F(&FORMATS[i]),
        33 => {
            let (a, b) = any_footprint(s);
            Dec::Astc(a, b)
        }
        i => Dec::Pvrtc { two: i == 34, by_param: false },
    };
    let (bw, bh, bytes) = d.dims();
    let (w, h) = match k / 36 {
        0 => (bw, bh),
        1 => (2 * bw, bh),
        2 => (4 * bw - 1, 2 * bh - 1),
        _ => (bw - 1, 4 * bh - 1),
    };
    let data = if d.is_pvrtc() && s.bool() {
        let mut v = vec![];
        for _ in 0..w.div_ceil(bw) * h.div_ceil(bh) {
            v.extend_from_slice(&pvrtc::gen_block(s, &mut Obs::default(), k % 36 == 34));
        }
        v
    } else {
        image_data(s, &d, d.need(w, h) as usize / bytes)
    };
    let op = Op { what: What::Image(d), data, w, h, len: w * h };
    compare(s, o, &op)
}

/// Images of hundreds of pixels a side, and strips past 65536.
fn larger(s: &mut Src, o: &mut Obs) -> Check {
    let k = s.below(36) as usize;
    let d = match k {
        i if i < 33 => Dec::F(&FORMATS[i]),
        33 => {
            let (a, b) = any_footprint(s);
            Dec::Astc(a, b)
        }
        i => Dec::Pvrtc { two: i == 34, by_param: false },
    };
    let (bw, bh, bytes) = d.dims();
    let (w, h) = match (d.is_pvrtc(), s.below(4)) {
        (false, 0) => (s.usize(60_000, 140_000), s.usize(1, 5)),
        (false, 1) => (s.usize(1, 5), s.usize(60_000, 140_000)),
        (false, _) => (s.usize(50, 500), s.usize(50, 500)),
        (true, 0) => (bw << 15, bh),
        (true, 1) => (bw, bh << 15),
        (true, _) => (bw << s.below(7), bh << s.below(7)),
    };
    let mut data = image_data(s, &d, w.div_ceil(bw) * h.div_ceil(bh));
    match s.below(8) {
        0 => {
            let n = s.usize(1, bytes);
            data.truncate(data.len() - n);
        }
        1 => {
            let n = s.usize(1, 100);
            data.extend(s.bytes(n));
        }
        _ => {}
    }
    let op = Op { what: What::Image(d), data, w, h, len: w * h };
    compare(s, o, &op)
}

/// decode_astc with any block size, usable or not.
fn block_sizes(s: &mut Src, o: &mut Obs) -> Check {
    let (a, b) = odd_footprint(s);
    let (w, h) = (s.usize(0, 24), s.usize(0, 24));
    let data = s.bytes(16 * 144);
    let ok = a >= 2 && b >= 2 && a as u128 * b as u128 <= 144;
    o.label(if ok { "usable block size" } else { "unusable block size" });
    compare(s, o, &Op { what: What::Image(Dec::Astc(a, b)), data, w, h, len: w * h })
}

/// Arguments that are no image sizes or no bytes.
fn arguments(s: &mut Src, o: &mut Obs) -> Check {
    let name = match s.below(37) {
        k if k < 33 => FORMATS[k as usize].name,
        33 => "decode_astc",
        34 => "decode_pvrtc_2bpp",
        35 => "decode_pvrtc_4bpp",
        _ => s.pick(&["decode_crunch", "decode_unity_crunch"]),
    };
    let n = s.usize(0, 64);
    let data = s.bytes(n);
    // what: must raise; odd: must not return anything but a right-sized image
    let mut must: Option<&'static str> = None;
    let mut specs: Vec<String> = vec!["d:".into(), format!("i:{}", s.usize(0, 40)), format!("i:{}", s.usize(0, 40))];
    if name == "decode_astc" {
        specs.push(format!("i:{}", s.usize(0, 13)));
        specs.push(format!("i:{}", s.usize(0, 13)));
    }
    let big = |s: &mut Src| -> i128 {
        match s.below(7) {
            0 => -1 - s.below(5) as i128,
            1 => -(1i128 << s.below(70)),
            2 => (1i128 << 64) + s.below(3) as i128,
            3 => (1i128 << s.usize(40, 63)) - s.below(3) as i128,
            4 => (1i128 << s.usize(31, 63)) + s.below(3) as i128,
            5 => (1i128 << 64) - 1 - s.below(5) as i128,
            _ => (1i128 << s.usize(64, 100)) - s.below(3) as i128,
        }
    };
    match s.below(6) {
        0 => {
            specs[0] = s.pick(&["darray:", "dview:", "dstr:", "dlist:", "n:", "i:3"]).into();
            o.label("data of another type");
        }
        1 => {
            let k = s.usize(1, specs.len() - 1);
            specs[k] = s.pick(&["f:4.0", "s:4", "n:", "f:nan", "d:"]).into();
            o.label("size of another type");
            must = Some("TypeError");
        }
        2 => {
            let k = s.usize(1, specs.len() - 1);
            let v = big(s);
            specs[k] = format!("i:{v}");
            o.label("one extreme size");
            if !(0..1i128 << 64).contains(&v) {
                must = Some("Exception");
            }
        }
        3 => {
            specs[1] = format!("i:{}", big(s));
            specs[2] = format!("i:{}", big(s));
            o.label("two extreme sizes");
            must = Some("Exception");
        }
        4 => {
            let k = s.usize(0, specs.len() - 1);
            specs.truncate(k);
            o.label("arguments missing");
            must = Some("TypeError");
        }
        _ => {
            specs.push("i:4".into());
            o.label("one argument too many");
            must = Some("TypeError");
        }
    }
    let q = json!({"op": "call", "f": name, "args": specs, "kw": {}, "n": data.len(), "threads": 1});
    o.nontrivial(hash_bytes(hash_str(&specs.join(",")), name.as_bytes()));
    o.calls += 1;
    let det = || json!({"arguments": q, "data": hex(&data)});
    let (a, bytes) = match ask(&q, &data) {
        Ok(x) => x,
        Err(e) => return fail(format!("{name}({}): {e}", specs.join(", ")), det()),
    };
    if let Some(c) = a["changed"].as_str() {
        return fail(format!("{name}({}): {c}", specs.join(", ")), det());
    }
    match a["raised"].as_array() {
        Some(c) => {
            if !c.iter().any(|x| x == must.unwrap_or("Exception")) {
                return fail(format!("{name}({}) raises {} ({})", specs.join(", "), c[0], a["message"]), det());
            }
        }
        None => {
            if must.is_some() {
                return fail(format!("{name}({}) returns {} bytes of {}", specs.join(", "), bytes.len(), a["type"]), det());
            }
            let dim = |i: usize| specs[i].strip_prefix("i:").and_then(|v| v.parse::<u128>().ok()).unwrap_or(0);
            if a["type"] != "bytes" || bytes.len() as u128 != dim(1).saturating_mul(dim(2)).saturating_mul(4) {
                return fail(format!("{name}({}) returns {} bytes of {}", specs.join(", "), bytes.len(), a["type"]), det());
            }
        }
    }
    o.sample(|| json!({"call": format!("{name}({})", specs.join(", ")), "raised": a["raised"][0]}));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        relations: vec![
            Relation { name: "every function", rule: "each of the 36 block-format functions at four sizes in turn, generated data; result bytes against the Rust decoder's words", quick: 144 * 400, thorough: 144 * 10_000, exhaustive: Some(144), f: functions },
            Relation { name: "calls", rule: "any function, any small size, data exact, short, in surplus or damaged, arguments by position or keyword, repeated in one interpreter, sometimes from three threads, sometimes for an empty image; image or ValueError as the Rust decoder says, arguments and earlier results unchanged", quick: 1_000_000, thorough: 30_000_000, exhaustive: None, f: calls },
            Relation { name: "larger images", rule: "the block-format functions on images of 50 to 500 pixels a side and on strips of up to 140000 pixels", quick: 3_000, thorough: 120_000, exhaustive: None, f: larger },
            Relation { name: "block sizes", rule: "decode_astc with block sizes zero, one, large, huge, usable, or usable but for their high bits", quick: 60_000, thorough: 2_000_000, exhaustive: None, f: block_sizes },
            Relation { name: "arguments", rule: "a call with an argument of a wrong type, a negative, overflowing or unaffordable size, or a wrong number of arguments; an ordinary exception, the interpreter lives", quick: 400_000, thorough: 10_000_000, exhaustive: None, f: arguments },
        ],
        assumptions: vec!["the module is built from /repo/bindings/python/src/lib.rs with overflow checks and debug assertions", "the interpreter may use 3 GB"],
    }]
}
