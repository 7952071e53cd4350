//! C18, C19: the same answer however it is asked for, and in every build.
//!
//! The other builds are shared objects of `shim/`, opened at run time.
use super::formats::*;
use super::image::*;
use super::{crunch, pvrtc};
use crate::engine::*;
use crate::refs::crn;
use serde_json::{json, Value};
use std::ffi::CString;
use std::os::unix::process::CommandExt;
use std::sync::OnceLock;

type CallFn = unsafe extern "C" fn(u32, u32, usize, usize, *const u8, usize, usize, usize, *mut u32, usize) -> i32;

pub struct Build {
    pub name: &'static str,
    call: CallFn,
}
fn open(dir: &str, name: &'static str, want_alloc: u32) -> Build {
    let home = std::env::var("T2D_VERIF_HOME").unwrap_or_else(|_| "/verif".into());
    let path = format!("{home}/target-shim/{dir}/libt2d_shim.so");
    let c = CString::new(path.clone()).unwrap();
    unsafe {
        let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        assert!(!h.is_null(), "HARNESS: cannot open {path}");
        let f = libc::dlsym(h, c"t2d_shim_call".as_ptr());
        let i = libc::dlsym(h, c"t2d_shim_init".as_ptr());
        assert!(!f.is_null() && !i.is_null(), "HARNESS: {path} lacks its entry points");
        let init: extern "C" fn() -> u32 = std::mem::transmute(i);
        assert_eq!(init(), want_alloc, "HARNESS: {path} is another build");
        Build { name, call: std::mem::transmute::<*mut libc::c_void, CallFn>(f) }
    }
}
pub fn release() -> &'static Build {
    static B: OnceLock<Build> = OnceLock::new();
    B.get_or_init(|| open("al/release", "the release build", 1))
}
pub fn unoptimised() -> &'static Build {
    static B: OnceLock<Build> = OnceLock::new();
    B.get_or_init(|| open("dev/debug", "the unoptimised build", 1))
}
pub fn no_alloc() -> &'static Build {
    static B: OnceLock<Build> = OnceLock::new();
    B.get_or_init(|| open("na/release", "the build without alloc", 0))
}

/// What a call does: an image decoder, a block decoder, or Crunch.
#[derive(Clone)]
pub struct Op {
    pub what: What,
    pub data: Vec<u8>,
    pub w: usize,
    pub h: usize,
    pub len: usize,
}
#[derive(Clone, Copy)]
pub enum What {
    Image(Dec),
    Block(Dec),
    Crunch(bool),
}
impl Op {
    pub fn name(&self) -> String {
        match self.what {
            What::Image(d) => d.name(),
            What::Block(d) => format!("block decoder of {}", d.name()),
            What::Crunch(true) => "decode_unity_crunch".into(),
            What::Crunch(false) => "decode_crunch".into(),
        }
    }
    pub fn code(&self) -> (u32, u32, usize, usize) {
        let dec = |d: Dec, b: u32| match d {
            Dec::F(f) => {
                let k = FORMATS.iter().position(|x| x.name == f.name).unwrap() as u32;
                (k, b, f.bw, f.bh)
            }
            Dec::Astc(x, y) => (40, b, x, y),
            Dec::Pvrtc { two, by_param } => (if by_param { 50 } else { 52 } + !two as u32, b, 0, 0),
        };
        match self.what {
            What::Image(d) => dec(d, 0),
            What::Block(d) => dec(d, 1),
            What::Crunch(u) => (60 + u as u32, 0, 0, 0),
        }
    }
    /// (0 decoded, 1 error, 2 panic), image
    pub fn here(&self, init: u32) -> (i32, Vec<u32>) {
        let mut img = vec![init; self.len];
        (self.here_into(&self.data, &mut img), img)
    }
    pub fn here_into(&self, data: &[u8], img: &mut [u32]) -> i32 {
        let r = guarded(|| match self.what {
            What::Image(d) => d.run(data, self.w, self.h, img).is_ok(),
            What::Block(d) => {
                d.block(data, img);
                true
            }
            What::Crunch(u) => crunch::decode(u, data, self.w, self.h, img).is_ok(),
        });
        match r {
            Ok(true) => 0,
            Ok(false) => 1,
            Err(_) => 2,
        }
    }
    pub fn there(&self, b: &Build, init: u32) -> (i32, Vec<u32>) {
        let mut img = vec![init; self.len];
        let (op, blk, x, y) = self.code();
        let r = unsafe {
            (b.call)(op, blk, x, y, self.data.as_ptr(), self.data.len(), self.w, self.h, img.as_mut_ptr(), img.len())
        };
        (r, img)
    }
    pub fn json(&self) -> Value {
        json!({"function": self.name(), "width": self.w, "height": self.h, "image_len": self.len,
               "data": hex(&self.data[..self.data.len().min(4000)])})
    }
    pub fn key(&self) -> u64 {
        let (a, b, c, d) = self.code();
        hash_bytes(hash64(&[a as u64, b as u64, c as u64, d as u64, self.w as u64, self.h as u64, self.len as u64]), &self.data)
    }
    pub fn label(&self) -> &'static str {
        match self.what {
            What::Image(d) | What::Block(d) => dec_label(&d),
            What::Crunch(true) => "unity crunch",
            What::Crunch(false) => "crunch",
        }
    }
}

/// Any call; `crunch_too`: also Crunch files, intact and damaged.
pub fn gen_op(s: &mut Src, o: &mut Obs, crunch_too: bool) -> Op {
    gen_op_within(s, o, crunch_too, 48, 20)
}
pub fn gen_op_within(s: &mut Src, o: &mut Obs, crunch_too: bool, side: usize, crunch_side: usize) -> Op {
    let k = s.below(if crunch_too { 20 } else { 16 });
    if k >= 16 {
        let unity = s.bool();
        let sh = crunch::gen_shape(s, unity, crunch_side, 8);
        let f = crn::build(s, &sh);
        let mut data = f.data.clone();
        if k >= 18 {
            crunch::mutate(s, &mut data, &f, o);
        }
        return Op { what: What::Crunch(unity), data, w: sh.w, h: sh.h, len: sh.w * sh.h };
    }
    if k < 8 {
        let d = any_dec(s, false);
        let (bw, bh, _) = d.dims();
        let data = image_data(s, &d, 1);
        return Op { what: What::Block(d), data, w: bw, h: bh, len: bw * bh };
    }
    let d = any_dec(s, true);
    let (w, h) = any_size(s, &d);
    let (w, h) = (w.min(side), h.min(side));
    let (_, _, bytes) = d.dims();
    let mut data = image_data(s, &d, d.need(w, h) as usize / bytes);
    let mut len = w * h;
    match s.below(10) {
        0 => {
            let n = s.usize(0, data.len());
            data.truncate(n);
        }
        1 => len = s.usize(0, len),
        2 => len += s.usize(1, 20),
        3 => {
            let n = s.usize(1, 20);
            data.extend(s.bytes(n));
        }
        _ => {}
    }
    Op { what: What::Image(d), data, w, h, len }
}

/// Decoders that write only some channels keep the others: start them alike.
fn keeps(op: &Op) -> bool {
    matches!(op.what, What::Block(Dec::F(f)) if f.class == Class::Partial)
}

/// Sizes up to the largest integer, with buffers that hold little or nothing.
fn huge_sizes(s: &mut Src, o: &mut Obs, b: &'static Build) -> Check {
    match huge_op(s) {
        Some(op) => compare(o, op, b),
        None => Ok(()),
    }
}
fn huge_op(s: &mut Src) -> Option<Op> {
    let d = any_dec(s, true);
    let (w, h) = match s.below(6) {
        0 => (0, huge_side(s)),
        1 => (huge_side(s), 0),
        _ => (huge_side(s), huge_side(s)),
    };
    let n = s.usize(0, 200);
    let len = s.usize(0, 64);
    if w != 0 && h != 0 && d.need(w, h) <= n as u128 && w as u128 * h as u128 <= len as u128 {
        return None; // not huge
    }
    let data = s.bytes(n);
    Some(Op { what: What::Image(d), data, w, h, len })
}
/// C14: every call of the unoptimised build returns.
pub fn total_unoptimised(s: &mut Src, o: &mut Obs) -> Check {
    let op = match s.below(3) {
        0 => match huge_op(s) {
            Some(op) => op,
            None => return Ok(()),
        },
        1 => gen_op(s, o, false),
        _ => {
            let d = any_dec(s, false);
            let (bw, bh, bytes) = d.dims();
            Op { what: What::Block(d), data: s.bytes(bytes), w: 0, h: 0, len: bw * bh }
        }
    };
    o.label(op.label());
    o.nontrivial(op.key());
    o.calls += 1;
    let (r, _) = op.there(unoptimised(), 0x0102_0304);
    o.label(["decoded", "rejected", "panicked", "missing"][r.clamp(0, 3) as usize]);
    if r > 1 {
        return fail(format!("{} {}x{} panics in the unoptimised build", op.name(), op.w, op.h), op.json());
    }
    o.sample(|| json!({"function": op.name(), "width": op.w, "height": op.h}));
    Ok(())
}
fn against(s: &mut Src, o: &mut Obs, b: &'static Build, crunch_too: bool) -> Check {
    let op = gen_op(s, o, crunch_too);
    compare(o, op, b)
}
fn compare(o: &mut Obs, op: Op, b: &'static Build) -> Check {
    o.label(op.label());
    o.nontrivial(op.key());
    let (r1, i1) = op.here(0x0102_0304);
    let (r2, i2) = op.there(b, 0x0102_0304);
    o.calls += 2;
    o.label(match r1 {
        0 => "decoded",
        1 => "rejected",
        _ => "panicked",
    });
    if r1 != r2 || i1 != i2 {
        let say = |r: i32| ["decodes", "is rejected", "panics", "is missing"][r.clamp(0, 3) as usize];
        let at = i1.iter().zip(&i2).position(|(a, b)| a != b);
        return fail(
            format!(
                "{} {}x{}: {} in the checked build and {} in {}; first differing pixel {:?}: {:x?}",
                op.name(), op.w, op.h, say(r1), say(r2), b.name, at,
                at.map(|i| (i1[i], i2[i]))
            ),
            op.json(),
        );
    }
    o.sample(|| json!({"function": op.name(), "width": op.w, "height": op.h, "build": b.name}));
    Ok(())
}

/// A history of calls on one thread, sharing one image buffer and reusing
/// earlier inputs; every call must answer as it does alone.
fn histories(s: &mut Src, o: &mut Obs) -> Check {
    let n = s.usize(2, 8);
    let mut ops: Vec<Op> = vec![];
    let mut key = 0;
    let mut shared: Vec<u32> = vec![0x7777_7777; 4096];
    let mut trace: Vec<Value> = vec![];
    for step in 0..n {
        let op = if !ops.is_empty() && s.chance(1, 3) {
            let k = s.below(ops.len() as u64) as usize;
            ops[k].clone()
        } else {
            gen_op(s, o, true)
        };
        let off = s.usize(0, 3);
        let mis = s.usize(0, 7);
        if op.len + off > shared.len() {
            shared.resize(op.len + off, 0x7777_7777);
        }
        // the data at another alignment
        let mut data = vec![0xeeu8; mis];
        data.extend_from_slice(&op.data);
        let before = shared[off..off + op.len].to_vec();
        if keeps(&op) {
            shared[off..off + op.len].fill(OPAQUE_BLACK);
        }
        let (r0, i0) = op.here(OPAQUE_BLACK);
        let r = op.here_into(&data[mis..], &mut shared[off..off + op.len]);
        o.calls += 2;
        key = hash64(&[key, op.key()]);
        trace.push(op.json());
        let got = &shared[off..off + op.len];
        let px = if matches!(op.what, What::Block(_)) { op.len } else { op.w * op.h };
        let bad = match (r0, r) {
            (a, b) if a != b => Some(format!("answers {b} after this history and {a} alone")),
            (0, _) => (0..op.len)
                .find(|&i| if i < px { got[i] != i0[i] } else { got[i] != before[i] })
                .map(|i| format!("pixel {i} is {:08x} after this history and {:08x} alone", got[i], i0[i])),
            (1, _) => (0..op.len).find(|&i| got[i] != before[i]).map(|i| format!("rejected, but pixel {i} was written")),
            _ => None,
        };
        if let Some(b) = bad {
            return fail(format!("call {step}, {} {}x{}: {b}", op.name(), op.w, op.h), json!({"calls": trace}));
        }
        ops.push(op);
    }
    o.label(if ops.len() > 4 { "5 to 8 calls" } else { "2 to 4 calls" });
    o.nontrivial(key);
    o.sample(|| json!(ops.iter().map(|x| format!("{} {}x{}", x.name(), x.w, x.h)).collect::<Vec<_>>()));
    Ok(())
}

/// Several threads decode the same and different inputs at the same time.
fn threads(s: &mut Src, o: &mut Obs) -> Check {
    let ops: Vec<Op> = (0..3).map(|_| gen_op(s, o, true)).collect();
    let alone: Vec<(i32, Vec<u32>)> = ops.iter().map(|x| x.here(OPAQUE_BLACK)).collect();
    let turns: Vec<Vec<usize>> = (0..3).map(|_| (0..6).map(|_| s.below(3) as usize).collect()).collect();
    o.nontrivial(hash64(&ops.iter().map(|x| x.key()).collect::<Vec<_>>()));
    let bad = std::thread::scope(|sc| {
        let hs: Vec<_> = turns
            .iter()
            .map(|t| {
                let (ops, alone) = (&ops, &alone);
                sc.spawn(move || t.iter().find(|&&k| ops[k].here(OPAQUE_BLACK) != alone[k]).copied())
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap()).next()
    });
    o.calls += 21;
    match bad {
        Some(k) => fail(format!("{} answers differently while other threads decode", ops[k].name()), ops[k].json()),
        None => Ok(()),
    }
}

/// The first calls of a process: every decoder in some order, for each one
/// input per thread.
fn first_ops(seed: u64) -> Vec<[Op; 2]> {
    let mut s = Src::generate(seed, hash_str("first use"), 0);
    let mut kinds: Vec<u64> = (0..40).collect();
    for i in (1..kinds.len()).rev() {
        kinds.swap(i, s.usize(0, i));
    }
    kinds.truncate(s.usize(3, 40));
    kinds
        .into_iter()
        .map(|k| {
            let block = k < 36 && s.bool();
            let d = match k {
                0..=34 => Some(Dec::F(&FORMATS[k as usize])),
                35 => Some(Dec::Astc(s.usize(2, 9), s.usize(2, 9))),
                36 | 37 => Some(Dec::Pvrtc { two: k == 36, by_param: false }),
                _ => None,
            };
            [0, 1].map(|_| match d {
                None => {
                    let unity = k == 38;
                    let sh = crunch::gen_shape(&mut s, unity, 12, 8);
                    let data = crn::build(&mut s, &sh).data;
                    Op { what: What::Crunch(unity), data, w: sh.w, h: sh.h, len: sh.w * sh.h }
                }
                Some(d) => {
                    let (bw, bh, bytes) = d.dims();
                    let (x, y) = if block { (1, 1) } else { (1 << s.below(3), 1 << s.below(2)) };
                    let data = match s.below(3) {
                        0 => s.bytes(x * y * bytes),
                        _ => image_data(&mut s, &d, x * y),
                    };
                    let what = if block { What::Block(d) } else { What::Image(d) };
                    Op { what, data, w: x * bw, h: y * bh, len: x * bw * y * bh }
                }
            })
        })
        .collect()
}
fn digest(op: &Op) -> u64 {
    let (r, img) = op.here(OPAQUE_BLACK);
    let words: Vec<u64> = img.iter().map(|&x| x as u64).collect();
    hash64(&[r as u64, hash64(&words)])
}
const FIRST_THREADS: usize = 4;
/// `check --first SEED`, in a fresh process: four threads make its first
/// calls at the same moment; prints a digest per call and thread.
pub fn first_child(seed: u64) {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    let ops = first_ops(seed);
    let arrived = AtomicUsize::new(0);
    let all: Vec<Vec<u64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..FIRST_THREADS)
            .map(|t| {
                let (ops, arrived) = (&ops, &arrived);
                sc.spawn(move || {
                    ops.iter()
                        .enumerate()
                        .map(|(i, pair)| {
                            arrived.fetch_add(1, SeqCst);
                            let mut spins = 0u32;
                            while arrived.load(SeqCst) < (i + 1) * FIRST_THREADS {
                                spins += 1;
                                if spins > 20_000 {
                                    std::thread::yield_now();
                                } else {
                                    std::hint::spin_loop();
                                }
                            }
                            digest(&pair[t % 2])
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for i in 0..ops.len() {
        println!("{}", all.iter().map(|v| format!("{:x}", v[i])).collect::<Vec<_>>().join(" "));
    }
}
/// How often a case is tried: more once it is known to fail.
pub static FIRST_TRIES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
/// A fresh process whose threads start with the same calls, against this
/// process, which has made many.
fn first_use(s: &mut Src, o: &mut Obs) -> Check {
    use std::sync::atomic::Ordering::SeqCst;
    static TURN: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let seed = s.bits(40);
    let ops = first_ops(seed);
    let want: Vec<[u64; 2]> = ops.iter().map(|p| [digest(&p[0]), digest(&p[1])]).collect();
    o.nontrivial(hash64(&[seed]));
    o.label("fresh processes");
    o.calls += (ops.len() * (2 + FIRST_THREADS)) as u64;
    for _ in 0..FIRST_TRIES.load(SeqCst) {
        let out = {
            let _turn = TURN.lock().unwrap_or_else(|e| e.into_inner());
            let mut c = std::process::Command::new(std::env::current_exe().expect("HARNESS: own path"));
            c.args(["--first", &seed.to_string()]).stderr(std::process::Stdio::null());
            unsafe {
                c.pre_exec(|| {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    Ok(())
                });
            }
            c.output()
                .expect("HARNESS: a fresh process starts")
        };
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let lines: Vec<&str> = text.lines().collect();
        if !out.status.success() || lines.len() != ops.len() {
            // a panic is an answer like another; an abort is not
            FIRST_TRIES.fetch_max(8, SeqCst);
            return fail(format!("a fresh process ends after {} of {} calls: {}", lines.len(), ops.len(), out.status), json!({"seed": seed}));
        }
        for (i, l) in lines.iter().enumerate() {
            for (t, d) in l.split(' ').enumerate() {
                if d != format!("{:x}", want[i][t % 2]) {
                    FIRST_TRIES.fetch_max(8, SeqCst);
                    let op = &ops[i][t % 2];
                    return fail(
                        format!("{} {}x{} answers differently as call {i} of a fresh process of {FIRST_THREADS} threads", op.name(), op.w, op.h),
                        op.json(),
                    );
                }
            }
        }
    }
    o.sample(|| json!(ops.iter().map(|p| p[0].name()).collect::<Vec<_>>()));
    Ok(())
}

/// The two ways to ask for the same format.
fn names(s: &mut Src, o: &mut Obs) -> Check {
    let (a, b) = match s.below(20) {
        k if k < 14 => {
            let f = &FORMATS[19 + k as usize];
            (Dec::F(f), Dec::Astc(f.bw, f.bh))
        }
        k if k < 16 => (Dec::F(fmt("decode_bc6_signed")), Dec::F(fmt("decode_bc6(signed)"))),
        k if k < 18 => (Dec::F(fmt("decode_bc6_unsigned")), Dec::F(fmt("decode_bc6(unsigned)"))),
        k => (Dec::Pvrtc { two: k == 18, by_param: false }, Dec::Pvrtc { two: k == 18, by_param: true }),
    };
    let (w, h) = any_size(s, &a);
    let (w, h) = (w.min(60), h.min(60));
    let (_, _, bytes) = a.dims();
    let mut data = image_data(s, &a, a.need(w, h) as usize / bytes);
    let mut len = w * h;
    if s.chance(1, 6) {
        let n = s.usize(0, data.len());
        data.truncate(n);
    }
    if s.chance(1, 6) {
        len = s.usize(0, len);
    }
    let x = Op { what: What::Image(a), data, w, h, len };
    let y = Op { what: What::Image(b), ..x.clone() };
    o.label(dec_label(&a));
    o.nontrivial(x.key());
    o.calls += 2;
    let (p, q) = (x.here(1), y.here(1));
    if p != q {
        let i = p.1.iter().zip(&q.1).position(|(a, b)| a != b);
        return fail(format!("{} and {} differ ({} and {}; first pixel {i:?})", a.name(), b.name(), p.0, q.0), x.json());
    }
    if !a.is_pvrtc() && x.len > 0 {
        // and their block decoders
        let d = image_data(s, &a, 1);
        let (bw, bh, _) = a.dims();
        let (mut u, mut v) = (vec![3u32; bw * bh], vec![3u32; bw * bh]);
        let r = guarded(|| {
            a.block(&d, &mut u);
            b.block(&d, &mut v);
        });
        if r.is_err() || u != v {
            return fail(format!("the block decoders of {} and {} differ", a.name(), b.name()), json!({"block": hex(&d)}));
        }
    }
    Ok(())
}

/// Images large enough for an optimised build to take its wide paths.
fn large(s: &mut Src, o: &mut Obs, b: &'static Build) -> Check {
    let d = any_dec(s, true);
    let (w, h) = if d.is_pvrtc() {
        let (bw, bh, _) = d.dims();
        if s.chance(1, 30) {
            let total = s.range(11, 16) as u32;
            let lx = s.below(total as u64 + 1) as u32;
            (bw << lx, bh << (total - lx))
        } else {
            (bw << s.below(6), bh << s.below(6))
        }
    } else if s.chance(1, 10) {
        let (a, b) = (s.usize(200, 70_000), s.usize(1, 6));
        if s.bool() { (a, b) } else { (b, a) }
    } else {
        (s.usize(1, 200), s.usize(1, 200))
    };
    let n = d.need(w, h) as usize;
    let seed = s.bits(62);
    let mut r = Rng::new(seed);
    let mut data = Vec::with_capacity(n + 8);
    while data.len() < n {
        data.extend_from_slice(&r.next().to_le_bytes());
    }
    data.truncate(n);
    let op = Op { what: What::Image(d), data, w, h, len: w * h };
    o.label(dec_label(&d));
    o.nontrivial(op.key());
    o.calls += 2;
    let (p, q) = (op.here(9), op.there(b, 9));
    if p != q {
        let i = p.1.iter().zip(&q.1).position(|(a, b)| a != b);
        return fail(format!("{} {w}x{h}: the checked build and {} differ ({} and {}; first pixel {i:?})", d.name(), b.name, p.0, q.0), json!({"function": d.name(), "width": w, "height": h, "data_seed": seed}));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let rule = "any image or block decoder or crunch file (intact or damaged), any small size, exact or wrong buffers; outcome and every word of the image against the other build; non-trivial: every call, distinct by its arguments";
    vec![
        Prop {
            id: "C18",
            relations: vec![
                Relation { name: "release build", rule, quick: 500_000, thorough: 20_000_000, exhaustive: None, f: |s, o| against(s, o, release(), true) },
                Relation { name: "unoptimised build", rule, quick: 120_000, thorough: 4_000_000, exhaustive: None, f: |s, o| against(s, o, unoptimised(), true) },
                Relation { name: "larger images", rule: "images of up to 200x200 (PVRTC: 32x32 blocks, some 2^16) and strips of up to 70000 pixels, of random bytes against the release build", quick: 6_000, thorough: 200_000, exhaustive: None, f: |s, o| large(s, o, release()) },
                Relation { name: "huge sizes", rule: "any image decoder with sides up to the largest integer, around powers of two and around overflow, or none, and small buffers; against the release and the unoptimised build; non-trivial: every call", quick: 300_000, thorough: 10_000_000, exhaustive: None, f: |s, o| if s.bool() { huge_sizes(s, o, release()) } else { huge_sizes(s, o, unoptimised()) } },
                Relation { name: "histories", rule: "2 to 8 calls on one thread into one image buffer, inputs repeated, data at any alignment; each call against the same call alone", quick: 150_000, thorough: 5_000_000, exhaustive: None, f: histories },
                Relation { name: "threads", rule: "three threads decode the same three inputs in different orders", quick: 8_000, thorough: 100_000, exhaustive: None, f: threads },
                Relation { name: "fresh processes", rule: "a fresh process whose four threads make its first calls at the same moment, up to 40 decoders in some order; each answer against this process, which has made many calls", quick: 1_200, thorough: 40_000, exhaustive: None, f: first_use },
                Relation { name: "by name and by parameter", rule: "the named ASTC, BC6H and PVRTC decoders against the ones that take the block size, signedness or bit rate", quick: 200_000, thorough: 6_000_000, exhaustive: None, f: names },
            ],
            assumptions: vec!["block decoders that write only some channels (BC4, BC5) are compared from the same former contents"],
        },
        Prop {
            id: "C19",
            relations: vec![
                Relation { name: "build without alloc", rule, quick: 1_500_000, thorough: 30_000_000, exhaustive: None, f: |s, o| against(s, o, no_alloc(), false) },
                Relation { name: "huge sizes without alloc", rule: "any image decoder with sides up to the largest integer, around powers of two and around overflow, or none, and small buffers", quick: 400_000, thorough: 10_000_000, exhaustive: None, f: |s, o| huge_sizes(s, o, no_alloc()) },
                Relation { name: "pvrtc without alloc", rule: "PVRTC images of 1..8 by 1..8 blocks of every mode, whole and cropped, through all four entry points", quick: 600_000, thorough: 10_000_000, exhaustive: None, f: pvrtc_no_alloc },
                Relation { name: "larger images without alloc", rule: "images of up to 200x200 (PVRTC: 32x32 blocks, some 2^16) and strips of up to 70000 pixels, of random bytes", quick: 6_000, thorough: 200_000, exhaustive: None, f: |s, o| large(s, o, no_alloc()) },
                super::hosts::without_alloc(),
            ],
            assumptions: vec![],
        },
    ]
}

fn pvrtc_no_alloc(s: &mut Src, o: &mut Obs) -> Check {
    let im = pvrtc::gen_image(s, o, 3);
    let d = Dec::Pvrtc { two: im.two, by_param: s.bool() };
    let op = Op { what: What::Image(d), w: im.w, h: im.h, len: im.w * im.h, data: im.data };
    o.nontrivial(op.key());
    o.calls += 2;
    let (p, q) = (op.here(9), op.there(no_alloc(), 9));
    if p != q {
        let i = p.1.iter().zip(&q.1).position(|(a, b)| a != b);
        return fail(format!("{} {}x{}: the builds with and without alloc differ ({} and {}; first pixel {i:?})", d.name(), op.w, op.h, p.0, q.0), op.json());
    }
    Ok(())
}
