//! C20: 32-bit and big-endian hosts. For the first the library is built for
//! WebAssembly and driven under node, call by call. For the second the calls
//! run in an interpreter (Miri, s390x), in batches. The native build of the
//! harness answers the same calls.
use super::builds::{gen_op_within, Op, What};
use super::crunch;
use super::image::*;
use crate::engine::*;
use crate::refs::crn;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::cell::RefCell;
use std::io::{BufReader, Read, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const TARGET: &str = "s390x-unknown-linux-gnu";
const BIG: &str = "a big-endian host";
const INIT: u32 = 0xdead_beef;
const STALL_SECS: u64 = 150;

fn gen(s: &mut Src, o: &mut Obs, small: bool) -> Op {
    let kind = s.below(20);
    gen_kind(s, o, small, kind)
}
fn gen_kind(s: &mut Src, o: &mut Obs, small: bool, kind: u64) -> Op {
    if kind == 19 {
        // sizes whose products pass 2^32; never enough data or room
        let d = any_dec(s, true);
        let side = |s: &mut Src| match s.below(4) {
            0 => (1usize << 32) - 1 - s.usize(0, 20),
            1 => (1usize << s.usize(14, 31)) + s.usize(0, 9),
            2 => (1usize << s.usize(14, 31)) - s.usize(1, 9),
            _ => s.usize(1, 40),
        };
        let (w, h) = (side(s).max(1), side(s).max(1));
        let n = s.usize(0, 40);
        let len = s.usize(0, 8);
        let (w, h) = if (w * h) <= 64 { (1 << 16, 1 << 16) } else { (w, h) };
        return Op { what: What::Image(d), data: s.bytes(n), w, h, len };
    }
    if kind < 17 {
        let side = if small { 14 } else { 48 };
        return gen_op_within(s, o, false, side, side);
    }
    let unity = kind == 18;
    let sh = crunch::gen_shape(s, unity, if small { 12 } else { 24 }, 6);
    let f = crn::build(s, &sh);
    let mut data = f.data.clone();
    if s.chance(1, 3) {
        crunch::mutate(s, &mut data, &f, o);
        // keep what the interpreter has to do small
        if small && data.len() >= 74 {
            for (at, most) in [(12usize, 40u16), (14, 40), (39, 60), (47, 60), (55, 60), (63, 60)] {
                let v = u16::from_be_bytes([data[at], data[at + 1]]);
                if v > most {
                    crn::put_be(&mut data, at, 2, (v % (most + 1)) as u64);
                }
            }
        }
    }
    Op { what: What::Crunch(unity), data, w: sh.w, h: sh.h, len: sh.w * sh.h }
}

fn encode(op: &Op, out: &mut Vec<u8>) {
    let (k, b, x, y) = op.code();
    for v in [k, b, x as u32, y as u32, op.w as u32, op.h as u32, op.len as u32, op.data.len() as u32] {
        out.extend_from_slice(&v.to_le_bytes());
    }
    out.extend_from_slice(&op.data);
}

/// How to start the port for a target, with no cases consumed yet.
fn command(target: &str) -> Command {
    let home = std::env::var("T2D_VERIF_HOME").unwrap_or_else(|_| "/verif".into());
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "-q", "--offline", "--locked", "--features", "alloc", "--bin", "t2d-port"])
        .args(["--target", target])
        .arg("--manifest-path")
        .arg(format!("{home}/shim/Cargo.toml"))
        .arg("--target-dir")
        .arg(format!("{home}/target-miri/{target}"))
        .env("MIRI_SYSROOT", format!("{home}/target-miri/sysroot-{target}"))
        .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .process_group(0);
    c
}

#[derive(Clone, PartialEq)]
pub enum Answer {
    Got(i32, Vec<u32>),
    /// the process ended or stopped in this case
    Died(String),
}

/// One process: answers to `ops` in order, up to the first that ends it.
fn shard(ops: &[&Op], target: &str) -> Vec<Answer> {
    let mut input = vec![];
    ops.iter().for_each(|o| encode(o, &mut input));
    if let Ok(f) = std::env::var("T2D_DUMP_CASES") {
        let _ = std::fs::write(f, &input);
    }
    let mut c = command(target).spawn().expect("HARNESS: cargo miri starts");
    let mut stdin = c.stdin.take().unwrap();
    let mut stdout = c.stdout.take().unwrap();
    let mut stderr = c.stderr.take().unwrap();
    let out = Mutex::new(Vec::<u8>::new());
    let mut why = String::new();
    let mut err = String::new();
    std::thread::scope(|sc| {
        sc.spawn(move || {
            let _ = stdin.write_all(&input);
        });
        let o = &out;
        let reader = sc.spawn(move || {
            let mut b = [0u8; 1 << 14];
            while let Ok(n) = stdout.read(&mut b) {
                if n == 0 {
                    break;
                }
                o.lock().unwrap().extend_from_slice(&b[..n]);
            }
        });
        let e = &mut err;
        let errors = sc.spawn(move || {
            let mut v = vec![];
            let _ = stderr.read_to_end(&mut v);
            *e = String::from_utf8_lossy(&v).into_owned();
        });
        let mut last = (0, Instant::now());
        loop {
            if let Ok(Some(s)) = c.try_wait() {
                why = format!("the process ended ({s})");
                break;
            }
            let n = out.lock().unwrap().len();
            if n != last.0 {
                last = (n, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(STALL_SECS) {
                unsafe { libc::kill(-(c.id() as i32), libc::SIGKILL) };
                let _ = c.wait();
                why = format!("no answer within {STALL_SECS} s");
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        let _ = reader.join();
        let _ = errors.join();
    });
    let out = out.into_inner().unwrap();
    let mut v = vec![];
    let mut at = 0;
    for op in ops {
        let n = 1 + 4 * op.len;
        if at + n > out.len() {
            let first = err.lines().find(|l| l.contains("error")).unwrap_or("");
            v.push(Answer::Died(format!("{why} {first}")));
            break;
        }
        let px = out[at + 1..at + n].chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        v.push(Answer::Got(out[at] as i32, px));
        at += n;
    }
    v
}

fn say(r: i32) -> &'static str {
    ["decodes", "is rejected", "panics", "is missing"][r.clamp(0, 3) as usize]
}
fn judge(op: &Op, a: &Answer, host: &str) -> Check {
    let (r, img) = op.here(INIT);
    match a {
        Answer::Died(w) => fail(format!("{} {}x{}: {} here; on {host}: {w}", op.name(), op.w, op.h, say(r)), op.json()),
        Answer::Got(r2, px) if *r2 != r || *px != img => {
            let at = img.iter().zip(px).position(|(a, b)| a != b);
            fail(
                format!(
                    "{} {}x{}: {} here and {} on {host}; first differing pixel {:?}: {:x?}",
                    op.name(), op.w, op.h, say(r), say(*r2), at, at.map(|i| (img[i], px[i]))
                ),
                op.json(),
            )
        }
        _ => Ok(()),
    }
}

/// Answers for many cases, `threads` processes at a time. A process that ends
/// early leaves the rest of its cases unanswered (None).
fn batch(ops: &[Op], target: &str, threads: usize) -> Vec<Option<Answer>> {
    let n = threads.min(ops.len()).max(1);
    let res = Mutex::new(vec![None; ops.len()]);
    std::thread::scope(|sc| {
        for t in 0..n {
            let res = &res;
            sc.spawn(move || {
                let idx: Vec<usize> = (t..ops.len()).step_by(n).collect();
                let mine: Vec<&Op> = idx.iter().map(|&i| &ops[i]).collect();
                let a = shard(&mine, target);
                let mut r = res.lock().unwrap();
                for (i, x) in idx.into_iter().zip(a) {
                    r[i] = Some(x);
                }
            });
        }
    });
    res.into_inner().unwrap()
}

fn smaller(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}
/// Shrinks by whole batches of candidates, since starting a process is slow.
fn shrink(mut best: Vec<u64>, mut f: Fail, target: &str, host: &str, threads: usize) -> (Vec<u64>, Fail) {
    let t0 = Instant::now();
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    for _ in 0..8 {
        if t0.elapsed() > Duration::from_secs(150) {
            break;
        }
        let mut cands: Vec<Vec<u64>> = vec![];
        let n = best.len();
        let mut size = (n / 2).max(1);
        loop {
            let mut i = 0;
            while i < n && cands.len() < 220 {
                let mut c = best.clone();
                c.drain(i..(i + size).min(n));
                cands.push(c);
                let mut c = best.clone();
                c[i..(i + size).min(n)].iter_mut().for_each(|x| *x = 0);
                cands.push(c);
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..n.min(60) {
            for v in [best[i] / 2, best[i].saturating_sub(1)] {
                let mut c = best.clone();
                c[i] = v;
                cands.push(c);
            }
        }
        let mut ops = vec![];
        let mut recs = vec![];
        for c in cands {
            let mut s = Src::replay(c);
            let op = gen(&mut s, &mut Obs::default(), true);
            if smaller(&s.rec, &best) && seen.insert(s.rec.clone()) {
                ops.push(op);
                recs.push(s.rec);
            }
        }
        if ops.is_empty() {
            break;
        }
        let a = batch(&ops, target, threads);
        let mut found = None;
        for (i, x) in a.iter().enumerate() {
            let Some(x) = x else { continue };
            if let Err(e) = judge(&ops[i], x, host) {
                if found.as_ref().is_none_or(|(k, _): &(usize, Fail)| smaller(&recs[i], &recs[*k])) {
                    found = Some((i, e));
                }
            }
        }
        match found {
            Some((i, e)) => {
                best = recs[i].clone();
                f = e;
            }
            None => break,
        }
    }
    (best, f)
}

/// The big-endian half of C20.
pub fn big_endian(r: &Relation, seed: u64, n: usize, threads: usize) -> (Value, Option<Value>) {
    let mut viol = None;
    let t0 = Instant::now();
    let rel = hash_str(r.name);
    let (mut evals, mut keys, mut samples) = (0u64, HashSet::new(), vec![]);
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut at = 0;
    while at < n && viol.is_none() {
        // one batch per process start
        let hi = (at + threads * 200).min(n);
        let mut ops = vec![];
        let mut recs = vec![];
        for i in at..hi {
            let mut s = Src::generate(seed, rel, i as u64);
            let mut o = Obs::default();
            let op = gen(&mut s, &mut o, true);
            *labels.entry(op.label()).or_insert(0) += 1;
            keys.insert(op.key());
            if samples.len() < 4 && i % 97 == 5 {
                samples.push(json!({"function": op.name(), "width": op.w, "height": op.h, "data_bytes": op.data.len()}));
            }
            ops.push(op);
            recs.push(s.rec);
        }
        let a = batch(&ops, TARGET, threads);
        evals += a.iter().flatten().count() as u64;
        let bad = a.iter().enumerate().find_map(|(i, x)| {
            let x = x.as_ref()?;
            judge(&ops[i], x, BIG).err().map(|e| (i, e))
        });
        if let Some((i, f)) = bad {
            let (c, f) = shrink(recs[i].clone(), f, TARGET, BIG, threads);
            viol = Some(json!({"property": "C20", "relation": r.name, "seed": seed, "case": at + i, "choices": c,
                "message": f.msg, "detail": f.detail, "rerun": "bash /verif/run.sh --replay <this file>"}));
        }
        at = hi;
    }
    let rel = json!({"relation": r.name, "evaluations": evals, "library_calls": 2 * evals,
        "distinct_nontrivial": keys.len().min(evals as usize), "rule": r.rule, "labels": labels,
        "samples": samples, "wall_s": t0.elapsed().as_secs_f64()});
    (rel, viol)
}

fn single(s: &mut Src, _: &mut Obs) -> Check {
    let op = gen(s, &mut Obs::default(), true);
    let a = shard(&[&op], TARGET);
    judge(&op, &a[0], BIG)
}

// ------------------------------------------------------------ 32-bit host

struct Node {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn start(alloc: bool) -> Result<Node, String> {
    let home = std::env::var("T2D_VERIF_HOME").unwrap_or_else(|_| "/verif".into());
    let mut c = Command::new("node");
    c.arg(format!("{home}/wasm/server.mjs"))
        .arg(format!("{home}/target-wasm{}/t2d32/release/t2d_wasm.wasm", if alloc { "" } else { "-na" }))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // node reserves far more address space than it uses
            let l = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            Ok(())
        });
    }
    let mut child = c.spawn().map_err(|e| e.to_string())?;
    let inp = child.stdin.take().unwrap();
    let out = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
    Ok(Node { child, inp, out })
}
impl Node {
    fn ask(&mut self, op: &Op) -> Result<Answer, String> {
        let mut m = vec![0; 4];
        encode(op, &mut m);
        let n = (m.len() - 4) as u32;
        m[..4].copy_from_slice(&n.to_le_bytes());
        self.inp.write_all(&m).and_then(|_| self.inp.flush()).map_err(|e| e.to_string())?;
        let mut l = [0; 4];
        self.out.read_exact(&mut l).map_err(|e| e.to_string())?;
        let mut b = vec![0; u32::from_le_bytes(l) as usize];
        self.out.read_exact(&mut b).map_err(|e| e.to_string())?;
        let px = b[1..].chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        Ok(Answer::Got(b[0] as i32, px))
    }
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}
fn word32(s: &mut Src, o: &mut Obs) -> Check {
    let op = gen(s, o, false);
    on_word32(op, o, true)
}
/// C19: the host has no allocator, and the library no feature that needs one.
fn word32_without_alloc(s: &mut Src, o: &mut Obs) -> Check {
    let kind = if s.chance(1, 12) { 19 } else { 0 };
    let op = gen_kind(s, o, false, kind);
    on_word32(op, o, false)
}
fn on_word32(op: Op, o: &mut Obs, alloc: bool) -> Check {
    o.label(op.label());
    o.nontrivial(op.key());
    o.calls += 2;
    let a = NODE.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            *p = Some(start(alloc).expect("HARNESS: node starts"));
        }
        p.as_mut().unwrap().ask(&op).unwrap_or_else(|e| {
            *p = None;
            Answer::Died(e)
        })
    });
    if matches!(&a, Answer::Got(0, _)) {
        o.label("decoded");
    }
    o.sample(|| json!({"function": op.name(), "width": op.w, "height": op.h, "data_bytes": op.data.len()}));
    judge(&op, &a, if alloc { "a 32-bit host" } else { "a 32-bit host without an allocator" })
}
pub fn without_alloc() -> Relation {
    Relation { name: "32-bit host without an allocator", rule: "any image or block decoder but Crunch, small images, exact or wrong buffers, and sizes whose product passes 2^32, in a build for WebAssembly in which no allocator exists; outcome and every pixel against the native default build", quick: 200_000, thorough: 10_000_000, exhaustive: None, f: word32_without_alloc }
}
pub fn preflight(alloc: bool) -> Result<(), String> {
    let op = gen_kind(&mut Src::replay(vec![]), &mut Obs::default(), true, 0);
    start(alloc)?.ask(&op).map(|_| ())
}

pub fn props() -> Vec<Prop> {
    let rule = "any image or block decoder or crunch file (intact or damaged), small images (under Miri at most 14 pixels a side), exact or wrong buffers, and sizes whose product passes 2^32; outcome and every pixel value against the native answer; non-trivial: every call, distinct by its arguments";
    vec![Prop {
        id: "C20",
        relations: vec![
            Relation { name: "32-bit host", rule, quick: 400_000, thorough: 20_000_000, exhaustive: None, f: word32 },
            Relation { name: "big-endian host", rule, quick: 1_600, thorough: 40_000, exhaustive: None, f: single },
        ],
        assumptions: vec!["the 32-bit host is WebAssembly as node runs it, the big-endian one s390x as the Miri interpreter runs it"],
    }]
}
