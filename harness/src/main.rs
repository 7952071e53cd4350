//! `check <ID>`: run one property's relations and write its evidence.
//! `check --replay FILE`: re-run one recorded failing case.
//!
//! The relations run in a worker process. The parent watches it, so that an
//! abort, a stack overflow, an allocation failure or an endless loop in the
//! library is a reported violation too, not a check without an answer.
use serde_json::{json, Value};
use std::process::{Command, ExitCode, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};
use t2d_harness::engine::*;
use t2d_harness::{props, refs};

fn threads() -> usize {
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    std::env::var("T2D_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(n).clamp(1, 64)
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1)
}
fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}
fn home() -> String {
    std::env::var("T2D_VERIF_HOME").unwrap_or_else(|_| "/verif".into())
}
fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            std::process::exit(2)
        }
    }
}

/// The properties decided under the address sanitiser too, with the fraction
/// of their cases drawn for it.
const UNDER_SANITISER: [(&str, f64); 2] = [("C14", 0.2), ("C15", 0.12)];

/// The relation on a library that is opened at run time.
const UNOPTIMISED: &str = "unoptimised build";

/// The harness built with the address sanitiser, from the same sources.
fn sanitised_exe() -> String {
    format!("{}/target-asan/x86_64-unknown-linux-gnu/checked/check", home())
}
fn command(sanitise: bool) -> Command {
    if !sanitise {
        return Command::new(std::env::current_exe().expect("own path"));
    }
    let mut c = Command::new(sanitised_exe());
    c.env("T2D_SANITISED", "1").env(
        "ASAN_OPTIONS",
        "detect_leaks=0:abort_on_error=1:max_allocation_size_mb=16000:allocator_may_return_null=0",
    );
    c
}

fn limit_memory() {
    if sanitised() {
        // its shadow takes address space; it limits allocations itself
        return;
    }
    let gb: u64 = std::env::var("T2D_MEM_GB").ok().and_then(|v| v.parse().ok()).unwrap_or(20);
    unsafe {
        let l = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn replay_value(id: &str, rel: &str, seed: u64, idx: u64, choices: Option<&[u64]>, f: &Fail) -> Value {
    json!({"property": id, "relation": rel, "seed": seed, "case": idx, "choices": choices,
           "message": f.msg, "detail": f.detail,
           "rerun": "bash /verif/run.sh --replay <this file>"})
}

fn worker(id: &str, out: &str, slot_path: &str) {
    limit_memory();
    install_panic_hook();
    let p = find(id);
    let thorough = tier() == "thorough";
    let n = threads();
    let slots = Slots::map(slot_path, n);
    let scale: f64 = std::env::var("T2D_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
    let mut rels = vec![];
    let mut viol: Vec<Value> = vec![];
    for (k, r) in p.relations.iter().enumerate() {
        if let Ok(only) = std::env::var("T2D_ONLY") {
            if !r.name.contains(&only) {
                continue;
            }
        }
        if sanitised() && r.name == UNOPTIMISED {
            continue; // of a build without the sanitiser
        }
        let t0 = Instant::now();
        let part = UNDER_SANITISER.iter().find(|x| sanitised() && x.0 == id).map_or(1.0, |x| x.1);
        let cases = ((if thorough { r.thorough } else { r.quick }) as f64 * scale * part).max(1.0) as u64;
        if id == "C20" && r.name == "big-endian host" {
            let (e, v) = props::hosts::big_endian(r, seed(), cases.max(8) as usize, n);
            rels.push(e);
            viol.extend(v);
            continue;
        }
        let st = run_relation(r, k, seed(), cases, n, &slots);
        let mut e = json!({
            "relation": full_name(r), "evaluations": st.evaluations, "library_calls": st.calls,
            "distinct_nontrivial": st.distinct, "rule": r.rule, "labels": st.labels,
            "samples": st.samples, "wall_s": t0.elapsed().as_secs_f64(),
        });
        if let Some(x) = r.exhaustive {
            if !sanitised() {
                e["enumerated_space"] = json!(x);
            }
        }
        rels.push(e);
        if let Some((idx, choices, f, runs)) = st.failure {
            let mut v = replay_value(id, &full_name(r), seed(), idx, Some(&choices), &f);
            v["shrink_runs"] = json!(runs);
            viol.push(v);
        }
    }
    std::fs::write(out, serde_json::to_string(&json!({"relations": rels, "violations": viol})).unwrap())
        .expect("result file");
}

/// What `c` comes to within the time for a hang; None: success.
fn outcome(mut c: std::process::Child) -> Option<String> {
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                return if s.success() { None } else { Some(format!("the process ended: {s}")) };
            }
            _ if t0.elapsed() > Duration::from_secs(HANG_SECS) => {
                let _ = c.kill();
                let _ = c.wait();
                return Some(format!("no answer within {HANG_SECS} s"));
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

/// Run one generated case in a child with a time limit.
/// None: it passed; Some: what happened.
fn probe(sanitise: bool, id: &str, rel: usize, idx: u64) -> Option<String> {
    let c = command(sanitise)
        .args(["--single", id, &rel.to_string(), &idx.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    outcome(c)
}

/// Inputs a process of the coverage-guided search runs, per property; zero
/// for those it does not search.
fn guided_runs(id: &str) -> u64 {
    match id {
        "C17" | "C18" | "C19" | "C20" => 0,
        "C10" | "C11" => 200_000,
        "C07" | "C12" | "C13" | "C15" => 300_000,
        "C16" => 400_000,
        _ => 4_000_000,
    }
}
/// The coverage-guided search: libFuzzer mutates the draws of the property's
/// relations, starting from generated cases, in one process a thread.
fn guided(p: &Prop) -> (Vec<Value>, Vec<Value>) {
    let (id, t0, n) = (p.id, Instant::now(), threads());
    let env = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<f64>().ok());
    let scale = env("T2D_GUIDED_SCALE").or(env("T2D_SCALE")).unwrap_or(1.0);
    let runs = ((guided_runs(id) as f64 * scale) as u64).max(1);
    let dir = std::env::temp_dir().join(format!("t2d-guided-{}", std::process::id()));
    let mut seeds = 0;
    let children: Vec<_> = (0..n)
        .map(|t| {
            let d = dir.join(t.to_string());
            std::fs::create_dir_all(d.join("corpus")).expect("scratch directory");
            for (k, r) in props::fuzzable(p).iter().enumerate() {
                for i in 0..40 {
                    let mut s = Src::generate(seed(), hash_str(r.name), i * n as u64 + t as u64);
                    s.raw = Some(vec![k as u8]);
                    let _ = run_case(r, &mut s, &mut Obs::default());
                    std::fs::write(d.join(format!("corpus/{k}-{i}")), s.raw.unwrap()).expect("seed");
                    seeds += 1;
                }
            }
            let err = std::fs::File::create(d.join("log")).expect("log");
            Command::new(format!("{}/target-fuzz/x86_64-unknown-linux-gnu/release/property", home()))
                .arg("corpus")
                .arg(format!("-runs={runs}"))
                .arg(format!("-seed={}", (seed() * 64 + t as u64) % (1 << 31) + 1))
                .args(["-max_len=3000", "-timeout=60", "-rss_limit_mb=3500", "-print_final_stats=1", "-artifact_prefix=found-"])
                .env("T2D_PROP", id)
                .env("ASAN_OPTIONS", "detect_leaks=0:max_allocation_size_mb=16000")
                .current_dir(&d)
                .stdout(Stdio::null())
                .stderr(err)
                .spawn()
                .expect("the fuzzer starts")
        })
        .collect();
    for mut c in children {
        let _ = c.wait();
    }
    let (mut execs, mut kept, mut found, mut notes) = (0u64, 0u64, vec![], vec![]);
    for t in 0..n {
        let d = dir.join(t.to_string());
        let log = std::fs::read_to_string(d.join("log")).unwrap_or_default();
        let stat = log.lines().find_map(|l| l.strip_prefix("stat::number_of_executed_units:"));
        execs += stat.and_then(|v| v.trim().parse::<u64>().ok()).unwrap_or(0);
        kept += std::fs::read_dir(d.join("corpus")).map_or(0, |x| x.count() as u64);
        for f in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            if f.file_name().to_string_lossy().starts_with("found-") {
                found.push(f.path());
            }
        }
    }
    found.sort();
    let mut viol = vec![];
    for f in found {
        // once more, without the fuzzer
        let input = std::fs::read(&f).unwrap_or_default();
        let Some((r, _)) = props::fuzz_relation(p, &input) else { continue };
        let out = dir.join("case.json");
        let _ = std::fs::remove_file(&out);
        let mut what = None;
        let mut name = r.name.to_string();
        for sanitise in [false, true] {
            let c = command(sanitise)
                .args(["--fuzz-case", id, f.to_str().unwrap(), out.to_str().unwrap()])
                .spawn()
                .expect("a process for the case");
            what = outcome(c);
            if what.is_some() {
                name = format!("{}{}", r.name, if sanitise { SANITISED } else { "" });
                break;
            }
        }
        let shrunk = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
        match (shrunk, what) {
            (Some(v), _) => viol.push(v),
            (None, Some(w)) => {
                let fl = Fail { msg: format!("{name}: {w}"), detail: json!(null) };
                let mut v = replay_value(id, &name, seed(), 0, None, &fl);
                v["input"] = json!(hex(&input));
                viol.push(v);
            }
            (None, None) => notes.push(json!({"relation": r.name, "input": hex(&input)})),
        }
        if !viol.is_empty() {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let rel = json!({
        "relation": "coverage-guided", "evaluations": execs, "library_calls": execs, "distinct_nontrivial": kept,
        "rule": "libFuzzer mutates the draws of the relations above under the address sanitiser, from generated cases; non-trivial: an input kept because it reaches code no earlier one reached",
        "labels": {"seeds": seeds}, "samples": [], "not_reproduced": notes, "wall_s": t0.elapsed().as_secs_f64(),
    });
    (vec![rel], viol)
}
/// A fuzzer's input, in this process: the shrunk failure goes to `out`.
fn fuzz_case(id: &str, file: &str, out: &str) -> ExitCode {
    limit_memory();
    install_panic_hook();
    let p = find(id);
    let input = std::fs::read(file).expect("the input");
    let Some((r, draws)) = props::fuzz_relation(&p, &input) else { return ExitCode::SUCCESS };
    let mut s = Src::from_bytes(draws);
    match run_case(r, &mut s, &mut Obs::default()) {
        Ok(()) => ExitCode::SUCCESS,
        Err(f) => {
            let (choices, f, runs) = shrink(r, s.rec, f);
            let mut v = replay_value(id, &full_name(r), seed(), 0, Some(&choices), &f);
            v["shrink_runs"] = json!(runs);
            std::fs::write(out, v.to_string()).expect("the shrunk case");
            ExitCode::from(1)
        }
    }
}

/// What a check needs besides the harness itself; trouble there is an error
/// of the check, not a violation.
fn preflight(id: &str) {
    let r = match id {
        "C17" => props::python::preflight(),
        "C20" => props::hosts::preflight(true),
        "C18" => guarded(|| {
            props::builds::release();
            props::builds::unoptimised();
        }),
        "C19" => guarded(|| {
            props::builds::no_alloc();
        })
        .and_then(|_| props::hosts::preflight(false)),
        _ => Ok(()),
    };
    if let Err(e) = r {
        eprintln!("check {id}: {e}");
        std::process::exit(2);
    }
}

fn parent(id: &str) -> ExitCode {
    let t0 = Instant::now();
    let p = find(id);
    preflight(id);
    let (mut rels, mut viol) = (vec![], vec![]);
    for sanitise in [false, true] {
        // T2D_UNSANITISED: a development aid
        let wanted = UNDER_SANITISER.iter().any(|x| x.0 == id) && std::env::var_os("T2D_UNSANITISED").is_none();
        if sanitise && !wanted {
            continue;
        }
        match watch(&p, sanitise) {
            Some((r, v)) => {
                rels.extend(r);
                viol.extend(v);
            }
            None => return ExitCode::from(2),
        }
        if !viol.is_empty() {
            break;
        }
    }
    if viol.is_empty() && tier() == "thorough" && guided_runs(id) > 0 && std::env::var_os("T2D_ONLY").is_none() {
        let (r, v) = guided(&p);
        rels.extend(r);
        viol.extend(v);
    }
    finish(id, &p.assumptions, rels, viol, t0.elapsed().as_secs_f64())
}

/// Run the relations in a worker: their reports, and the violations.
/// None: the worker ended and no case in flight does it again.
fn watch(p: &Prop, sanitise: bool) -> Option<(Vec<Value>, Vec<Value>)> {
    let id = p.id;
    let dir = std::env::temp_dir().join(format!("t2d-check-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let out = dir.join("result.json");
    let slot_path = dir.join("slots");
    let n = threads();
    let slots = Slots::map(slot_path.to_str().unwrap(), n);
    let mut child = command(sanitise)
        .args(["--worker", id, out.to_str().unwrap(), slot_path.to_str().unwrap()])
        .spawn()
        .expect("worker");
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); n];
    let mut hung: Option<(usize, u64)> = None;
    let status = loop {
        if let Ok(Some(s)) = child.try_wait() {
            break Some(s);
        }
        for (t, l) in last.iter_mut().enumerate() {
            let c = slots.at(t, 2).load(Ordering::Relaxed);
            let idx = slots.at(t, 1).load(Ordering::Relaxed);
            if c != l.0 || idx == u64::MAX {
                *l = (c, Instant::now());
            } else if c != 0 && l.1.elapsed() > Duration::from_secs(HANG_SECS) {
                hung = Some((slots.at(t, 0).load(Ordering::Relaxed) as usize, idx));
            }
        }
        if hung.is_some() {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let result: Option<Value> = match status {
        Some(s) if s.success() => std::fs::read_to_string(&out)
            .ok()
            .and_then(|t| serde_json::from_str(&t).ok()),
        _ => None,
    };
    let (rels, mut viol) = match result {
        Some(v) => (
            v["relations"].as_array().cloned().unwrap_or_default(),
            v["violations"].as_array().cloned().unwrap_or_default(),
        ),
        None => (vec![], vec![]),
    };
    if !matches!(status, Some(s) if s.success()) {
        // attribute the crash or hang to a case
        let mut cands: Vec<(usize, u64)> = match hung {
            Some(h) => vec![h],
            None => vec![],
        };
        for t in 0..n {
            let c = (
                slots.at(t, 0).load(Ordering::Relaxed) as usize,
                slots.at(t, 1).load(Ordering::Relaxed),
            );
            if slots.at(t, 2).load(Ordering::Relaxed) != 0 && c.1 != u64::MAX && !cands.contains(&c) {
                cands.push(c);
            }
        }
        cands.sort();
        for (rel, idx) in cands {
            if let Some(what) = probe(sanitise, id, rel, idx) {
                let r = &p.relations[rel];
                let f = Fail { msg: format!("{}: {what}", r.name), detail: json!(null) };
                let name = format!("{}{}", r.name, if sanitise { SANITISED } else { "" });
                viol.push(replay_value(id, &name, seed(), idx, None, &f));
                break;
            }
        }
        if viol.is_empty() {
            eprintln!("check {id}: the worker ended ({status:?}) and no case in flight reproduces it");
            let _ = std::fs::remove_dir_all(&dir);
            return None;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Some((rels, viol))
}

fn finish(id: &str, assumptions: &[&str], rels: Vec<Value>, viol: Vec<Value>, wall: f64) -> ExitCode {
    let sum = |k: &str| rels.iter().filter_map(|r| r[k].as_u64()).sum::<u64>();
    let samples: Vec<Value> = rels
        .iter()
        .flat_map(|r| {
            let name = r["relation"].clone();
            r["samples"]
                .as_array()
                .cloned()
                .unwrap_or_default()
                .into_iter()
                .take(2)
                .map(move |s| json!({"relation": name, "case": s}))
        })
        .collect();
    let rule = rels
        .iter()
        .map(|r| format!("{}: {}", r["relation"].as_str().unwrap_or(""), r["rule"].as_str().unwrap_or("")))
        .collect::<Vec<_>>()
        .join(" | ");
    let _ = std::fs::create_dir_all(format!("{}/replays", home()));
    let mut vlist = vec![];
    for v in &viol {
        let rel = v["relation"].as_str().unwrap_or("x");
        let slug: String =
            rel.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
        let path = format!("{}/replays/{id}-{slug}-seed{}.json", home(), seed());
        let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
        println!("{}: {}", rel, v["message"].as_str().unwrap_or(""));
        println!("VIOLATION property={id} replay={path}");
        vlist.push(json!({"replay": path, "message": v["message"]}));
    }
    let ev = json!({
        "property": id, "tier": tier(), "seed": seed(), "level": "exploration",
        "coverage": {
            "evaluations": sum("evaluations"), "distinct_nontrivial": sum("distinct_nontrivial"),
            "library_calls": sum("library_calls"),
            "rule": rule, "samples": samples,
            "relations": rels.iter().map(|r| {
                let mut r = r.clone();
                if let Some(o) = r.as_object_mut() { o.remove("samples"); o.remove("rule"); }
                r
            }).collect::<Vec<_>>(),
        },
        "assumptions": assumptions, "wall_s": wall, "violations": vlist.len(),
        "violation_list": vlist,
    });
    let dir = format!("{}/evidence", home());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap())
        .expect("evidence file");
    println!(
        "{id}: {} cases, {} distinct non-trivial, {} library calls, {:.1} s, {} violation(s)",
        sum("evaluations"), sum("distinct_nontrivial"), sum("library_calls"), wall, viol.len()
    );
    if viol.is_empty() { ExitCode::SUCCESS } else { ExitCode::from(1) }
}

/// Run the recorded case in a process of its own, as it may end it.
fn replay(path: &str) -> ExitCode {
    let text = std::fs::read_to_string(path).expect("replay file");
    let v: Value = serde_json::from_str(&text).expect("replay file is JSON");
    let sanitise = v["relation"].as_str().is_some_and(|r| r.ends_with(SANITISED));
    let mut c = command(sanitise).args(["--replay-here", path]).spawn().expect("a process for the case");
    let t0 = Instant::now();
    let what = loop {
        match c.try_wait().expect("the process") {
            Some(e) => match e.code() {
                Some(n) => return ExitCode::from(n as u8),
                None => break format!("the process ended: {e}"),
            },
            None if t0.elapsed() > Duration::from_secs(10 * HANG_SECS) => {
                let _ = c.kill();
                let _ = c.wait();
                break "no answer".to_string();
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    };
    println!("{}", what);
    println!("VIOLATION property={} replay={path}", v["property"].as_str().unwrap_or(""));
    ExitCode::from(1)
}

fn replay_here(path: &str) -> ExitCode {
    limit_memory();
    install_panic_hook();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file"))
        .expect("replay file is JSON");
    let id = v["property"].as_str().expect("property");
    let p = find(id);
    let rel = v["relation"].as_str().expect("relation");
    let rel = rel.strip_suffix(SANITISED).unwrap_or(rel);
    let r = p.relations.iter().find(|r| r.name == rel).expect("relation exists");
    props::builds::FIRST_TRIES.store(400, Ordering::SeqCst);
    let unhex = |h: &str| -> Vec<u8> {
        (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).expect("hex")).collect()
    };
    let c = match v["choices"].as_array() {
        _ if v["input"].is_string() => {
            let input = unhex(v["input"].as_str().unwrap());
            run_case(r, &mut Src::from_bytes(input.get(1..).unwrap_or(&[])), &mut Obs::default())
        }
        Some(a) => rerun(r, a.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => single(r, v["seed"].as_u64().unwrap(), v["case"].as_u64().unwrap()).1,
    };
    match c {
        Ok(()) => {
            println!("{id} {rel}: the recorded case passes");
            ExitCode::SUCCESS
        }
        Err(f) => {
            println!("{rel}: {}\n{}", f.msg, serde_json::to_string_pretty(&f.detail).unwrap());
            println!("VIOLATION property={id} replay={path}");
            ExitCode::from(1)
        }
    }
}

fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("--worker") => {
            worker(&a[1], &a[2], &a[3]);
            ExitCode::SUCCESS
        }
        Some("--single") => {
            limit_memory();
            install_panic_hook();
            let p = find(&a[1]);
            let (_, c) = single(&p.relations[a[2].parse::<usize>().unwrap()], seed(), a[3].parse().unwrap());
            if c.is_ok() { ExitCode::SUCCESS } else { ExitCode::from(1) }
        }
        Some("--replay") => replay(&a[1]),
        Some("--replay-here") => replay_here(&a[1]),
        Some("--fuzz-case") => fuzz_case(&a[1], &a[2], &a[3]),
        Some("--first") => {
            install_panic_hook();
            props::builds::first_child(a[1].parse().unwrap());
            ExitCode::SUCCESS
        }
        // a well-formed file of the given shape, for experiments
        Some("--dump-crn") => {
            let n: Vec<usize> = a[1..9].iter().map(|v| v.parse().unwrap()).collect();
            let sh = refs::crn::Shape {
                unity: n[1] != 0, format: n[2] as u8, w: n[3], h: n[4],
                faces: n[5], levels: n[6], palette: n[7], far: false, spoil: None,
            };
            let f = refs::crn::build(&mut Src::generate(n[0] as u64, 0, 0), &sh);
            std::fs::write(&a[9], &f.data).unwrap();
            ExitCode::SUCCESS
        }
        Some("--list") => {
            for p in props::all() {
                for r in &p.relations {
                    println!("{} {} quick={} thorough={}", p.id, r.name, r.quick, r.thorough);
                }
            }
            ExitCode::SUCCESS
        }
        Some(id) => parent(id),
        None => {
            eprintln!("usage: check ID | --replay FILE | --list | --dump-crn SEED UNITY FORMAT W H FACES LEVELS PALETTE FILE");
            ExitCode::from(2)
        }
    }
}
