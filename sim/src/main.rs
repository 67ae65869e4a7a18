//! Deterministic simulation of snapcd. See ../../DESIGN.md.
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, static_mut_refs, dead_code, clippy::all)]
mod arena;
mod driver;
mod exec;
mod fs;
mod gear;
mod gen;
mod model;
mod observe;
mod proc;
mod rng;
mod scen;
mod shim;
mod store;
mod stream;
mod vfs;
mod viol;
mod world;

#[global_allocator]
static A: arena::Arena = arena::Arena;

use driver::*;
use std::io::{BufRead, Write};
use std::time::{Duration, Instant};

fn simulate<T>(f: impl FnOnce() -> T) -> T {
    // The standard library frees the output buffer of a process that exits: it must be each
    // process's own, so it is made before anything is shared.
    let _ = std::io::stdout().flush();
    let _ = std::io::stdout().lock().write_all(b"");
    arena::init();
    arena::set(true);
    world::setup();
    proc::set_env();
    f()
}

fn arg(i: usize) -> Option<String> {
    std::env::args().nth(i).filter(|s| !s.is_empty())
}

fn opt(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|a| a == name).and_then(|i| v.get(i + 1).cloned()).filter(|s| !s.is_empty())
}

fn num(name: &str, dflt: u64) -> u64 {
    opt(name).and_then(|s| s.parse().ok()).unwrap_or(dflt)
}

fn main() {
    proc::ensure_slots();
    let mode = arg(1).unwrap_or_default();
    let code = match &mode[..] {
        "check" => check(),
        "work" => simulate(work),
        "one" => simulate(one),
        "replay" => simulate(replay),
        "shrink" => simulate(shrink_file),
        _ => {
            eprintln!("usage: snapsim check PROPERTY | one PROPERTY SEED | replay FILE | shrink FILE OUT");
            2
        }
    };
    let _ = std::io::stdout().flush();
    world::leave_with(code)
}

/// One generated scenario, with everything it did.
fn one() -> i32 {
    let (id, seed) = (arg(2).unwrap(), arg(3).unwrap().parse().unwrap());
    let mut c = Cover::default();
    match generate(&id, seed, opt("--trace").is_some(), &mut c) {
        Ok(d) => {
            for l in &d.log {
                println!("{}", l);
            }
            for v in &d.viols {
                println!("{:?} {} at step {}: {}", v.tags, v.kind, v.step, v.detail);
            }
            println!("hash {:016x} fired {:?} calls {}", d.hash, c.fired, c.calls);
            if let Some(p) = opt("--trace") {
                std::fs::write(p, d.trace.join("\n")).unwrap();
            }
            if let Some(p) = opt("--out") {
                if let Some(v) = d.viols.get(0) {
                    let f = Found { property: id.clone(), viol: v.clone(), hash: format!("{:016x}", d.hash), scenario: d.scenario, log: d.log };
                    std::fs::write(p, serde_json::to_string_pretty(&f).unwrap()).unwrap();
                }
            }
            0
        }
        Err(e) => {
            println!("harness: {}", e.0);
            2
        }
    }
}

/// Runs seeds base+k*stride for k in first.. and reports as it goes.
fn work() -> i32 {
    let id = arg(2).unwrap();
    let (first, stride, base) = (num("--first", 0), num("--stride", 1), num("--base", 0));
    let until = Instant::now() + Duration::from_millis(num("--ms", 1000));
    let least = num("--least", 0);
    let cap = Instant::now() + Duration::from_millis(num("--cap-ms", 1000));
    let mut c = Cover::default();
    let mut k = first;
    let mut n = 0u64;
    let mut flushed = Instant::now();
    let emit = |c: &mut Cover, next: u64| {
        emit_line(serde_json::json!({ "cover": &*c, "next": next }));
        let _ = std::io::stdout().flush();
        *c = Cover::default();
    };
    while (Instant::now() < until || n < least) && Instant::now() < cap {
        let seed = base.wrapping_add(k);
        if opt("--say").is_some() {
            println!("seed {} arena {}", seed, arena::used());
            let _ = std::io::stdout().flush();
        }
        emit_line(serde_json::json!({ "at": k }));
        match generate(&id, seed, false, &mut c) {
            Ok(d) => {
                if let Some(v) = d.viols.iter().find(|v| v.has(&id)) {
                    emit(&mut c, k + stride);
                    let f = Found { property: id.clone(), viol: v.clone(), hash: format!("{:016x}", d.hash), scenario: d.scenario, log: d.log };
                    emit_line(serde_json::json!({ "found": f }));
                } else {
                    for v in d.viols {
                        c.other_seed.entry(format!("{} {}", v.tags.join(","), v.kind)).or_insert(seed);
                        *c.other.entry(format!("{} {}", v.tags.join(","), v.kind)).or_insert(0) += 1;
                    }
                }
            }
            Err(e) => {
                c.harness += 1;
                c.harness_last = format!("seed {}: {}", seed, e.0);
            }
        }
        k += stride;
        n += 1;
        if flushed.elapsed() > Duration::from_secs(2) {
            emit(&mut c, k);
            flushed = Instant::now();
        }
        if n >= 1500 && least == 0 || arena::high() > 3 << 30 {
            break;
        }
    }
    emit(&mut c, k);
    0
}

/// The checker may have gone away by now.
fn emit_line(v: serde_json::Value) {
    let _ = writeln!(std::io::stdout(), "{}", v);
}

fn load(p: &str) -> Found {
    serde_json::from_str(&std::fs::read_to_string(p).expect("cannot read the replay file")).expect("not a replay file")
}

fn replay() -> i32 {
    let p = arg(2).unwrap();
    let f = load(&p);
    let mut c = Cover::default();
    let d = match carry_out(&f.scenario, opt("--trace").is_some(), &mut c) {
        Ok(d) => d,
        Err(e) => {
            println!("harness: {}", e.0);
            return 2;
        }
    };
    if let Some(t) = opt("--trace") {
        let _ = std::fs::write(t, d.trace.join("\n"));
    }
    for l in &d.log {
        println!("{}", l);
    }
    println!("faults {:?}", c.fired);
    match d.viols.iter().find(|v| v.has(&f.property)) {
        Some(v) => {
            println!("{} at step {}: {}", v.kind, v.step, v.detail);
            println!("history {:016x}, recorded {}", d.hash, f.hash);
            println!("VIOLATION property={} replay={}", f.property, p);
            1
        }
        None => {
            for v in &d.viols {
                println!("(other: {:?} {} {})", v.tags, v.kind, v.detail);
            }
            println!("no violation of {}", f.property);
            0
        }
    }
}

fn shrink_file() -> i32 {
    let f = load(&arg(2).unwrap());
    match shrink(&f, num("--secs", 60)) {
        Some(g) => {
            std::fs::write(arg(3).unwrap(), serde_json::to_string_pretty(&g).unwrap()).unwrap();
            0
        }
        None => 3,
    }
}

// ---- the check of one property ----

struct Known {
    property: String,
    kind: String,
    part: String,
    what: String,
}

impl Known {
    fn is(&self, id: &str, v: &viol::Viol) -> bool {
        self.property == id && self.kind == v.kind && v.detail.contains(&self.part)
    }
}

fn known_findings(dir: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", dir)).unwrap_or_default();
    t.lines()
        .filter_map(|l| serde_json::from_str::<serde_json::Value>(l.strip_prefix("known: ")?).ok())
        .map(|v| Known {
            property: v["property"].as_str().unwrap_or("").into(),
            kind: v["kind"].as_str().unwrap_or("").into(),
            part: v["detail_contains"].as_str().unwrap_or("").into(),
            what: v["what"].as_str().unwrap_or("").into(),
        })
        .collect()
}

fn me(args: &[String]) -> std::process::Command {
    let mut c = std::process::Command::new("/proc/self/exe");
    c.args(args);
    c.env_remove("SNAPSIM_SLOTS");
    c
}

fn check() -> i32 {
    let id = arg(2).expect("which property?");
    let dir = opt("--dir").unwrap_or_else(|| "/verif".into());
    let tier = std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough").map_or("quick", |_| "thorough");
    let tier = if opt("--tier").as_deref() == Some("thorough") { "thorough" } else { tier };
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs = num("--secs", if tier == "thorough" { 600 } else { 70 });
    let least = num("--least", if tier == "thorough" { 0 } else { 100 });
    let cap = num("--cap", secs.max(300) + 60);
    let jobs = num("--jobs", std::thread::available_parallelism().map_or(8, |n| n.get() as u64)).max(1);
    let base = vseed.wrapping_mul(1_000_000_007) & 0xffff_ffff_ffff;
    let t0 = Instant::now();
    let known = std::sync::Arc::new(known_findings(&dir));
    let (tx, rx) = std::sync::mpsc::channel::<serde_json::Value>();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut ths = vec![];
    for j in 0..jobs {
        let (tx, id, stop, known) = (tx.clone(), id.clone(), stop.clone(), known.clone());
        ths.push(std::thread::spawn(move || {
            let mut first = j;
            let mut done = 0u64;
            let mut bad = 0;
            while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                let el = t0.elapsed().as_millis() as u64;
                if (el + 50 >= secs * 1000 && done >= least) || el >= cap * 1000 {
                    break;
                }
                let a: Vec<String> = format!(
                    "work {} --first {} --stride {} --base {} --ms {} --cap-ms {} --least {}",
                    id,
                    first,
                    jobs,
                    base,
                    (secs * 1000).saturating_sub(el),
                    (cap * 1000).saturating_sub(el),
                    least.saturating_sub(done)
                )
                .split(' ')
                .map(|s| s.to_string())
                .collect();
                let mut ch = me(&a).stdout(std::process::Stdio::piped()).spawn().expect("worker");
                // a worker that says nothing for minutes is ended
                let heard = std::sync::Arc::new(std::sync::Mutex::new((Instant::now(), true)));
                let (heard2, pid) = (heard.clone(), ch.id() as i32);
                let stop2 = stop.clone();
                let dog = std::thread::spawn(move || loop {
                    std::thread::sleep(Duration::from_millis(100));
                    let g = heard2.lock().unwrap();
                    if !g.1 {
                        break;
                    }
                    if g.0.elapsed() > Duration::from_secs(100) || stop2.load(std::sync::atomic::Ordering::SeqCst) || t0.elapsed().as_secs() > cap + 20 {
                        unsafe { libc::kill(pid, libc::SIGKILL) };
                        break;
                    }
                });
                let out = std::io::BufReader::new(ch.stdout.take().unwrap());
                let mut at = None;
                for l in out.lines() {
                    heard.lock().unwrap().0 = Instant::now();
                    let l = match l {
                        Ok(l) => l,
                        Err(_) => break,
                    };
                    if let Ok(v) = serde_json::from_str::<serde_json::Value>(&l) {
                        if let Some(n) = v["at"].as_u64() {
                            at = Some(n);
                            continue;
                        }
                        if let Some(n) = v["next"].as_u64() {
                            done += (n - first) / jobs;
                            first = n;
                        }
                        if let Ok(f) = serde_json::from_value::<Found>(v["found"].clone()) {
                            if !known.iter().any(|k| k.is(&id, &f.viol)) {
                                stop.store(true, std::sync::atomic::Ordering::SeqCst);
                            }
                        }
                        let _ = tx.send(v);
                    } else {
                        eprintln!("worker: {}", l);
                    }
                    if stop.load(std::sync::atomic::Ordering::SeqCst) {
                        break;
                    }
                }
                heard.lock().unwrap().1 = false;
                let _ = dog.join();
                let _ = ch.kill();
                let st = ch.wait();
                let fine = matches!(&st, Ok(s) if s.success());
                if !fine && !stop.load(std::sync::atomic::Ordering::SeqCst) && t0.elapsed().as_secs() < cap {
                    bad += 1;
                    // what comes after the seed that ended it
                    let lost = at.unwrap_or(first);
                    first = first.max(lost + jobs);
                    let _ = tx.send(serde_json::json!({ "died": format!("worker at seed {} ended: {:?}", base.wrapping_add(lost), st) }));
                    if bad > 20 {
                        break;
                    }
                }
            }
        }));
    }
    drop(tx);
    let mut cov = Cover::default();
    let mut found: Vec<Found> = vec![];
    let mut seen_known: Vec<String> = vec![];
    let mut died: Vec<String> = vec![];
    for v in rx {
        if !v["cover"].is_null() {
            if let Ok(c) = serde_json::from_value::<Cover>(v["cover"].clone()) {
                cov.add(&c);
            }
        }
        if !v["found"].is_null() {
            match serde_json::from_value::<Found>(v["found"].clone()) {
                Ok(f) => found.push(f),
                Err(e) => died.push(e.to_string()),
            }
        }
        if let Some(s) = v["died"].as_str() {
            died.push(s.into());
        }
    }
    for t in ths {
        let _ = t.join();
    }
    found.sort_by_key(|f| f.scenario.seed);
    let mut fresh: Option<Found> = None;
    for f in found {
        match known.iter().find(|k| k.is(&id, &f.viol)) {
            Some(k) => {
                if !seen_known.contains(&k.what) {
                    seen_known.push(k.what.clone());
                }
            }
            None => {
                if fresh.is_none() {
                    fresh = Some(f);
                }
            }
        }
    }
    let mut code = 0;
    let mut report = serde_json::Value::Null;
    if let Some(f) = fresh {
        let rdir = format!("{}/replays", dir);
        let _ = std::fs::create_dir_all(&rdir);
        let raw = format!("{}/{}-seed{}-full.json", rdir, id, f.scenario.seed);
        let small = format!("{}/{}-seed{}.json", rdir, id, f.scenario.seed);
        let _ = std::fs::write(&raw, serde_json::to_string_pretty(&f).unwrap());
        let left = if tier == "thorough" { 150 } else { 60 };
        let st = me(&["shrink".into(), raw.clone(), small.clone(), "--secs".into(), left.to_string()]).stdout(std::process::Stdio::null()).status();
        let path = if st.map_or(false, |s| s.success()) && std::path::Path::new(&small).exists() { small } else { raw.clone() };
        let again = me(&["replay".into(), path.clone()]).output();
        let same = again.as_ref().map_or(false, |o| o.status.code() == Some(1));
        let g = load(&path);
        let exact = again.map_or(false, |o| String::from_utf8_lossy(&o.stdout).contains(&format!("history {}, recorded {}", g.hash, g.hash)));
        println!("{} in {} steps: {}", g.viol.kind, g.scenario.steps.len(), g.viol.detail);
        for l in &g.log {
            println!("  {}", l);
        }
        println!("reproduced in a fresh process: {}{}", same, if exact { ", with the identical history" } else { "" });
        println!("VIOLATION property={} replay={}", id, path);
        report = serde_json::json!({ "kind": g.viol.kind, "detail": g.viol.detail, "seed": g.scenario.seed, "steps": g.scenario.steps.len(), "replay": path, "reproduced": same, "identical_history": exact });
        if path != raw {
            let _ = std::fs::remove_file(&raw);
        }
        code = 1;
    }
    for k in known.iter().filter(|k| k.property == id) {
        println!("KNOWN-FINDING: property={} {}", id, k.what);
    }
    // the same seed gives the same history
    let mut samples = vec![];
    let mut same = 0;
    let mut compared = 0;
    for i in 0..3u64 {
        let a: Vec<String> = vec!["one".into(), id.clone(), base.wrapping_add(i).to_string()];
        let run = || me(&a).output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
        let (x, y) = (run(), run());
        compared += 1;
        if x == y {
            same += 1;
        }
        samples.push(serde_json::json!({ "seed": base.wrapping_add(i), "history": x.lines().map(|l| l.chars().take(220).collect::<String>()).take(40).collect::<Vec<_>>() }));
    }
    let wall = t0.elapsed().as_secs_f64();
    let search = (wall).max(0.001);
    let (_, _, rule_text) = rule(&id);
    let ev = serde_json::json!({
        "property": id,
        "tier": tier,
        "seed": vseed,
        "level": "exploration",
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": code,
        "assumptions": [
            "the simulated file system, lock manager and power-loss model are faithful to POSIX and to what SQLite's own os_unix relies on",
            "SQLite itself, rustc and the standard library are taken as they are (they run as real code, but are not the subject)"
        ],
        "coverage": {
            "evaluations": cov.runs,
            "distinct_nontrivial": cov.distinct.len(),
            "rule": format!("One evaluation is one simulated run: a machine, users' edits, commands, schedules and faults all drawn from one seed ({} profile). It is non-trivial if {}; distinct runs are told apart by a hash over every intercepted call, its arguments and results' effects, in order.", id, rule_text),
            "samples": samples,
            "seeds": { "base": base, "count": cov.runs },
            "runs_per_hour": (cov.runs as f64 / search * 3600.0).round(),
            "simulated_time_s": (cov.sim_ns as f64 / 1e9).round(),
            "scenario_steps": cov.steps,
            "commands_run": cov.commands,
            "commands_by_kind": cov.kinds,
            "intercepted_calls": cov.calls,
            "process_switches": cov.switches,
            "runs_with_faults": cov.faulty_runs,
            "multi_process_steps": cov.multi,
            "faults_injected": cov.fired,
            "distinct_fault_sites": { "count": cov.sites.len(), "measure": "(fault kind, class of call, part of the machine, magnitude of the call's number) combinations at which a fault took place" },
            "distinct_interleavings": { "count": cov.interleavings.len(), "measure": "distinct (commands, context-switch sequence) pairs among multi-process steps" },
            "distinct_states": { "count": cov.states.len(), "measure": "distinct logical repository states (HEAD, ref histories, set of objects) seen after a step" },
            "determinism": { "seeds_run_twice_in_fresh_processes": compared, "identical": same },
            "real_code": ["all of snapcd: main.rs with its argument parsing, and the library", "SQLite (bundled), through rusqlite", "the Rust standard library"],
            "simulated": ["libc file, directory, time, sleep, random and exit calls", "SQLite's VFS: files, locks, WAL shared memory, time, randomness, sleep", "disk with write-back cache, capacity and power loss", "process scheduling, kill, stall", "foreign lock holders", "clock"],
            "violations_of_other_properties_seen": cov.other,
            "harness_failures": { "count": cov.harness, "last": cov.harness_last, "workers_lost": died },
            "violation": report,
            "known_findings_met": seen_known,
        }
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    let _ = std::fs::write(format!("{}/evidence/{}.json", dir, id), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    println!("{}: {} runs, {} commands, {} faulty runs, {:.1} s", id, cov.runs, cov.commands, cov.faulty_runs, wall);
    if !cov.other.is_empty() {
        println!("violations of other properties: {:?} (seeds {:?})", cov.other, cov.other_seed.values().collect::<Vec<_>>());
    }
    if cov.harness > 0 || !died.is_empty() {
        println!("harness failures: {} {} {:?}", cov.harness, cov.harness_last, died);
    }
    if code == 0 && (cov.runs == 0 || cov.harness * 10 > cov.runs) {
        return 2;
    }
    code
}
