//! Carries out scenarios - generated or recorded - and gathers what they covered.
use crate::exec::{Exec, Res};
use crate::gen::Gen;
use crate::rng::mix;
use crate::scen::*;
use crate::viol::Viol;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct Cover {
    pub runs: u64,
    pub steps: u64,
    pub commands: u64,
    pub kinds: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub calls: u64,
    pub switches: u64,
    pub fired: BTreeMap<String, u64>,
    /// scenarios in which at least one fault took place
    pub faulty_runs: u64,
    pub multi: u64,
    pub sites: BTreeSet<u64>,
    pub states: BTreeSet<u64>,
    pub interleavings: BTreeSet<u64>,
    /// event histories of the runs that were to the point
    pub distinct: BTreeSet<u64>,
    pub other: BTreeMap<String, u64>,
    /// a seed for each of those
    #[serde(default)]
    pub other_seed: BTreeMap<String, u64>,
    pub harness: u64,
    pub harness_last: String,
}

impl Cover {
    pub fn add(&mut self, o: &Cover) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.commands += o.commands;
        self.sim_ns += o.sim_ns;
        self.calls += o.calls;
        self.switches += o.switches;
        self.faulty_runs += o.faulty_runs;
        self.multi += o.multi;
        self.harness += o.harness;
        if !o.harness_last.is_empty() {
            self.harness_last = o.harness_last.clone();
        }
        for (k, v) in &o.kinds {
            *self.kinds.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.fired {
            *self.fired.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.other {
            *self.other.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.other_seed {
            self.other_seed.entry(k.clone()).or_insert(*v);
        }
        self.sites.extend(&o.sites);
        self.states.extend(&o.states);
        self.interleavings.extend(&o.interleavings);
        self.distinct.extend(&o.distinct);
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Found {
    pub property: String,
    pub viol: Viol,
    pub hash: String,
    pub scenario: Scenario,
    #[serde(default)]
    pub log: Vec<String>,
}

pub struct Done {
    pub scenario: Scenario,
    pub viols: Vec<Viol>,
    pub hash: u64,
    pub log: Vec<String>,
    pub trace: Vec<String>,
}

/// A run counts as non-trivial for a property if it got at least this far.
pub fn rule(id: &str) -> (&'static [&'static str], bool, &'static str) {
    match id {
        "C01" => (&["commit", "insert"], true, "at least one snapshot was taken and afterwards commands ran or faults struck"),
        "C02" => (&["commit", "insert", "ref update", "set-head", "reflog-push", "checkout-head"], true, "a command that changes refs or HEAD ran and at least one fault took place"),
        "C03" => (&["commit", "commit-tree", "ref update"], true, "something was committed and a fault took place or several processes overlapped"),
        "C04" => (&["commit", "ref update", "set-head", "reflog-push", "checkout-head", "status", "log"], true, "several processes overlapped on one machine"),
        "C05" => (&[], true, "at least one fault took place in a command"),
        "C06" => (&[], false, "at least one stream was stored and read back"),
        "C07" => (&["insert", "commit"], false, "the same content was stored at least twice under different circumstances"),
        "C08" => (&["status", "compare", "checkout-head"], false, "the tree was compared with a snapshot"),
        "C09" => (&["fetch"], false, "something was fetched"),
        "C10" => (&["checkout"], false, "a checkout was made"),
        "C11" => (&["fetch", "show", "log", "compare", "pretty-print", "walk-tree", "ref update", "commit-tree"], false, "keys were resolved"),
        "C12" => (&["fetch", "show", "pretty-print", "walk-tree", "log"], true, "objects were read after the database file was damaged"),
        "C13" => (&["ref log", "ref update", "set-head", "get-head", "reflog-get", "reflog-push", "commit"], false, "refs or HEAD were changed or read"),
        "C14" => (&[], false, "transactions were made"),
        "C15" => (&["status", "compare", "show", "log", "ref log", "fetch", "commit", "insert"], false, "commands ran beside files that are not theirs"),
        "C16" => (&["commit"], true, "faults took place and ordinary commands followed"),
        "C17" => (&["status", "compare", "commit", "insert"], true, "the cache was damaged, missing or failing and commands ran"),
        "C18" => (&["commit", "insert", "status", "compare", "checkout"], false, "a tree with a database folder or excluded paths was read"),
        "C19" => (&["log", "show"], false, "a history was printed"),
        _ => (&[], false, ""),
    }
}

fn to_the_point(id: &str, e: &Exec, sc: &Scenario) -> bool {
    let (kinds, faults, _) = rule(id);
    let cmds = kinds.is_empty() || kinds.iter().any(|k| e.kinds.contains_key(*k));
    let multi = sc.steps.iter().any(|s| matches!(s, Step::Run { procs, .. } if procs.len() > 1));
    let struck = !e.w.stats.fired.is_empty() || multi;
    e.commands >= 1 && cmds && (!faults || if id == "C04" { multi } else { struck })
}

fn hash_str(h: u64, s: &str) -> u64 {
    let mut h = h;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

fn state_hash(e: &Exec) -> u64 {
    let mut h = 7;
    for (d, r) in &e.repos {
        h = hash_str(h, d);
        h = hash_str(h, &format!("{:?}{:?}{:?}", r.obs.head, r.obs.refs, r.obs.keys.len()));
        for k in &r.obs.keys {
            h = hash_str(h, k);
        }
    }
    h
}

/// The steps come from `src`; what is carried out is recorded with schedules made explicit.
fn drive(machine: &Machine, profile: &str, seed: u64, trace: bool, cov: &mut Cover, src: &mut dyn FnMut(&mut Exec) -> Res<Option<Step>>) -> Res<Done> {
    let mut e = Exec::new(machine, seed);
    if trace {
        e.w.trace = Some(vec![]);
    }
    let start = e.w.clock;
    let mut sc = Scenario { profile: profile.to_string(), seed, machine: machine.clone(), steps: vec![] };
    let mut viols = vec![];
    let mut ahead = 0u64;
    while let Some(st) = src(&mut e)? {
        let before = e.w.clock;
        install(&mut *e.w);
        if std::env::args().any(|a| a == "--steps") { eprintln!("{}", serde_json::to_string(&st).unwrap()); }
        let r = e.step(&st)?;
        if e.w.clock > before {
            ahead += (e.w.clock - before) as u64;
        }
        let mut rec = st;
        let fix = Sched::Fixed(e.w.switches.clone());
        match &mut rec {
            Step::Run { procs, sched } if procs.len() > 1 => {
                let mut h = 11;
                for s in &e.w.switches {
                    h = mix(h ^ (s.proc as u64) << 48 ^ s.at << 8 ^ s.to as u64);
                }
                for p in procs.iter() {
                    h = hash_str(h, p.cmd.name());
                }
                cov.interleavings.insert(h);
                cov.multi += 1;
                *sched = fix;
            }
            Step::Store(crate::store::StoreSpec::Race { sched, .. }) => {
                let mut h = 13;
                for s in &e.w.switches {
                    h = mix(h ^ (s.proc as u64) << 48 ^ s.at << 8 ^ s.to as u64);
                }
                cov.interleavings.insert(h);
                cov.multi += 1;
                *sched = fix;
            }
            _ => {}
        }
        sc.steps.push(rec);
        cov.steps += 1;
        cov.states.insert(state_hash(&e));
        viols = r;
        if !viols.is_empty() {
            break;
        }
    }
    if viols.is_empty() && profile == "C07" {
        let roots: Vec<String> = e.repos.keys().filter_map(|d| d.rfind('/').map(|i| d[..i].to_string())).collect();
        for r in roots {
            viols.extend(e.canonical(&r)?);
        }
    }
    let _ = start;
    cov.runs += 1;
    cov.commands += e.commands;
    for (k, v) in &e.kinds {
        *cov.kinds.entry(k.clone()).or_insert(0) += v;
    }
    cov.sim_ns += ahead;
    cov.calls += e.w.stats.steps;
    cov.switches += e.w.stats.switches;
    if !e.w.stats.fired.is_empty() {
        cov.faulty_runs += 1;
    }
    for (k, v) in &e.w.stats.fired {
        *cov.fired.entry(k.clone()).or_insert(0) += v;
    }
    cov.sites.extend(&e.w.stats.sites);
    if to_the_point(profile, &e, &sc) {
        cov.distinct.insert(e.w.hash);
    }
    let trace = e.w.trace.take().unwrap_or_default();
    Ok(Done { scenario: sc, viols, hash: e.w.hash, log: std::mem::take(&mut e.log), trace })
}

pub fn generate(id: &str, seed: u64, trace: bool, cov: &mut Cover) -> Res<Done> {
    let mut g = Gen::new(id, seed);
    let m = g.machine.clone();
    drive(&m, id, seed, trace, cov, &mut |e| g.next(e))
}

pub fn carry_out(sc: &Scenario, trace: bool, cov: &mut Cover) -> Res<Done> {
    let mut i = 0;
    drive(&sc.machine, &sc.profile, sc.seed, trace, cov, &mut |_| {
        let s = sc.steps.get(i).cloned();
        i += 1;
        Ok(s)
    })
}

// ---- making a failing scenario small ----

fn fails(sc: &Scenario, prop: &str, kind: &str, best: &mut Option<(Done, Viol)>, budget: &mut u32, until: std::time::Instant) -> bool {
    if *budget == 0 || std::time::Instant::now() > until {
        return false;
    }
    *budget -= 1;
    let mut c = Cover::default();
    match carry_out(sc, false, &mut c) {
        Ok(d) => match d.viols.iter().find(|v| v.has(prop) && v.kind == kind).cloned() {
            Some(v) => {
                *best = Some((d, v));
                true
            }
            None => false,
        },
        Err(_) => false,
    }
}

fn variants(st: &Step) -> Vec<Step> {
    let mut out = vec![];
    match st {
        Step::Run { procs, sched } => {
            if procs.len() > 1 {
                for i in 0..procs.len() {
                    let mut p = procs.clone();
                    p.remove(i);
                    let s = if p.len() == 1 { Sched::Fixed(vec![]) } else { sched.clone() };
                    out.push(Step::Run { procs: p, sched: s });
                }
                if let Sched::Fixed(v) = sched {
                    let n = v.len();
                    if n > 1 {
                        out.push(Step::Run { procs: procs.clone(), sched: Sched::Fixed(vec![]) });
                        out.push(Step::Run { procs: procs.clone(), sched: Sched::Fixed(v[..n / 2].to_vec()) });
                        out.push(Step::Run { procs: procs.clone(), sched: Sched::Fixed(v[n / 2..].to_vec()) });
                    }
                    if n < 40 {
                        for i in 0..n {
                            let mut v = v.clone();
                            v.remove(i);
                            out.push(Step::Run { procs: procs.clone(), sched: Sched::Fixed(v) });
                        }
                    }
                }
            }
            for i in 0..procs.len() {
                for f in 0..procs[i].faults.len() {
                    let mut p = procs.clone();
                    p[i].faults.remove(f);
                    out.push(Step::Run { procs: p, sched: sched.clone() });
                }
                if !procs[i].excl.is_empty() {
                    for x in 0..procs[i].excl.len() {
                        let mut p = procs.clone();
                        p[i].excl.remove(x);
                        out.push(Step::Run { procs: p, sched: sched.clone() });
                    }
                }
            }
        }
        Step::Edit { path, op } => {
            let small = |c: &Content| {
                let mut v = vec![];
                if c.size_hint() > 2 {
                    v.push(Content::Lit("x\n".into()));
                }
                v
            };
            match op {
                EditOp::Write(c) => out.extend(small(c).into_iter().map(|c| Step::Edit { path: path.clone(), op: EditOp::Write(c) })),
                EditOp::Append(c) => out.extend(small(c).into_iter().map(|c| Step::Edit { path: path.clone(), op: EditOp::Append(c) })),
                _ => {}
            }
        }
        Step::Stream(sp) => {
            let plain = crate::stream::Cuts { seed: 0, mode: 0, max: 1, intr: 0, err: None };
            if sp.reader != plain {
                out.push(Step::Stream(crate::stream::StreamSpec { reader: plain.clone(), ..sp.clone() }));
            }
            if sp.writer != plain {
                out.push(Step::Stream(crate::stream::StreamSpec { writer: plain, ..sp.clone() }));
            }
            if sp.again.is_some() {
                out.push(Step::Stream(crate::stream::StreamSpec { again: None, ..sp.clone() }));
            }
            match &sp.content {
                Content::Cat(v) if v.len() > 1 => {
                    for i in 0..v.len() {
                        let mut v = v.clone();
                        v.remove(i);
                        out.push(Step::Stream(crate::stream::StreamSpec { content: Content::Cat(v), ..sp.clone() }));
                    }
                }
                Content::Bin { seed, len } if *len > 1 => {
                    out.push(Step::Stream(crate::stream::StreamSpec { content: Content::Bin { seed: *seed, len: len / 2 }, ..sp.clone() }));
                }
                Content::Rep(c, n) if *n > 1 => {
                    out.push(Step::Stream(crate::stream::StreamSpec { content: Content::Rep(c.clone(), n / 2), ..sp.clone() }));
                }
                _ => {}
            }
        }
        Step::Store(crate::store::StoreSpec::Script { db, ops, faults }) => {
            for i in 0..ops.len() {
                let mut o = ops.clone();
                o.remove(i);
                out.push(Step::Store(crate::store::StoreSpec::Script { db: db.clone(), ops: o, faults: faults.clone() }));
            }
            if !faults.is_empty() {
                out.push(Step::Store(crate::store::StoreSpec::Script { db: db.clone(), ops: ops.clone(), faults: vec![] }));
            }
        }
        Step::Store(crate::store::StoreSpec::Race { db, racers, sched }) => {
            for i in 0..racers.len() {
                if racers.len() > 1 {
                    let mut r = racers.clone();
                    r.remove(i);
                    out.push(Step::Store(crate::store::StoreSpec::Race { db: db.clone(), racers: r, sched: sched.clone() }));
                }
                if racers[i].rounds > 1 {
                    let mut r = racers.clone();
                    r[i].rounds -= 1;
                    out.push(Step::Store(crate::store::StoreSpec::Race { db: db.clone(), racers: r, sched: sched.clone() }));
                }
                if !racers[i].faults.is_empty() {
                    let mut r = racers.clone();
                    r[i].faults.clear();
                    out.push(Step::Store(crate::store::StoreSpec::Race { db: db.clone(), racers: r, sched: sched.clone() }));
                }
            }
        }
        _ => {}
    }
    out
}

pub fn shrink(f: &Found, secs: u64) -> Option<Found> {
    let until = std::time::Instant::now() + std::time::Duration::from_secs(secs);
    let (prop, kind) = (f.property.clone(), f.viol.kind.clone());
    let mut best = None;
    let mut budget = 3000u32;
    if !fails(&f.scenario, &prop, &kind, &mut best, &mut budget, until + std::time::Duration::from_secs(60)) {
        return None;
    }
    let mut cur = best.as_ref().unwrap().0.scenario.clone();
    loop {
        let mut better = false;
        // whole blocks of steps
        let mut size = cur.steps.len() / 2;
        while size >= 1 {
            let mut i = 0;
            while i + size <= cur.steps.len() {
                let mut t = cur.clone();
                t.steps.drain(i..i + size);
                if fails(&t, &prop, &kind, &mut best, &mut budget, until) {
                    cur = best.as_ref().unwrap().0.scenario.clone();
                    better = true;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        // the steps themselves
        let mut i = 0;
        while i < cur.steps.len() {
            let mut hit = false;
            for v in variants(&cur.steps[i]) {
                let mut t = cur.clone();
                t.steps[i] = v;
                if fails(&t, &prop, &kind, &mut best, &mut budget, until) {
                    cur = best.as_ref().unwrap().0.scenario.clone();
                    better = true;
                    hit = true;
                    break;
                }
            }
            if !hit {
                i += 1;
            }
        }
        // the machine
        let m = &cur.machine;
        let plain = [
            Machine { salt: 0, ..m.clone() },
            Machine { gran: 1, ..m.clone() },
            Machine { cache_pages: 0, ..m.clone() },
            Machine { reuse: false, ..m.clone() },
            Machine { mounts: vec![], ..m.clone() },
        ];
        for p in plain.iter() {
            if serde_json::to_string(p).ok() != serde_json::to_string(&cur.machine).ok() {
                let t = Scenario { machine: p.clone(), ..cur.clone() };
                if fails(&t, &prop, &kind, &mut best, &mut budget, until) {
                    cur = best.as_ref().unwrap().0.scenario.clone();
                }
            }
        }
        if !better || budget == 0 || std::time::Instant::now() > until {
            break;
        }
    }
    let (d, v) = best?;
    Some(Found { property: prop, viol: v, hash: format!("{:016x}", d.hash), scenario: d.scenario, log: d.log })
}
