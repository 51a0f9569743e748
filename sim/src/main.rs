#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
mod core;
mod gen;
mod geom;
mod json;
mod observe;
mod plan;
mod pool;
mod proc;
mod rng;
mod scalar;
mod scen;
mod shrink;

use json::J;
use plan::*;
use proc::*;
use rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const BUILD: &str = if cfg!(feature = "libstd") { "std" } else { "nostd" };
/// CPU seconds a single simulated execution may take before it counts as hung.
const CPU: u64 = 12;
const CPU_CONFIRM: u64 = 45;
const CPU_SHRINK: u64 = 3;
/// Every so many runs the same plan is executed again and compared.
const RECHECK: u64 = 40;

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

fn plan_for(prop: &str, seed: u64, idx: u64) -> Plan {
    let s = mix(mix(seed ^ BUILD.len() as u64) ^ mix(idx ^ mix(prop.bytes().fold(7u64, |a, b| mix(a ^ b as u64)))));
    let mut r = Rng::new(s);
    let mut p = Plan::new(prop, s);
    p.set("log_level", 0);
    scen::gen(prop, &mut r, &mut p);
    p
}

#[derive(Default)]
struct Agg {
    n: BTreeMap<String, u64>,
    distinct: BTreeSet<u64>,
    states: BTreeSet<u64>,
    samples: Vec<String>,
    found: Option<(u64, String, String, String)>,
    error: Option<String>,
}

impl Agg {
    fn add(&mut self, k: &str, v: u64) {
        if v > 0 {
            *self.n.entry(k.into()).or_insert(0) += v;
        }
    }
    fn write(&self) -> Vec<u8> {
        let mut s = String::new();
        for (k, v) in &self.n {
            s.push_str(&format!("K {v} {k}\n"));
        }
        for x in &self.distinct {
            s.push_str(&format!("D {x}\n"));
        }
        for x in &self.states {
            s.push_str(&format!("S {x}\n"));
        }
        for x in &self.samples {
            s.push_str(&format!("M {}\n", x.replace('\n', "")));
        }
        if let Some((i, c, m, p)) = &self.found {
            s.push_str(&format!("V {i} {c}\nW {m}\nP {}\n", p.replace('\n', "")));
        }
        if let Some(e) = &self.error {
            s.push_str(&format!("X {e}\n"));
        }
        s.push_str("E\n");
        s.into_bytes()
    }
    fn merge(&mut self, b: &[u8]) -> bool {
        let Ok(s) = std::str::from_utf8(b) else { return false };
        if !s.ends_with("E\n") {
            return false;
        }
        let mut f: (u64, String, String, String) = Default::default();
        let mut has = false;
        for l in s.lines() {
            let (t, r) = l.split_once(' ').unwrap_or((l, ""));
            match t {
                "K" => {
                    let (v, k) = r.split_once(' ').unwrap();
                    self.add(k, v.parse().unwrap());
                }
                "D" => {
                    self.distinct.insert(r.parse().unwrap());
                }
                "S" => {
                    self.states.insert(r.parse().unwrap());
                }
                "M" => self.samples.push(r.into()),
                "V" => {
                    has = true;
                    let (i, c) = r.split_once(' ').unwrap();
                    f.0 = i.parse().unwrap();
                    f.1 = c.into();
                }
                "W" => f.2 = r.into(),
                "P" => f.3 = r.into(),
                "X" => self.error = Some(r.into()),
                _ => {}
            }
        }
        if has && self.found.as_ref().map_or(true, |g| f.0 < g.0) {
            self.found = Some(f);
        }
        true
    }
    fn absorb(&mut self, p: &Plan, o: &Outcome) {
        self.add("runs", 1);
        self.add("steps", o.step);
        self.add("simulated_us", o.time_us);
        self.add("switches", o.switches);
        self.add("switches_inside_library", o.inlib);
        self.add("operations", o.ops);
        self.add("library_calls", o.libcalls);
        self.add("entropy_reads", o.ent);
        for k in 0..NK {
            self.add(&format!("point:{}", KIND_NAMES[k]), o.points[k]);
            self.add(&format!("fault:crash at {} point", KIND_NAMES[k]), o.fired[k]);
        }
        let mut env = 0;
        for (k, v) in &p.env {
            self.add(&format!("fault:{k}"), *v);
            env += v;
        }
        for (k, v) in &o.stats {
            self.add(&format!("probe:{k}"), *v);
        }
        let fired: u64 = o.fired.iter().sum();
        if o.inlib > 0 || fired > 0 || env > 0 {
            self.add("nontrivial", 1);
            self.distinct.insert(mix(o.sched ^ mix(o.hash)));
        }
        for s in &o.states {
            if self.states.len() < 200_000 {
                self.states.insert(*s);
            }
        }
        if self.samples.len() < 2 && fired + env + o.inlib > 0 {
            let t = fix_schedule(p, o).to_json().to_string();
            if t.len() < 6000 {
                self.samples.push(t);
            }
        }
    }
}

fn worker(prop: &str, seed: u64, w: u64, nw: u64, runs: u64, end: Instant, stop: &AtomicU64) -> Agg {
    let mut a = Agg::default();
    let mut i = w;
    while i < runs && i < stop.load(SeqCst) && Instant::now() < end {
        let p = plan_for(prop, seed, i);
        let mut o = execute(&p, false, CPU);
        if matches!(&o.violation, Some((c, _)) if c == "hang" && o.step == 0) {
            // Only believe a hang after a longer second attempt.
            o = execute(&p, false, CPU_CONFIRM);
        }
        a.absorb(&p, &o);
        if let Some((c, m)) = &o.violation {
            if c == "HARNESS" {
                a.error = Some(format!("run {i}: {m}"));
                stop.fetch_min(0, SeqCst);
                return a;
            }
            stop.fetch_min(i, SeqCst);
            let f = fix_schedule(&p, &o);
            a.found = Some((i, c.clone(), m.clone(), f.to_json().to_string()));
            return a;
        }
        if i % RECHECK == 3 {
            let f = fix_schedule(&p, &o);
            let o2 = execute(&f, false, CPU);
            a.add("determinism_rechecks", 1);
            if (o2.hash, o2.step, o2.switches) != (o.hash, o.step, o.switches) {
                a.add("determinism_mismatches", 1);
                a.error = Some(format!(
                    "run {i}: the same plan executed twice differs ({:x}/{}/{} then {:x}/{}/{})",
                    o.hash, o.step, o.switches, o2.hash, o2.step, o2.switches
                ));
            }
        }
        i += nw;
    }
    a
}

fn search(prop: &str, seed: u64, nw: u64, runs: u64, secs: f64) -> Agg {
    let stop = unsafe {
        &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const AtomicU64)
    };
    stop.store(u64::MAX, SeqCst);
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let cs: Vec<Child> = (0..nw)
        .map(|w| {
            spawn(0, || {
                proc::pin(Some(w));
                worker(prop, seed, w, nw, runs, end, stop).write()
            })
        })
        .collect();
    let mut a = Agg::default();
    for c in cs {
        let (b, e) = c.finish(i32::MAX);
        if !a.merge(&b) {
            a.error = Some(format!("a worker ended with {e:?}"));
        }
    }
    a
}

/// Search, and on a violation minimise it and write the replay file.
fn part(prop: &str, runs: u64, secs: f64, seed: u64, nw: u64, out: &str) {
    let mut a = search(prop, seed, nw, runs, secs);
    let mut replay = String::new();
    if let Some((i, class, msg, pj)) = a.found.clone() {
        let p = J::parse(&pj).and_then(|j| Plan::from_json(&j)).expect("plan");
        let mut sh = shrink::Shrinker::new(&class, CPU_SHRINK, 45);
        let before = (p.tasks.len(), p.ops(), p.units(), p.nfaults(), p.nsw());
        let q = sh.run(p.clone());
        let dir = std::env::var("VSIM_REPLAYS").unwrap_or("/verif/replays".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{BUILD}-{seed}-{i}.json");
        let mut done = false;
        for cand in [&q, &p] {
            let o = execute(cand, true, CPU_SHRINK * 2);
            let m = o.violation.clone().map(|v| v.1).unwrap_or(msg.clone());
            let j = cand
                .to_json()
                .set("violation", J::obj().set("class", J::s(&*class)).set("what", J::s(m)))
                .set("found", J::obj().set("verif_seed", J::s(seed.to_string())).set("run", J::Int(i as i64)))
                .set("event_log", J::Arr(o.trace.iter().map(|t| J::s(&**t)).collect()));
            let _ = std::fs::write(&path, j.to_string() + "\n");
            // Must fail the same way in a fresh process.
            let ok = std::process::Command::new("/proc/self/exe")
                .args(["replay", &path])
                .env_remove("VSIM_REEXEC")
                .output();
            if let Ok(x) = ok {
                if x.status.code() == Some(1) {
                    done = true;
                    break;
                }
            }
        }
        let after = (q.tasks.len(), q.ops(), q.units(), q.nfaults(), q.nsw());
        eprintln!("{prop} [{BUILD}] run {i}: {class}: {msg}");
        eprintln!("  minimised (tasks, ops, payload units, faults, switches) {before:?} -> {after:?} in {} trials", sh.trials);
        if !done {
            eprintln!("  warning: the violation did not reproduce from its replay file");
        }
        a.add("replay_reproduced", done as u64);
        replay = path;
    }
    let mut t = a.write();
    if !replay.is_empty() {
        t.truncate(t.len() - 2);
        t.extend_from_slice(format!("Q {replay}\nE\n").as_bytes());
    }
    std::fs::write(out, t).expect("write part");
}

fn replay(path: &str) -> i32 {
    let Some(j) = std::fs::read_to_string(path).ok().and_then(|s| J::parse(&s)) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let Some(p) = Plan::from_json(&j) else {
        eprintln!("not a plan: {path}");
        return 2;
    };
    if p.build != BUILD {
        eprintln!("{path} is for the {} build", p.build);
        return 2;
    }
    let mut o = execute(&p, true, CPU_SHRINK * 2);
    if matches!(&o.violation, Some((c, _)) if c == "hang" && o.step == 0) {
        o = execute(&p, true, CPU);
    }
    for t in &o.trace {
        println!("{t}");
    }
    println!("event log hash {:016x}, {} steps, {} switches", o.hash, o.step, o.switches);
    match o.violation {
        Some((c, m)) if c == "HARNESS" => {
            eprintln!("harness error: {m}");
            2
        }
        Some((c, m)) => {
            println!("violation of {}: {c}: {m}", p.prop);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Every plan twice, with other worker processes in between: logs must agree.
fn determinism(prop: &str, n: u64, seed: u64) -> i32 {
    let mut bad = 0;
    let run = |nw: u64| -> BTreeMap<u64, String> {
        let cs: Vec<Child> = (0..nw)
            .map(|w| {
                spawn(0, || {
                    let mut s = String::new();
                    let mut i = w;
                    while i < n {
                        let p = plan_for(prop, seed, i);
                        let o = execute(&p, true, CPU);
                        let t = o.trace.iter().fold(0u64, |a, l| {
                            l.bytes().fold(a, |a, b| mix(a ^ b as u64))
                        });
                        s.push_str(&format!("{i} {:x} {:x} {} {}\n", o.hash, t, o.step, o.switches));
                        i += nw;
                    }
                    s.into_bytes()
                })
            })
            .collect();
        let mut m = BTreeMap::new();
        for c in cs {
            let (b, _) = c.finish(i32::MAX);
            for l in String::from_utf8_lossy(&b).lines() {
                let (k, v) = l.split_once(' ').unwrap();
                m.insert(k.parse().unwrap(), v.to_string());
            }
        }
        m
    };
    let (a, b, c) = (run(8), run(3), run(16));
    for i in 0..n {
        if a.get(&i).is_none() || a.get(&i) != b.get(&i) || a.get(&i) != c.get(&i) {
            bad += 1;
            println!("run {i} differs: {:?} {:?} {:?}", a.get(&i), b.get(&i), c.get(&i));
        }
    }
    println!("{prop} [{BUILD}]: {n} plans x 3 (8, 3 and 16 workers), {bad} differ");
    (bad > 0) as i32 * 2
}

fn check(prop: &str, tier: &str, seed: u64, other: &str) -> i32 {
    let t0 = Instant::now();
    let (runs, secs, split) = scen::budget(prop, tier);
    let runs = std::env::var("VSIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(runs);
    let tmp = std::env::temp_dir().join(format!("vsim-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&tmp).expect("tmp");
    let mut a = Agg::default();
    let mut per = vec![];
    let mut replays: Vec<String> = vec![];
    let exe = std::env::current_exe().unwrap();
    let split = if other == "-" { 1.0 } else { split };
    for (b, bin, share) in [("std", exe.to_str().unwrap(), split), ("nostd", other, 1.0 - split)] {
        let n = (runs as f64 * share) as u64;
        if n == 0 {
            continue;
        }
        println!("property={prop} tier={tier} build={b} VERIF_SEED={seed} runs<={n}");
        let out = tmp.join(b);
        let t1 = Instant::now();
        let st = std::process::Command::new(bin)
            .args(["part", prop, &n.to_string(), &format!("{}", secs * share), &seed.to_string(), out.to_str().unwrap()])
            .env_remove("VSIM_REEXEC")
            .env("VSIM_OTHER", if b == "std" { other } else { exe.to_str().unwrap() })
            .status();
        let w = t1.elapsed().as_secs_f64();
        let mut x = Agg::default();
        let bytes = std::fs::read(&out).unwrap_or_default();
        if !matches!(st, Ok(s) if s.success()) || !x.merge(&bytes) {
            eprintln!("{prop}: the {b} search did not finish: {st:?}");
            let _ = std::fs::remove_dir_all(&tmp);
            return 2;
        }
        for l in String::from_utf8_lossy(&bytes).lines() {
            if let Some(p) = l.strip_prefix("Q ") {
                replays.push(p.into());
            }
        }
        let g = |k: &str| x.n.get(k).copied().unwrap_or(0);
        per.push(
            J::obj()
                .set("build", J::s(b))
                .set("runs", J::Int(g("runs") as i64))
                .set("wall_s", J::f((w * 100.0).round() / 100.0))
                .set("runs_per_hour", J::f((g("runs") as f64 / w * 3600.0).round()))
                .set("distinct_executions", J::Int(x.distinct.len() as i64)),
        );
        a.merge(&bytes);
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let g = |k: &str| a.n.get(k).copied().unwrap_or(0);
    let wall = t0.elapsed().as_secs_f64();
    let group = |pre: &str| {
        let mut o = J::obj();
        for (k, v) in &a.n {
            if let Some(n) = k.strip_prefix(pre) {
                o.put(n, J::Int(*v as i64));
            }
        }
        o
    };
    let listed = std::fs::read_to_string("/verif/known-findings.txt").unwrap_or_default();
    for (name, classes, p) in scen::known(prop) {
        let Some((c, m)) = execute(&p, false, CPU).violation else { continue };
        let head = format!("known: property={prop} {name} ");
        match listed.lines().find_map(|l| l.strip_prefix(head.as_str())) {
            Some(what) if classes.contains(&c.as_str()) => println!("KNOWN-FINDING: property={prop} {name}: {what}"),
            _ => {
                let path = format!("/verif/replays/{prop}-{BUILD}-{name}.json");
                let j = p.to_json().set("violation", J::obj().set("class", J::s(&*c)).set("what", J::s(&*m)));
                let _ = std::fs::create_dir_all("/verif/replays");
                let _ = std::fs::write(&path, j.to_string() + "\n");
                eprintln!("{prop} [{BUILD}] {name}: {c}: {m}");
                replays.push(path);
            }
        }
    }
    let d = scen::describe(prop);
    let cov = J::obj()
        .set("evaluations", J::Int(g("runs") as i64))
        .set("distinct_nontrivial", J::Int(a.distinct.len() as i64))
        .set("rule", J::s(format!("One evaluation is one simulated execution of a seeded plan ({}). It is non-trivial if a task was preempted inside a library call, an injected crash or allocation failure fired, or the environment faulted (loss, duplication, reordering, corruption, restart); two are distinct if the hash of their schedule, fault positions and complete event log differs.", d.workload)))
        .set("samples", J::Arr(a.samples.iter().take(3).map(|s| J::parse(s).unwrap_or(J::Null)).collect()))
        .set("simulated_runs_per_hour", J::f((g("runs") as f64 / wall * 3600.0).round()))
        .set("seeds", J::Int(g("runs") as i64))
        .set("simulated_seconds", J::f(g("simulated_us") as f64 / 1e6))
        .set("steps", J::Int(g("steps") as i64))
        .set("faults_fired", group("fault:"))
        .set("points_seen", group("point:"))
        .set("probes", group("probe:"))
        .set("task_switches", J::Int(g("switches") as i64))
        .set("task_switches_inside_library_calls", J::Int(g("switches_inside_library") as i64))
        .set("operations", J::Int(g("operations") as i64))
        .set("library_calls", J::Int(g("library_calls") as i64))
        .set("nontrivial_runs", J::Int(g("nontrivial") as i64))
        .set("distinct_states", J::Int(a.states.len() as i64))
        .set("states_measure", J::s(d.states))
        .set("determinism_rechecks", J::Int(g("determinism_rechecks") as i64))
        .set("determinism_mismatches", J::Int(g("determinism_mismatches") as i64))
        .set("builds", J::Arr(per))
        .set("components", J::obj()
            .set("real", J::Arr(d.real.iter().map(|x| J::s(*x)).collect()))
            .set("stub", J::Arr(d.stub.iter().map(|x| J::s(*x)).collect())));
    let ev = J::obj()
        .set("property", J::s(prop))
        .set("tier", J::s(tier))
        .set("seed", J::Int(seed as i64))
        .set("level", J::s("exploration"))
        .set("coverage", cov)
        .set("assumptions", J::Arr(d.assume.iter().map(|x| J::s(*x)).collect()))
        .set("wall_s", J::f((wall * 100.0).round() / 100.0))
        .set("violations", J::Int(replays.len() as i64));
    let _ = std::fs::create_dir_all("/verif/evidence");
    if let Err(e) = std::fs::write(format!("/verif/evidence/{prop}.json"), ev.to_string() + "\n") {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    if !replays.is_empty() {
        for r in &replays {
            println!("VIOLATION property={prop} replay={r}");
        }
        return 1;
    }
    if let Some(e) = &a.error {
        eprintln!("{prop}: {e}");
        return 2;
    }
    println!(
        "property={prop} held on {} simulated runs ({} distinct), {:.1} s",
        g("runs"),
        a.distinct.len(),
        wall
    );
    0
}

fn main() {
    no_aslr();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(1);
    let nw = std::env::var("VSIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let code = match s(1).as_str() {
        "check" => check(&s(2), &s(3), n(4), &s(5)),
        "part" => {
            part(&s(2), n(3), s(4).parse().unwrap_or(60.0), n(5), nw, &s(6));
            0
        }
        "replay" => replay(&s(2)),
        "determinism" => determinism(&s(2), n(3), n(4)),
        "known" => {
            for (name, _, p) in scen::known(&s(2)) {
                println!("{name}: {:?}", execute(&p, false, CPU).violation);
            }
            0
        }
        "answer" => {
            let mut t = String::new();
            let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut t);
            match J::parse(&t).and_then(|j| Plan::from_json(&j)) {
                Some(p) => {
                    core::process_init();
                    scen::iso::answers(&p);
                    0
                }
                None => 2,
            }
        }
        "show" => {
            println!("{}", plan_for(&s(2), n(3), n(4)).to_json().to_string());
            0
        }
        "run" => {
            // One run, traced.
            let p = plan_for(&s(2), n(3), n(4));
            let o = execute(&p, true, CPU);
            for t in &o.trace {
                println!("{t}");
            }
            println!("{:?}", Outcome { trace: vec![], recorded: vec![], states: vec![], ..o });
            0
        }
        _ => {
            eprintln!("usage: vsim check|part|replay|determinism|run ...");
            2
        }
    };
    std::process::exit(code);
}
