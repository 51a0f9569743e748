//! C10, C11, C12: results depend on the arguments only - not on neighbours,
//! history, crashes, entropy, the clock, or how closely the library is watched.
use super::*;
use crate::observe;
use crate::pool::{self, Bufs};
use crate::proc::fork_value;
use mapping_algorithms::point_clouds::generate_point_cloud;
use std::sync::atomic::Ordering::Relaxed;

fn is_env(k: &str) -> bool {
    k.starts_with('%')
}

fn hex(b: &[u8]) -> String {
    let v: Vec<String> = b
        .chunks(8)
        .take(8)
        .map(|c| match <[u8; 8]>::try_from(c) {
            Ok(x) => {
                let u = u64::from_le_bytes(x);
                let f = f64::from_bits(u);
                if u < 1 << 20 {
                    format!("{u}")
                } else {
                    format!("{f:?}")
                }
            }
            Err(_) => format!("{:?}", String::from_utf8_lossy(c)),
        })
        .collect();
    format!("[{}{}]", v.join(" "), if b.len() > 64 { " ..." } else { "" })
}

pub fn exec(plan: &Plan) {
    // The answer each call gives alone, in a process that did nothing before,
    // unobserved.
    let cross = plan.prop == "C20";
    let mut base: Vec<Vec<Vec<u8>>> = vec![];
    let mut memo: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    if cross {
        match other_build(plan) {
            Some(v) => base = v,
            None => {
                hit("no other build to compare with");
                return;
            }
        }
    }
    for t in plan.tasks.iter().filter(|_| !cross) {
        let mut v = vec![];
        for op in t {
            if is_env(&op.k) {
                v.push(vec![]);
                continue;
            }
            let key = format!("{} {:?} {:?} {:?}", op.k, op.i, op.p, op.f);
            let b = memo.entry(key).or_insert_with(|| {
                match fork_value(|| {
                    observe::set_log_level(0);
                    set_entropy(0x1234_5678);
                    raw(op)
                }) {
                    Some(b) => b,
                    None => violate("solo-call-died", format!("{} alone in a fresh process did not return", op.k)),
                }
            });
            // The solo run itself: as many points as asked for, all in range.
            if op.k == "gpc" && op.p[0] <= op.p[1] {
                if b.starts_with(b"panic") {
                    violate("generate-panicked", format!("generate_point_cloud of {} points panicked on the ranges of {:?}", op.iv(2), op));
                }
                let n = (op.iv(2).max(0) as u64).to_le_bytes();
                ensure!(b[8..16] == n, "wrong-count", "asked for {} points, generate_point_cloud gave {}", op.iv(2), hex(&b[8..16]));
                ensure!(b[..8] == 1u64.to_le_bytes(), "out-of-range", "generate_point_cloud of {} points in {:?} left the range: {}", op.iv(2), op.p, hex(b));
                hit("generated cloud checked against its ranges");
            }
            v.push(b.clone());
        }
        base.push(v);
    }
    // A long-lived process: many calls have been made before.
    if plan.par("warm") > 0 {
        let ops: Vec<&Op> = plan.tasks.iter().flatten().filter(|o| !is_env(&o.k) && o.f.len() <= 24).take(4).collect();
        let mut first: Vec<Vec<u8>> = vec![];
        let n = if ops.is_empty() { 0 } else { plan.par("warm") as usize };
        observe::set_log_level(0);
        for i in 0..n {
            let op = ops[i % ops.len()];
            let got = raw(op);
            if first.len() < ops.len() {
                first.push(got);
                continue;
            }
            ensure!(
                got == first[i % ops.len()],
                "depends-on-history",
                "{} {:?} gave {} the first time and {} as call number {i}",
                op.k,
                op.i,
                hex(&first[i % ops.len()]),
                hex(&got)
            );
        }
        if n > 0 {
            hit("process that has made many calls");
        }
        observe::set_log_level(plan.par("log_level"));
    }
    run_tasks_with(
        plan,
        |_| Unsent(Bufs::default()),
        |t, oi, op, b| {
            if is_env(&op.k) {
                environment(op);
                return;
            }
            let want = &base[t][oi];
            for _ in 0..8 {
                let bufs = &mut b.0;
                match lib(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(op, bufs)))) {
                    Ok(Ok(got)) => {
                        note(got.iter().fold(0u64, |a, x| rng::mix(a ^ *x as u64)));
                        if cross {
                            agree(op, &got, want);
                            break;
                        }
                        ensure!(
                            got == *want,
                            "depends-on-context",
                            "{} {:?} gave {} here and {} alone in a fresh process",
                            op.k,
                            op.i,
                            hex(&got),
                            hex(want)
                        );
                        hit("call compared with its solo run");
                        break;
                    }
                    Ok(Err(p)) => {
                        if p.is::<SimCrash>() {
                            suspend();
                            hit("call crashed and was repeated");
                            b.0 = Bufs::default();
                            continue;
                        }
                        // A panic of the library itself has to be reproducible too.
                        suspend();
                        let m = payload_text(&p);
                        if resumable(&p) {
                            std::panic::resume_unwind(p);
                        }
                        let got = format!("panic {m}").into_bytes();
                        if cross {
                            agree(op, &got, want);
                            b.0 = Bufs::default();
                            break;
                        }
                        ensure!(
                            got == *want,
                            "depends-on-context",
                            "{} {:?} panicked here ({m}) and gave {} alone",
                            op.k,
                            op.i,
                            hex(want)
                        );
                        b.0 = Bufs::default();
                        break;
                    }
                    Err(e) => {
                        must::<()>(Err(e), &op.k);
                    }
                }
            }
            state(rng::mix(want.iter().fold(op.k.len() as u64, |a, x| rng::mix(a ^ *x as u64))));
        },
        |_, _| {},
    );
}

/// Print the answer of every call of a plan, one line each.
pub fn answers(p: &Plan) {
    use std::io::Write;
    let mut o = String::new();
    for op in p.tasks.iter().flatten().filter(|o| !is_env(&o.k)) {
        for b in raw(op) {
            o.push_str(&format!("{b:02x}"));
        }
        o.push('\n');
    }
    let _ = std::io::stdout().write_all(o.as_bytes());
}

/// The answers the other configuration of the library gives to the plan's calls.
fn other_build(plan: &Plan) -> Option<Vec<Vec<Vec<u8>>>> {
    use std::io::Write;
    let (mine, theirs) = if crate::BUILD == "std" { ("/std/", "/nostd/") } else { ("/nostd/", "/std/") };
    let bin = match std::env::var("VSIM_OTHER") {
        Ok(x) => x,
        Err(_) => std::env::current_exe().ok()?.to_str()?.replace(mine, theirs),
    };
    if bin == "-" {
        return None;
    }
    let mut c = match std::process::Command::new(&bin)
        .arg("answer")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => violate("HARNESS", format!("cannot start {bin}: {e}")),
    };
    let mut q = plan.clone();
    q.tasks.iter_mut().flatten().for_each(|o| {
        o.sw.clear();
        o.faults.clear();
    });
    let t = q.to_json().to_string();
    let _ = c.stdin.take().map(|mut i| i.write_all(t.as_bytes()));
    let o = match c.wait_with_output() {
        Ok(o) if o.status.success() => o.stdout,
        o => violate("other-build-died", format!("the other build did not answer: {:?}", o.map(|o| o.status))),
    };
    let o = String::from_utf8_lossy(&o);
    let mut lines = o.lines();
    let mut all = vec![];
    for t in &plan.tasks {
        let mut v = vec![];
        for op in t {
            if is_env(&op.k) {
                v.push(vec![]);
                continue;
            }
            let l = lines.next().unwrap_or("").as_bytes();
            v.push(l.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect());
        }
        all.push(v);
    }
    Some(all)
}

/// An answer taken apart into what has to be the same and what may differ by
/// rounding: the builds use different sine, cosine and arc tangent functions.
fn parts(op: &Op, b: &[u8]) -> (Vec<u8>, Vec<f64>) {
    if b.starts_with(b"panic") {
        return (b"panic".to_vec(), vec![]);
    }
    let nums = |b: &[u8]| -> Vec<f64> {
        b.chunks_exact(8).map(|c| f64::from_bits(u64::from_le_bytes(c.try_into().unwrap()))).collect()
    };
    let dim = if op.iv(1) == 3 { 3 } else { 2 };
    let iso = |b: &[u8]| -> Vec<f64> {
        let v = nums(b);
        let k = if dim == 3 { 4 } else { 2 };
        // A quaternion and its negative are the same rotation.
        let mut o: Vec<f64> = (0..k).flat_map(|i| (0..k).map(move |j| (i, j))).map(|(i, j)| v[i] * v[j]).collect();
        if dim == 2 {
            o = v[..2].to_vec();
        }
        o.extend(&v[k..]);
        o
    };
    let niso = 8 * if dim == 3 { 7 } else { 4 };
    match op.k.as_str() {
        "hav" => (vec![], nums(b)),
        "bea" => (vec![], nums(b).iter().flat_map(|x| [x.sin(), x.cos()]).collect()),
        "tr" => (b[..8].to_vec(), nums(&b[8..])),
        "icp" if b.len() == 16 + niso => {
            let mut f = nums(&b[8..16]);
            f.extend(iso(&b[16..]));
            (b[..8].to_vec(), f)
        }
        "icpi" => {
            let (mut d, mut f, mut at) = (vec![], vec![], 0);
            let n = op.f.len() / dim * dim;
            for _ in 0..2 {
                // The error's name, or the value.
                match ["IterationDidNotConverge", "NoNearestNeighbour"].iter().find(|e| b[at..].starts_with(e.as_bytes())) {
                    Some(e) => {
                        d.extend(e.bytes());
                        at += e.len();
                    }
                    None => {
                        f.extend(nums(&b[at..at + 8]));
                        d.push(1);
                        at += 8;
                    }
                }
                f.extend(nums(&b[at..at + 8]));
                at += 16;
                f.extend(nums(&b[at..at + 8 * n]));
                at += 8 * n;
                f.extend(iso(&b[at..at + niso]));
                at += niso;
            }
            (d, f)
        }
        _ => (b.to_vec(), vec![]),
    }
}

/// How far apart two answers are: infinitely unless only roundings differ.
fn apart(op: &Op, a: &[u8], b: &[u8]) -> f64 {
    if a == b {
        return 0.0;
    }
    let ((d, f), (e, g)) = (parts(op, a), parts(op, b));
    if d != e || f.len() != g.len() {
        return f64::INFINITY;
    }
    let big = f.iter().chain(&g).filter(|x| x.abs() < 1e30).fold(1f64, |m, x| m.max(x.abs()));
    f.iter()
        .zip(&g)
        .map(|(x, y)| if x == y || x.is_nan() && y.is_nan() { 0.0 } else { (x - y).abs() / big })
        .fold(0.0, |m: f64, x| if x.is_nan() { f64::INFINITY } else { m.max(x) })
}

fn agree(op: &Op, got: &[u8], want: &[u8]) {
    let (tol, eps) = if op.iv(0) == 1 { (2e-4, 4e-6) } else { (1e-7, 1e-14) };
    hit("call compared with the other build");
    if apart(op, got, want) <= tol {
        return;
    }
    if !parts(op, want).1.is_empty() || matches!(op.k.as_str(), "icp" | "icpi") {
        // Does rounding of the input alone move the answer as far?
        let mut r = Rng::new(0x5EED);
        for _ in 0..12 {
            let mut o = op.clone();
            let tail = if matches!(op.k.as_str(), "icp" | "icpi") { 4.min(o.p.len()) } else { 0 };
            for x in o.f.iter_mut().chain(o.p[tail..].iter_mut()) {
                *x += x.abs().max(0.01) * eps * r.uni(-1.0, 1.0);
            }
            if apart(op, got, &raw(&o)) > tol / 2.0 {
                hit("answer that hangs on a rounding");
                return;
            }
        }
    }
    violate(
        "builds-disagree",
        format!("{} {:?} gave {} in the {} build and {} in the other", op.k, op.i, hex(got), crate::BUILD, hex(want)),
    );
}

fn raw(op: &Op) -> Vec<u8> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut b = Bufs::default();
        call(op, &mut b)
    }));
    match r {
        Ok(v) => v,
        Err(p) => format!("panic {}", payload_text(&p)).into_bytes(),
    }
}

pub fn call(op: &Op, b: &mut Bufs) -> Vec<u8> {
    if op.k == "gpc" {
        return gpc(op);
    }
    pool::call(op, b)
}

fn gpc(op: &Op) -> Vec<u8> {
    fn g<T, const N: usize>(op: &Op, cv: fn(f64) -> T) -> Vec<u8>
    where
        T: Sc + nalgebra::Scalar + rand_like::U,
    {
        let n = op.iv(2).max(0) as usize;
        let (lo, hi): (Vec<T>, Vec<T>) = outside(|| {
            (0..N)
                .map(|k| match op.iv(3) {
                    0 => (op.p[0] - k as f64, op.p[1] + k as f64),
                    1 => (op.p[0], op.p[1]),
                    _ => {
                        // nothing in common
                        let d = (op.p[1] - op.p[0] + 1.0) * k as f64;
                        (op.p[0] + d, op.p[1] + d)
                    }
                })
                .map(|(l, h)| (cv(l), cv(h)))
                .unzip()
        });
        let v = rand_like::U::make::<N>(n, &lo, &hi);
        outside(|| {
            let mut o = vec![];
            let ok = v.len() == n
                && v.iter().all(|p| {
                    let a = arr::<T, N>(p);
                    (0..N).all(|k| a[k] >= lo[k].to() && a[k] <= hi[k].to())
                });
            o.extend_from_slice(&(ok as u64).to_le_bytes());
            o.extend_from_slice(&(v.len() as u64).to_le_bytes());
            for p in &v {
                for x in arr::<T, N>(p) {
                    o.extend_from_slice(&x.to_bits().to_le_bytes());
                }
            }
            o
        })
    }
    match (op.iv(0), op.iv(1)) {
        (1, 2) => g::<f32, 2>(op, |x| x as f32),
        (1, _) => g::<f32, 3>(op, |x| x as f32),
        (2, 1) => g::<f64, 1>(op, |x| x),
        (2, 2) => g::<f64, 2>(op, |x| x),
        (2, 3) => g::<f64, 3>(op, |x| x),
        (2, 4) => g::<f64, 4>(op, |x| x),
        (2, _) => g::<f64, 7>(op, |x| x),
        (3, _) => g::<i32, 2>(op, |x| x as i32),
        (5, 1) => g::<u8, 1>(op, |x| x as u8),
        (5, _) => g::<u8, 3>(op, |x| x as u8),
        (6, _) => g::<i64, 2>(op, |x| x as i64),
        (7, _) => g::<usize, 2>(op, |x| x as usize),
        (8, _) => g::<i8, 2>(op, |x| x as i8),
        _ => g::<i16, 3>(op, |x| x as i16),
    }
}

mod rand_like {
    use super::*;
    pub trait U: nalgebra::Scalar {
        fn make<const N: usize>(n: usize, lo: &[Self], hi: &[Self]) -> Vec<nalgebra::Point<Self, N>>;
    }
    macro_rules! u {
        ($($t:ty)*) => {$( impl U for $t {
            fn make<const N: usize>(n: usize, lo: &[$t], hi: &[$t]) -> Vec<nalgebra::Point<$t, N>> {
                generate_point_cloud(n, std::array::from_fn::<_, N, _>(|k| lo[k]..=hi[k]))
            }
        } )*};
    }
    u! { f32 f64 i32 i16 u8 i64 usize i8 }
}

/// Things that change around the library while it runs.
fn environment(op: &Op) {
    match op.k.as_str() {
        "%log" => {
            observe::set_log_level(op.iv(0));
            hit("log level changed");
        }
        "%span" => {
            observe::SPAN_LEVEL.store(op.iv(0) as u64, Relaxed);
            hit("span level changed");
        }
        "%reent" => {
            observe::LOG_REENTER.store(op.iv(0) != 0, Relaxed);
            hit("logger re-entry toggled");
        }
        "%ent" => {
            set_entropy(op.iv(0) as u64);
            hit("entropy source changed");
        }
        "%clock" => {
            jump_clock(op.iv(0));
            hit("clock jumped");
        }
        // Hash maps of the program around the library move the per-thread keys.
        "%maps" => {
            for _ in 0..op.iv(0) {
                let mut m = std::collections::HashMap::new();
                m.insert(1, 2);
                std::hint::black_box(&m);
            }
            hit("unrelated hash maps created");
        }
        _ => {}
    }
}

fn kinds(r: &mut Rng, p: &Plan) -> Vec<Kind> {
    let mut v = vec![if p.spans { Kind::Span } else { Kind::Alloc }];
    if p.par("log_level") == 5 {
        v.push(Kind::Log);
    }
    if r.chance(0.2) {
        v.clear();
    }
    v
}

pub fn gen_c10(r: &mut Rng, p: &mut Plan) {
    let tasks = 1 + r.us(4);
    gen::sched(r, p, tasks);
    p.set("log_level", if r.chance(0.5) { 5 } else { 0 });
    match r.us(500) {
        0..=8 => p.set("warm", r.logu(3000) as i64),
        9 => p.set("warm", r.logu(20000) as i64),
        _ => {}
    }
    let ks = kinds(r, p);
    // Swarm: few kinds of calls per run, so that they meet.
    let k = 1 + r.us(4);
    let names: Vec<&str> = if r.chance(0.2) {
        pool::NAMES.to_vec()
    } else {
        (0..k).map(|_| *r.pick(pool::NAMES)).collect()
    };
    let mut seen: Vec<Op> = vec![];
    let rate = *r.pick(&[0.0, 0.1, 0.4]);
    for _ in 0..tasks {
        let mut ops = vec![];
        for _ in 0..1 + r.us(9) {
            let o = if !seen.is_empty() && r.chance(0.65) {
                let s = r.pick(&seen).clone();
                if r.chance(0.2) {
                    s
                } else {
                    pool::sibling(r, &s)
                }
            } else if r.chance(0.03) {
                pool::rare_call(r)
            } else {
                pool::random_op(r, &names)
            };
            seen.push(o.clone());
            let n = (o.f.len() / 2 + 2) as u64;
            ops.push(gen::maybe_fault(r, o, &ks, rate, n));
            if r.chance(0.1) {
                ops.push(Op::new("%ent").i(&[r.range(1, 1 << 50)]));
                p.env("entropy source changed", 1);
            }
            if r.chance(0.05) {
                ops.push(Op::new("%clock").i(&[r.range(-1_000_000_000, 1_000_000_000)]));
                p.env("clock jumped", 1);
            }
        }
        p.tasks.push(ops);
    }
}

pub fn gen_c11(r: &mut Rng, p: &mut Plan) {
    gen_c10(r, p);
    p.spans = true;
    p.alloc_preempt = false;
    p.set("log_level", r.range(0, 5));
    for t in 0..p.tasks.len() {
        let mut out = vec![];
        for mut o in std::mem::take(&mut p.tasks[t]) {
            o.faults.retain(|f| f.0 != Kind::Alloc as usize);
            if r.chance(0.4) {
                let e = match r.us(4) {
                    0 => {
                        p.env("log level changed", 1);
                        Op::new("%log").i(&[r.range(0, 5)])
                    }
                    1 => {
                        p.env("span level changed", 1);
                        Op::new("%span").i(&[r.range(0, 5)])
                    }
                    2 => {
                        p.env("logger re-entry toggled", 1);
                        Op::new("%reent").i(&[r.range(0, 1)])
                    }
                    _ => {
                        p.env("log level changed", 1);
                        Op::new("%log").i(&[5])
                    }
                };
                out.push(e);
            }
            out.push(o);
        }
        p.tasks[t] = out;
    }
}

pub fn gen_c20(r: &mut Rng, p: &mut Plan) {
    gen_c10(r, p);
    p.params.retain(|x| x.0 != "warm");
    for t in 0..p.tasks.len() {
        let k = p.tasks[t].len();
        if r.chance(0.2) {
            let lo = r.range(-50, 0) as f64;
            let hi = lo + r.range(0, 60) as f64;
            let (ty, n) = (r.range(1, 4), r.logu(400) as i64);
            let o = Op::new("gpc").i(&[ty, if ty == 4 { 3 } else { 2 }, n, r.range(0, 2)]).p(&[lo, hi]);
            p.tasks[t].insert(r.us(k + 1), o);
        }
        while r.chance(0.25) {
            let at = r.us(p.tasks[t].len() + 1);
            let o = pool::rare_op(r);
            p.tasks[t].insert(at, o);
        }
    }
}

/// How many points to ask for: mostly few, now and then very many.
pub fn count(r: &mut Rng) -> i64 {
    (match r.us(400) {
        0..=4 => r.logu(5000),
        5 if r.us(20) == 0 => 65_530 + r.below(4000),
        5 => r.logu(30000),
        _ => r.logu(120),
    }) as i64
}

pub fn gen_c12(r: &mut Rng, p: &mut Plan) {
    let tasks = 1 + r.us(4);
    gen::sched(r, p, tasks);
    let ks = kinds(r, p);
    let mut seen: Vec<Op> = vec![];
    for _ in 0..tasks {
        let mut ops = vec![];
        for _ in 0..2 + r.us(8) {
            match r.us(6) {
                0 => {
                    ops.push(Op::new("%ent").i(&[r.range(1, 1 << 50)]));
                    p.env("entropy source changed", 1);
                }
                1 => {
                    ops.push(Op::new("%clock").i(&[r.range(-1_000_000_000_000, 1_000_000_000_000)]));
                    p.env("clock jumped", 1);
                }
                2 => {
                    ops.push(Op::new("%maps").i(&[r.range(1, 9)]));
                    p.env("unrelated hash maps created", 1);
                }
                3 => {
                    let o = pool::random_op(r, pool::NAMES);
                    ops.push(o);
                }
                _ => {
                    let o = if !seen.is_empty() && r.chance(0.6) {
                        let mut o = r.pick(&seen).clone();
                        if r.chance(0.4) {
                            o.i[2] = count(r);
                        }
                        if r.chance(0.3) {
                            o.p[1] += r.range(1, 9) as f64;
                        }
                        o
                    } else {
                        let ty = if r.chance(0.2) { r.range(5, 8) } else { r.range(1, 4) };
                        let dim = match ty {
                            1 => r.range(2, 3),
                            2 => *r.pick(&[1, 2, 2, 3, 3, 4, 7]),
                            5 => *r.pick(&[1, 3]),
                            3 | 6 | 7 | 8 => 2,
                            _ => 3,
                        };
                        // Ordinary ranges, a single value, and the largest ones.
                        let (lo, hi) = match r.us(8) {
                            0 => {
                                let x = r.range(-50, 50) as f64;
                                (x, x)
                            }
                            1 => (-(r.logu(1 << 40) as f64), r.logu(1 << 40) as f64),
                            2 => (-0.5, 0.5),
                            3 if ty < 3 => (r.uni(-1e-3, 0.0), r.uni(0.0, 1e30)),
                            // everything the type can hold
                            3 => *r.pick(&[(-2147483648.0, 2147483647.0), (0.0, 2147483647.0), (-2147483648.0, -1.0)]),
                            _ => (r.range(-50, 0) as f64, r.range(0, 50) as f64),
                        };
                        Op::new("gpc")
                            .i(&[ty, dim, (count(r) - r.chance(0.1) as i64).max(0), *r.pick(&[0, 0, 1, 2, 2])])
                            .p(&[lo, hi])
                    };
                    seen.push(o.clone());
                    let n = o.iv(2).min(500) as u64;
                    ops.push(gen::maybe_fault(r, o, &ks, 0.3, n));
                }
            }
        }
        p.tasks.push(ops);
    }
}
