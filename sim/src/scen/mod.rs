//! The scenarios: one workload generator and one executor per property.
pub use crate::core::*;
pub use crate::ensure;
pub(crate) use crate::gen;
pub(crate) use crate::geom;
pub use crate::plan::*;
pub(crate) use crate::rng;
pub use crate::rng::Rng;
pub use crate::scalar::*;
pub use std::collections::{BTreeMap, BTreeSet};

pub mod corrupt;
pub mod down;
pub mod hull;
pub mod icp;
pub mod iso;
pub mod kd;
pub mod mem;
pub mod sort;

/// Task state that is only ever touched by the thread holding the baton.
pub struct Unsent<T>(pub T);
unsafe impl<T> Send for Unsent<T> {}
unsafe impl<T> Sync for Unsent<T> {}

/// State shared between tasks; the baton makes every access exclusive.
pub struct Global<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Send for Global<T> {}
unsafe impl<T> Sync for Global<T> {}
impl<T> Global<T> {
    pub fn new(t: T) -> Self {
        Global(std::cell::UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

/// No fault was injected, so the call has to return.
pub fn must<R>(r: Result<R, Abort>, what: &str) -> R {
    match r {
        Ok(v) => v,
        Err(Abort::Hang(m)) => violate("hang", format!("{what} did not return ({m} exceeded)")),
        Err(e) => violate("aborted", format!("{what} ended with {e:?}")),
    }
}

/// Call until no injected fault is left; what it unwound out of is lost.
pub fn retry<R>(what: &str, mut f: impl FnMut() -> Result<R, Abort>) -> R {
    for _ in 0..40 {
        match f() {
            Ok(v) => return v,
            Err(Abort::Crash(_)) => hit("operation crashed and was retried"),
            Err(e) => {
                must::<()>(Err(e), what);
            }
        }
    }
    violate("HARNESS", "retries never ended".into())
}

pub fn gen(prop: &str, r: &mut Rng, p: &mut Plan) {
    match prop {
        "C01" => kd::gen_c01(r, p),
        "C02" => kd::gen_c02(r, p),
        "C03" => kd::gen_c03(r, p),
        "C04" => down::gen(r, p),
        "C05" => hull::gen(r, p, false),
        "C06" => hull::gen(r, p, true),
        "C07" => icp::gen_c07(r, p),
        "C08" => icp::gen_c08(r, p),
        "C09" => sort::gen(r, p),
        "C10" => iso::gen_c10(r, p),
        "C11" => iso::gen_c11(r, p),
        "C12" => iso::gen_c12(r, p),
        "C13" => corrupt::gen(r, p),
        "C19" => mem::gen(r, p),
        "C20" => iso::gen_c20(r, p),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
    // The more there is to do, the rarer the context switches.
    let work: usize = p.tasks.iter().flatten().map(|o| o.f.len() + o.bulk.map_or(0, |b| b.1 as usize * o.u)).sum();
    if let Some((_, gap)) = p.rand_sched.as_mut() {
        *gap = gap.saturating_mul(1 + work as u64 / 150);
    }
}

pub fn exec(p: &Plan) {
    let full;
    let p = if p.tasks.iter().flatten().any(|o| o.bulk.is_some()) {
        let mut q = p.clone();
        q.tasks.iter_mut().flatten().for_each(Op::expand);
        full = q;
        &full
    } else {
        p
    };
    match p.prop.as_str() {
        "C01" | "C02" => kd::exec_replicas(p),
        "C03" => kd::exec_c03(p),
        "C04" => down::exec(p),
        "C05" | "C06" => hull::exec(p),
        "C07" | "C08" => icp::exec(p),
        "C09" => sort::exec(p),
        "C10" | "C11" | "C12" | "C20" => iso::exec(p),
        "C13" => corrupt::exec(p),
        "C19" => mem::exec(p),
        _ => {}
    }
}

/// Executions whose failure is a recorded defect of the repository: the name in
/// known-findings.txt, the classes of violation it shows as, and the plan.
pub fn known(prop: &str) -> Vec<(&'static str, &'static [&'static str], Plan)> {
    let mut p = Plan::new(prop, 0);
    p.set("log_level", 0);
    match prop {
        // A straight scan becomes a tree as deep as it has points.
        "C01" => {
            p.set("ty", 2);
            p.set("dim", 2);
            // what Rust gives a thread
            p.set("stack_kb", 2048);
            p.tasks.push(vec![
                Op::new("from").bulk(0, 20_000, LINED, 2),
                Op::new("q").f(vec![0.0, 0.0, 20_000.0, 20_000.0], 2),
            ]);
            vec![("deep-line", &["process-died"], p)]
        }
        // Two points whose coordinates add up to more than their type holds.
        "C04" => {
            p.set("ty", 9);
            p.set("dim", 2);
            p.tasks.push(vec![
                Op::new("rx").f(vec![200.0, 0.0, 100.0, 0.0], 2),
                Op::new("ds").p(&[1000.0]),
            ]);
            vec![("small-integer-sums", &["aborted", "wrong-centroid"], p)]
        }
        // A line to (300, 0), one bit of which flipped on the way: (19660800, 0).
        "C13" => {
            p.env("coordinate corrupted", 1);
            p.tasks.push(vec![Op::new("line").i(&[1, 2, 1, 0, 27]).f(vec![0.0, 0.0, 300.0, 0.0], 2)]);
            vec![("line-past-2^24", &["hang"], p)]
        }
        _ => vec![],
    }
}

/// (simulated runs, wall-clock seconds, share of the std build)
pub fn budget(prop: &str, tier: &str) -> (u64, f64, f64) {
    let heavy = matches!(prop, "C07" | "C08" | "C10" | "C11");
    if tier == "thorough" {
        (u64::MAX >> 12, 600.0, 0.65)
    } else {
        (if heavy { 200_000 } else { 400_000 }, 26.0, 0.65)
    }
}

pub struct Describe {
    pub workload: &'static str,
    pub states: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assume: &'static [&'static str],
}

const REAL: &[&str] = &[
    "mapping-algorithms, compiled unmodified from /repo in its std and no_std configurations",
    "nalgebra, num-traits, rand, tracing macros, std collections and sort",
];
const STUB: &[&str] = &[
    "scheduler: caller tasks run one at a time, the plan picks who continues at every point",
    "entropy: getrandom/getentropy answer from the plan (hash seeds)",
    "clock: clock_gettime answers simulated time",
    "allocator: counts, preempts or fails allocations as planned",
    "tracing subscriber and logger: points for preemption and crashes",
    "network between sensors and nodes: delivery times, loss, duplication drawn from the seed",
];
const ASSUME: &[&str] = &[
    "A crash is an unwind out of the library at a comparison or arithmetic step of the coordinate type, at entering a traced function, at a log record, in a caller's closure, or at an allocation; points between those are not crash points.",
    "Tasks are preempted at the same points (and on leaving a traced function); hardware memory reordering is not simulated, the library contains no atomics or locks.",
    "Seeded sampling: a clean batch is evidence, not proof.",
];

pub fn describe(prop: &str) -> Describe {
    let (workload, states) = match prop {
        "C01" => ("replicas of one KD-tree fed the same points over a network that loses, duplicates, reorders and delays, queried as they go", "set of points held by a tree after an operation"),
        "C02" => ("KD-tree operations that die inside and are retried", "set of points held by a tree after an operation"),
        "C03" => ("a writer publishing clones of a KD-tree and readers querying them while it works", "set of points held by a published snapshot"),
        "C04" => ("clouds assembled from unordered duplicated deliveries and downsampled under changing hash seeds with crashes", "numbers of points and voxels and voxel size"),
        "C05" | "C06" => ("hulls of clouds in arrival order, of permutations, of voxel centroids under changing hash seeds, and of partial hulls merged after travelling over the network", "size of input and hull and voxel size"),
        "C07" => ("registration driven step by step with crashes inside steps and restarts from full, old and compact checkpoints, against an uninterrupted icp()", "checkpointed registration state"),
        "C08" => ("registration with lost and stale targets, foreign start transforms and crashes, every step checked against an independent solution", "checkpointed registration state"),
        "C09" => ("lexicographic sorts that die in the middle of a comparison and are retried, with corrupted coordinates", "contents of the cloud being sorted"),
        "C10" => ("several tasks making related calls to the whole public interface, with crashes, preemption, entropy changes and clock jumps, against solo runs in pristine processes", "result of a call"),
        "C11" => ("as C10 while span and log levels change and loggers call back into the library or die", "result of a call"),
        "C12" => ("generate_point_cloud between other calls, entropy changes, clock jumps and crashes, against solo runs in pristine processes", "result of a call"),
        "C19" => ("a process that makes the same calls over and over, every one of them dying at the same point or returning, with a ledger of what its library calls took from the allocator and have not given back", "operation, size and fault"),
        "C20" => ("several tasks making related calls to the whole public interface, with crashes, preemption, entropy changes and clock jumps, against the answers of a node that runs the other configuration (std or no_std) of the library", "result of a call"),
        _ => ("calls on data with one corrupted coordinate and again after its repair", "operation, damage and size"),
    };
    Describe { workload, states, real: REAL, stub: STUB, assume: ASSUME }
}
