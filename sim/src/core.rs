//! The simulator core: one baton decides which caller task runs, every seam of
//! the library reports to `point`, and a plan decides what happens there.
//!
//! Seams (all of them exist in the shipped code; nothing in /repo is patched):
//!   * scalar arithmetic and comparisons, through the generic scalar type,
//!   * tracing spans around the library's functions (feature `tracing`),
//!   * `log` records, * caller closures, * the global allocator,
//!   * the entropy source behind `RandomState` (`getrandom`), * the clock.
use crate::plan::*;
use crate::rng::{mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::ptr::null;
use std::sync::atomic::{AtomicI32, AtomicU64, AtomicUsize, Ordering::Acquire, Ordering::Relaxed, Ordering::Release};
use std::sync::Mutex;
use std::thread::Thread;

pub const MAXT: usize = 8;
const MAIN: usize = MAXT;

pub struct TaskCtx {
    id: usize,
    op: Cell<usize>,
    cnt: [Cell<u64>; NK],
    arm: [Cell<u64>; NK],
    n: Cell<u64>,
    next_sw: Cell<u64>,
    sw_i: Cell<usize>,
    bytes: Cell<u64>,
    last_abort: Cell<u8>,
    cap: Cell<u64>,
}

pub struct Sim {
    pub plan: *const Plan,
    alive: [bool; MAXT],
    ntasks: usize,
    pub step: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub time_us: u64,
    pub points: [u64; NK],
    pub fired: [u64; NK],
    pub switches: u64,
    pub inlib_switches: u64,
    pub ops: u64,
    pub libcalls: u64,
    rng: Option<Rng>,
    gap: u64,
    countdown: u64,
    pub recorded: Vec<(usize, usize, u64, usize)>,
    pub stats: BTreeMap<&'static str, u64>,
    pub states: Vec<u64>,
    pub violation: Option<(String, String)>,
    pub trace: Option<Vec<String>>,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
/// Who holds the baton.
static CUR: AtomicUsize = AtomicUsize::new(MAIN);
static THREADS: Mutex<[Option<Thread>; MAXT + 1]> = Mutex::new([const { None }; MAXT + 1]);

thread_local! {
    static CTX: Cell<*const TaskCtx> = const { Cell::new(null()) };
    static SUSP: Cell<bool> = const { Cell::new(true) };
    static ENTSALT: Cell<u64> = const { Cell::new(0) };
}

pub struct SimCrash(pub Kind);
struct SimHang(&'static str);
struct SimStop;

#[derive(Debug, Clone, PartialEq)]
pub enum Abort {
    /// The injected fault fired and unwound out of the library.
    Crash(Kind),
    /// The library itself panicked.
    Panic(String),
    /// The call exceeded its step or memory budget.
    Hang(String),
}

pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

/// The per-call budget of simulated steps; past it the call counts as hung.
pub const STEP_CAP: u64 = 120_000_000;
pub const BYTE_CAP: u64 = 1 << 29;

/// Report a point of kind `k`. True: the caller must fail here.
#[inline]
pub fn point(k: Kind) -> bool {
    if SUSP.get() {
        return false;
    }
    let p = CTX.get();
    if p.is_null() {
        return false;
    }
    slow(unsafe { &*p }, k, 0)
}

fn slow(c: &TaskCtx, k: Kind, bytes: u64) -> bool {
    if std::thread::panicking() {
        return false;
    }
    let s = sim();
    let ki = k as usize;
    let n = c.cnt[ki].get() + 1;
    c.cnt[ki].set(n);
    let tot = c.n.get() + 1;
    c.n.set(tot);
    s.step += 1;
    s.time_us += (s.step & 15 == 0) as u64;
    s.points[ki] += 1;
    s.hash = mix(s.hash ^ ((c.id as u64) << 8 | ki as u64));
    if bytes > 0 {
        c.bytes.set(c.bytes.get() + bytes);
    }
    if tot > c.cap.get() || c.bytes.get() > BYTE_CAP {
        let why = if tot > c.cap.get() {
            "step budget"
        } else {
            "memory budget"
        };
        c.last_abort.set(9);
        if k == Kind::Alloc {
            return true;
        }
        SUSP.set(true);
        resume_unwind(Box::new(SimHang(why)));
    }
    if c.arm[ki].get() == n {
        c.arm[ki].set(u64::MAX);
        s.fired[ki] += 1;
        s.sched_hash = mix(s.sched_hash ^ (c.id as u64) << 40 ^ (c.op.get() as u64) << 20 ^ n ^ 77);
        c.last_abort.set(ki as u8 + 1);
        return true;
    }
    if k == Kind::Alloc && !unsafe { (*s.plan).alloc_preempt } {
        return false;
    }
    if unsafe { (&(*s.plan).tasks)[c.id].is_empty() } {
        return false;
    }
    if let Some(r) = s.rng.as_mut() {
        s.countdown -= 1;
        if s.countdown == 0 {
            s.countdown = 1 + r.below(2 * s.gap);
            let others: u64 = (0..s.ntasks).filter(|t| *t != c.id && s.alive[*t]).count() as u64;
            if others > 0 {
                let mut pick = r.below(others);
                let mut to = 0;
                for t in 0..s.ntasks {
                    if t != c.id && s.alive[t] {
                        if pick == 0 {
                            to = t;
                            break;
                        }
                        pick -= 1;
                    }
                }
                SUSP.set(true);
                s.recorded.push((c.id, c.op.get(), tot, to));
                SUSP.set(false);
                preempt(c, to, tot);
            }
        }
    } else if tot == c.next_sw.get() {
        let op = unsafe { &(&(*s.plan).tasks)[c.id][c.op.get()] };
        let (_, to) = op.sw[c.sw_i.get()];
        c.sw_i.set(c.sw_i.get() + 1);
        c.next_sw
            .set(op.sw.get(c.sw_i.get()).map(|x| x.0).unwrap_or(u64::MAX));
        if to < s.ntasks && s.alive[to] && to != c.id {
            preempt(c, to, tot);
        }
    }
    false
}

fn preempt(c: &TaskCtx, to: usize, at: u64) {
    let s = sim();
    s.switches += 1;
    if at > 1 {
        s.inlib_switches += 1;
    }
    s.sched_hash = mix(
        s.sched_hash ^ (c.id as u64) << 56 ^ (to as u64) << 48 ^ (c.op.get() as u64) << 32 ^ at,
    );
    s.hash = mix(s.hash ^ 0xABCD ^ (to as u64) << 16);
    if let Some(t) = s.trace.as_mut() {
        let was = SUSP.replace(true);
        t.push(format!(
            "t={}us task {} op {} point {}: switch to task {}",
            s.time_us,
            c.id,
            c.op.get(),
            at,
            to
        ));
        SUSP.set(was);
    }
    hand_over(to);
    await_baton(c.id);
}

/// Only the holder of the baton comes here.
fn hand_over(to: usize) {
    let t = THREADS.lock().unwrap_or_else(|e| e.into_inner())[to].clone();
    CUR.store(to, Release);
    if let Some(t) = t {
        t.unpark();
    }
}

fn await_baton(me: usize) {
    while CUR.load(Acquire) != me {
        std::thread::park();
    }
}

/// Unwind out of the library if a fault of this kind is due here.
#[inline]
pub fn point_or_crash(k: Kind) {
    if point(k) {
        SUSP.set(true);
        resume_unwind(Box::new(SimCrash(k)));
    }
}

/// Run library code: points count, faults fire, every unwind is caught.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, Abort> {
    let s = sim();
    s.libcalls += 1;
    let c = unsafe { &*CTX.get() };
    c.last_abort.set(0);
    c.bytes.set(0);
    let base = c.n.get();
    c.cap.set(base.saturating_add(STEP_CAP));
    SUSP.set(false);
    let r = catch_unwind(AssertUnwindSafe(f));
    SUSP.set(true);
    match r {
        Ok(v) => Ok(v),
        Err(p) => Err(classify(p, c)),
    }
}

fn classify(p: Box<dyn Any + Send>, c: &TaskCtx) -> Abort {
    if p.is::<SimStop>() {
        resume_unwind(p);
    }
    if let Some(x) = p.downcast_ref::<SimCrash>() {
        return Abort::Crash(x.0);
    }
    if let Some(x) = p.downcast_ref::<SimHang>() {
        return Abort::Hang(x.0.into());
    }
    if c.last_abort.get() == 9 {
        return Abort::Hang("memory budget".into());
    }
    let m = if let Some(x) = p.downcast_ref::<String>() {
        x.clone()
    } else if let Some(x) = p.downcast_ref::<&str>() {
        x.to_string()
    } else {
        "unknown payload".into()
    };
    Abort::Panic(m)
}

/// Mark code that belongs to the harness although the library is on the stack
/// (caller closures, loggers): no points inside.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let was = SUSP.replace(true);
    let r = f();
    SUSP.set(was);
    r
}

pub fn in_task() -> bool {
    !CTX.get().is_null() && !SUSP.get()
}

/// Record a violation and stop the task.
pub fn violate(class: &str, msg: String) -> ! {
    let s = sim();
    SUSP.set(true);
    if s.violation.is_none() {
        s.violation = Some((class.to_string(), msg));
    }
    resume_unwind(Box::new(SimStop));
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !($c) { $crate::core::violate($class, format!($($a)*)); }
    };
}

/// A probe or an environment fault was hit.
pub fn hit(name: &'static str) {
    *sim().stats.entry(name).or_insert(0) += 1;
}
pub fn hits(name: &'static str, n: u64) {
    if n > 0 {
        *sim().stats.entry(name).or_insert(0) += n;
    }
}

/// Fold an observed result into the event log hash.
pub fn note(x: u64) {
    let s = sim();
    s.hash = mix(s.hash ^ x);
}
/// Record an abstract state reached (for the distinct-states measure).
pub fn state(x: u64) {
    let s = sim();
    if s.states.len() < 64 {
        s.states.push(x);
    }
}
pub fn trace(f: impl FnOnce() -> String) {
    let s = sim();
    if s.trace.is_some() {
        let m = f();
        let t = s.time_us;
        s.trace.as_mut().unwrap().push(format!("t={t}us {m}"));
    }
}
pub fn violated() -> bool {
    sim().violation.is_some()
}

/// Install the simulator for `plan`.
pub fn install(plan: &Plan, traced: bool) {
    let (rng, gap) = match plan.rand_sched {
        Some((s, g)) => (Some(Rng::new(s)), g.max(1)),
        None => (None, 1),
    };
    let s = Box::new(Sim {
        plan,
        alive: [false; MAXT],
        ntasks: plan.tasks.len(),
        step: 0,
        hash: 1,
        sched_hash: mix(plan.entropy),
        time_us: 0,
        points: [0; NK],
        fired: [0; NK],
        switches: 0,
        inlib_switches: 0,
        ops: 0,
        libcalls: 0,
        countdown: gap,
        gap,
        rng,
        recorded: vec![],
        stats: BTreeMap::new(),
        states: vec![],
        violation: None,
        trace: if traced { Some(vec![]) } else { None },
    });
    unsafe { SIM = Box::into_raw(s) };
    ENT.store(plan.entropy, Relaxed);
    ENT_CALLS.store(0, Relaxed);
    SIMTIME_ON.store(1, Relaxed);
}

/// Run every task of the plan on its own thread, one at a time.
pub fn run_tasks<F: Fn(usize, usize, &Op) + Sync>(plan: &Plan, f: F) {
    struct NoState;
    run_tasks_with(plan, |_| NoState, |t, o, op, _: &mut NoState| f(t, o, op), |_, _| {});
}

/// As `run_tasks`, with a state per task that lives on the task's own thread.
pub fn run_tasks_with<S, I, F, E>(plan: &Plan, init: I, f: F, end: E)
where
    I: Fn(usize) -> S + Sync,
    F: Fn(usize, usize, &Op, &mut S) + Sync,
    E: Fn(usize, S) + Sync,
{
    let nt = plan.tasks.len();
    assert!(nt <= MAXT);
    if nt == 0 {
        return;
    }
    let s = sim();
    s.ntasks = nt;
    s.alive = [false; MAXT];
    for t in 0..nt {
        s.alive[t] = true;
    }
    CUR.store(MAIN, Release);
    std::thread::scope(|sc| {
        THREADS.lock().unwrap()[MAIN] = Some(std::thread::current());
        for t in 0..nt {
            let (init, f, end) = (&init, &f, &end);
            let h = std::thread::Builder::new()
                .stack_size(match plan.par("stack_kb") { 0 => 64 << 10, k => k as usize } << 10)
                .spawn_scoped(sc, move || task_main(plan, t, init, f, end))
                .expect("spawn");
            THREADS.lock().unwrap()[t] = Some(h.thread().clone());
        }
        hand_over(0);
        await_baton(MAIN);
    });
}

fn task_main<S>(
    plan: &Plan,
    t: usize,
    init: &dyn Fn(usize) -> S,
    f: &dyn Fn(usize, usize, &Op, &mut S),
    end: &dyn Fn(usize, S),
) {
    let ctx = TaskCtx {
        id: t,
        op: Cell::new(0),
        cnt: Default::default(),
        arm: Default::default(),
        n: Cell::new(0),
        next_sw: Cell::new(u64::MAX),
        sw_i: Cell::new(0),
        bytes: Cell::new(0),
        last_abort: Cell::new(0),
        cap: Cell::new(STEP_CAP),
    };
    await_baton(t);
    CTX.set(&ctx);
    ENTSALT.set(t as u64 + 1);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut st = init(t);
        for (oi, op) in plan.tasks[t].iter().enumerate() {
            if violated() {
                break;
            }
            begin_op(&ctx, oi, op);
            f(t, oi, op, &mut st);
        }
        // Switches in here belong to the last operation.
        if !violated() {
            end(t, st);
        }
    }));
    SUSP.set(true);
    if let Err(p) = r {
        if !p.is::<SimStop>() && sim().violation.is_none() {
            let m = if let Some(x) = p.downcast_ref::<String>() {
                x.clone()
            } else if let Some(x) = p.downcast_ref::<&str>() {
                x.to_string()
            } else if let Some(x) = p.downcast_ref::<SimHang>() {
                format!("hang outside a call: {}", x.0)
            } else if let Some(x) = p.downcast_ref::<SimCrash>() {
                format!("fault outside a call: {}", KIND_NAMES[x.0 as usize])
            } else {
                "?".into()
            };
            sim().violation = Some(("HARNESS".into(), format!("task {t} panicked: {m}")));
        }
    }
    CTX.set(null());
    let s = sim();
    s.alive[t] = false;
    let next = (1..=s.ntasks)
        .map(|d| (t + d) % s.ntasks)
        .find(|x| s.alive[*x])
        .unwrap_or(MAIN);
    hand_over(next);
}

fn begin_op(c: &TaskCtx, oi: usize, op: &Op) {
    let s = sim();
    s.ops += 1;
    s.time_us += op.t.max(0) as u64;
    c.op.set(oi);
    for k in 0..NK {
        c.arm[k].set(u64::MAX);
    }
    c.n.set(0);
    c.cap.set(STEP_CAP);
    c.sw_i.set(0);
    c.next_sw
        .set(op.sw.first().map(|x| x.0).unwrap_or(u64::MAX));
    note(oi as u64 ^ 0x0f0f);
    trace(|| {
        let mut d = format!("task {} op {} {} i={:?} p={:?}", c.id, oi, op.k, op.i, op.p);
        if op.f.len() <= 24 {
            d.push_str(&format!(" f={:?}", op.f));
        } else {
            d.push_str(&format!(" f=[{} numbers]", op.f.len()));
        }
        if !op.faults.is_empty() {
            d.push_str(&format!(
                " faults={:?}",
                op.faults
                    .iter()
                    .map(|(k, n)| (KIND_NAMES[*k], *n))
                    .collect::<Vec<_>>()
            ));
        }
        d
    });
    // A point at the start of every operation: tasks interleave between calls too.
    SUSP.set(false);
    let _ = slow(c, Kind::Callback, 0);
    SUSP.set(true);
    for k in 0..NK {
        c.cnt[k].set(0);
    }
    for (k, n) in &op.faults {
        c.arm[*k].set(*n);
    }
}

/// Observe the library without injected faults; those armed stay armed.
pub fn unarmed<R>(f: impl FnOnce() -> R) -> R {
    let c = unsafe { &*CTX.get() };
    let arm: [u64; NK] = std::array::from_fn(|k| c.arm[k].get());
    let cnt: [u64; NK] = std::array::from_fn(|k| c.cnt[k].get());
    disarm();
    let r = f();
    for k in 0..NK {
        c.arm[k].set(arm[k]);
        c.cnt[k].set(cnt[k]);
    }
    r
}

/// Arm the operation's faults once more, as if it had just begun.
pub fn rearm(op: &Op) {
    let c = unsafe { &*CTX.get() };
    for k in 0..NK {
        c.cnt[k].set(0);
        c.arm[k].set(u64::MAX);
    }
    for (k, n) in &op.faults {
        c.arm[*k].set(*n);
    }
}

/// Arm no further fault inside the running operation.
pub fn disarm() {
    let c = unsafe { &*CTX.get() };
    for k in 0..NK {
        c.arm[k].set(u64::MAX);
    }
}

// ---------------------------------------------------------------- allocator
pub struct SimAlloc;

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

#[inline]
fn alloc_point(bytes: usize) -> bool {
    if SUSP.get() {
        return false;
    }
    let p = CTX.get();
    if p.is_null() {
        return false;
    }
    slow(unsafe { &*p }, Kind::Alloc, bytes as u64)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if alloc_point(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        ledger::took(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if alloc_point(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        ledger::took(p, l.size());
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if alloc_point(n) {
            return std::ptr::null_mut();
        }
        ledger::resize(p, n, || System.realloc(p, l, n))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ledger::gave(p);
        System.dealloc(p, l)
    }
}

/// What each task's library calls took from the allocator and have not given
/// back, wherever it is freed. Off unless a scenario asks for it.
pub mod ledger {
    use super::*;
    use std::sync::atomic::AtomicBool;
    const SLOTS: usize = 1 << 16;
    static ON: AtomicBool = AtomicBool::new(false);
    static LOCK: AtomicBool = AtomicBool::new(false);
    static mut SLOT: [(usize, usize, usize); SLOTS] = [(0, 0, 0); SLOTS];
    static mut USED: usize = 0;
    static mut LIVE: [i64; MAXT] = [0; MAXT];
    static mut FULL: bool = false;

    pub fn start() {
        ON.store(true, Relaxed);
    }
    fn locked<R>(f: impl FnOnce() -> R) -> R {
        while LOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let r = f();
        LOCK.store(false, Release);
        r
    }
    /// Bytes of library calls of task `t` that are still allocated.
    pub fn live(t: usize) -> Option<i64> {
        locked(|| unsafe { (!FULL).then_some(LIVE[t]) })
    }
    fn home(p: usize) -> usize {
        mix(p as u64) as usize % SLOTS
    }
    unsafe fn put(p: usize, n: usize, t: usize) {
        if USED > SLOTS / 2 {
            FULL = true;
            return;
        }
        let mut i = home(p);
        while SLOT[i].0 != 0 {
            i = (i + 1) % SLOTS;
        }
        SLOT[i] = (p, n, t);
        USED += 1;
        LIVE[t] += n as i64;
    }
    unsafe fn take(p: usize) -> Option<usize> {
        let mut i = home(p);
        while SLOT[i].0 != p {
            if SLOT[i].0 == 0 {
                return None;
            }
            i = (i + 1) % SLOTS;
        }
        let (_, n, t) = SLOT[i];
        USED -= 1;
        LIVE[t] -= n as i64;
        // Close the gap.
        let mut j = i;
        loop {
            SLOT[i].0 = 0;
            loop {
                j = (j + 1) % SLOTS;
                if SLOT[j].0 == 0 {
                    return Some(t);
                }
                let h = home(SLOT[j].0);
                if (j + SLOTS - h) % SLOTS >= (j + SLOTS - i) % SLOTS {
                    break;
                }
            }
            SLOT[i] = SLOT[j];
            i = j;
        }
    }
    #[inline]
    pub fn took(p: *mut u8, n: usize) {
        if !ON.load(Relaxed) || p.is_null() || SUSP.get() {
            return;
        }
        let c = CTX.get();
        if !c.is_null() {
            locked(|| unsafe { put(p as usize, n, (*c).id) });
        }
    }
    #[inline]
    pub fn gave(p: *mut u8) {
        if ON.load(Relaxed) {
            locked(|| unsafe { take(p as usize) });
        }
    }
    #[inline]
    pub fn resize(p: *mut u8, n: usize, f: impl FnOnce() -> *mut u8) -> *mut u8 {
        if !ON.load(Relaxed) {
            return f();
        }
        locked(|| {
            let q = f();
            if !q.is_null() {
                unsafe {
                    if let Some(t) = take(p as usize) {
                        put(q as usize, n, t);
                    }
                }
            }
            q
        })
    }
}

fn oom_hook(_l: Layout) {
    SUSP.set(true);
    let p = CTX.get();
    if !p.is_null() && unsafe { (*p).last_abort.get() } == 9 {
        resume_unwind(Box::new(SimHang("memory budget")));
    }
    resume_unwind(Box::new(SimCrash(Kind::Alloc)));
}

/// Whether this thread is unwinding from an injected allocation failure.
pub fn oom_unwinding() -> bool {
    let p = CTX.get();
    !p.is_null() && std::thread::panicking() && unsafe { (*p).last_abort.get() } == Kind::Alloc as u8 + 1
}

pub fn process_init() {
    std::panic::set_hook(Box::new(|_| {}));
    std::alloc::set_alloc_error_hook(oom_hook);
}

// ------------------------------------------------------- entropy and clock
static ENT: AtomicU64 = AtomicU64::new(0);
static ENT_CALLS: AtomicU64 = AtomicU64::new(0);
static SIMTIME_ON: AtomicI32 = AtomicI32::new(0);

pub fn set_entropy(x: u64) {
    ENT.store(x, Relaxed);
}
pub fn entropy_calls() -> u64 {
    ENT_CALLS.load(Relaxed)
}

/// The simulated entropy source: everything in the process that asks the
/// operating system for randomness is answered from the plan.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let n = ENT_CALLS.fetch_add(1, Relaxed);
    let salt = ENTSALT.get();
    let mut x = mix(ENT.load(Relaxed) ^ mix(n ^ salt << 32));
    for i in 0..len {
        if i % 8 == 0 {
            x = mix(x);
        }
        *buf.add(i) = (x >> (8 * (i % 8))) as u8;
    }
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    getrandom(buf, len, 0);
    0
}

#[repr(C)]
pub struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// The simulated clock. Outside a simulated task the real clock answers.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if SIMTIME_ON.load(Relaxed) != 0 && !SIM.is_null() && !CTX.get().is_null() {
        let t = ((*SIM).time_us + mix((*(*SIM).plan).entropy) % 1_000_000_000_000)
            .saturating_add_signed(CLOCK_SKEW.load(Relaxed));
        (*ts).s = (t / 1_000_000) as i64;
        (*ts).ns = (t % 1_000_000 * 1000) as i64;
        return 0;
    }
    syscall(228, id as i64, ts) as i32
}

pub fn stopped(p: &Box<dyn Any + Send>) -> bool {
    p.is::<SimStop>()
}
pub fn payload_text(p: &Box<dyn Any + Send>) -> String {
    if let Some(x) = p.downcast_ref::<String>() {
        x.clone()
    } else if let Some(x) = p.downcast_ref::<&str>() {
        x.to_string()
    } else {
        "unknown payload".into()
    }
}

/// Back in the harness after an unwind that was caught inside `lib`.
pub fn suspend() {
    SUSP.set(true);
}
/// Unwinds that belong to the simulator and must go on.
pub fn resumable(p: &Box<dyn Any + Send>) -> bool {
    let c = CTX.get();
    p.is::<SimStop>() || p.is::<SimHang>() || (!c.is_null() && unsafe { (*c).last_abort.get() } == 9)
}
/// Steps of the wall clock, forwards or backwards.
static CLOCK_SKEW: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
pub fn jump_clock(us: i64) {
    CLOCK_SKEW.fetch_add(us, Relaxed);
}
