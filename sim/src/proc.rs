//! Running a plan in a fresh child process, so that every simulated execution
//! starts from the same pristine state and may die without harm.
use crate::core::*;
use crate::plan::*;
use std::collections::BTreeMap;
use std::ffi::c_void;

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut c_void, n: usize) -> isize;
    fn write(fd: i32, b: *const c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
    fn setrlimit(r: i32, l: *const Rlimit) -> i32;
    fn poll(f: *mut PollFd, n: u64, ms: i32) -> i32;
    fn personality(p: u64) -> i32;
    fn prctl(o: i32, ...) -> i32;
    fn signal(n: i32, h: usize) -> usize;
    fn sched_getaffinity(pid: i32, n: usize, set: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, n: usize, set: *const u64) -> i32;
    fn sched_getcpu() -> i32;
}

/// Keep this process on one processor, the `k`-th of those it may use or the
/// one it is on: passing the baton between threads is much cheaper there.
pub fn pin(k: Option<u64>) {
    unsafe {
        let mut set = [0u64; 16];
        if sched_getaffinity(0, 128, set.as_mut_ptr()) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| set[c / 64] >> (c % 64) & 1 != 0).collect();
        let c = match k {
            Some(k) if !cpus.is_empty() => cpus[k as usize % cpus.len()],
            _ => sched_getcpu().max(0) as usize,
        };
        if !cpus.contains(&c) {
            return;
        }
        let mut one = [0u64; 16];
        one[c / 64] = 1 << (c % 64);
        sched_setaffinity(0, 128, one.as_ptr());
    }
}

static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

unsafe fn send(fd: i32, v: &[u8]) {
    let mut o = 0;
    while o < v.len() {
        let n = write(fd, v[o..].as_ptr() as *const c_void, v.len() - o);
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}

/// The standard library aborts where an unwind would leave a container broken
/// (splitting a B-tree node). When that unwind is our failed allocation the
/// process dies as it would in deployment: the run ends there.
extern "C" fn aborted(n: i32) {
    unsafe {
        if oom_unwinding() {
            hit("process aborted at a failed allocation");
            send(OUT.load(std::sync::atomic::Ordering::Relaxed), &encode());
            _exit(0);
        }
        signal(n, 0);
    }
}

/// Addresses must not vary between executions either.
pub fn no_aslr() {
    unsafe {
        let cur = personality(0xffff_ffff);
        if cur >= 0 && cur & 0x0040000 == 0 && std::env::var_os("VSIM_REEXEC").is_none() {
            personality(cur as u64 | 0x0040000);
            use std::os::unix::process::CommandExt;
            let mut a = std::env::args_os();
            a.next();
            let _ = std::process::Command::new("/proc/self/exe")
                .args(a)
                .env("VSIM_REEXEC", "1")
                .exec();
        }
    }
}

#[derive(Debug)]
#[allow(dead_code)]
pub enum End {
    Done,
    Cpu,
    Wall,
    Signal(i32),
    Exit(i32),
}

pub struct Child {
    pid: i32,
    fd: i32,
}

/// Start `f` in a forked child; its return value comes back over a pipe.
pub fn spawn(cpu_s: u64, f: impl FnOnce() -> Vec<u8>) -> Child {
    unsafe {
        let mut p = [0i32; 2];
        if pipe(p.as_mut_ptr()) != 0 {
            eprintln!("pipe failed");
            std::process::exit(2);
        }
        let pid = fork();
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            close(p[0]);
            prctl(1, 9); // die with the parent
            if cpu_s > 0 {
                let l = Rlimit { cur: cpu_s, max: cpu_s + 2 };
                setrlimit(0, &l);
                let m = Rlimit { cur: 8 << 30, max: 8 << 30 };
                setrlimit(9, &m);
                let z = Rlimit { cur: 0, max: 0 };
                setrlimit(4, &z);
            }
            OUT.store(p[1], std::sync::atomic::Ordering::Relaxed);
            let v = f();
            send(p[1], &v);
            _exit(0);
        }
        close(p[1]);
        Child { pid, fd: p[0] }
    }
}

impl Child {
    pub fn finish(self, wall_ms: i32) -> (Vec<u8>, End) {
        unsafe {
            let mut out = vec![];
            let mut buf = vec![0u8; 1 << 16];
            let t0 = std::time::Instant::now();
            let mut end = End::Done;
            loop {
                let left = wall_ms as i128 - t0.elapsed().as_millis() as i128;
                let mut f = PollFd { fd: self.fd, events: 1, revents: 0 };
                let r = if left <= 0 { 0 } else { poll(&mut f, 1, left.min(i32::MAX as i128) as i32) };
                if r == 0 {
                    kill(self.pid, 9);
                    end = End::Wall;
                    break;
                }
                if r < 0 {
                    continue;
                }
                let n = read(self.fd, buf.as_mut_ptr() as *mut c_void, buf.len());
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&buf[..n as usize]);
            }
            close(self.fd);
            let mut st = 0;
            waitpid(self.pid, &mut st, 0);
            if let End::Done = end {
                let sig = st & 0x7f;
                if sig == 24 || sig == 9 {
                    end = End::Cpu;
                } else if sig != 0 {
                    end = End::Signal(sig);
                } else if (st >> 8) & 0xff != 0 {
                    end = End::Exit((st >> 8) & 0xff);
                }
            }
            (out, end)
        }
    }
}

/// Evaluate `f` in a pristine child of the current process.
pub fn fork_value(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    let (v, e) = spawn(10, f).finish(120_000);
    match e {
        End::Done => Some(v),
        _ => None,
    }
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub hash: u64,
    pub sched: u64,
    pub step: u64,
    pub time_us: u64,
    pub points: [u64; NK],
    pub fired: [u64; NK],
    pub switches: u64,
    pub inlib: u64,
    pub ops: u64,
    pub libcalls: u64,
    pub ent: u64,
    pub stats: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub recorded: Vec<(usize, usize, u64, usize)>,
    pub violation: Option<(String, String)>,
    pub trace: Vec<String>,
}

fn encode() -> Vec<u8> {
    let s = sim();
    let mut o = String::new();
    o.push_str(&format!(
        "N {} {} {} {} {} {} {} {} {}\n",
        s.hash, s.sched_hash, s.step, s.time_us, s.switches, s.inlib_switches, s.ops, s.libcalls,
        entropy_calls()
    ));
    for (t, a) in [("P", s.points), ("F", s.fired)] {
        o.push_str(t);
        for x in a {
            o.push_str(&format!(" {x}"));
        }
        o.push('\n');
    }
    for (k, v) in &s.stats {
        o.push_str(&format!("K {v} {k}\n"));
    }
    if !s.states.is_empty() {
        o.push('S');
        for x in &s.states {
            o.push_str(&format!(" {x}"));
        }
        o.push('\n');
    }
    for r in &s.recorded {
        o.push_str(&format!("R {} {} {} {}\n", r.0, r.1, r.2, r.3));
    }
    if let Some(t) = &s.trace {
        for l in t {
            o.push_str(&format!("T {}\n", l.replace('\n', "\\n")));
        }
    }
    if let Some((c, m)) = &s.violation {
        o.push_str(&format!("V {} {}\n", c.replace(' ', "_"), m.replace('\n', "\\n")));
    }
    o.push_str("E\n");
    o.into_bytes()
}

fn decode(b: &[u8]) -> Option<Outcome> {
    let s = std::str::from_utf8(b).ok()?;
    if !s.ends_with("E\n") {
        return None;
    }
    let mut o = Outcome::default();
    for l in s.lines() {
        let (t, r) = l.split_once(' ').unwrap_or((l, ""));
        let nums = || r.split(' ').filter_map(|x| x.parse::<u64>().ok()).collect::<Vec<_>>();
        match t {
            "N" => {
                let v = nums();
                (o.hash, o.sched, o.step, o.time_us) = (v[0], v[1], v[2], v[3]);
                (o.switches, o.inlib, o.ops, o.libcalls, o.ent) = (v[4], v[5], v[6], v[7], v[8]);
            }
            "P" => o.points.copy_from_slice(&nums()),
            "F" => o.fired.copy_from_slice(&nums()),
            "K" => {
                let (n, k) = r.split_once(' ')?;
                o.stats.insert(k.into(), n.parse().ok()?);
            }
            "S" => o.states = nums(),
            "R" => {
                let v = nums();
                o.recorded.push((v[0] as usize, v[1] as usize, v[2], v[3] as usize));
            }
            "T" => o.trace.push(r.into()),
            "V" => {
                let (c, m) = r.split_once(' ').unwrap_or((r, ""));
                o.violation = Some((c.into(), m.into()));
            }
            _ => {}
        }
    }
    Some(o)
}

/// Execute one plan in a child process.
pub fn execute(plan: &Plan, traced: bool, cpu_s: u64) -> Outcome {
    let wall = (cpu_s * 12 * 1000 + 60_000) as i32;
    let (b, e) = spawn(cpu_s, || {
        pin(None);
        process_init();
        unsafe {
            signal(4, aborted as *const () as usize);
            signal(6, aborted as *const () as usize);
        }
        install(plan, traced);
        if plan.spans {
            crate::observe::install_subscriber();
        }
        crate::observe::install_logger(plan.par("log_level"));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            crate::scen::exec(plan);
        }));
        if let Err(p) = r {
            if !stopped(&p) && sim().violation.is_none() {
                let m = payload_text(&p);
                sim().violation = Some(("HARNESS".into(), format!("scenario panicked: {m}")));
            }
        }
        encode()
    })
    .finish(wall);
    if let Some(o) = decode(&b) {
        return o;
    }
    let (c, m) = match e {
        End::Cpu => (
            "hang",
            format!("the execution did not finish within {cpu_s} s of CPU time"),
        ),
        End::Wall => ("HARNESS", "wall-clock limit".to_string()),
        End::Signal(s) => ("process-died", format!("the process died of signal {s}")),
        x => ("HARNESS", format!("child ended with {x:?}")),
    };
    Outcome {
        violation: Some((c.into(), m)),
        ..Default::default()
    }
}

/// The plan with the schedule it actually took written into it.
pub fn fix_schedule(plan: &Plan, o: &Outcome) -> Plan {
    let mut p = plan.clone();
    if p.rand_sched.take().is_some() {
        for t in &mut p.tasks {
            for op in t {
                op.sw.clear();
            }
        }
        for (t, op, at, to) in &o.recorded {
            p.tasks[*t][*op].sw.push((*at, *to));
        }
    }
    p
}
