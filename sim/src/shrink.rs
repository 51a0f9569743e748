//! Minimising a failing plan while it keeps failing in the same way.
use crate::plan::*;
use crate::proc::execute;
use std::time::{Duration, Instant};

pub struct Shrinker {
    class: String,
    cpu: u64,
    end: Instant,
    pub trials: usize,
}

impl Shrinker {
    pub fn new(class: &str, cpu: u64, secs: u64) -> Self {
        Shrinker {
            class: class.into(),
            cpu,
            end: Instant::now() + Duration::from_secs(secs),
            trials: 0,
        }
    }
    fn fails(&mut self, p: &Plan) -> bool {
        self.trials += 1;
        matches!(execute(p, false, self.cpu).violation, Some((c, _)) if c == self.class)
    }
    fn over(&self) -> bool {
        Instant::now() > self.end
    }

    pub fn run(&mut self, mut p: Plan) -> Plan {
        loop {
            let before = size(&p);
            p = self.no_switches(p);
            p = self.tasks(p);
            p = self.ops(p);
            p = self.faults(p);
            p = self.switches(p);
            p = self.payload(p);
            p = self.values(p);
            if size(&p) >= before || self.over() {
                return p;
            }
        }
    }

    fn no_switches(&mut self, p: Plan) -> Plan {
        if p.nsw() == 0 {
            return p;
        }
        let mut c = p.clone();
        for o in c.tasks.iter_mut().flatten() {
            o.sw.clear();
        }
        if self.fails(&c) {
            c
        } else {
            p
        }
    }

    fn tasks(&mut self, mut p: Plan) -> Plan {
        let mut i = 0;
        while i < p.tasks.len() && p.tasks.len() > 1 && !self.over() {
            let mut c = p.clone();
            c.tasks.remove(i);
            for o in c.tasks.iter_mut().flatten() {
                o.sw.retain(|s| s.1 != i);
                for s in &mut o.sw {
                    if s.1 > i {
                        s.1 -= 1;
                    }
                }
            }
            if self.fails(&c) {
                p = c;
            } else {
                // Keep the task (other tasks are numbered by position), empty it.
                let mut c = p.clone();
                if !c.tasks[i].is_empty() {
                    c.tasks[i].clear();
                    if self.fails(&c) {
                        p = c;
                    }
                }
                i += 1;
            }
        }
        p
    }

    fn ops(&mut self, mut p: Plan) -> Plan {
        for t in 0..p.tasks.len() {
            let mut chunk = p.tasks[t].len().div_ceil(2).max(1);
            loop {
                let mut at = 0;
                while at < p.tasks[t].len() {
                    if self.over() {
                        return p;
                    }
                    let mut c = p.clone();
                    let e = (at + chunk).min(c.tasks[t].len());
                    c.tasks[t].drain(at..e);
                    if self.fails(&c) {
                        p = c;
                    } else {
                        at += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = chunk.div_ceil(2);
            }
        }
        p
    }

    fn faults(&mut self, mut p: Plan) -> Plan {
        for t in 0..p.tasks.len() {
            for o in 0..p.tasks[t].len() {
                let mut f = 0;
                while f < p.tasks[t][o].faults.len() {
                    if self.over() {
                        return p;
                    }
                    let mut c = p.clone();
                    c.tasks[t][o].faults.remove(f);
                    if self.fails(&c) {
                        p = c;
                        continue;
                    }
                    // An earlier crash point is simpler.
                    let n = p.tasks[t][o].faults[f].1;
                    for m in [1, n / 2, n.saturating_sub(1)] {
                        if m >= 1 && m < p.tasks[t][o].faults[f].1 {
                            let mut c = p.clone();
                            c.tasks[t][o].faults[f].1 = m;
                            if self.fails(&c) {
                                p = c;
                                break;
                            }
                        }
                    }
                    f += 1;
                }
            }
        }
        p
    }

    fn switches(&mut self, mut p: Plan) -> Plan {
        let all: Vec<(usize, usize, usize)> = p
            .tasks
            .iter()
            .enumerate()
            .flat_map(|(t, v)| {
                v.iter()
                    .enumerate()
                    .flat_map(move |(o, op)| (0..op.sw.len()).map(move |s| (t, o, s)))
            })
            .collect();
        let mut keep = vec![true; all.len()];
        let base = p.clone();
        let build = |keep: &[bool]| {
            let mut c = base.clone();
            for o in c.tasks.iter_mut().flatten() {
                o.sw.clear();
            }
            for (k, (t, o, s)) in all.iter().enumerate() {
                if keep[k] {
                    let x = base.tasks[*t][*o].sw[*s];
                    c.tasks[*t][*o].sw.push(x);
                }
            }
            c
        };
        let mut chunk = all.len().div_ceil(2).max(1);
        if all.is_empty() {
            return p;
        }
        loop {
            let mut at = 0;
            while at < all.len() {
                if self.over() {
                    return p;
                }
                let e = (at + chunk).min(all.len());
                if keep[at..e].iter().any(|x| *x) {
                    let mut k2 = keep.clone();
                    k2[at..e].iter_mut().for_each(|x| *x = false);
                    let c = build(&k2);
                    if self.fails(&c) {
                        keep = k2;
                        p = c;
                    }
                }
                at = e;
            }
            if chunk == 1 {
                return p;
            }
            chunk = chunk.div_ceil(2);
        }
    }

    fn payload(&mut self, mut p: Plan) -> Plan {
        for t in 0..p.tasks.len() {
            for o in 0..p.tasks[t].len() {
                let u = p.tasks[t][o].u;
                if u == 0 {
                    continue;
                }
                p = self.bulk(p, t, o);
                let mut chunk = (p.tasks[t][o].f.len() / u).div_ceil(2).max(1);
                loop {
                    let mut at = 0;
                    while at * u < p.tasks[t][o].f.len() {
                        if self.over() {
                            return p;
                        }
                        let mut c = p.clone();
                        let e = ((at + chunk) * u).min(c.tasks[t][o].f.len());
                        c.tasks[t][o].f.drain(at * u..e);
                        if self.fails(&c) {
                            p = c;
                        } else {
                            at += chunk;
                        }
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk = chunk.div_ceil(2);
                }
            }
        }
        p
    }

    /// The smallest bulk payload that fails, written out if it is not large.
    fn bulk(&mut self, mut p: Plan, t: usize, o: usize) -> Plan {
        let Some((s, n, k)) = p.tasks[t][o].bulk else { return p };
        let (mut bad, mut good) = (n, 0);
        while bad - good > 1 && !self.over() {
            let mid = good + (bad - good) / 2;
            let mut c = p.clone();
            c.tasks[t][o].bulk = Some((s, mid, k));
            if self.fails(&c) {
                bad = mid;
                p = c;
            } else {
                good = mid;
            }
        }
        if bad < 2000 {
            let mut c = p.clone();
            c.tasks[t][o].expand();
            if self.fails(&c) {
                p = c;
            }
        }
        p
    }

    /// Simpler numbers: whole numbers, then zero.
    fn values(&mut self, mut p: Plan) -> Plan {
        if p.tasks.iter().flatten().map(|o| o.f.len()).sum::<usize>() > 60 {
            return p;
        }
        for t in 0..p.tasks.len() {
            for o in 0..p.tasks[t].len() {
                for k in 0..p.tasks[t][o].f.len() {
                    let x = p.tasks[t][o].f[k];
                    if !x.is_finite() {
                        continue;
                    }
                    for y in [0.0, x.round()] {
                        if self.over() {
                            return p;
                        }
                        if y == x {
                            break;
                        }
                        let mut c = p.clone();
                        c.tasks[t][o].f[k] = y;
                        if self.fails(&c) {
                            p = c;
                            break;
                        }
                    }
                }
            }
        }
        p
    }
}

fn size(p: &Plan) -> usize {
    p.tasks.len() * 1000
        + p.ops() * 100
        + p.units() * 10
        + p.nfaults() * 10
        + p.nsw()
        + p.tasks.iter().flatten().flat_map(|o| &o.faults).map(|f| f.1.min(8) as usize).sum::<usize>()
        + p.tasks.iter().flatten().flat_map(|o| &o.f).filter(|x| **x != 0.0).count()
}
