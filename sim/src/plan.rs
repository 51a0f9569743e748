//! A plan is one complete simulated execution written down: the tasks, their
//! operations, the schedule and the faults. Executing a plan is a pure function
//! of the plan and the code under test.
use crate::json::J;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Scalar = 0,
    Span = 1,
    Log = 2,
    Callback = 3,
    Alloc = 4,
}
pub const NK: usize = 5;
pub const KIND_NAMES: [&str; NK] = ["scalar", "span", "log", "callback", "alloc"];

/// Styles of bulk payloads: all points of a lattice in random order, many
/// copies of few points, whole numbers below 256, fractions below 100.
pub const LATTICE: u64 = 0;
pub const FEW: u64 = 1;
pub const BYTES: u64 = 2;
pub const FRACS: u64 = 3;
pub const LINED: u64 = 4;

#[derive(Clone, Debug, Default)]
pub struct Op {
    pub k: String,
    /// Simulated time that passes before the operation starts (microseconds).
    pub t: i64,
    pub i: Vec<i64>,
    pub p: Vec<f64>,
    /// Payload; `u` numbers make up one removable unit (0: not removable).
    pub f: Vec<f64>,
    pub u: usize,
    /// A payload too large to write down: (seed, number of units, style), put
    /// after `f` when the plan is executed.
    pub bulk: Option<(u64, u64, u64)>,
    /// (kind, n): the n-th point of that kind inside this operation fails.
    pub faults: Vec<(usize, u64)>,
    /// (n, task): at the n-th point of this operation switch to `task`.
    pub sw: Vec<(u64, usize)>,
}

impl Op {
    pub fn new(k: &str) -> Op {
        Op {
            k: k.into(),
            t: 1,
            ..Default::default()
        }
    }
    pub fn i(mut self, v: &[i64]) -> Op {
        self.i = v.to_vec();
        self
    }
    pub fn p(mut self, v: &[f64]) -> Op {
        self.p = v.to_vec();
        self
    }
    pub fn f(mut self, v: Vec<f64>, u: usize) -> Op {
        self.f = v;
        self.u = u;
        self
    }
    pub fn bulk(mut self, seed: u64, n: u64, style: u64, u: usize) -> Op {
        self.bulk = Some((seed >> 12, n, style));
        self.u = u;
        self
    }
    /// The operation with its payload written out.
    pub fn expand(&mut self) {
        let Some((seed, n, style)) = self.bulk.take() else { return };
        let d = self.u;
        let mut r = Rng::new(seed);
        let side = (1..).find(|s: &u64| s.pow(d as u32) >= n).unwrap();
        let mut v: Vec<u64> = (0..n).collect();
        if style == LATTICE {
            r.shuffle(&mut v);
        }
        for mut i in v {
            for _ in 0..d {
                if style == LINED {
                    self.f.push(i as f64);
                    continue;
                }
                self.f.push(match style {
                    LATTICE => {
                        let x = i % side;
                        i /= side;
                        x as f64
                    }
                    FEW => r.below(4) as f64,
                    BYTES => r.below(256) as f64,
                    _ => r.below(6400) as f64 / 64.0,
                });
            }
        }
    }
    pub fn t(mut self, t: i64) -> Op {
        self.t = t;
        self
    }
    pub fn fault(mut self, k: Kind, n: u64) -> Op {
        self.faults.push((k as usize, n));
        self
    }
    pub fn iv(&self, n: usize) -> i64 {
        self.i.get(n).copied().unwrap_or(0)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub prop: String,
    pub build: String,
    pub seed: u64,
    pub params: Vec<(String, i64)>,
    pub tasks: Vec<Vec<Op>>,
    /// Random scheduling while searching: (seed, mean gap). None: `sw` decides.
    pub rand_sched: Option<(u64, u64)>,
    pub entropy: u64,
    pub spans: bool,
    pub alloc_preempt: bool,
    /// Environment faults the generator put into this plan (drops, flips, ...).
    pub env: Vec<(String, u64)>,
}

impl Plan {
    pub fn new(prop: &str, seed: u64) -> Plan {
        Plan {
            prop: prop.into(),
            build: crate::BUILD.into(),
            seed,
            entropy: crate::rng::mix(seed ^ 0xE57),
            ..Default::default()
        }
    }
    pub fn par(&self, k: &str) -> i64 {
        self.params
            .iter()
            .find(|(n, _)| n == k)
            .map(|x| x.1)
            .unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        if let Some(e) = self.params.iter_mut().find(|(n, _)| n == k) {
            e.1 = v;
        } else {
            self.params.push((k.into(), v));
        }
    }
    pub fn env(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(e) = self.env.iter_mut().find(|(x, _)| x == k) {
            e.1 += n;
        } else {
            self.env.push((k.into(), n));
        }
    }
    pub fn ops(&self) -> usize {
        self.tasks.iter().map(|t| t.len()).sum()
    }
    pub fn units(&self) -> usize {
        self.tasks
            .iter()
            .flatten()
            .map(|o| if o.u > 0 { o.f.len() / o.u } else { 0 } + o.bulk.map_or(0, |b| b.1 as usize))
            .sum()
    }
    pub fn nfaults(&self) -> usize {
        self.tasks.iter().flatten().map(|o| o.faults.len()).sum()
    }
    pub fn nsw(&self) -> usize {
        self.tasks.iter().flatten().map(|o| o.sw.len()).sum()
    }
    pub fn to_json(&self) -> J {
        let fl = |v: &[f64]| J::Arr(v.iter().map(|x| J::f(*x)).collect());
        let tasks = self
            .tasks
            .iter()
            .map(|t| {
                J::Arr(
                    t.iter()
                        .map(|o| {
                            let mut j = J::obj().set("op", J::s(&*o.k)).set("t", J::Int(o.t));
                            if !o.i.is_empty() {
                                j.put("i", J::Arr(o.i.iter().map(|x| J::Int(*x)).collect()));
                            }
                            if !o.p.is_empty() {
                                j.put("p", fl(&o.p));
                            }
                            if !o.f.is_empty() || o.u > 0 {
                                j.put("f", fl(&o.f));
                                j.put("u", J::Int(o.u as i64));
                            }
                            if let Some((s, n, k)) = o.bulk {
                                j.put("u", J::Int(o.u as i64));
                                j.put("bulk", J::Arr(vec![J::Int(s as i64), J::Int(n as i64), J::Int(k as i64)]));
                            }
                            if !o.faults.is_empty() {
                                j.put(
                                    "faults",
                                    J::Arr(
                                        o.faults
                                            .iter()
                                            .map(|(k, n)| {
                                                J::Arr(vec![
                                                    J::s(KIND_NAMES[*k]),
                                                    J::Int(*n as i64),
                                                ])
                                            })
                                            .collect(),
                                    ),
                                );
                            }
                            if !o.sw.is_empty() {
                                j.put(
                                    "switch",
                                    J::Arr(
                                        o.sw.iter()
                                            .map(|(n, t)| {
                                                J::Arr(vec![J::Int(*n as i64), J::Int(*t as i64)])
                                            })
                                            .collect(),
                                    ),
                                );
                            }
                            j
                        })
                        .collect(),
                )
            })
            .collect();
        let kv = |v: &[(String, i64)]| {
            let mut o = J::obj();
            for (k, x) in v {
                o.put(k, J::Int(*x));
            }
            o
        };
        let mut j = J::obj()
            .set("property", J::s(&*self.prop))
            .set("build", J::s(&*self.build))
            .set("seed", J::s(self.seed.to_string()))
            .set("entropy", J::s(self.entropy.to_string()))
            .set("spans", J::Int(self.spans as i64))
            .set("alloc_preempt", J::Int(self.alloc_preempt as i64))
            .set("params", kv(&self.params))
            .set(
                "env",
                kv(&self
                    .env
                    .iter()
                    .map(|(k, v)| (k.clone(), *v as i64))
                    .collect::<Vec<_>>()),
            )
            .set("tasks", J::Arr(tasks));
        if let Some((s, g)) = self.rand_sched {
            j.put(
                "rand_sched",
                J::Arr(vec![J::s(s.to_string()), J::Int(g as i64)]),
            );
        }
        j
    }
    pub fn from_json(j: &J) -> Option<Plan> {
        let fl = |v: &J| v.arr().iter().map(|x| x.float()).collect::<Vec<_>>();
        let mut p = Plan {
            prop: j.get("property").str().into(),
            build: j.get("build").str().into(),
            seed: j.get("seed").str().parse().ok()?,
            entropy: j.get("entropy").str().parse().ok()?,
            spans: j.get("spans").int() != 0,
            alloc_preempt: j.get("alloc_preempt").int() != 0,
            ..Default::default()
        };
        if let J::Obj(m) = j.get("params") {
            for (k, v) in m {
                p.params.push((k.clone(), v.int()));
            }
        }
        if let J::Obj(m) = j.get("env") {
            for (k, v) in m {
                p.env.push((k.clone(), v.int() as u64));
            }
        }
        let rs = j.get("rand_sched").arr();
        if rs.len() == 2 {
            p.rand_sched = Some((rs[0].str().parse().ok()?, rs[1].int() as u64));
        }
        for t in j.get("tasks").arr() {
            let mut ops = vec![];
            for o in t.arr() {
                let mut op = Op::new(o.get("op").str());
                op.t = o.get("t").int();
                op.i = o.get("i").arr().iter().map(|x| x.int()).collect();
                op.p = fl(o.get("p"));
                op.f = fl(o.get("f"));
                op.u = o.get("u").int() as usize;
                if let [s, n, k] = o.get("bulk").arr() {
                    op.bulk = Some((s.int() as u64, n.int() as u64, k.int() as u64));
                }
                for x in o.get("faults").arr() {
                    let k = KIND_NAMES.iter().position(|n| *n == x.arr()[0].str())?;
                    op.faults.push((k, x.arr()[1].int() as u64));
                }
                for x in o.get("switch").arr() {
                    op.sw
                        .push((x.arr()[0].int() as u64, x.arr()[1].int() as usize));
                }
                ops.push(op);
            }
            p.tasks.push(ops);
        }
        Some(p)
    }
}
