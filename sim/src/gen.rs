//! Workload generation: point clouds and the simulated transport between the
//! sensors that produce them and the nodes that consume them.
use crate::plan::*;
use crate::rng::Rng;

/// Styles of coordinate data. All but 3 and 4 are exactly representable with
/// few bits, so exact oracles apply.
pub const GRID: u64 = 0;
pub const INTS: u64 = 1;
pub const DYAD: u64 = 2;
pub const UNIF: u64 = 3;
pub const CLUST: u64 = 4;
pub const LINE: u64 = 5;
pub const TIES: u64 = 6;

pub fn exact(style: u64) -> bool {
    style != UNIF && style != CLUST
}

pub fn coord(r: &mut Rng, style: u64) -> f64 {
    match style {
        GRID => r.range(-3, 3) as f64,
        INTS => r.range(-60, 60) as f64,
        DYAD => r.range(-128, 128) as f64 / 8.0,
        UNIF => r.uni(-10.0, 10.0),
        TIES => *r.pick(&[-2.0, 0.0, 0.0, 1.0, 5.0]),
        _ => r.uni(-10.0, 10.0),
    }
}

pub fn cloud(r: &mut Rng, n: usize, dim: usize, style: u64) -> Vec<f64> {
    let mut v = Vec::with_capacity(n * dim);
    match style {
        CLUST => {
            let k = r.us(4) + 1;
            let cs: Vec<Vec<f64>> = (0..k)
                .map(|_| (0..dim).map(|_| r.uni(-10.0, 10.0)).collect())
                .collect();
            for _ in 0..n {
                let c = &cs[r.us(k)];
                for x in c.iter().take(dim) {
                    v.push(x + r.gauss() * 0.3);
                }
            }
        }
        LINE => {
            let (a, d): (Vec<i64>, Vec<i64>) =
                (0..dim).map(|_| (r.range(-5, 5), r.range(-2, 2))).unzip();
            for _ in 0..n {
                let t = r.range(-6, 6);
                let off = if r.chance(0.15) { r.range(-3, 3) } else { 0 };
                for k in 0..dim {
                    v.push((a[k] + t * d[k] + if k == 0 { off } else { 0 }) as f64);
                }
            }
        }
        _ => {
            for _ in 0..n * dim {
                v.push(coord(r, style));
            }
        }
    }
    for x in &mut v {
        *x *= r.scale;
        if r.signed_zeros && *x == 0.0 && r.chance(0.5) {
            *x = -*x;
        }
        if r.offset != 0.0 {
            *x += r.offset;
        }
    }
    // Repeated points, as a moving sensor sees them.
    if n > 1 && r.chance(0.3) {
        for _ in 0..r.us(n / 2 + 1) {
            let (a, b) = (r.us(n), r.us(n));
            for k in 0..dim {
                v[a * dim + k] = v[b * dim + k];
            }
        }
    }
    if r.twins && n > 1 {
        for _ in 0..1 + r.us(n / 2) {
            let (a, b) = (r.us(n), r.us(n));
            for k in 0..dim {
                v[a * dim + k] = v[b * dim + k];
            }
            let near = *r.pick(&[2f64.powi(-52), -(2f64.powi(-52)), 1e-13, 1e-9, 2f64.powi(-23), -(2f64.powi(-22)), 1e-5]);
            v[a * dim + r.us(dim)] *= 1.0 + near;
        }
    }
    v
}

/// Queries near, at, between and far from the points of a cloud.
pub fn queries(r: &mut Rng, n: usize, dim: usize, style: u64, near: &[f64]) -> Vec<f64> {
    let m = near.len() / dim;
    let mut v = vec![];
    for _ in 0..n {
        let kind = r.us(5);
        let (a, b) = if m > 0 { (r.us(m), r.us(m)) } else { (0, 0) };
        for k in 0..dim {
            v.push(match kind {
                0 if m > 0 => near[a * dim + k],
                1 if m > 0 && style != GRID && style != INTS && style != LINE && style != TIES => {
                    (near[a * dim + k] + near[b * dim + k]) / 2.0
                }
                2 if m > 0 => near[(if k % 2 == 0 { a } else { b }) * dim + k],
                3 => (coord(r, style) + if exact(style) { r.range(-40, 40) as f64 } else { r.uni(-40.0, 40.0) }) * r.scale + r.offset,
                _ => coord(r, style) * r.scale + r.offset,
            });
        }
    }
    v
}

/// Choose the unit of this run's data: what compares with a fixed tolerance
/// or takes zeros apart shows in some unit.
pub fn units(r: &mut Rng, lo: i64, hi: i64) {
    r.scale = if r.chance(0.6) { 1.0 } else { (r.range(lo, hi) as f64).exp2() };
    r.signed_zeros = r.chance(0.15);
}

/// Mostly `hi`, now and then much more.
pub fn size(r: &mut Rng, hi: u64, rare: f64, huge: u64) -> u64 {
    if r.chance(rare) {
        let huge = if r.chance(0.07) { huge * 4 } else { huge };
        huge / 4 + r.below(huge)
    } else {
        r.logu(hi)
    }
}

/// More points than two bytes can count.
pub fn many(r: &mut Rng) -> u64 {
    let more = 66_000 + r.below(4000);
    *r.pick(&[65_536, 65_537, more])
}

/// Whether to try that, which takes long.
pub fn bulk(r: &mut Rng) -> bool {
    r.chance(0.0003)
}

/// Points in order, which make the tallest trees.
pub fn chain(r: &mut Rng, n: usize, dim: usize) -> Vec<f64> {
    let up = r.chance(0.5);
    let mut v: Vec<f64> = (0..n)
        .flat_map(|i| {
            let i = if up { i } else { n - i } as f64;
            (0..dim).map(move |k| if k == 0 { i } else { i / 2.0 })
        })
        .collect();
    // A bushy tree at the far end.
    if r.chance(0.5) {
        for _ in 0..20 + r.us(60) {
            for k in 0..dim {
                let end = if k == 0 { n as i64 } else { n as i64 / 2 };
                v.push(if up { end + r.range(0, 40) } else { r.range(-40, 0) } as f64);
            }
        }
    }
    for x in &mut v {
        *x = x.floor() * r.scale;
    }
    v
}

pub struct Net {
    pub loss: f64,
    pub dup: f64,
    pub jitter: i64,
    pub rto: i64,
    /// Faults stop at this time; afterwards every message arrives.
    pub heal: i64,
    /// Nobody hears anything in these windows.
    pub cuts: Vec<(i64, i64)>,
}

impl Net {
    pub fn random(r: &mut Rng, span: i64) -> Net {
        let calm = r.chance(0.2);
        let mut cuts = vec![];
        if r.chance(0.3) {
            let s = r.range(0, span);
            cuts.push((s, s + r.range(1, span / 2 + 1)));
        }
        Net {
            loss: if calm { 0.0 } else { *r.pick(&[0.0, 0.1, 0.3, 0.6]) },
            dup: if calm { 0.0 } else { *r.pick(&[0.0, 0.1, 0.4]) },
            jitter: if calm { 1 } else { r.range(1, span / 2 + 2) },
            rto: r.range(2, span / 3 + 3),
            heal: span * 2,
            cuts,
        }
    }
    /// Arrival times of one message sent at `at`, retransmitted until it gets
    /// through; counts what the transport did to it.
    pub fn send(&self, r: &mut Rng, p: &mut Plan, at: i64) -> Vec<i64> {
        let mut arr = vec![];
        let mut t = at;
        loop {
            let cut = self.cuts.iter().any(|(a, b)| t >= *a && t < *b) && t < self.heal;
            if t < self.heal && cut {
                p.env("message lost in a partition", 1);
            } else if t < self.heal && r.chance(self.loss) {
                p.env("message lost", 1);
            } else {
                let d = r.range(0, self.jitter);
                arr.push(t + d);
                // The acknowledgement may be lost as well.
                let ack_lost = t < self.heal && r.chance(self.loss);
                if t < self.heal && r.chance(self.dup) {
                    arr.push(t + d + r.range(0, 2 * self.jitter));
                    p.env("message duplicated", 1);
                }
                if !ack_lost {
                    return arr;
                }
                p.env("acknowledgement lost (message sent again)", 1);
            }
            t += self.rto;
        }
    }
}

/// Turn (time, op) pairs into a task: ordered by arrival, `t` the gap before.
pub fn schedule(mut v: Vec<(i64, Op)>) -> Vec<Op> {
    v.sort_by_key(|x| x.0);
    let mut last = 0;
    v.into_iter()
        .map(|(t, o)| {
            let g = (t - last).max(0) * 1000;
            last = last.max(t);
            o.t(g)
        })
        .collect()
}

/// How often messages overtook each other.
pub fn count_reordered(p: &mut Plan, order: &[usize]) {
    let mut m = 0;
    let mut n = 0;
    for x in order {
        if *x < m {
            n += 1;
        }
        m = m.max(*x);
    }
    p.env("message reordered", n);
}

/// A crash at some point inside the operation, biased towards its beginning
/// and towards the kinds of point this run contains.
pub fn maybe_fault(r: &mut Rng, op: Op, kinds: &[Kind], prob: f64, size: u64) -> Op {
    if kinds.is_empty() || !r.chance(prob) {
        return op;
    }
    let k = *r.pick(kinds);
    let n = match k {
        Kind::Scalar => r.logu(size * 12 + 8),
        Kind::Span => r.logu(size * 2 + 4),
        Kind::Log => r.logu(4),
        Kind::Callback => r.logu(size + 1),
        Kind::Alloc => r.logu(size / 2 + 6),
    };
    op.fault(k, n)
}

/// Which seams preempt and crash in this run.
pub fn sched(r: &mut Rng, p: &mut Plan, tasks: usize) {
    p.spans = r.chance(0.5);
    p.alloc_preempt = !p.spans && r.chance(0.5);
    if tasks > 1 && r.chance(0.9) {
        let gap = *r.pick(&[2u64, 5, 20, 80, 400]);
        p.rand_sched = Some((r.u64(), gap));
    } else if tasks > 1 {
        p.rand_sched = Some((r.u64(), 1_000_000_000));
    }
}
