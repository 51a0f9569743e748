//! C01, C02, C03: the KD-tree as a set under lossy delivery, crashes inside
//! operations, and readers of published snapshots.
use super::*;
use mapping_algorithms::kd_tree::KDTree;
use num_traits::{NumOps, Zero};

pub trait KS: Sc + nalgebra::Scalar + NumOps + Zero {}
impl<T: Sc + nalgebra::Scalar + NumOps + Zero> KS for T {}

pub type Key<const N: usize> = [u64; N];
pub type Model<const N: usize> = BTreeMap<Key<N>, [f64; N]>;

pub fn key<const N: usize>(p: &[f64; N]) -> Key<N> {
    std::array::from_fn(|i| (p[i] + 0.0).to_bits())
}
pub fn seen<T: Sc, const N: usize>(f: &[f64]) -> [f64; N] {
    std::array::from_fn(|i| q::<T>(f[i]))
}

pub fn contents<T: KS, const N: usize>(t: &KDTree<T, N>) -> Vec<[f64; N]> {
    let mut v = vec![];
    unarmed(|| {
        must(
            lib(|| t.traverse_tree(|p| outside(|| v.push(arr::<T, N>(p))))),
            "traverse_tree",
        )
    });
    v
}

/// The tree must hold exactly the model.
pub fn check_set<T: KS, const N: usize>(t: &KDTree<T, N>, m: &Model<N>, when: &str) {
    let v = contents(t);
    let n = t.len();
    let mut ks: Vec<Key<N>> = v.iter().map(key).collect();
    ks.sort();
    let mk: Vec<Key<N>> = m.keys().copied().collect();
    if ks != mk {
        let missing: Vec<_> = m.iter().filter(|(k, _)| !ks.contains(k)).map(|x| x.1).take(3).collect();
        let extra: Vec<_> = v
            .iter()
            .filter(|p| !m.contains_key(&key(p)) || ks.iter().filter(|k| **k == key(*p)).count() > 1)
            .take(4)
            .collect();
        violate(
            "wrong-contents",
            format!(
                "{when}: the tree holds {} points where the set has {}; missing {missing:?}, unexpected or repeated {extra:?}",
                v.len(),
                m.len()
            ),
        );
    }
    ensure!(
        n == m.len() && t.is_empty() == m.is_empty(),
        "wrong-len",
        "{when}: len() is {n} and is_empty() {} for a set of {} points",
        t.is_empty(),
        m.len()
    );
    note(n as u64);
}

pub fn check_answer<T: KS, const N: usize>(
    got: Option<[f64; N]>,
    m: &Model<N>,
    tg: &[f64; N],
    when: &str,
) {
    match got {
        None => ensure!(
            m.is_empty(),
            "no-answer",
            "{when}: nearest({tg:?}) found nothing among {} points",
            m.len()
        ),
        Some(p) => {
            note(key(&p).iter().fold(0, |a, x| rng::mix(a ^ x)));
            ensure!(
                m.contains_key(&key(&p)),
                "not-a-member",
                "{when}: nearest({tg:?}) answered {p:?}, which is not in the set of {}",
                m.len()
            );
            let d = geom::d2(&p, tg);
            let (best, at) = m.values().map(|x| (geom::d2(x, tg), x)).fold(
                (f64::INFINITY, &p),
                |a, b| if b.0 < a.0 { b } else { a },
            );
            ensure!(
                d <= best * (1.0 + T::TOL) + 1e-30,
                "not-nearest",
                "{when}: nearest({tg:?}) answered {p:?} at squared distance {d}, but {at:?} is at {best}"
            );
        }
    }
}

struct Node<T: KS, const N: usize> {
    tree: KDTree<T, N>,
    m: Model<N>,
}

fn crashed<R>(r: Result<R, Abort>, what: &str) -> Option<R> {
    match r {
        Ok(v) => Some(v),
        Err(Abort::Crash(_)) => {
            hit("operation crashed");
            None
        }
        Err(e) => violate("aborted", format!("{what} ended with {e:?}")),
    }
}

impl<T: KS, const N: usize> Node<T, N> {
    fn new() -> Self {
        Node {
            tree: KDTree::default(),
            m: Model::new(),
        }
    }

    fn insert(&mut self, f: &[f64]) {
        let v = seen::<T, N>(f);
        let p = pt::<T, N>(f);
        let mut tries = 0;
        loop {
            let tree = &mut self.tree;
            let r = lib(|| tree.insert(p));
            if crashed(r, "insert").is_some() {
                if self.m.insert(key(&v), v).is_some() {
                    hit("point inserted again");
                }
                return;
            }
            // Crashed inside: all or nothing.
            let n = contents(&self.tree).len();
            let mut with = self.m.clone();
            with.insert(key(&v), v);
            if n == with.len() && with.len() != self.m.len() {
                hit("crash after the insert took effect");
                self.m = with;
            } else {
                hit("crash before the insert took effect");
            }
            check_set(&self.tree, &self.m, "after a crash inside insert");
            tries += 1;
            ensure!(tries < 12, "HARNESS", "retries");
        }
    }

    /// `clone_from`.
    fn take_over(&mut self, o: &KDTree<T, N>, m: &Model<N>) {
        loop {
            let t = &mut self.tree;
            if crashed(lib(|| t.clone_from(o)), "clone_from").is_some() {
                break;
            }
            let now = contents(&self.tree);
            if now.len() == m.len() && now.iter().all(|x| m.contains_key(&key(x))) {
                hit("crash after the tree was taken over");
                self.m = m.clone();
            }
            check_set(&self.tree, &self.m, "after a crash inside clone_from");
            check_set(o, m, "in the source after a crash inside clone_from");
        }
        self.m = m.clone();
        hit("tree taken over in place");
        check_set(&self.tree, &self.m, "after clone_from");
        check_set(o, m, "in the source of clone_from");
    }

    fn apply(&mut self, op: &Op) {
        match op.k.as_str() {
            "ins" => {
                for c in op.f.chunks_exact(N) {
                    self.insert(c);
                }
                ensure!(
                    self.tree.len() == self.m.len(),
                    "wrong-len",
                    "after a delivery len() is {} for a set of {}",
                    self.tree.len(),
                    self.m.len()
                );
            }
            "from" => {
                let v = pts::<T, N>(&op.f);
                loop {
                    let r = lib(|| KDTree::from(v.as_slice()));
                    if let Some(t) = crashed(r, "build from a slice") {
                        self.tree = t;
                        break;
                    }
                    check_set(&self.tree, &self.m, "after a crash while building another tree");
                }
                self.m.clear();
                for c in op.f.chunks_exact(N) {
                    let x = seen::<T, N>(c);
                    self.m.insert(key(&x), x);
                }
                check_set(&self.tree, &self.m, "after building from a slice");
            }
            "clone" => loop {
                let t = &self.tree;
                if let Some(c) = crashed(lib(|| t.clone()), "clone") {
                    check_set(&c, &self.m, "in a clone");
                    // Going on in either of the two must not be noticed by the other.
                    if op.iv(0) == 1 {
                        let old = std::mem::replace(&mut self.tree, c);
                        let m = self.m.clone();
                        for c in op.f.chunks_exact(N) {
                            self.insert(c);
                        }
                        check_set(&old, &m, "in the original after its clone moved on");
                    } else {
                        self.tree = c;
                    }
                    break;
                }
                check_set(&self.tree, &self.m, "after a crash inside clone");
            },
            // Another tree's points take the place of its own.
            "over" => {
                let v = pts::<T, N>(&op.f);
                let o = must(unarmed(|| lib(|| KDTree::from(v.as_slice()))), "build from a slice");
                let mut m = Model::new();
                for c in op.f.chunks_exact(N) {
                    let x = seen::<T, N>(c);
                    m.insert(key(&x), x);
                }
                self.take_over(&o, &m);
                if op.iv(0) == 1 {
                    // What happens to the copy does not concern the original.
                    let mut c = KDTree::default();
                    let t = &self.tree;
                    let done = unarmed(|| lib(|| {
                        c.clone_from(t);
                        v.iter().for_each(|p| c.insert(pt::<T, N>(&arr::<T, N>(p).map(|x| x * 2.0))));
                        c.traverse_tree_mut(|p| *p = nalgebra::Point::from([T::of(0.0); N]));
                    }));
                    must(done, "using a copy");
                    check_set(&self.tree, &self.m, "in the original of a copy that moved on");
                }
            }
            "q" => {
                for c in op.f.chunks_exact(N) {
                    let tg = seen::<T, N>(c);
                    let p = pt::<T, N>(c);
                    loop {
                        let t = &self.tree;
                        let r = lib(|| t.nearest(&p).map(|x| arr::<T, N>(&x)));
                        if let Some(a) = crashed(r, "nearest") {
                            check_answer::<T, N>(a, &self.m, &tg, "query");
                            break;
                        }
                        check_set(&self.tree, &self.m, "after a crash inside nearest");
                    }
                }
            }
            "chk" => check_set(&self.tree, &self.m, "check"),
            // Order-preserving change of all coordinates (a moving frame).
            "mut" => {
                let sc = op.p.first().copied().unwrap_or(1.0);
                let mv: Vec<f64> = (0..N).map(|k| op.p.get(1 + k).copied().unwrap_or(0.0)).collect();
                // Squared distances have to fit the type.
                if T::INT && sc > 1.0 && self.m.values().flatten().any(|x| x.abs() * sc > 8192.0) {
                    return;
                }
                let tree = &mut self.tree;
                let mut n = 0usize;
                must(
                    lib(|| {
                        tree.traverse_tree_mut(|p| {
                            outside(|| {
                                n += 1;
                                for k in 0..N {
                                    p.coords[k] = T::of(p.coords[k].to() * sc + mv[k]);
                                }
                            })
                        })
                    }),
                    "traverse_tree_mut",
                );
                ensure!(
                    n == self.m.len(),
                    "wrong-traversal",
                    "traverse_tree_mut visited {n} of {} points",
                    self.m.len()
                );
                self.m = self
                    .m
                    .values()
                    .map(|x| {
                        let y: [f64; N] = std::array::from_fn(|k| q::<T>(x[k] * sc + mv[k]));
                        (key(&y), y)
                    })
                    .collect();
                check_set(&self.tree, &self.m, "after moving every point");
            }
            "trav" => loop {
                let mut n = 0usize;
                let t = &self.tree;
                let r = lib(|| {
                    t.traverse_tree(|_| {
                        point_or_crash(Kind::Callback);
                        n += 1;
                    })
                });
                if crashed(r, "traverse_tree").is_some() {
                    ensure!(
                        n == self.m.len(),
                        "wrong-traversal",
                        "traverse_tree visited {n} of {} points",
                        self.m.len()
                    );
                    break;
                }
                check_set(&self.tree, &self.m, "after a crash inside traverse_tree");
            },
            "travm" => self.travm(op.p.first().copied().unwrap_or(1024.0)),
            _ => {}
        }
        state(rng::mix(
            self.m.keys().fold(7u64, |a, k| a.wrapping_add(rng::mix(k.iter().fold(3, |b, x| rng::mix(b ^ x))))),
        ));
    }

    /// A callback that changes points and dies half way; then repair.
    #[allow(non_snake_case)]
    fn travm(&mut self, FAR: f64) {
        let mut moved = 0usize;
        let tree = &mut self.tree;
        let r = lib(|| {
            tree.traverse_tree_mut(|p| {
                point_or_crash(Kind::Callback);
                outside(|| {
                    for k in 0..N {
                        p.coords[k] = T::of(p.coords[k].to() + FAR);
                    }
                    moved += 1;
                });
                point_or_crash(Kind::Callback);
            })
        });
        let done = crashed(r, "traverse_tree_mut").is_some();
        let v = contents(&self.tree);
        let far = v.iter().filter(|p| p[0] > FAR / 2.0).count();
        let mut back: Vec<Key<N>> = v
            .iter()
            .map(|p| {
                let d = if p[0] > FAR / 2.0 { FAR } else { 0.0 };
                key(&std::array::from_fn::<f64, N, _>(|k| p[k] - d))
            })
            .collect();
        back.sort();
        ensure!(
            back == self.m.keys().copied().collect::<Vec<_>>() && self.tree.len() == self.m.len(),
            "lost-in-callback",
            "after a callback {} the tree holds {} of {} points (len {})",
            if done { "changed every point" } else { "died half way" },
            v.len(),
            self.m.len(),
            self.tree.len()
        );
        ensure!(
            far == moved && (!done || moved == self.m.len()),
            "wrong-traversal",
            "the callback changed {moved} points, {far} are changed in the tree of {}",
            self.m.len()
        );
        if !done && moved > 0 && moved < self.m.len() {
            hit("callback died between two points");
        }
        disarm();
        let tree = &mut self.tree;
        must(
            lib(|| {
                tree.traverse_tree_mut(|p| {
                    outside(|| {
                        if p.coords[0].to() > FAR / 2.0 {
                            for k in 0..N {
                                p.coords[k] = T::of(p.coords[k].to() - FAR);
                            }
                        }
                    })
                })
            }),
            "traverse_tree_mut",
        );
        check_set(&self.tree, &self.m, "after repairing a half-done traversal");
    }
}

fn replicas<T: KS, const N: usize>(plan: &Plan) {
    run_tasks_with(
        plan,
        |_| Unsent(Node::<T, N>::new()),
        |_, _, op, n| n.0.apply(op),
        |_, n| {
            disarm();
            check_set(&n.0.tree, &n.0.m, "at the end");
            // Every member must be found again.
            let skip = 1 + n.0.m.len() / 5000 * 100;
            for p in n.0.m.values().step_by(skip) {
                let t = pt::<T, N>(p);
                let a = must(lib(|| n.0.tree.nearest(&t).map(|x| arr::<T, N>(&x))), "nearest");
                check_answer::<T, N>(a, &n.0.m, p, "looking up a member at the end");
            }
        },
    );
}

macro_rules! kd_dispatch {
    ($f:ident, $p:expr) => {
        match ($p.par("ty"), $p.par("dim")) {
            (0, 1) => $f::<SimF, 1>($p),
            (0, 2) => $f::<SimF, 2>($p),
            (0, 3) => $f::<SimF, 3>($p),
            (0, _) => $f::<SimF, 4>($p),
            (1, 2) => $f::<f32, 2>($p),
            (1, _) => $f::<f32, 3>($p),
            (2, 1) => $f::<f64, 1>($p),
            (2, 2) => $f::<f64, 2>($p),
            (2, 3) => $f::<f64, 3>($p),
            (2, 5) => $f::<f64, 5>($p),
            (2, _) => $f::<f64, 8>($p),
            (_, 2) => $f::<i32, 2>($p),
            (_, _) => $f::<i32, 3>($p),
        }
    };
}

fn dims(ty: i64, r: &mut Rng) -> i64 {
    match ty {
        0 => *r.pick(&[1, 2, 2, 3, 3, 4]),
        1 | 3 => *r.pick(&[2, 3]),
        _ => *r.pick(&[1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 5, 8]),
    }
}

pub fn exec_replicas(plan: &Plan) {
    kd_dispatch!(replicas, plan)
}

fn setup(r: &mut Rng, p: &mut Plan, only_exact: bool) -> (i64, usize, u64) {
    let ty = *r.pick(&[0i64, 0, 0, 1, 2, 2, 3]);
    let dim = dims(ty, r);
    let style = if ty == 3 {
        *r.pick(&[gen::GRID, gen::INTS, gen::TIES, gen::LINE])
    } else if only_exact {
        *r.pick(&[gen::GRID, gen::INTS, gen::TIES, gen::LINE, gen::DYAD])
    } else {
        *r.pick(&[gen::GRID, gen::INTS, gen::DYAD, gen::UNIF, gen::UNIF, gen::CLUST, gen::LINE, gen::TIES])
    };
    p.set("ty", ty);
    p.set("dim", dim);
    p.set("style", style as i64);
    match ty {
        3 => {}
        1 => gen::units(r, -8, 2),
        _ => gen::units(r, -20, 4),
    }
    // So small that squares of distances vanish, or so large that they nearly overflow.
    let extreme = ty != 3 && r.chance(0.06);
    if extreme {
        let k = match ty {
            1 => *r.pick(&[-100, -80, -65, 45]),
            _ => *r.pick(&[-900, -700, -560, -520, 440]),
        };
        r.scale = (k as f64).exp2();
    }
    // Far from the origin, but not so far that anything gets lost.
    if !extreme && !(only_exact && p.prop == "C02") && r.chance(0.15) {
        let k = match ty {
            1 | 3 => r.range(4, 12),
            _ => r.range(4, 30),
        };
        r.offset = (k as f64).exp2() * r.scale * if r.chance(0.5) { 1.0 } else { -1.0 };
    }
    r.twins = !gen::exact(style) && r.chance(0.2);
    (ty, dim as usize, style)
}

fn moving(r: &mut Rng, style: u64, dim: usize, ty: i64) -> Op {
    let mut v = vec![1.0];
    if gen::exact(style) && r.chance(0.7) {
        for _ in 0..dim {
            v.push(r.range(-16, 16) as f64 * r.scale);
        }
    } else if ty == 3 {
        v[0] = 2.0;
    } else {
        v[0] = *r.pick(&[2.0, 0.5]);
    }
    Op::new("mut").p(&v)
}

/// More points than two bytes can count, one by one or as a cloud.
fn bulk_c01(r: &mut Rng, p: &mut Plan) {
    let dim = *r.pick(&[1i64, 2, 3, 5]);
    p.set("ty", 2);
    p.set("dim", dim);
    let dim = dim as usize;
    let mut ops = vec![];
    let style = *r.pick(&[LATTICE, LATTICE, BYTES, FRACS]);
    let n = gen::many(r);
    let b = Op::new(*r.pick(&["ins", "ins", "from"])).bulk(r.u64(), n, style, dim);
    ops.push(b);
    ops.push(Op::new("q").f(gen::cloud(r, 5, dim, gen::INTS), dim));
    ops.push(Op::new("ins").f(gen::cloud(r, 20, dim, gen::INTS), dim));
    if r.chance(0.5) {
        ops.push(Op::new("clone"));
    }
    ops.push(Op::new("chk"));
    ops.push(Op::new("q").f(gen::cloud(r, 5, dim, gen::DYAD), dim));
    p.tasks.push(ops);
    gen::sched(r, p, 1);
}

pub fn gen_c01(r: &mut Rng, p: &mut Plan) {
    if gen::bulk(r) {
        return bulk_c01(r, p);
    }
    let (ty, dim, style) = setup(r, p, false);
    let nodes = 1 + r.us(3);
    let msgs = 1 + r.us(14);
    let big = r.chance(0.1);
    let span = msgs as i64 * 4;
    let batches: Vec<Vec<f64>> = (0..msgs)
        .map(|_| {
            let n = r.logu(if big { 120 } else { 16 }) as usize;
            gen::cloud(r, n, dim, style)
        })
        .collect();
    let mut batches = batches;
    if r.chance(0.004) {
        let n = 400 + r.us(2500);
        batches[r.us(msgs)] = gen::cloud(r, n, dim, style);
    }
    if r.chance(0.02) {
        let n = 60 + r.us(300);
        batches[0] = gen::chain(r, n, dim);
        // Ask about that end of it.
        let far = batches[0].len() - dim * 10;
        if msgs > 1 {
            batches[msgs - 1] = batches[0][far..].to_vec();
        }
    }
    let net = gen::Net::random(r, span);
    let moves = r.chance(0.3);
    let mut moved = 0;
    for _ in 0..nodes {
        let mut ev: Vec<(i64, Op)> = vec![];
        let mut arr: Vec<(i64, usize)> = vec![];
        for (m, b) in batches.iter().enumerate() {
            for t in net.send(r, p, m as i64 * 4) {
                arr.push((t, m));
                ev.push((t, Op::new("ins").i(&[m as i64]).f(b.clone(), dim)));
            }
        }
        arr.sort();
        gen::count_reordered(p, &arr.iter().map(|x| x.1).collect::<Vec<_>>());
        let last = arr.last().map(|x| x.0).unwrap_or(0);
        for _ in 0..r.us(8) + 1 {
            let near = &batches[r.us(msgs)];
            let n = 1 + r.us(6);
            ev.push((r.range(0, last + 2), Op::new("q").f(gen::queries(r, n, dim, style, near), dim)));
        }
        for _ in 0..r.us(3) {
            ev.push((r.range(0, last + 2), Op::new("clone")));
        }
        if moves {
            for _ in 0..r.us(3) {
                ev.push((r.range(0, last + 2), moving(r, style, dim, ty)));
                moved += 1;
            }
        }
        // A node that dies loses its tree and rebuilds it from its log.
        if r.chance(0.4) {
            let t = r.range(0, last + 1);
            let mut log: Vec<usize> = arr.iter().filter(|x| x.0 <= t).map(|x| x.1).collect();
            if r.chance(0.5) {
                r.shuffle(&mut log);
            }
            let f: Vec<f64> = log.iter().flat_map(|m| batches[*m].clone()).collect();
            ev.push((t, Op::new("from").f(f, dim)));
            p.env("node restarted and rebuilt from its log", 1);
        }
        ev.push((last + 3, Op::new("chk")));
        let n = 4 + r.us(8);
        let all: Vec<f64> = batches.iter().flatten().copied().collect();
        ev.push((last + 4, Op::new("q").f(gen::queries(r, n, dim, style, &all), dim)));
        p.tasks.push(gen::schedule(ev));
    }
    p.env("frame moved under the tree", moved);
    gen::sched(r, p, nodes);
}

pub fn gen_c02(r: &mut Rng, p: &mut Plan) {
    let (ty, dim, style) = setup(r, p, true);
    let nodes = 1 + r.us(2);
    gen::sched(r, p, nodes);
    let kinds: Vec<Kind> = match (ty, p.spans) {
        (0, true) => vec![Kind::Scalar, Kind::Span],
        (0, false) => vec![Kind::Scalar, Kind::Alloc, Kind::Alloc],
        (_, true) => vec![Kind::Span],
        (_, false) => vec![Kind::Alloc],
    };
    for _ in 0..nodes {
        let mut ops = vec![];
        let mut all: Vec<f64> = vec![];
        let rate = *r.pick(&[0.15, 0.4, 0.8]);
        for _ in 0..2 + r.us(14) {
            let n = r.logu(10) as usize;
            let size = (all.len() / dim + n) as u64;
            let far = 1024.0 * r.scale;
            let o = match r.us(12) {
                0..=5 => {
                    let mut b = gen::cloud(r, n, dim, style);
                    if !all.is_empty() && r.chance(0.3) {
                        let k = r.us(all.len() / dim);
                        b.extend_from_slice(&all[k * dim..(k + 1) * dim]);
                    }
                    all.extend_from_slice(&b);
                    let mut o = gen::maybe_fault(r, Op::new("ins").f(b, dim), &kinds, rate, size);
                    if r.chance(0.3) {
                        o = gen::maybe_fault(r, o, &kinds, rate, size);
                    }
                    o
                }
                6 => {
                    let b = gen::cloud(r, n, dim, style);
                    gen::maybe_fault(r, Op::new("clone").i(&[1]).f(b, dim), &kinds, rate, size)
                }
                7 if r.chance(0.5) => {
                    // some of what it holds, and more
                    let mut b: Vec<f64> = all.chunks(dim).filter(|_| r.chance(0.5)).flatten().copied().collect();
                    b.extend(gen::cloud(r, n, dim, style));
                    let o = Op::new("over").i(&[r.chance(0.3) as i64]).f(b, dim);
                    gen::maybe_fault(r, o, &kinds, rate, size)
                }
                7 => gen::maybe_fault(r, Op::new("clone"), &kinds, rate, size),
                8 => {
                    let mut b = all.clone();
                    b.extend(gen::cloud(r, n, dim, style));
                    gen::maybe_fault(r, Op::new("from").f(b, dim), &kinds, rate, size * 2)
                }
                9 => gen::maybe_fault(
                    r,
                    Op::new("trav"),
                    &[&kinds[..], &[Kind::Callback, Kind::Callback]].concat(),
                    rate,
                    size,
                ),
                10 => gen::maybe_fault(
                    r,
                    Op::new("travm").p(&[far]),
                    &[&kinds[..], &[Kind::Callback, Kind::Callback, Kind::Callback]].concat(),
                    rate,
                    size,
                ),
                _ => {
                    let qs = gen::queries(r, 1 + n / 2, dim, style, &all);
                    gen::maybe_fault(r, Op::new("q").f(qs, dim), &kinds, rate, size)
                }
            };
            ops.push(o);
        }
        ops.push(Op::new("q").f(gen::queries(r, 5, dim, style, &all), dim));
        p.tasks.push(ops);
    }
}

// ------------------------------------------------------------------- C03
struct Version<T: KS, const N: usize> {
    tree: KDTree<T, N>,
    m: Model<N>,
}

fn snapshots<T: KS, const N: usize>(plan: &Plan) {
    let pubd: Global<Vec<Box<Version<T, N>>>> = Global::new(vec![]);
    let first = Box::new(Version {
        tree: KDTree::default(),
        m: Model::new(),
    });
    pubd.get().push(first);
    run_tasks_with(
        plan,
        |_| Unsent(Node::<T, N>::new()),
        |_, _, op, n| match op.k.as_str() {
            // Reader operations on a published version.
            "rq" | "rs" => {
                let vs = pubd.get();
                let k = if op.iv(0) == 0 {
                    vs.len() - 1
                } else {
                    op.iv(0) as usize % vs.len()
                };
                let v: &Version<T, N> = unsafe { &*(&*vs[k] as *const _) };
                if op.k == "rs" {
                    check_set(&v.tree, &v.m, &format!("snapshot {k}"));
                    return;
                }
                for c in op.f.chunks_exact(N) {
                    let tg = seen::<T, N>(c);
                    let t = pt::<T, N>(c);
                    let newest = vs.len();
                    let a = loop {
                        let r = lib(|| v.tree.nearest(&t).map(|x| arr::<T, N>(&x)));
                        if let Some(a) = crashed(r, "nearest") {
                            break a;
                        }
                    };
                    if pubd.get().len() != newest {
                        hit("a new version was published during a read");
                    }
                    check_answer::<T, N>(a, &v.m, &tg, &format!("reading snapshot {k}"));
                }
            }
            "pub" => {
                let t = &n.0.tree;
                let c = loop {
                    if let Some(c) = crashed(lib(|| t.clone()), "clone") {
                        break c;
                    }
                };
                check_set(&c, &n.0.m, "publishing");
                pubd.get().push(Box::new(Version {
                    tree: c,
                    m: n.0.m.clone(),
                }));
                hit("version published");
            }
            // The writer dies; its successor starts from a published version.
            "die" => {
                let vs = pubd.get();
                let k = vs.len() - 1;
                let v: &Version<T, N> = unsafe { &*(&*vs[k] as *const _) };
                if op.iv(0) == 1 {
                    n.0.take_over(&v.tree, &v.m);
                } else {
                    let c = must(lib(|| v.tree.clone()), "clone");
                    n.0.tree = c;
                    n.0.m = v.m.clone();
                }
                check_set(&n.0.tree, &n.0.m, "after taking over");
            }
            _ => n.0.apply(op),
        },
        |_, n| {
            disarm();
            check_set(&n.0.tree, &n.0.m, "at the end");
            drop(n);
            // By index: the list may grow while this task is switched out.
            for k in 0..pubd.get().len() {
                let v: &Version<T, N> = unsafe { &*(&*pubd.get()[k] as *const _) };
                check_set(&v.tree, &v.m, &format!("snapshot {k} at the end"));
            }
        },
    );
}

pub fn exec_c03(plan: &Plan) {
    kd_dispatch!(snapshots, plan)
}

pub fn gen_c03(r: &mut Rng, p: &mut Plan) {
    let (ty, dim, style) = setup(r, p, true);
    let readers = 1 + r.us(3);
    gen::sched(r, p, 1 + readers);
    let kinds: Vec<Kind> = match (ty, p.spans) {
        (0, true) => vec![Kind::Scalar, Kind::Span],
        (0, false) => vec![Kind::Scalar],
        (_, true) => vec![Kind::Span],
        (_, false) => vec![],
    };
    let mut w = vec![];
    let mut all = vec![];
    let mut since = false;
    for _ in 0..4 + r.us(20) {
        match r.us(9) {
            0..=3 => {
                let n = r.logu(10) as usize;
                let b = gen::cloud(r, n, dim, style);
                all.extend_from_slice(&b);
                let size = (all.len() / dim) as u64;
                w.push(gen::maybe_fault(r, Op::new("ins").f(b, dim), &kinds, 0.15, size));
                since = true;
            }
            4..=5 => w.push(Op::new("pub")),
            6 => w.push(moving(r, style, dim, ty)),
            7 if since => {
                w.push(Op::new("die").i(&[r.chance(0.5) as i64]));
                p.env("writer died and a successor took over a snapshot", 1);
            }
            _ => {
                w.push(Op::new("q").f(gen::queries(r, 3, dim, style, &all), dim));
            }
        }
    }
    w.push(Op::new("pub"));
    p.tasks.push(w);
    for _ in 0..readers {
        let mut v = vec![];
        for _ in 0..3 + r.us(16) {
            let sel = if r.chance(0.6) { 0 } else { r.range(1, 8) };
            if r.chance(0.2) {
                v.push(Op::new("rs").i(&[sel]));
            } else {
                let n = 1 + r.us(4);
                let qs = gen::queries(r, n, dim, style, &all);
                let o = Op::new("rq").i(&[sel]).f(qs, dim).t(r.range(0, 3000));
                v.push(gen::maybe_fault(r, o, &kinds, 0.08, (all.len() / dim) as u64));
            }
        }
        p.tasks.push(v);
    }
}
