//! C13: a corrupted coordinate (a flipped bit, NaN, an infinity) does no damage
//! beyond itself, and repairing it repairs everything.
use super::icp::{config, err_name, iso_bits, IcpT, Rot};
use super::*;
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::lines::plot_bresenham_line;
use mapping_algorithms::point_clouds::*;
use mapping_algorithms::polygons::*;
use mapping_algorithms::types::{AbstractIsometry, IsometryAbstractor};
use nalgebra::{AbstractRotation, Isometry, Point, Point2};
use num_traits::AsPrimitive;

pub trait Flip: Sized {
    /// One coordinate damaged: a bit flipped, or a special value.
    fn damage(self, how: i64) -> Self;
}
macro_rules! flips {
    ($($t:ty, $b:expr;)*) => {$(
        impl Flip for $t {
            fn damage(self, how: i64) -> Self {
                match how {
                    100 => <$t>::NAN,
                    101 => <$t>::INFINITY,
                    102 => <$t>::NEG_INFINITY,
                    103 => <$t>::MAX,
                    104 => <$t>::MIN,
                    h => <$t>::from_bits(self.to_bits() ^ (1 << (h.rem_euclid($b)))),
                }
            }
        }
    )*};
}
flips! { f32, 32; f64, 64; }

fn bitsof<T: IcpT, const N: usize>(v: &[Point<T, N>]) -> Vec<[u64; N]> {
    v.iter().map(|p| arr::<T, N>(p).map(super::icp::canon)).collect()
}

/// A call on damaged input may be refused or may panic, but has to come back.
fn survive<R>(what: &str, mut f: impl FnMut() -> Result<R, Abort>) -> Option<R> {
    for _ in 0..40 {
        match f() {
            Ok(v) => return Some(v),
            Err(Abort::Crash(_)) => hit("operation crashed and was retried"),
            Err(Abort::Panic(_)) => {
                hit("refused by panicking");
                return None;
            }
            Err(e) => must::<()>(Err(e), what),
        };
    }
    violate("HARNESS", "retries never ended".into())
}
/// A call that must neither panic nor hang.
fn serve<R>(what: &str, f: impl FnMut() -> Result<R, Abort>) -> R {
    retry(what, f)
}

#[derive(Clone, PartialEq, Debug)]
struct Reg {
    ok: bool,
    name: String,
    bits: Vec<u64>,
    finite: bool,
}

fn register<T, const N: usize>(s: &[Point<T, N>], t: &[Point<T, N>], op: &Op) -> Reg
where
    T: IcpT,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N>,
    <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType: Rot<T>,
{
    let c = outside(|| config::<T>(op.iv(5) != 0, op.iv(6).max(1) as usize, None, 0.01));
    let r = icp::<T, N>(s, t, c);
    outside(|| match r {
        Ok(x) => {
            let mut bits = iso_bits::<T, N>(&x.transform);
            bits.push(x.mse.to().to_bits());
            bits.push(x.iteration_num as u64);
            let finite = x.mse.to().is_finite() && bits[..bits.len() - 1].iter().all(|b| f64::from_bits(*b).is_finite());
            Reg { ok: true, name: String::new(), bits, finite }
        }
        Err(e) => Reg { ok: false, name: err_name(&e), bits: vec![], finite: true },
    })
}

fn apply<T, const N: usize>(op: &Op)
where
    T: IcpT + Flip + num_traits::Float,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    T: AsPrimitive<T> + AsPrimitive<isize> + AsPrimitive<usize> + AsPrimitive<i64>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N>,
    <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType: Rot<T>,
{
    let good = pts::<T, N>(&op.f);
    let other = pts::<T, N>(&op.p);
    if good.is_empty() {
        return;
    }
    let (at, co, how) = (op.iv(2).rem_euclid(good.len() as i64) as usize, op.iv(3).rem_euclid(N as i64) as usize, op.iv(4));
    let mut bad = good.clone();
    bad[at].coords[co] = bad[at].coords[co].damage(how);
    let v = bad[at].coords[co];
    let sick = !v.to().is_finite();
    if v.to().is_nan() {
        hit("damage made a NaN");
    } else if sick {
        hit("damage made an infinity");
    } else {
        hit("damage made another number");
    }
    let say = || format!("coordinate {co} of point {at} became {v:?}");
    let mut rest = good.clone();
    rest.remove(at);
    let restf: Vec<f64> = rest.iter().flat_map(|p| arr::<T, N>(p)).collect();
    match op.k.as_str() {
        "tr" => {
            let iso: Isometry<T, _, N> = {
                let rot = <<IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType as Rot<T>>::make(&[0.3, -0.2, 0.5]);
                let _ = rot.inverse();
                Isometry::from_parts(
                    nalgebra::Translation::from(nalgebra::SVector::<T, N>::from(std::array::from_fn::<T, N, _>(|d| T::of(d as f64 - 0.5)))),
                    rot,
                )
            };
            let a = serve("transform", || lib(|| transform_point_cloud(&good, iso)));
            let b = serve("transform", || lib(|| transform_point_cloud(&bad, iso)));
            ensure!(b.len() == bad.len(), "damage-spread", "{}: {} of {} points were transformed", say(), b.len(), bad.len());
            let (x, y) = (bitsof(&a), bitsof(&b));
            for i in 0..x.len() {
                ensure!(i == at || x[i] == y[i], "damage-spread", "{}, and the transform of point {i} changed from {:?} to {:?}", say(), a[i], b[i]);
            }
            note(x.len() as u64);
        }
        "down" => {
            let vs = 1.0;
            let out = serve("downsample", || lib(|| downsample_point_cloud_voxel::<T, T, N>(&bad, T::of(vs))));
            let got: Vec<[f64; N]> = out.iter().map(arr::<T, N>).collect();
            let exp = down::expected::<T, N>(&restf, vs);
            let size = restf.iter().fold(1e-30f64, |a, x| a.max(x.abs()));
            let tol = T::TOL * 8.0 * size;
            let lost: Vec<_> = exp
                .values()
                .filter(|(c, _)| !got.iter().any(|g| (0..N).all(|d| (g[d] - c[d]).abs() <= tol)))
                .map(|x| x.0)
                .collect();
            ensure!(
                lost.len() <= 1 && (got.len() == exp.len() || got.len() == exp.len() + 1) && (lost.is_empty() || got.len() == exp.len()),
                "damage-spread",
                "{}: {} voxels of the other points became {} outputs, and these centroids are gone: {lost:?}",
                say(),
                exp.len(),
                got.len()
            );
            let again = serve("downsample", || lib(|| downsample_point_cloud_voxel::<T, T, N>(&good, T::of(vs))));
            let again: Vec<[f64; N]> = again.iter().map(arr::<T, N>).collect();
            down::check::<T, N>(&again, &op.f, vs, "after the repair");
            note(got.len() as u64);
        }
        "lex" => {
            let before = bitsof(&bad);
            let mut w = bad.clone();
            for which in 0..3 {
                let r: Option<Vec<Point<T, N>>> = match which {
                    0 => {
                        let x = &mut w;
                        serve("lex_sort_in_place", || lib(|| lex_sort_in_place(x))).then(|| w.clone())
                    }
                    1 => serve("lex_sort", || lib(|| lex_sort(&bad))),
                    _ => serve("lex_sort_ref", || lib(|| lex_sort_ref(&bad).map(|v| v.into_iter().copied().collect()))),
                };
                match r {
                    None => {
                        ensure!(v.to().is_nan(), "rejected", "{}: sort {which} rejected it", say());
                        ensure!(bitsof(&w) == before, "rejected-but-changed", "{}: sort {which} rejected it and changed the cloud", say());
                    }
                    Some(x) => {
                        ensure!(!v.to().is_nan(), "accepted-nan", "{}: sort {which} accepted it", say());
                        let mut a = bitsof(&x);
                        let mut b = before.clone();
                        a.sort();
                        b.sort();
                        ensure!(a == b, "damage-spread", "{}: sort {which} did not return the same points", say());
                        ensure!(
                            x.windows(2).all(|p| arr::<T, N>(&p[0]).partial_cmp(&arr::<T, N>(&p[1])) != Some(std::cmp::Ordering::Greater)),
                            "out-of-order",
                            "{}: sort {which} is out of order",
                            say()
                        );
                    }
                }
            }
            note(before.len() as u64);
        }
        "nn" => {
            for q in &other {
                let qa = arr::<T, N>(q);
                let r = serve("find_nearest_neighbour_naive", || lib(|| find_nearest_neighbour_naive(q, &bad)));
                near::<T, N>(r, &bad, &qa, &format!("find_nearest_neighbour_naive after {}", say()));
            }
        }
        "kd" => {
            // Built from the damaged cloud, or damaged on the way in.
            let mut t = match op.iv(5) {
                0 => serve("build a tree", || lib(|| KDTree::from(bad.as_slice()))),
                _ => {
                    let mut t = KDTree::default();
                    for p in &bad {
                        let x = &mut t;
                        serve("insert", || lib(|| x.insert(*p)));
                    }
                    t
                }
            };
            let mut held: Vec<Point<T, N>> = bad.iter().filter(|p| p.iter().all(|c| !c.to().is_nan())).copied().collect();
            let dedup = |v: &[Point<T, N>]| {
                let mut k: Vec<_> = v.iter().map(|p| kd::key::<N>(&arr::<T, N>(p))).collect();
                k.sort();
                k.dedup();
                k.len()
            };
            for stage in 0..2 {
                let mut ks = vec![];
                let tr = &t;
                serve("traverse_tree", || {
                    ks.clear();
                    lib(|| tr.traverse_tree(|p| outside(|| ks.push(*p))))
                });
                ensure!(
                    ks.iter().all(|p| p.iter().all(|c| !c.to().is_nan())) && ks.len() == dedup(&held) && t.len() == ks.len() && dedup(&ks) == ks.len(),
                    "damage-spread",
                    "{}: the tree holds {} points (len {}), {} of them with a NaN, where the set of readable points has {}",
                    say(),
                    ks.len(),
                    t.len(),
                    ks.iter().filter(|p| p.iter().any(|c| c.to().is_nan())).count(),
                    dedup(&held)
                );
                for q in &other {
                    let qa = arr::<T, N>(q);
                    let tr = &t;
                    let r = serve("nearest", || lib(|| tr.nearest(q)));
                    near::<T, N>(r, &held, &qa, &format!("nearest after {}", say()));
                }
                if stage == 0 {
                    // A damaged query and the repaired point, then on as before.
                    let mut q = good[at];
                    q.coords[co] = q.coords[co].damage(how);
                    let tr = &t;
                    serve("nearest of a damaged query", || lib(|| tr.nearest(&q)));
                    let x = &mut t;
                    serve("insert", || lib(|| x.insert(good[at])));
                    held.push(good[at]);
                }
            }
        }
        "icp" => {
            let (s, g): (&[_], &[_]) = if op.iv(7) == 0 { (&bad, &other) } else { (&other, &bad) };
            if other.is_empty() {
                return;
            }
            let r = survive("icp", || lib(|| register::<T, N>(s, g, op)));
            if let Some(r) = &r {
                ensure!(
                    r.finite,
                    "garbage-accepted",
                    "{}: icp reported convergence with transform, error and iteration {:?}",
                    say(),
                    r.bits.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()
                );
                if !r.ok {
                    hit("registration of damaged clouds did not converge");
                }
                note(r.bits.iter().fold(r.ok as u64, |a, b| rng::mix(a ^ b)));
            }
            let (s, g): (&[_], &[_]) = if op.iv(7) == 0 { (&good, &other) } else { (&other, &good) };
            let want = serve("icp", || lib(|| register::<T, N>(s, g, op)));
            let again = serve("icp", || lib(|| register::<T, N>(s, g, op)));
            ensure!(want == again, "not-repaired", "after the repair icp gave {again:?}, before {want:?}");
        }
        // Registration that is under way when the damage arrives for one step.
        "reg" => {
            if other.is_empty() {
                return;
            }
            let c = config::<T>(false, 20, None, 1e-9);
            let run = |hurt: bool| {
                let mut iso = Isometry::identity();
                let mut mse = <T as num_traits::Bounded>::max_value();
                let mut tp = good.clone();
                let mut log = vec![];
                for k in 0..op.iv(6).clamp(2, 8) {
                    if hurt && k == 1 {
                        // This step sees the damaged cloud, on copies of the state.
                        let (mut i2, mut m2, mut t2) = (iso, mse, tp.clone());
                        let (src, tgt): (&[_], Vec<_>) = if op.iv(7) == 0 {
                            t2[at].coords[co] = t2[at].coords[co].damage(how);
                            (&bad, other.clone())
                        } else {
                            let mut o = other.clone();
                            let j = at % o.len();
                            o[j].coords[co] = o[j].coords[co].damage(how);
                            (&good, o)
                        };
                        survive("icp_iteration", || {
                            lib(|| {
                                let tree = (op.iv(5) != 0).then(|| KDTree::from(tgt.as_slice()));
                                let _ = icp_iteration::<T, N>(src, &mut t2, &tgt, tree.as_ref(), &mut i2, &mut m2, &c);
                            })
                        });
                    }
                    let r = serve("icp_iteration", || {
                        let (mut i2, mut m2, mut t2) = (iso, mse, tp.clone());
                        lib(|| {
                            let tree = (op.iv(5) != 0).then(|| KDTree::from(other.as_slice()));
                            let r = icp_iteration::<T, N>(&good, &mut t2, &other, tree.as_ref(), &mut i2, &mut m2, &c);
                            (r.is_ok(), i2, m2, t2)
                        })
                    });
                    log.push((r.0, iso_bits::<T, N>(&r.1), r.2.to().to_bits()));
                    (iso, mse, tp) = (r.1, r.2, r.3);
                }
                log
            };
            let (a, b) = (run(false), run(true));
            ensure!(a == b, "not-repaired", "{} for one discarded step, and the registration then went another way", say());
        }
        _ => {}
    }
    state(rng::mix(op.k.len() as u64 ^ (how as u64) << 8 ^ (good.len() as u64) << 20));
}

/// The readable elements decide: the answer is as near as any of them.
fn near<T: IcpT, const N: usize>(r: Option<Point<T, N>>, held: &[Point<T, N>], q: &[f64; N], when: &str) {
    let d = |p: &Point<T, N>| geom::d2(&arr::<T, N>(p), q);
    let best = held.iter().map(d).filter(|x| x.is_finite()).fold(f64::INFINITY, f64::min);
    match r {
        None => ensure!(held.is_empty(), "no-answer", "{when}: nothing found among {} points", held.len()),
        Some(p) => {
            let x = d(&p);
            // A distance that overflows in T is as good as infinite.
            let cap = if std::mem::size_of::<T>() == 4 { 1e38 } else { 1e300 };
            ensure!(
                !(best < cap) || x <= best * (1.0 + T::TOL) + 1e-30,
                "not-nearest",
                "{when}: {p:?} at squared distance {x} was returned for {q:?}, but another is at {best}"
            );
            note(x.to_bits());
        }
    }
}

fn planar<T>(op: &Op)
where
    T: IcpT + Flip + num_traits::Float,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    T: AsPrimitive<T> + AsPrimitive<isize> + AsPrimitive<usize> + AsPrimitive<i64>,
{
    let good = pts::<T, 2>(&op.f);
    let poly = pts::<T, 2>(&op.p);
    if good.is_empty() {
        return;
    }
    let (at, co, how) = (op.iv(2).rem_euclid(good.len() as i64) as usize, op.iv(3).rem_euclid(2) as usize, op.iv(4));
    let mut bad = good.clone();
    bad[at].coords[co] = bad[at].coords[co].damage(how);
    let v = bad[at].coords[co];
    let say = || format!("coordinate {co} of point {at} became {v:?}");
    match op.k.as_str() {
        "line" => {
            // Only that it ends: a corrupted end is where the line goes.
            let _ = survive("plot a line", || lib(|| plot_bresenham_line::<T, i64, 2>(bad[0], bad[bad.len() - 1]).len()));
        }
        "pip" => {
            let batch = |p: &[Point2<T>], g: &[Point2<T>]| serve("are_multiple_points_in_polygon", || lib(|| are_multiple_points_in_polygon(p, g)));
            let single = |p: &Point2<T>, g: &[Point2<T>]| serve("is_single_point_in_polygon", || lib(|| is_single_point_in_polygon(p, g)));
            let a = batch(&good, &poly);
            let b = batch(&bad, &poly);
            match (&a, &b) {
                (None, None) => {}
                (Some(a), Some(b)) => {
                    ensure!(a.len() == good.len() && b.len() == a.len(), "damage-spread", "{}: {} points, {} answers", say(), good.len(), b.len());
                    for i in 0..a.len() {
                        ensure!(i == at || a[i] == b[i], "damage-spread", "{}, and the answer for point {i} changed from {} to {}", say(), a[i], b[i]);
                    }
                    ensure!(v.to().is_finite() || !b[at], "nowhere-is-inside", "{}, and that is reported as inside the polygon", say());
                    hit("batch with a damaged point");
                }
                _ => violate("damage-spread", format!("{}: the whole batch went from {a:?} to {b:?}", say())),
            }
            if !v.to().is_finite() {
                ensure!(!single(&bad[at], &poly), "nowhere-is-inside", "{}, and that alone is reported as inside the polygon", say());
            }
            // A damaged polygon, then the good one again.
            if !poly.is_empty() {
                let mut g = poly.clone();
                let j = at % g.len();
                g[j].coords[co] = g[j].coords[co].damage(how);
                survive("are_multiple_points_in_polygon", || lib(|| are_multiple_points_in_polygon(&good, &g)));
                survive("calculate_polygon_extents", || lib(|| calculate_polygon_extents(&g)));
            }
            ensure!(batch(&good, &poly) == a, "not-repaired", "after the repair the batch answers differently");
            note(b.map(|b| b.iter().fold(1, |x, y| x * 2 + *y as u64 & 0xffff)).unwrap_or(0));
        }
        "gr" => {
            let a = serve("graham_scan", || lib(|| graham_scan::<T, T>(&good, false, None)));
            let b = serve("graham_scan", || lib(|| graham_scan::<T, T>(&bad, false, None)));
            if v.to().is_nan() {
                ensure!(b.is_none(), "garbage-accepted", "{}, and graham_scan returned the hull {b:?}", say());
            }
            members(&b, &bad, "graham_scan", &say());
            if good.len() > 2 {
                let d = serve("graham_scan", || lib(|| graham_scan::<T, T>(&bad, false, Some(T::of(1.0)))));
                ensure!(!v.to().is_nan() || d.is_none(), "garbage-accepted", "{}, and graham_scan with a voxel size returned {d:?}", say());
            }
            let c = serve("graham_scan", || lib(|| graham_scan::<T, T>(&good, false, None)));
            ensure!(a == c, "not-repaired", "after the repair graham_scan gave {c:?}, before {a:?}");
            note(b.map(|b| b.len() as u64).unwrap_or(0));
        }
        "ja" => {
            let a = serve("jarvis_march", || lib(|| jarvis_march::<T, T>(&good, None)));
            if let Some(b) = survive("jarvis_march", || lib(|| jarvis_march::<T, T>(&bad, None))) {
                members(&b, &bad, "jarvis_march", &say());
                note(b.map(|b| b.len() as u64).unwrap_or(0));
            }
            let c = serve("jarvis_march", || lib(|| jarvis_march::<T, T>(&good, None)));
            ensure!(a == c, "not-repaired", "after the repair jarvis_march gave {c:?}, before {a:?}");
        }
        _ => {}
    }
    state(rng::mix(op.k.len() as u64 ^ (how as u64) << 8 ^ (good.len() as u64) << 20));
}

fn members<T: IcpT>(h: &Option<Vec<Point2<T>>>, of: &[Point2<T>], name: &str, say: &str) {
    let Some(h) = h else { return };
    let k = bitsof::<T, 2>(of);
    for p in bitsof::<T, 2>(h) {
        ensure!(
            k.iter().any(|q| (0..2).all(|d| q[d] == p[d] || f64::from_bits(q[d]) == f64::from_bits(p[d]))),
            "not-a-member",
            "{say}: {name} returned {:?}, which is none of its points",
            p.map(f64::from_bits)
        );
    }
}

pub fn exec(plan: &Plan) {
    run_tasks(plan, |_, _, op| {
        let f32s = op.iv(0) == 1;
        match op.k.as_str() {
            "pip" | "gr" | "ja" | "line" => {
                if f32s {
                    planar::<f32>(op)
                } else {
                    planar::<f64>(op)
                }
            }
            _ => match (f32s, op.iv(1) == 3) {
                (true, true) => apply::<f32, 3>(op),
                (true, false) => apply::<f32, 2>(op),
                (false, true) => apply::<f64, 3>(op),
                (false, false) => apply::<f64, 2>(op),
            },
        }
    });
}

pub fn gen(r: &mut Rng, p: &mut Plan) {
    let tasks = 1 + r.us(3);
    gen::sched(r, p, tasks);
    let ks = if r.chance(0.6) { vec![if p.spans { Kind::Span } else { Kind::Alloc }] } else { vec![] };
    for _ in 0..tasks {
        let mut ops = vec![];
        for _ in 0..1 + r.us(6) {
            let k = *r.pick(&["tr", "down", "down", "lex", "nn", "kd", "kd", "icp", "icp", "icp", "reg", "reg", "pip", "pip", "gr", "gr", "ja"]);
            let flat = matches!(k, "pip" | "gr" | "ja");
            let dim = if flat { 2 } else { 2 + r.us(2) };
            let n = 1 + gen::size(r, 24, 0.02, 200) as usize;
            let ty = 1 + r.us(2) as i64;
            let how = if r.chance(0.55) {
                p.env("coordinate overwritten with a special value", 1);
                100 + *r.pick(&[0i64, 0, 0, 1, 2, 3, 4])
            } else {
                p.env("bit flipped in a coordinate", 1);
                // exponent and sign bits more often
                let b = if ty == 1 { 32 } else { 64 };
                if r.chance(0.6) { b - 1 - r.range(0, if ty == 1 { 9 } else { 12 }) } else { r.range(0, b - 1) }
            };
            let style = *r.pick(&[gen::GRID, gen::INTS, gen::DYAD, gen::UNIF, gen::CLUST]);
            let (f, q) = match k {
                "icp" | "reg" => {
                    let (a, b) = super::icp::pair(r, dim, n + 2);
                    (a, b)
                }
                "down" => {
                    let st = *r.pick(&[gen::GRID, gen::DYAD, gen::UNIF]);
                    let mut f = gen::cloud(r, n, dim, st);
                    for x in &mut f {
                        // off the voxel faces
                        if (*x - x.round()).abs() < 1e-3 {
                            *x += 0.25;
                        }
                    }
                    (f, vec![])
                }
                "pip" => {
                    let f = gen::cloud(r, n, 2, style);
                    let m = r.us(8);
                    let q = if r.chance(0.5) {
                        // a convex ring
                        (0..m)
                            .flat_map(|i| {
                                let a = i as f64 * std::f64::consts::TAU / m.max(1) as f64;
                                [5.0 * a.cos(), 5.0 * a.sin()]
                            })
                            .collect()
                    } else {
                        gen::cloud(r, m.max(1), 2, style)
                    };
                    (f, q)
                }
                "nn" | "kd" => {
                    let f = gen::cloud(r, n, dim, style);
                    let m = 1 + r.us(4);
                    let q = gen::queries(r, m, dim, style, &f);
                    (f, q)
                }
                _ => (gen::cloud(r, n, dim, style), vec![]),
            };
            let o = Op::new(k)
                .i(&[ty, dim as i64, r.us(64) as i64, r.us(3) as i64, how, r.range(0, 1), r.range(1, 12), r.range(0, 1)])
                .p(&q)
                .f(f, dim);
            ops.push(gen::maybe_fault(r, o, &ks, 0.25, n as u64));
        }
        p.tasks.push(ops);
    }
}
