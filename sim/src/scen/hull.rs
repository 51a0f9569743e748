//! C05 and C06: convex hulls under any arrival order, any hash seed, crashes,
//! and merging of partial hulls that travelled over a lossy network.
use super::*;
use mapping_algorithms::polygons::{graham_scan, jarvis_march};
use mapping_algorithms::types::IsNan;
use nalgebra::{ComplexField, Point2};
use num_traits::{real::Real, AsPrimitive, NumAssign};

struct St<T: Sc + nalgebra::Scalar> {
    all: Vec<f64>,
    acc: Vec<Point2<T>>,
}

fn ints(f: &[f64]) -> Option<Vec<geom::P2>> {
    f.chunks_exact(2)
        .map(|c| Some((geom::exact_int(c[0])?, geom::exact_int(c[1])?)))
        .collect()
}

/// The exact set the hull is taken of: the points, or their voxel centroids.
fn effective<T: Sc>(f: &[f64], v: f64) -> (Vec<f64>, bool) {
    if v <= 0.0 {
        return (f.iter().map(|x| q::<T>(*x)).collect(), true);
    }
    let mut ok = true;
    let mut out = vec![];
    for (c, n) in down::expected::<T, 2>(f, v).values() {
        for x in c {
            ok &= T::INT || n.is_power_of_two();
            out.push(*x);
        }
    }
    (out, ok)
}

fn same_cycle(a: &[geom::P2], b: &[geom::P2]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let n = a.len();
    (0..n).any(|s| (0..n).all(|i| a[(i + s) % n] == b[i]))
}

fn show(v: &[geom::P2]) -> Vec<(f64, f64)> {
    let s = (1u64 << 24) as f64;
    v.iter().map(|p| (p.0 as f64 / s, p.1 as f64 / s)).collect()
}

/// Whether some triangle of the points is far from flat.
fn spans_area(m: &[[f64; 2]], size: f64) -> bool {
    let Some(a) = m.first() else { return false };
    let b = m
        .iter()
        .fold(a, |x, y| if geom::d2(a, y) > geom::d2(a, x) { y } else { x });
    m.iter().any(|c| {
        let cr = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
        cr.abs() > 1e-3 * size * size
    })
}

/// `got` against the exact hull of `f`.
fn check<T: Sc>(jarvis: bool, got: &Option<Vec<[f64; 2]>>, f: &[f64], v: f64, generic: bool, when: &str) {
    let name = if jarvis { "jarvis_march" } else { "graham_scan" };
    let (eff, mut exact) = effective::<T>(f, v);
    let pi = ints(&eff);
    exact &= pi.is_some();
    if let (true, Some(pi)) = (exact, pi) {
        hit("compared with the exact hull");
        let h = geom::hull(&pi);
        if h.len() < 3 || f.len() < 6 {
            ensure!(
                got.is_none(),
                "hull-of-nothing",
                "{when}: {name} returned {got:?} for {} points without area",
                eff.len() / 2
            );
            hit("degenerate set");
            return;
        }
        let Some(g) = got else {
            violate("no-hull", format!("{when}: {name} returned None although the hull is {:?}", show(&h)));
        };
        let Some(gi) = ints(&g.concat()) else {
            violate("not-a-member", format!("{when}: {name} returned {g:?}, not points of the set"));
        };
        let want = if jarvis { geom::boundary(&pi, &h) } else { h.clone() };
        if want.len() > h.len() {
            hit("points on hull edges");
        }
        ensure!(
            same_cycle(&gi, &want),
            "wrong-hull",
            "{when}: {name} returned {:?}, the {} is {:?}",
            show(&gi),
            if jarvis { "boundary (clockwise)" } else { "hull (clockwise)" },
            show(&want)
        );
        return;
    }
    // Inexact data: only what rounding cannot excuse.
    hit("checked within rounding");
    let size = f.iter().fold(1e-30f64, |a, x| a.max(x.abs()));
    let tol = size * if T::TOL > 1e-9 { 1e-4 } else { 1e-9 };
    let members: Vec<[f64; 2]> = eff.chunks_exact(2).map(|c| [c[0], c[1]]).collect();
    let Some(g) = got else {
        if !generic || !spans_area(&members, size) {
            return;
        }
        violate("no-hull", format!("{when}: {name} returned None for {} points in general position", members.len()));
    };
    for p in g {
        ensure!(
            members.iter().any(|m| (m[0] - p[0]).abs() <= tol && (m[1] - p[1]).abs() <= tol),
            "not-a-member",
            "{when}: {name} returned {p:?}, which is none of its points"
        );
    }
    for i in 0..g.len() {
        for j in 0..i {
            ensure!(g[i] != g[j], "repeated-vertex", "{when}: {name} returned {:?} twice", g[i]);
        }
    }
    if !generic {
        return;
    }
    // Nothing may stick out.
    for i in 0..g.len() {
        let (a, b) = (g[i], g[(i + 1) % g.len()]);
        let len = geom::d2(&a, &b).sqrt();
        for m in &members {
            let cr = (b[0] - a[0]) * (m[1] - a[1]) - (b[1] - a[1]) * (m[0] - a[0]);
            ensure!(
                cr <= tol * len.max(tol),
                "outside-hull",
                "{when}: {m:?} lies outside the edge {a:?} {b:?} of the hull {name} returned"
            );
        }
    }
}

type Graham<T, O> = fn(&[Point2<T>], bool, Option<O>) -> Option<Vec<Point2<T>>>;
type Jarvis<T, O> = fn(&[Point2<T>], Option<O>) -> Option<Vec<Point2<T>>>;
/// The premade variants for a pair of types, if the library has them.
type Premade<T, O> = Option<(Graham<T, O>, Jarvis<T, O>)>;

fn call<O, T>(pre: Premade<T, O>, jarvis: bool, v: &[Point2<T>], sorted: bool, voxel: f64) -> Option<Vec<Point2<T>>>
where
    O: AsPrimitive<isize> + ComplexField + Copy + Real,
    T: Sc + AsPrimitive<O> + nalgebra::Scalar + NumAssign + IsNan,
    usize: AsPrimitive<T>,
    f64: AsPrimitive<O>,
{
    let vx: Option<O> = (voxel > 0.0).then(|| voxel.as_());
    match (pre, jarvis) {
        (Some((_, j)), true) => j(v, vx),
        (Some((g, _)), false) => g(v, sorted, vx),
        (None, true) => jarvis_march::<O, T>(v, vx),
        (None, false) => graham_scan::<O, T>(v, sorted, vx),
    }
}

fn run<T, O>(plan: &Plan, pre: Premade<T, O>)
where
    O: AsPrimitive<isize> + ComplexField + Copy + Real,
    T: Sc + AsPrimitive<O> + nalgebra::Scalar + NumAssign + IsNan,
    usize: AsPrimitive<T>,
    f64: AsPrimitive<O>,
{
    let jarvis = plan.prop == "C06";
    let generic = plan.par("generic") != 0;
    let pre = pre.filter(|_| plan.par("pre") != 0);
    if pre.is_some() {
        hit("premade variant called");
    }
    let go = |v: &[Point2<T>], sorted: bool, voxel: f64| {
        let before = v.to_vec();
        let r = retry(if jarvis { "jarvis_march" } else { "graham_scan" }, || {
            lib(|| call::<O, T>(pre, jarvis, v, sorted, voxel))
        });
        ensure!(before == v, "input-changed", "the input cloud changed");
        let g = r.map(|h| h.iter().map(arr::<T, 2>).collect::<Vec<_>>());
        note(g.as_ref().map(|g| g.len() as u64).unwrap_or(99));
        g
    };
    run_tasks_with(
        plan,
        |_| {
            Unsent(St::<T> {
                all: vec![],
                acc: vec![],
            })
        },
        |_, _, op, s| {
            let s = &mut s.0;
            match op.k.as_str() {
                // A complete cloud, in its order of arrival.
                "hull" => {
                    let sorted = op.iv(0) != 0 && !jarvis;
                    let voxel = op.p.first().copied().unwrap_or(0.0);
                    let mut f = op.f.clone();
                    if sorted {
                        let mut c: Vec<[f64; 2]> = f.chunks_exact(2).map(|c| [q::<T>(c[0]), q::<T>(c[1])]).collect();
                        c.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        f = c.concat();
                        hit("input promised to be sorted");
                    }
                    if voxel > 0.0 {
                        hit("with voxel downsampling");
                    }
                    let v = pts::<T, 2>(&f);
                    let g = go(&v, sorted, voxel);
                    check::<T>(jarvis, &g, &f, voxel, generic, "one cloud");
                    // The same points in another order, on another host.
                    if op.iv(1) != 0 {
                        let mut w = v.clone();
                        Rng::new(op.iv(1) as u64).shuffle(&mut w);
                        let h = unarmed(|| go(&w, false, voxel));
                        let f2: Vec<f64> = w.iter().flat_map(|p| arr::<T, 2>(p)).collect();
                        check::<T>(jarvis, &h, &f2, voxel, generic, "the same cloud in another order");
                        if !jarvis && voxel <= 0.0 {
                            ensure!(
                                g == h,
                                "order-dependent",
                                "graham_scan returned {g:?} for one order of the points and {h:?} for another"
                            );
                        }
                    }
                    state(rng::mix(g.map(|g| g.len() as u64 + 1).unwrap_or(0) << 8 ^ f.len() as u64) ^ voxel.to_bits());
                }
                // A sensor reduced its share to a hull and sent that.
                "recv" => {
                    let v = pts::<T, 2>(&op.f);
                    let g = go(&v, false, 0.0);
                    check::<T>(jarvis, &g, &op.f, 0.0, generic, "a sensor's share");
                    match g {
                        Some(g) => s.acc.extend(g.iter().map(|p| pt::<T, 2>(p))),
                        None => s.acc.extend(v),
                    }
                    s.all.extend_from_slice(&op.f);
                }
                "merge" => {
                    let acc = s.acc.clone();
                    let g = go(&acc, false, 0.0);
                    // The hull of hulls is the hull of everything received. On
                    // edges a partial hull may have dropped points already.
                    let f: Vec<f64> = if jarvis {
                        acc.iter().flat_map(|p| arr::<T, 2>(p)).collect()
                    } else {
                        s.all.clone()
                    };
                    if f.len() >= 6 && acc.len() >= 3 {
                        check::<T>(jarvis, &g, &f, 0.0, generic, "merging partial hulls");
                        hit("partial hulls merged");
                    }
                }
                "clr" => {
                    s.all.clear();
                    s.acc.clear();
                }
                _ => {}
            }
        },
        |_, _| {},
    );
}

pub fn exec(p: &Plan) {
    use mapping_algorithms::polygons::{double_precision as d, single_precision as s};
    match p.par("ty") {
        0 => run::<SimF, f64>(p, None),
        1 => run::<f32, f32>(p, Some((s::graham_scan_f32, s::jarvis_march_f32))),
        2 => run::<f64, f64>(p, Some((d::graham_scan_f64, d::jarvis_march_f64))),
        3 => run::<i8, f32>(p, Some((s::graham_scan_i8, s::jarvis_march_i8))),
        4 => run::<i16, f32>(p, Some((s::graham_scan_i16, s::jarvis_march_i16))),
        5 => run::<i32, f64>(p, Some((d::graham_scan_i32, d::jarvis_march_i32))),
        6 => run::<i64, f64>(p, Some((d::graham_scan_i64, d::jarvis_march_i64))),
        7 => run::<f32, f64>(p, Some((d::graham_scan_f32, d::jarvis_march_f32))),
        8 => run::<isize, f64>(p, Some((d::graham_scan_isize, d::jarvis_march_isize))),
        9 => run::<i64, f32>(p, Some((s::graham_scan_i64, s::jarvis_march_i64))),
        10 => run::<i32, f32>(p, Some((s::graham_scan_i32, s::jarvis_march_i32))),
        11 => run::<f64, f32>(p, Some((s::graham_scan_f64, s::jarvis_march_f64))),
        12 => run::<i16, f64>(p, Some((d::graham_scan_i16, d::jarvis_march_i16))),
        13 => run::<isize, f32>(p, Some((s::graham_scan_isize, s::jarvis_march_isize))),
        14 => run::<i8, f64>(p, Some((d::graham_scan_i8, d::jarvis_march_i8))),
        15 => run::<u8, f32>(p, Some((s::graham_scan_u8, s::jarvis_march_u8))),
        16 => run::<u16, f32>(p, Some((s::graham_scan_u16, s::jarvis_march_u16))),
        17 => run::<u32, f64>(p, Some((d::graham_scan_u32, d::jarvis_march_u32))),
        18 => run::<u64, f64>(p, Some((d::graham_scan_u64, d::jarvis_march_u64))),
        19 => run::<usize, f64>(p, Some((d::graham_scan_usize, d::jarvis_march_usize))),
        20 => run::<u64, f32>(p, Some((s::graham_scan_u64, s::jarvis_march_u64))),
        21 => run::<u32, f32>(p, Some((s::graham_scan_u32, s::jarvis_march_u32))),
        22 => run::<u16, f64>(p, Some((d::graham_scan_u16, d::jarvis_march_u16))),
        23 => run::<usize, f32>(p, Some((s::graham_scan_usize, s::jarvis_march_usize))),
        _ => run::<u8, f64>(p, Some((d::graham_scan_u8, d::jarvis_march_u8))),
    }
}

/// The signed type of the same width.
fn signed(ty: i64) -> i64 {
    match ty {
        15 => 3,
        16 => 4,
        17 => 5,
        18 | 19 => 6,
        20 | 23 => 9,
        21 => 10,
        22 => 12,
        24 => 14,
        t => t,
    }
}

/// Where the data of one run lies: anywhere the type can hold it (unsigned
/// types hold nothing left of the origin).
fn origin(r: &mut Rng, ty: i64) -> [f64; 2] {
    let (bound, max) = match signed(ty) {
        3 | 14 => (4i64, i8::MAX as i64),
        4 | 12 => (64, i16::MAX as i64),
        5 | 10 => (8192, i32::MAX as i64),
        6 | 8 | 9 | 13 => (1 << 30, 1 << 34),
        _ => return [0.0; 2],
    };
    let far = r.chance(0.4);
    std::array::from_fn(|_| {
        (match (ty >= 15, far) {
            (true, false) => bound,
            (true, true) => r.range(bound, 2 * max - bound),
            (false, false) => 0,
            (false, true) => r.range(bound - max, max - bound),
        }) as f64
    })
}

fn shifted(mut f: Vec<f64>, by: [f64; 2]) -> Vec<f64> {
    if by != [0.0; 2] {
        for (i, x) in f.iter_mut().enumerate() {
            *x += by[i % 2];
        }
    }
    f
}

/// Number of bits up to which coordinates keep the turn computation exact in `T`.
fn bits(ty: i64) -> i64 {
    match ty {
        3 | 14 => 2,
        4 | 12 => 6,
        5 | 10 => 13,
        6 | 8 | 9 | 13 => 29,
        1 | 7 => 10,
        _ => 24,
    }
}

/// Nearly collinear points as far apart as the type allows: turns whose sign
/// is lost as soon as anything is rounded or compared with a tolerance.
fn thin(r: &mut Rng, n: usize, b: i64) -> Vec<f64> {
    let big = ((1i64 << b) - 1).max(4);
    let (dx, dy) = loop {
        let d = (r.range(-big / 4, big / 4), r.range(-big / 4, big / 4));
        if d != (0, 0) {
            break d;
        }
    };
    let off = *r.pick(&[0.3, 0.6, 1.0]);
    (0..n)
        .flat_map(|_| {
            let t = r.range(-3, 3);
            let mut o = || if r.chance(off) { r.range(-1, 1) } else { 0 };
            [(t * dx + o()) as f64, (t * dy + o()) as f64]
        })
        .collect()
}

fn fine(r: &mut Rng) -> f64 {
    r.range(-(1 << 20), 1 << 20) as f64 / 65536.0
}

/// Shapes whose hulls are easy to get wrong.
fn shape(r: &mut Rng, n: usize, ty: i64) -> Vec<f64> {
    let ty = if ty == 14 { 3 } else { ty };
    // Boundaries grow with the number of points.
    let most = if ty == 4 || ty == 12 { 60 } else { 250 };
    let big = if ty == 3 { 3 } else { 20.max(n as i64 / 3).min(most) };
    match r.us(8) {
        0 => {
            // points on the edges of a rectangle
            let (w, h) = (r.range(1, big), r.range(1, big));
            (0..n)
                .flat_map(|_| match r.us(4) {
                    0 => [r.range(0, w) as f64, 0.0],
                    1 => [r.range(0, w) as f64, h as f64],
                    2 => [0.0, r.range(0, h) as f64],
                    _ => [w as f64, r.range(0, h) as f64],
                })
                .collect()
        }
        1 => {
            // a fan of collinear runs
            (0..n)
                .flat_map(|_| {
                    let d = *r.pick(&[(1, 0), (0, 1), (1, 1), (-1, 1), (1, -1), (2, 1)]);
                    let t = r.range(0, if ty == 3 { 1 } else { 5 });
                    [(d.0 * t) as f64, (d.1 * t) as f64]
                })
                .collect()
        }
        2 if ty != 3 && r.chance(0.4) => {
            // nothing but extreme points: a parabola
            let most = ((1u64 << bits(ty)) as f64).sqrt() * 2.0;
            let m = (n as i64).min(most as i64);
            let (up, flat) = (r.chance(0.5), r.chance(0.5));
            (0..n as i64)
                .flat_map(|i| {
                    let x = i * 7919 % m;
                    let y = x * (m - 1 - x);
                    let y = if up { y } else { -y } as f64;
                    if flat { [x as f64, y] } else { [y, x as f64] }
                })
                .collect()
        }
        2 if ty != 3 => {
            // many extreme points: a lattice circle
            let radius = 50.0f64.max(n as f64).min(most as f64);
            (0..n)
                .flat_map(|i| {
                    let a = i as f64 * 2.399963;
                    [(a.cos() * radius).round(), (a.sin() * radius).round()]
                })
                .collect()
        }
        3 => {
            // all on one line, perhaps
            let (dx, dy) = (r.range(-1, 1), r.range(-1, 1));
            let mut v: Vec<f64> = (0..n)
                .flat_map(|_| {
                    let t = r.range(-3, 3);
                    [(t * dx) as f64, (t * dy) as f64]
                })
                .collect();
            if r.chance(0.5) && v.len() >= 2 {
                v[0] = r.range(-3, 3) as f64;
                v[1] = r.range(-3, 3) as f64;
            }
            v
        }
        4 => gen::cloud(r, n, 2, gen::GRID),
        5 => gen::cloud(r, n, 2, if ty == 3 { gen::GRID } else { gen::INTS }),
        _ => gen::cloud(
            r,
            n,
            2,
            match ty {
                3 => gen::GRID,
                0 | 1 | 2 | 7 | 11 => gen::DYAD,
                _ => gen::INTS,
            },
        ),
    }
}

/// One, two or four points per voxel, so that centroids stay exact.
fn voxel_cloud(r: &mut Rng, n: usize, v: f64, ty: i64) -> Vec<f64> {
    let int = !matches!(ty, 0 | 1 | 2 | 7 | 11);
    let mut cells: BTreeSet<(i64, i64)> = BTreeSet::new();
    let reach = if matches!(ty, 3 | 14) { 1 } else { 5 };
    for _ in 0..n {
        cells.insert((r.range(-reach, reach - 1), r.range(-reach, reach - 1)));
    }
    let mut f = vec![];
    for c in cells {
        for _ in 0..*r.pick(&[1, 1, 2, 4]) {
            for k in [c.0, c.1] {
                let o = if int {
                    r.range(0, (v as i64 - 1).max(0)) as f64
                } else {
                    r.range(0, 7) as f64 / 8.0 * v
                };
                f.push(k as f64 * v + o);
            }
        }
    }
    // arrival order
    let mut c: Vec<[f64; 2]> = f.chunks(2).map(|c| [c[0], c[1]]).collect();
    r.shuffle(&mut c);
    c.concat()
}

/// Sensors measure in all kinds of units.
fn scale(r: &mut Rng) -> f64 {
    if r.chance(0.6) {
        1.0
    } else {
        (r.range(-16, 4) as f64).exp2()
    }
}

/// More points than two bytes can count.
fn bulk(r: &mut Rng, p: &mut Plan, jarvis: bool) {
    let ty = *r.pick(&[2i64, 5, 6, 17]);
    p.set("ty", ty);
    p.set("pre", r.chance(0.4) as i64);
    let style = match (ty, jarvis) {
        (2, _) => FRACS,
        (_, true) => FEW,
        _ => BYTES,
    };
    let n = gen::many(r);
    let voxel = if style == BYTES && r.chance(0.3) { 1.0 } else { 0.0 };
    let o = Op::new("hull").i(&[(!jarvis && r.chance(0.3)) as i64, (r.u64() >> 12) as i64]).p(&[voxel]);
    // What sticks out comes first, or last.
    let ears = gen::cloud(r, 4, 2, gen::INTS).iter().map(|x| x.abs() * 8.0).collect();
    p.tasks.push(vec![if voxel == 0.0 { o.f(ears, 2) } else { o }.bulk(r.u64(), n, style, 2)]);
    gen::sched(r, p, 1);
}

pub fn gen(r: &mut Rng, p: &mut Plan, jarvis: bool) {
    if gen::bulk(r) {
        return bulk(r, p, jarvis);
    }
    let ty = if r.chance(0.2) {
        r.range(15, 24)
    } else {
        *r.pick(&[0i64, 0, 0, 0, 1, 2, 2, 3, 4, 5, 6, 6, 7, 8, 9, 9, 10, 11, 12, 13, 14])
    };
    p.set("ty", ty);
    let unsigned = ty >= 15;
    let org = origin(r, ty);
    let ty = signed(ty);
    let tiny = matches!(ty, 3 | 14);
    p.set("pre", r.chance(0.4) as i64);
    r.signed_zeros = !tiny && r.chance(0.15);
    let float = matches!(ty, 0 | 1 | 2 | 7 | 11);
    let tasks = 1 + r.us(3);
    gen::sched(r, p, tasks);
    let mut kinds = vec![if p.spans { Kind::Span } else { Kind::Alloc }];
    if ty == 0 {
        kinds.extend([Kind::Scalar, Kind::Scalar]);
    }
    let generic = float && r.chance(0.2);
    p.set("generic", generic as i64);
    let cap = if tiny { 30 } else { 80 };
    let size = |r: &mut Rng| -> usize {
        if !tiny && r.chance(0.01) {
            let most = (if jarvis { 250 } else { 1200 }) * if r.chance(0.05) { if jarvis { 2 } else { 4 } } else { 1 };
            most / 4 + r.us(most)
        } else if r.chance(0.4) {
            r.us(8)
        } else {
            let hi = if r.chance(0.2) { cap } else { 20 };
            r.logu(hi) as usize
        }
    };
    let mut seeds = 0;
    for _ in 0..tasks {
        let mut ev: Vec<(i64, Op)> = vec![];
        for k in 0..1 + r.us(5) {
            let n = size(r);
            let voxel = if !generic && r.chance(0.35) {
                if tiny {
                    *r.pick(&[1.0, 2.0])
                } else {
                    *r.pick(&[1.0, 2.0, 4.0, 8.0, 3.0, 5.0, 10.0])
                }
            } else {
                0.0
            };
            let f: Vec<f64> = if voxel > 0.0 {
                seeds += 1;
                let f = voxel_cloud(r, n.min(25), voxel, ty);
                let reach = if tiny { 1.0 } else { 5.0 };
                shifted(f, [if unsigned { reach * voxel } else { 0.0 }; 2])
            } else if generic {
                let raw = (ty == 2 || ty == 0) && r.chance(0.5);
                (0..n * 2)
                    .map(|_| if raw { fine(r) } else { r.uni(-10.0, 10.0) })
                    .collect()
            } else if r.chance(0.2) {
                shifted(thin(r, n, bits(ty)), org)
            } else {
                let k = if float { scale(r) } else { 1.0 };
                shifted(shape(r, n, ty).iter().map(|x| x * k).collect(), org)
            };
            let sorted = (!jarvis && r.chance(0.3)) as i64;
            let perm = if r.chance(0.5) { r.range(1, 1 << 40) } else { 0 };
            let o = Op::new("hull").i(&[sorted, perm]).p(&[voxel]).f(f, 2);
            ev.push((k as i64, gen::maybe_fault(r, o, &kinds, 0.3, n as u64)));
        }
        // Sensors send partial hulls to an aggregator.
        if r.chance(0.5) && !tiny {
            let k = if float { scale(r) } else { 1.0 };
            let msgs = 1 + r.us(5);
            let net = gen::Net::random(r, msgs as i64 * 3);
            let mut order = vec![];
            for m in 0..msgs {
                let n = 1 + r.us(12);
                let f = if generic {
                    (0..n * 2).map(|_| r.uni(-10.0, 10.0)).collect()
                } else if !float && r.chance(0.1) {
                    shifted(thin(r, n, bits(ty)), org)
                } else {
                    shifted(shape(r, n, ty).iter().map(|x| x * k).collect(), org)
                };
                for at in net.send(r, p, m as i64 * 3) {
                    order.push((at, m));
                    let o = Op::new("recv").f(f.clone(), 2);
                    ev.push((100 + at, gen::maybe_fault(r, o, &kinds, 0.1, n as u64)));
                }
            }
            order.sort();
            gen::count_reordered(p, &order.iter().map(|x| x.1).collect::<Vec<_>>());
            let last = order.last().unwrap().0;
            for _ in 0..r.us(3) {
                ev.push((100 + r.range(0, last), Op::new("merge")));
            }
            if r.chance(0.2) {
                ev.push((100 + r.range(0, last), Op::new("clr")));
                p.env("aggregator restarted empty", 1);
            }
            ev.push((102 + last, Op::new("merge")));
        }
        p.tasks.push(gen::schedule(ev));
    }
    p.env("hash seed changed", seeds);
}
