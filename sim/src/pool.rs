//! Every public entry point of the library as one uniform call: operation in,
//! canonical bytes out. Used where a result must not depend on anything else
//! that happens in the process.
use crate::core::outside;
use crate::plan::Op;
use crate::rng::Rng;
use crate::scalar::*;
use crate::scen::icp::{canon, config, err_name, IcpT, Rot};
use mapping_algorithms::geo::*;
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::lines::plot_bresenham_line;
use mapping_algorithms::point_clouds::*;
use mapping_algorithms::polygons::*;
use mapping_algorithms::types::{AbstractIsometry, IsometryAbstractor};
use mapping_algorithms::{geo, lines, point_clouds, polygons};
use nalgebra::{AbstractRotation, Isometry, Point, Point2};
use num_traits::AsPrimitive;

/// Input buffers a caller keeps and refills, so that successive calls see the
/// same addresses with different contents.
#[derive(Default)]
pub struct Bufs {
    f2: [Vec<Point<f32, 2>>; 2],
    f3: [Vec<Point<f32, 3>>; 2],
    d2: [Vec<Point<f64, 2>>; 2],
    d3: [Vec<Point<f64, 3>>; 2],
}
trait Slot<T: nalgebra::Scalar, const N: usize> {
    fn slot(&mut self) -> &mut [Vec<Point<T, N>>; 2];
}
macro_rules! slots {
    ($($t:ty, $n:literal, $f:ident;)*) => {$(
        impl Slot<$t, $n> for Bufs { fn slot(&mut self) -> &mut [Vec<Point<$t, $n>>; 2] { &mut self.$f } }
    )*};
}
slots! { f32, 2, f2; f32, 3, f3; f64, 2, d2; f64, 3, d3; }

pub struct Out(pub Vec<u8>);
impl Out {
    fn f(&mut self, x: f64) {
        self.0.extend_from_slice(&canon(x).to_le_bytes());
    }
    fn n(&mut self, x: usize) {
        self.0.extend_from_slice(&(x as u64).to_le_bytes());
    }
    fn pts<T: Sc + nalgebra::Scalar, const N: usize>(&mut self, v: &[Point<T, N>]) {
        self.n(v.len());
        for p in v {
            for x in arr::<T, N>(p) {
                self.f(x);
            }
        }
    }
    fn set<T: Sc + nalgebra::Scalar, const N: usize>(&mut self, v: &[Point<T, N>]) {
        let mut w: Vec<[u64; N]> = v.iter().map(|p| arr::<T, N>(p).map(canon)).collect();
        w.sort();
        self.n(w.len());
        for p in w {
            for x in p {
                self.0.extend_from_slice(&x.to_le_bytes());
            }
        }
    }
    fn opt<T: Sc + nalgebra::Scalar, const N: usize>(&mut self, v: &Option<Vec<Point<T, N>>>) {
        match v {
            None => self.n(usize::MAX),
            Some(v) => self.pts(v),
        }
    }
}

fn fill<T: Sc + nalgebra::Scalar, const N: usize>(b: &mut Vec<Point<T, N>>, f: &[f64]) {
    b.clear();
    b.reserve(256usize.saturating_sub(b.capacity()));
    for c in f.chunks_exact(N) {
        b.push(pt::<T, N>(c));
    }
}

pub const NAMES: &[&str] = &[
    "kd", "down", "gr", "ja", "icp", "icpi", "lex", "lexc", "lexr", "nn", "cen", "gen", "tr", "pip1", "pipm", "ext",
    "bre", "hav", "bea",
];

fn common<T, const N: usize>(op: &Op, b: &mut Bufs, o: &mut Out) -> bool
where
    T: IcpT + num_traits::Float + rand_range::Uniform,
    Bufs: Slot<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    T: AsPrimitive<T> + AsPrimitive<isize> + AsPrimitive<usize> + AsPrimitive<i32> + AsPrimitive<i64>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N>,
    <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType: Rot<T>,
{
    let sl = b.slot();
    let (a, rest) = sl.split_at_mut(1);
    let (a, q) = (&mut a[0], &mut rest[0]);
    let sq: Vec<f64>;
    outside(|| fill(a, &op.f));
    match op.k.as_str() {
        "kd" => {
            outside(|| fill(q, &op.p));
            let mut t = KDTree::from(a.as_slice());
            for p in a.iter().take(3) {
                t.insert(*p);
            }
            let c = t.clone();
            outside(|| {
                o.n(t.len());
                o.n(t.is_empty() as usize);
            });
            for p in q.iter() {
                let r = t.nearest(p);
                let s = c.nearest(p);
                outside(|| {
                    o.pts(&r.into_iter().collect::<Vec<_>>());
                    o.pts(&s.into_iter().collect::<Vec<_>>());
                });
            }
            c.traverse_tree(|p| outside(|| o.pts(&[*p])));
            t.traverse_tree_mut(|p| outside(|| o.pts(&[*p])));
        }
        "down" => {
            let r = downsample_point_cloud_voxel::<T, T, N>(a, T::of(op.p[0]));
            outside(|| o.set(&r));
        }
        "icp" => {
            sq = op.p[4..].to_vec();
            outside(|| fill(q, &sq));
            let c = outside(|| config::<T>(op.p[0] != 0.0, op.p[1] as usize, (op.p[2] > 0.0).then_some(op.p[2]), op.p[3]));
            let r = icp::<T, N>(a, q, c);
            outside(|| match r {
                Ok(s) => {
                    o.n(s.iteration_num);
                    o.f(s.mse.to());
                    for x in crate::scen::icp::iso_bits::<T, N>(&s.transform) {
                        o.0.extend_from_slice(&x.to_le_bytes());
                    }
                }
                Err(e) => o.0.extend_from_slice(err_name(&e).as_bytes()),
            });
        }
        "icpi" => {
            sq = op.p[4..].to_vec();
            outside(|| fill(q, &sq));
            let c = outside(|| config::<T>(op.p[0] != 0.0, op.p[1] as usize, (op.p[2] > 0.0).then_some(op.p[2]), op.p[3]));
            let tree = (op.p[0] != 0.0).then(|| KDTree::from(q.as_slice()));
            let mut iso = Isometry::identity();
            let mut mse = <T as num_traits::Bounded>::max_value();
            let mut tp = outside(|| a.clone());
            for _ in 0..2 {
                let r = icp_iteration::<T, N>(a, &mut tp, q, tree.as_ref(), &mut iso, &mut mse, &c);
                outside(|| {
                    match r {
                        Ok(m) => o.f(m.to()),
                        Err(e) => o.0.extend_from_slice(err_name(&e).as_bytes()),
                    }
                    o.f(mse.to());
                    o.pts(&tp);
                    for x in crate::scen::icp::iso_bits::<T, N>(&iso) {
                        o.0.extend_from_slice(&x.to_le_bytes());
                    }
                });
            }
        }
        "lex" => {
            let ok = lex_sort_in_place(a);
            outside(|| {
                o.n(ok as usize);
                o.pts(a);
            });
        }
        "lexc" => {
            let r = lex_sort(a);
            outside(|| o.opt(&r));
        }
        "lexr" => {
            let r = lex_sort_ref(a);
            outside(|| {
                // Which of several equal points comes first is part of the answer.
                for p in r.iter().flatten() {
                    o.n((*p as *const Point<T, N> as usize - a.as_ptr() as usize) / std::mem::size_of::<Point<T, N>>());
                }
                o.opt(&r.map(|v| v.into_iter().copied().collect::<Vec<_>>()))
            });
        }
        "nn" => {
            outside(|| fill(q, &op.p));
            for p in q.iter() {
                let r = find_nearest_neighbour_naive(p, a);
                outside(|| o.pts(&r.into_iter().collect::<Vec<_>>()));
            }
        }
        "cen" => {
            let r = calculate_point_cloud_center(a);
            outside(|| o.pts(&[r]));
        }
        "gen" => {
            let r = T::generate::<N>(op.iv(2) as usize, op.p[0], op.p[1]);
            outside(|| o.pts(&r));
        }
        "tr" => {
            let (iso, m): (Isometry<T, _, N>, _) = outside(|| {
                let rot = <<IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType as Rot<T>>::make(&op.p[0..3]);
                let m = rot.inverse();
                let tr = nalgebra::Translation::from(nalgebra::SVector::<T, N>::from(std::array::from_fn::<T, N, _>(
                    |d| T::of(op.p[3 + d]),
                )));
                (Isometry::from_parts(tr, rot), m)
            });
            let _ = m;
            let r = transform_point_cloud(a, iso);
            outside(|| o.pts(&r));
        }
        "ext" => {
            let r = calculate_polygon_extents(a);
            outside(|| match r {
                None => o.n(7),
                Some(e) => {
                    for x in e {
                        o.f(x.start().to());
                        o.f(x.end().to());
                    }
                }
            });
        }
        "bre" => {
            let (s, e) = outside(|| (pt::<T, N>(&op.p), pt::<T, N>(&op.p[N..])));
            if op.iv(2) == 0 {
                let r = plot_bresenham_line::<T, i32, N>(s, e);
                outside(|| o.pts(&r));
            } else {
                let r = plot_bresenham_line::<T, T, N>(s, e);
                outside(|| o.pts(&r));
            }
        }
        _ => return false,
    }
    true
}

/// `generate_point_cloud` for a float type.
pub mod rand_range {
    use super::*;
    pub trait Uniform: nalgebra::Scalar {
        fn generate<const N: usize>(n: usize, lo: f64, hi: f64) -> Vec<Point<Self, N>>;
    }
    macro_rules! u {
        ($($t:ty)*) => {$( impl Uniform for $t {
            fn generate<const N: usize>(n: usize, lo: f64, hi: f64) -> Vec<Point<$t, N>> {
                let r: [std::ops::RangeInclusive<$t>; N] = std::array::from_fn(|k| (lo as $t - k as $t)..=(hi as $t + k as $t));
                generate_point_cloud(n, r)
            }
        } )*};
    }
    u! { f32 f64 i32 i16 }
}

fn planar<T>(op: &Op, b: &mut Bufs, o: &mut Out) -> bool
where
    T: IcpT + num_traits::Float,
    Bufs: Slot<T, 2>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    T: AsPrimitive<T> + AsPrimitive<isize>,
{
    let sl = b.slot();
    let (a, rest) = sl.split_at_mut(1);
    let (a, q) = (&mut a[0], &mut rest[0]);
    outside(|| fill(a, &op.f));
    match op.k.as_str() {
        "gr" => {
            let v = (op.p[0] > 0.0).then(|| T::of(op.p[0]));
            if op.iv(2) != 0 {
                outside(|| a.sort_by(|x, y| (x.x, x.y).partial_cmp(&(y.x, y.y)).unwrap_or(std::cmp::Ordering::Equal)));
            }
            let r = graham_scan::<T, T>(a, op.iv(2) != 0, v);
            outside(|| o.opt(&r));
        }
        "ja" => {
            let v = (op.p[0] > 0.0).then(|| T::of(op.p[0]));
            let r = jarvis_march::<T, T>(a, v);
            outside(|| match &r {
                // Where the walk starts is the only freedom hash order leaves.
                Some(h) if v.is_some() => o.set(h),
                r => o.opt(r),
            });
        }
        "pip1" => {
            outside(|| fill(q, &op.p));
            for p in q.iter() {
                let r = is_single_point_in_polygon(p, a);
                outside(|| o.n(r as usize));
            }
        }
        "pipm" => {
            outside(|| fill(q, &op.p));
            let r = are_multiple_points_in_polygon(q, a);
            outside(|| match r {
                None => o.n(9),
                Some(v) => {
                    for x in v {
                        o.n(x as usize);
                    }
                }
            });
        }
        _ => return false,
    }
    true
}

macro_rules! wrappers {
    ($fn:ident, $t:ty, $m:ident, $gr:ident, $ja:ident, $b2:ident) => {
        /// The pregenerated single/double precision wrappers.
        fn $fn(op: &Op, b: &mut Bufs, o: &mut Out) -> bool {
            let sl = <Bufs as Slot<$t, 2>>::slot(b);
            let (a, rest) = sl.split_at_mut(1);
            let (a, q) = (&mut a[0], &mut rest[0]);
            outside(|| fill(a, &op.f));
            match op.k.as_str() {
                "gr" => {
                    if op.iv(2) != 0 {
                        outside(|| a.sort_by(|x, y| (x.x, x.y).partial_cmp(&(y.x, y.y)).unwrap_or(std::cmp::Ordering::Equal)));
                    }
                    let r = polygons::$m::$gr(a, op.iv(2) != 0, (op.p[0] > 0.0).then(|| op.p[0] as $t));
                    outside(|| o.opt(&r));
                }
                "ja" => {
                    let r = polygons::$m::$ja(a, (op.p[0] > 0.0).then(|| op.p[0] as $t));
                    outside(|| match &r {
                        Some(h) if op.p[0] > 0.0 => o.set(h),
                        r => o.opt(r),
                    });
                }
                "pipm" => {
                    outside(|| fill(q, &op.p));
                    let r = polygons::$m::are_multiple_points_in_polygon(q, a);
                    outside(|| match r {
                        None => o.n(9),
                        Some(v) => v.into_iter().for_each(|x| o.n(x as usize)),
                    });
                }
                "pip1" => {
                    outside(|| fill(q, &op.p));
                    for p in q.iter() {
                        let r = polygons::$m::is_single_point_in_polygon(p, a);
                        outside(|| o.n(r as usize));
                    }
                }
                "icp" => {
                    let sq = op.p[4..].to_vec();
                    outside(|| fill(q, &sq));
                    let c = outside(|| config::<$t>(op.p[0] != 0.0, op.p[1] as usize, (op.p[2] > 0.0).then_some(op.p[2]), op.p[3]));
                    let r = point_clouds::$m::icp_2d(a, q, c);
                    outside(|| match r {
                        Ok(s) => {
                            o.n(s.iteration_num);
                            o.f(s.mse as f64);
                            for x in crate::scen::icp::iso_bits::<$t, 2>(&s.transform) {
                                o.0.extend_from_slice(&x.to_le_bytes());
                            }
                        }
                        Err(e) => o.0.extend_from_slice(err_name(&e).as_bytes()),
                    });
                }
                "bre" => {
                    let (s, e) = (Point2::new(op.p[0] as $t, op.p[1] as $t), Point2::new(op.p[2] as $t, op.p[3] as $t));
                    let r = lines::$m::$b2(s, e);
                    outside(|| o.pts(&r));
                }
                "hav" => {
                    let (s, e) = (Point2::new(op.p[0] as $t, op.p[1] as $t), Point2::new(op.p[2] as $t, op.p[3] as $t));
                    let r = geo::$m::calculate_haversine_distance(s, e, op.p[4] as $t);
                    outside(|| o.f(r as f64));
                }
                "bea" => {
                    let (s, e) = (Point2::new(op.p[0] as $t, op.p[1] as $t), Point2::new(op.p[2] as $t, op.p[3] as $t));
                    let r = geo::$m::calculate_sphere_bearing(s, e);
                    outside(|| o.f(r as f64));
                }
                _ => return false,
            }
            true
        }
    };
}
wrappers!(single, f32, single_precision, graham_scan_f32, jarvis_march_f32, plot_2d_i32_bresenham_line);
wrappers!(double, f64, double_precision, graham_scan_f64, jarvis_march_f64, plot_2d_i32_bresenham_line);

fn globe<T>(op: &Op, o: &mut Out) -> bool
where
    T: IcpT + num_traits::Float,
{
    let (s, e) = outside(|| (pt::<T, 2>(&op.p), pt::<T, 2>(&op.p[2..])));
    match op.k.as_str() {
        "hav" => {
            let r = calculate_haversine_distance(s, e, T::of(op.p[4]));
            outside(|| o.f(r.to()));
        }
        "bea" => {
            let r = calculate_sphere_bearing(s, e);
            outside(|| o.f(r.to()));
        }
        _ => return false,
    }
    true
}

/// i[0]: 1 f32, 2 f64; i[1]: dimension; i[3]: use the pregenerated wrapper.
pub fn call(op: &Op, b: &mut Bufs) -> Vec<u8> {
    let mut o = Out(vec![]);
    let d3 = op.iv(1) == 3;
    let f32s = op.iv(0) == 1;
    let wr = op.iv(3) != 0 && !d3;
    let _done = match (f32s, wr) {
        (true, true) => single(op, b, &mut o),
        (false, true) => double(op, b, &mut o),
        _ => false,
    } || match op.k.as_str() {
        "gr" | "ja" | "pip1" | "pipm" => {
            if f32s {
                planar::<f32>(op, b, &mut o)
            } else {
                planar::<f64>(op, b, &mut o)
            }
        }
        "hav" | "bea" => {
            if f32s {
                globe::<f32>(op, &mut o)
            } else {
                globe::<f64>(op, &mut o)
            }
        }
        _ => match (f32s, d3) {
            (true, false) => common::<f32, 2>(op, b, &mut o),
            (true, true) => common::<f32, 3>(op, b, &mut o),
            (false, false) => common::<f64, 2>(op, b, &mut o),
            (false, true) => common::<f64, 3>(op, b, &mut o),
        },
    };
    o.0
}

/// What a logger that itself uses the library does.
pub fn reenter() {
    let a: Vec<Point2<f64>> = (0..7).map(|i| Point2::new((i * 5 % 7) as f64, (i * 3 % 5) as f64)).collect();
    let t = KDTree::from(a.as_slice());
    let _ = t.nearest(&Point2::new(1.5, 2.5));
    let _ = downsample_point_cloud_voxel::<f64, f64, 2>(&a, 2.0);
    let _ = graham_scan::<f64, f64>(&a, false, None);
    let b: Vec<Point2<f64>> = a.iter().map(|p| Point2::new(p.x + 0.2, p.y)).collect();
    let lv = log::max_level();
    log::set_max_level(log::LevelFilter::Off);
    let _ = icp::<f64, 2>(&a, &b, config::<f64>(true, 3, None, 0.001));
    log::set_max_level(lv);
}

/// A random call.
pub fn random_op(r: &mut Rng, names: &[&str]) -> Op {
    let k = *r.pick(names);
    let ty = 1 + r.us(2) as i64;
    let mut dim = 2 + r.us(2);
    if matches!(k, "gr" | "ja" | "pip1" | "pipm" | "hav" | "bea") {
        dim = 2;
    }
    let n = crate::gen::size(r, 40, if k == "ja" { 0.0 } else { 0.02 }, 400) as usize;
    let style = *r.pick(&[
        crate::gen::GRID,
        crate::gen::INTS,
        crate::gen::DYAD,
        crate::gen::UNIF,
        crate::gen::CLUST,
    ]);
    let f = crate::gen::cloud(r, n, dim, style);
    let wr = r.chance(0.4) as i64;
    let mut o = Op::new(k).i(&[ty, dim as i64, 0, wr]);
    let m = 1 + r.us(5);
    match k {
        "kd" | "nn" => {
            o.p = crate::gen::queries(r, m, dim, style, &f);
        }
        "down" => o.p = vec![*r.pick(&[0.5, 1.0, 2.0, 4.0])],
        "gr" | "ja" => {
            o.i[2] = r.chance(0.3) as i64;
            let vox = if r.chance(0.3) { *r.pick(&[1.0, 2.0, 4.0]) } else { 0.0 };
            o.p = vec![vox];
            let sh = if vox > 0.0 || k == "ja" { crate::gen::DYAD } else { style };
            o = o.f(crate::gen::cloud(r, n, 2, sh), 2);
            if vox > 0.0 {
                // centroids stay exact with one point per voxel
                let mut seen = std::collections::BTreeSet::new();
                let g: Vec<f64> = o
                    .f
                    .chunks(2)
                    .filter(|c| seen.insert(((c[0] / vox).floor() as i64, (c[1] / vox).floor() as i64)))
                    .flatten()
                    .copied()
                    .collect();
                o = o.f(g, 2);
            }
            return o;
        }
        "icp" | "icpi" => {
            let n = if r.chance(0.04) { 20 + r.us(200) } else { 2 + r.us(20) };
            let (s, t) = crate::scen::icp::pair(r, dim, n);
            o.p = vec![
                r.chance(0.5) as i64 as f64,
                r.range(1, 12) as f64,
                if r.chance(0.3) { 0.5 } else { -1.0 },
                *r.pick(&[0.01, 0.1, 0.001]),
            ];
            o.p.extend(t);
            return o.f(s, dim);
        }
        "gen" => {
            o.i[2] = r.logu(200) as i64;
            o.p = vec![r.uni(-20.0, 0.0), r.uni(0.0, 20.0)];
            if r.chance(0.15) {
                o.p[1] = o.p[0];
            }
            return o;
        }
        "tr" => {
            o.p = (0..6).map(|_| r.uni(-2.0, 2.0)).collect();
        }
        "pip1" | "pipm" => {
            o.p = crate::gen::queries(r, m + 2, 2, style, &f);
        }
        "bre" => {
            o.i[2] = r.range(0, 1);
            o.p = (0..6).map(|_| r.range(-40, 40) as f64 + if r.chance(0.3) { 0.5 } else { 0.0 }).collect();
            return o;
        }
        "hav" | "bea" => {
            o.p = vec![r.uni(-89.0, 89.0), r.uni(-179.0, 179.0), r.uni(-89.0, 89.0), r.uni(-179.0, 179.0), 6371.0];
            if k == "hav" && r.chance(0.3) {
                // next door
                o.p[2] = o.p[0] + r.uni(-1.5, 1.5);
                o.p[3] = o.p[1] + r.uni(-1.5, 1.5);
            }
            return o;
        }
        _ => {}
    }
    o.f(f, dim)
}

/// A call with arguments out of the ordinary: deep trees, large hulls, far-off
/// voxels, long registrations, numbers that are none.
pub fn rare_op(r: &mut Rng) -> Op {
    let ty = 1 + r.us(2) as i64;
    let dim = 2 + r.us(2);
    match r.us(7) {
        0 => {
            let n = 20 + r.logu(300) as usize;
            let f = crate::gen::chain(r, n, dim);
            let far = f.len() - f.len().min(dim * 60);
            let q = (0..dim * 6)
                .map(|i| f[far + r.us((f.len() - far) / dim) * dim + i % dim] + *r.pick(&[0.0, 0.5, -0.5, 1.5]))
                .collect();
            let mut o = Op::new("kd").i(&[ty, dim as i64, 0, 0]).f(f, dim);
            o.p = q;
            o
        }
        1 | 2 => {
            // nothing but extreme points
            let n = (r.logu(1200) + 3) as i64;
            let up = if r.chance(0.5) { 1.0 } else { -1.0 };
            let mut at: Vec<i64> = (0..n).collect();
            if r.chance(0.7) {
                r.shuffle(&mut at);
            }
            let f = at.iter().flat_map(|&i| [i as f64, up * (i * i) as f64]).collect();
            let k = if r.chance(0.8) { "gr" } else { "ja" };
            let n = if k == "ja" { 300 } else { usize::MAX };
            let mut f: Vec<f64> = f;
            f.truncate(n);
            let mut o = Op::new(k).i(&[2, 2, 0, 0]).f(f, 2);
            o.p = vec![0.0];
            o
        }
        3 => {
            // voxels apart by powers of two
            let n = 2 + r.us(12);
            let size = *r.pick(&[0.5, 1.0, 4.0]);
            let hi = if ty == 1 { 22 } else { 50 };
            let f = (0..n * dim)
                .map(|_| {
                    let far = if r.chance(0.5) { 0.0 } else { (1u64 << r.us(hi)) as f64 };
                    let near = r.range(-2, 2) as f64;
                    (if r.chance(0.5) { far } else { -far }) + near
                })
                .collect();
            let mut o = Op::new("down").i(&[ty, dim as i64, 0, 0]).f(f, dim);
            o.p = vec![size];
            o
        }
        4 => {
            let n = 20 + r.us(90);
            let (s, t) = crate::scen::icp::pair(r, dim, n);
            let mut o = Op::new("icp").i(&[ty, dim as i64, 0, r.chance(0.4) as i64]);
            let fine = if ty == 1 { 1e-3 } else { *r.pick(&[1e-3, 1e-6, 1e-9]) };
            o.p = vec![r.chance(0.5) as i64 as f64, *r.pick(&[30.0, 70.0, 120.0]), -1.0, fine];
            o.p.extend(t);
            o.f(s, dim)
        }
        _ => {
            let mut o = random_op(r, &["kd", "nn", "nn", "lex", "lexc", "lexr", "pip1", "pipm", "cen", "ext", "tr"]);
            let odd = *r.pick(&[f64::NAN, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e30, -1e30, -0.0]);
            let v = if matches!(o.k.as_str(), "kd" | "nn" | "pip1" | "pipm") && r.chance(0.6) {
                &mut o.p
            } else {
                &mut o.f
            };
            if !v.is_empty() {
                let k = r.us(v.len());
                v[k] = odd;
            }
            o
        }
    }
}

/// Such a call that does not take long.
pub fn rare_call(r: &mut Rng) -> Op {
    loop {
        let o = rare_op(r);
        if o.k != "icp" {
            return o;
        }
    }
}

/// A call that resembles an earlier one: what a memo keyed too coarsely confuses.
pub fn sibling(r: &mut Rng, o: &Op) -> Op {
    let mut o = o.clone();
    o.faults.clear();
    let u = o.u.max(1);
    match r.us(10) {
        9 if o.f.len() > 2 * u => {
            // all but the ends elsewhere, and what is asked for with them
            let by = *r.pick(&[2.0, -1.0, 0.5, 4.0]);
            let n = o.f.len() - u;
            o.f[u..n].iter_mut().for_each(|x| *x *= by);
            if matches!(o.k.as_str(), "pip1" | "pipm" | "nn" | "kd") {
                o.p.iter_mut().for_each(|x| *x *= by);
            }
        }
        8 if !o.f.is_empty() => {
            // by almost nothing
            let k = r.us(o.f.len());
            o.f[k] += o.f[k].abs().max(1.0) * *r.pick(&[1e-6, -1e-6, 1e-9, 1e-13]);
        }
        0 if !o.f.is_empty() => {
            let k = r.us(o.f.len());
            o.f[k] += *r.pick(&[1.0, -1.0, 0.5, 3.0]);
        }
        1 if o.f.len() > 2 * u => {
            // one in the middle, ends untouched
            let k = u + r.us(o.f.len() - 2 * u);
            o.f[k] += *r.pick(&[1.0, -1.0, 2.0]);
        }
        2 if o.f.len() >= 2 * u => {
            // the same points in another order
            let mut c: Vec<Vec<f64>> = o.f.chunks(u).map(|c| c.to_vec()).collect();
            r.shuffle(&mut c);
            o.f = c.concat();
        }
        3 if !o.p.is_empty() && !matches!(o.k.as_str(), "icp" | "icpi" | "down" | "gr" | "ja" | "gen") => {
            let k = r.us(o.p.len());
            o.p[k] += *r.pick(&[1.0, -1.0, 0.5]);
        }
        4 if matches!(o.k.as_str(), "icp" | "icpi") => {
            // same source, another target or another configuration
            if r.chance(0.5) {
                let k = 4 + r.us((o.p.len() - 4).max(1));
                if k < o.p.len() {
                    o.p[k] += 0.75;
                }
            } else {
                match r.us(3) {
                    0 => o.p[0] = 1.0 - o.p[0],
                    1 => o.p[1] += 1.0,
                    _ => o.p[3] *= 10.0,
                }
            }
        }
        5 if matches!(o.k.as_str(), "down" | "gr" | "ja") => {
            if o.k == "down" {
                o.p[0] *= 2.0;
            } else if o.p[0] == 0.0 {
                o.i[2] = 1 - o.i[2];
            }
        }
        6 => o.i[0] = 3 - o.i[0],
        7 if o.f.len() > u => {
            o.f.truncate(o.f.len() - u);
        }
        _ => {}
    }
    if matches!(o.k.as_str(), "gr" | "ja") && o.p[0] > 0.0 {
        // keep voxel contents exact
        let mut seen = std::collections::BTreeSet::new();
        let v = o.p[0];
        o.f = o
            .f
            .chunks(2)
            .filter(|c| seen.insert(((c[0] / v).floor() as i64, (c[1] / v).floor() as i64)))
            .flatten()
            .copied()
            .collect();
    }
    o
}
