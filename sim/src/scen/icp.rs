//! C07 and C08: registration that is interrupted, restarted from checkpoints,
//! fed a missing or stale target, and observed at every step.
use super::*;
use crate::proc::fork_value;
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::point_clouds::{icp, icp_iteration, ICPConfiguration, ICPError};
use mapping_algorithms::types::{AbstractIsometry, IsNan, IsometryAbstractor};
use nalgebra::{Isometry, Point, RealField, UnitComplex, UnitQuaternion};
use num_traits::{AsPrimitive, Bounded};
use std::iter::Sum;

pub type Iso<T, const N: usize> = Isometry<T, <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType, N>;

/// What the scenarios need from a rotation.
pub trait Rot<T> {
    fn parts(&self) -> Vec<f64>;
    fn make(a: &[f64]) -> Self;
}
macro_rules! rots {
    ($($t:ty)*) => {$(
        impl Rot<$t> for UnitComplex<$t> {
            fn parts(&self) -> Vec<f64> { vec![self.re as f64, self.im as f64] }
            fn make(a: &[f64]) -> Self { UnitComplex::new(a[0] as $t) }
        }
        impl Rot<$t> for UnitQuaternion<$t> {
            fn parts(&self) -> Vec<f64> { vec![self.w as f64, self.i as f64, self.j as f64, self.k as f64] }
            fn make(a: &[f64]) -> Self {
                UnitQuaternion::from_scaled_axis(nalgebra::Vector3::new(a[0] as $t, a[1] as $t, a[2] as $t))
            }
        }
    )*};
}
rots! { f32 f64 }

pub trait IcpT: Sc + Bounded + IsNan + RealField + Sum + Copy {}
impl IcpT for f32 {}
impl IcpT for f64 {}

pub fn iso_bits<T: IcpT, const N: usize>(i: &Iso<T, N>) -> Vec<u64>
where
    IsometryAbstractor<T, N>: AbstractIsometry<T, N>,
    <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType: Rot<T>,
{
    let mut v: Vec<u64> = i.rotation.parts().iter().map(|x| canon(*x)).collect();
    v.extend(i.translation.vector.iter().map(|x| canon(x.to())));
    v
}
pub fn canon(x: f64) -> u64 {
    if x.is_nan() {
        0x7ff8 << 48
    } else {
        x.to_bits()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fin {
    Ok { iso: Vec<u64>, mse: u64, iter: u64 },
    Err(String),
}
impl Fin {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Fin::Ok { iso, mse, iter } => {
                let mut s = format!("O {iter} {mse}");
                for x in iso {
                    s.push_str(&format!(" {x}"));
                }
                s.into_bytes()
            }
            Fin::Err(e) => format!("E {e}").into_bytes(),
        }
    }
    fn read(b: &[u8]) -> Fin {
        let s = String::from_utf8_lossy(b).to_string();
        if let Some(e) = s.strip_prefix("E ") {
            return Fin::Err(e.into());
        }
        let v: Vec<u64> = s[2..].split(' ').map(|x| x.parse().unwrap()).collect();
        Fin::Ok {
            iter: v[0],
            mse: v[1],
            iso: v[2..].to_vec(),
        }
    }
    fn say(&self) -> String {
        match self {
            Fin::Ok { iso, mse, iter } => format!(
                "converged at iteration {iter} with error {} and transform {:?}",
                f64::from_bits(*mse),
                iso.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>()
            ),
            Fin::Err(e) => format!("error {e}"),
        }
    }
}

pub fn err_name<T: IcpT, const N: usize>(e: &ICPError<T, N>) -> String {
    match e {
        ICPError::IterationDidNotConverge(_) => "IterationDidNotConverge".into(),
        e => format!("{e:?}"),
    }
}

#[derive(Clone)]
struct Cfg {
    kd: bool,
    pre: bool,
    max: usize,
    abs: Option<f64>,
    int: f64,
}
pub fn config<T: IcpT>(kd: bool, max: usize, abs: Option<f64>, int: f64) -> ICPConfiguration<T>
where
    f32: AsPrimitive<T>,
{
    // A builder may be called in any order and again, and keeps what it was told last.
    let order = crate::rng::mix(max as u64 ^ kd as u64 ^ int.to_bits() ^ abs.unwrap_or(0.0).to_bits().rotate_left(7));
    let mut b = ICPConfiguration::<T>::builder();
    let again = (order >> 8) % 3 == 0;
    for k in 0..4 {
        let decoy = again && order >> (16 + k) & 1 == 0;
        b = match (order + k) % 4 {
            0 if decoy => b.with_kd_tree(!kd).with_kd_tree(kd),
            0 => b.with_kd_tree(kd),
            1 if decoy => b.with_max_iterations(max / 2 + 1).with_max_iterations(max),
            1 => b.with_max_iterations(max),
            2 if decoy => b
                .with_absolute_mse_threshold(abs.xor(Some(1e6)).map(T::of))
                .with_absolute_mse_threshold(abs.map(T::of)),
            2 if abs.is_none() && order >> 20 & 1 == 0 => b,
            2 => b.with_absolute_mse_threshold(abs.map(T::of)),
            _ if decoy => b.with_mse_interval_threshold(T::of(1e6)).with_mse_interval_threshold(T::of(int)),
            _ => b.with_mse_interval_threshold(T::of(int)),
        };
    }
    b.build()
}

#[derive(Clone)]
struct State<T: IcpT, const N: usize>
where
    IsometryAbstractor<T, N>: AbstractIsometry<T, N>,
{
    iso: Iso<T, N>,
    mse: T,
    tp: Vec<Point<T, N>>,
    it: usize,
}

struct Trk<T: IcpT, const N: usize>
where
    IsometryAbstractor<T, N>: AbstractIsometry<T, N>,
{
    src: Vec<Point<T, N>>,
    tgt: Vec<Point<T, N>>,
    stale: Vec<Point<T, N>>,
    cfg: Cfg,
    tree: Option<KDTree<T, N>>,
    st: Option<State<T, N>>,
    start: Option<Iso<T, N>>,
    ckpt: Vec<State<T, N>>,
    log: BTreeMap<usize, (Vec<u64>, u64)>,
    done: Option<Fin>,
    /// Something other than the uninterrupted computation was asked for.
    dirty: bool,
}

/// The premade variants of the complete algorithm.
struct Pre;
trait PreIcp<T: IcpT, const N: usize>
where
    IsometryAbstractor<T, N>: AbstractIsometry<T, N>,
{
    fn icp(s: &[Point<T, N>], t: &[Point<T, N>], c: ICPConfiguration<T>) -> Done<T, N>;
}
type Done<T, const N: usize> = Result<
    mapping_algorithms::point_clouds::ICPSuccess<T, <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType, N>,
    ICPError<T, N>,
>;
macro_rules! pre_icp {
    ($($t:ty, $n:expr, $m:ident, $f:ident;)*) => {$(
        impl PreIcp<$t, $n> for Pre {
            fn icp(s: &[Point<$t, $n>], t: &[Point<$t, $n>], c: ICPConfiguration<$t>) -> Done<$t, $n> {
                mapping_algorithms::point_clouds::$m::$f(s, t, c)
            }
        }
    )*};
}
pre_icp! { f32, 2, single_precision, icp_2d; f32, 3, single_precision, icp_3d;
f64, 2, double_precision, icp_2d; f64, 3, double_precision, icp_3d; }

macro_rules! bounds {
    ($(#[$m:meta])* fn $n:ident<T, N>($($a:ident: $t:ty),*) $(-> $r:ty)? $b:block) => {
        $(#[$m])*
        fn $n<T: IcpT, const N: usize>($($a: $t),*) $(-> $r)?
        where
            usize: AsPrimitive<T>,
            f32: AsPrimitive<T>,
            IsometryAbstractor<T, N>: AbstractIsometry<T, N>,
            <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType: Rot<T>,
            Pre: PreIcp<T, N>,
        $b
    };
}

bounds! {
fn whole<T, N>(src: &[Point<T, N>], tgt: &[Point<T, N>], c: &Cfg) -> Fin {
    let k = config::<T>(c.kd, c.max, c.abs, c.int);
    let r = if c.pre { outside(|| hit("premade variant called")); Pre::icp(src, tgt, k) } else { icp::<T, N>(src, tgt, k) };
    match r {
        Ok(s) => Fin::Ok { iso: iso_bits::<T, N>(&s.transform), mse: canon(s.mse.to()), iter: s.iteration_num as u64 },
        Err(e) => Fin::Err(err_name(&e)),
    }
}
}

bounds! {
fn fresh<T, N>(k: &Trk<T, N>) -> State<T, N> {
    let iso = k.start.unwrap_or_else(Isometry::identity);
    let tp = match &k.start {
        None => k.src.clone(),
        Some(i) => k.src.iter().map(|p| i.transform_point(p)).collect(),
    };
    State { iso, mse: <T as Bounded>::max_value(), tp, it: 0 }
}
}

/// Tolerance of the error between a cloud pair: what rounding does to the
/// clouds' own extent, and to coordinates (of the source too, which each step
/// moves afresh) far from the origin.
fn slack<T: Sc, const N: usize>(src: &[[f64; N]], a: &[[f64; N]], b: &[[f64; N]]) -> f64 {
    let single = T::TOL > 1e-9;
    let n = a.len() as f64;
    let mid: [f64; N] = std::array::from_fn(|d| a.iter().map(|p| p[d]).sum::<f64>() / n);
    let (mut sum, mut radius, mut far) = (0f64, 0f64, 0f64);
    for p in a.iter().chain(b) {
        let d = geom::d2(p, &mid);
        sum += d;
        radius = radius.max(d.sqrt());
    }
    for p in src.iter().chain(a).chain(b) {
        far = p.iter().fold(far, |f, x| f.max(x.abs()));
    }
    let delta = rounding(single, n, far * (N as f64).sqrt());
    sum * if single { 3e-5 } else { 1e-10 } + n * delta * (4.0 * radius + delta)
}

/// How far rounding moves points at a distance from the origin, in the mean of `n` of them.
fn rounding(single: bool, n: f64, far: f64) -> f64 {
    (16.0 + n / 4.0) * far * if single { f32::EPSILON as f64 } else { f64::EPSILON }
}

bounds! {
/// One step of the caller's loop, with everything a step promises checked.
fn step<T, N>(k: &mut Trk<T, N>, op: &Op, inv: bool) {
    if k.done.is_some() || k.src.is_empty() || k.tgt.is_empty() { return; }
    if k.st.is_none() {
        let s = fresh(k);
        k.ckpt.push(s.clone());
        k.st = Some(s);
    }
    if k.cfg.kd && k.tree.is_none() {
        let t = &k.tgt;
        k.tree = Some(retry("build the target tree", || lib(|| KDTree::from(t.as_slice()))));
    }
    let cfg = config::<T>(k.cfg.kd, k.cfg.max, k.cfg.abs, k.cfg.int);
    let use_stale = op.k == "stale" && !k.stale.is_empty();
    let mut st = k.st.take().unwrap();
    if st.it >= k.cfg.max && !use_stale && k.done.is_none() {
        k.done = Some(Fin::Err("AlrogithmDidNotConverge".into()));
        k.st = Some(st);
        return;
    }
    let before = st.clone();
    let stale_tree;
    let (tgt, tree): (&[Point<T, N>], Option<&KDTree<T, N>>) = if use_stale {
        k.dirty = true;
        hit("step against a stale target");
        stale_tree = if k.cfg.kd { Some(KDTree::from(k.stale.as_slice())) } else { None };
        (&k.stale, stale_tree.as_ref())
    } else {
        (&k.tgt, k.tree.as_ref())
    };
    let src = &k.src;
    let r = {
        let s = &mut st;
        lib(|| icp_iteration::<T, N>(src, &mut s.tp, tgt, tree, &mut s.iso, &mut s.mse, &cfg))
    };
    let r = match r {
        Ok(r) => r,
        Err(Abort::Crash(_)) => {
            // The half-updated state is lost; fall back to a checkpoint.
            hit("step crashed");
            if iso_bits::<T, N>(&st.iso) != iso_bits::<T, N>(&before.iso) {
                hit("step crashed after it had changed the transform");
            }
            restore(k, op.iv(0));
            return;
        }
        Err(e) => { must::<()>(Err(e), "icp_iteration"); return; }
    };
    note(rng::mix(canon(st.mse.to())));
    let (ok, e) = match &r {
        Ok(m) => (true, *m),
        Err(ICPError::IterationDidNotConverge(_)) => (false, st.mse),
        Err(e) => violate("step-error", format!("a step with a target ended with {e:?}")),
    };
    if !use_stale {
        let entry = (iso_bits::<T, N>(&st.iso), canon(e.to()));
        if !k.dirty {
            if let Some(x) = k.log.get(&st.it) {
                hit("iteration repeated after a restart");
                ensure!(*x == entry, "diverged-after-restart",
                    "iteration {} gave {:?} the first time and {:?} after a restart from a checkpoint", st.it,
                    x.0.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>(),
                    entry.0.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>());
            } else {
                k.log.insert(st.it, entry);
            }
        }
    }
    if inv {
        invariants::<T, N>(k, &before, &st, &r, e, ok, use_stale);
    }
    if use_stale {
        // The error measured against another target means nothing here.
        st.mse = <T as Bounded>::max_value();
        k.st = Some(st);
        return;
    }
    if ok {
        k.done = Some(Fin::Ok { iso: iso_bits::<T, N>(&st.iso), mse: canon(e.to()), iter: st.it as u64 });
        k.st = Some(st);
        return;
    }
    st.it += 1;
    state(rng::mix(canon(e.to())) ^ st.it as u64);
    if op.iv(1) == 0 { k.ckpt.push(st.clone()); }
    k.st = Some(st);
}
}

bounds! {
fn invariants<T, N>(k: &Trk<T, N>, before: &State<T, N>, st: &State<T, N>, r: &Result<T, ICPError<T, N>>, e: T, ok: bool, use_stale: bool) {
    let tgt: Vec<[f64; N]> = if use_stale { &k.stale } else { &k.tgt }.iter().map(arr::<T, N>).collect();
    let a: Vec<[f64; N]> = before.tp.iter().map(arr::<T, N>).collect();
    let now: Vec<[f64; N]> = st.tp.iter().map(arr::<T, N>).collect();
    let rot = st.iso.rotation.parts();
    let norm: f64 = rot.iter().map(|x| x * x).sum();
    let big = T::TOL > 1e-9;
    ensure!((norm - 1.0).abs() < if big { 1e-3 } else { 1e-8 }, "not-rigid",
        "the transform's rotation has squared norm {norm}");
    // The transformed cloud is the transform applied to the source.
    let src: Vec<[f64; N]> = k.src.iter().map(arr::<T, N>).collect();
    let tol = slack::<T, N>(&src, &a, &tgt).max(slack::<T, N>(&src, &now, &tgt)) + 1e-30;
    for (i, p) in k.src.iter().enumerate() {
        let w = arr::<T, N>(&st.iso.transform_point(p));
        ensure!(geom::d2(&w, &now[i]) <= tol, "cloud-not-transformed",
            "transformed point {i} is {:?}, the transform takes the source to {w:?}", now[i]);
    }
    // Correspondences of this step.
    let mut near = vec![];
    let mut tie = false;
    for p in &a {
        let mut best = (f64::INFINITY, 0);
        for (j, q) in tgt.iter().enumerate() {
            let d = geom::d2(p, q);
            if d < best.0 { best = (d, j); }
        }
        let lim = best.0 * (1.0 + if big { 1e-5 } else { 1e-11 }) + tol * 1e-3 / a.len() as f64;
        if tgt.iter().any(|q| *q != tgt[best.1] && geom::d2(p, q) <= lim) { tie = true; }
        near.push(tgt[best.1]);
    }
    let noise = tol + geom::svd_noise::<N>(&a, &near, big, tie);
    let old: f64 = a.iter().zip(&near).map(|(x, y)| geom::d2(x, y)).sum();
    let e = e.to();
    // Never worse than before the step, measured with the step's own pairs.
    ensure!(e <= old + noise, "error-grew",
        "a step raised the error from {old} to {e}");
    if !use_stale && before.mse.to() < 1e300 && before.mse.to() < f32::MAX as f64 / 2.0 {
        ensure!(e <= before.mse.to() + noise, "error-grew", "the error rose from {} to {e}", before.mse.to());
        hit("error compared across steps");
    }
    if !tie {
        hit("step compared with the closed-form optimum");
        let after: f64 = now.iter().zip(&near).map(|(x, y)| geom::d2(x, y)).sum();
        ensure!((after - e).abs() <= tol, "wrong-error",
            "the step reported error {e}, its pairs give {after}");
        let opt = geom::best_rigid::<N>(&a, &near);
        ensure!(e <= opt + noise, "not-optimal",
            "the step reached error {e}; a proper rigid motion reaches {opt}");
        ensure!(e >= opt - tol, "not-rigid", "error {e} is below what any rigid motion can reach ({opt})");
        if let Err(ICPError::IterationDidNotConverge((ma, mb))) = r {
            let n = a.len() as f64;
            let (x, y) = (arr::<T, N>(ma), arr::<T, N>(mb));
            for d in 0..N {
                let (p, q) = (a.iter().map(|v| v[d]).sum::<f64>() / n, near.iter().map(|v| v[d]).sum::<f64>() / n);
                ensure!((x[d] - p).abs() <= tol.sqrt() && (y[d] - q).abs() <= tol.sqrt(), "wrong-means",
                    "the step reported means {x:?} {y:?}");
            }
        }
    } else {
        hit("step with tied neighbours");
    }
    // The stopping rule.
    let em = T::of(e);
    let want = k.cfg.abs.map(|t| em < T::of(t)).unwrap_or(false)
        || nalgebra::ComplexField::abs(before.mse - em) < T::of(k.cfg.int);
    ensure!(want == ok, "stopping-rule",
        "the step {} with error {e} after {} (absolute threshold {:?}, interval {})",
        if ok { "stopped" } else { "went on" }, before.mse, k.cfg.abs, k.cfg.int);
    // The same step with its own error, or its own change of the error, as the
    // threshold: both comparisons are strict.
    if !use_stale {
        let prev = before.mse;
        let gap = nalgebra::ComplexField::abs(prev - em);
        let tree = k.cfg.kd.then(|| KDTree::from(k.tgt.as_slice()));
        let again = |abs: Option<T>, int: T| -> (bool, f64) {
            let mut b = before.clone();
            let cfg = ICPConfiguration::<T>::builder()
                .with_kd_tree(k.cfg.kd)
                .with_max_iterations(k.cfg.max)
                .with_absolute_mse_threshold(abs)
                .with_mse_interval_threshold(int)
                .build();
            let r = icp_iteration::<T, N>(&k.src, &mut b.tp, &k.tgt, tree.as_ref(), &mut b.iso, &mut b.mse, &cfg);
            let m = match &r { Ok(m) => m.to(), _ => b.mse.to() };
            (r.is_ok(), m)
        };
        // Whatever happens, the thresholds do not move the points.
        let say = |what: &str, got: (bool, f64), want: bool| {
            ensure!(got.0 == want, "stopping-rule",
                "a step with error {e} after {prev} {} with {what}", if got.0 { "stopped" } else { "went on" });
            ensure!(canon(got.1) == canon(e), "thresholds-change-step", "the error is {e} or {} depending on the thresholds", got.1);
        };
        let small = T::of(f32::MIN_POSITIVE as f64);
        if e > 0.0 && em.to() < 1e30 && gap > small {
            say("exactly that absolute threshold", again(Some(em), small), false);
            say("an absolute threshold just above it", again(Some(T::of(e * (1.0 + T::TOL))), small), true);
            hit("threshold equal to the error");
        }
        if gap.to() > 0.0 && gap.to() < 1e30 {
            say("an interval threshold equal to the difference", again(None, gap), false);
            say("an interval threshold just above the difference", again(None, T::of(gap.to() * (1.0 + T::TOL))), true);
            hit("threshold equal to the change of the error");
        }
    }
    // Searching with and without the tree is the same step.
    if !tie && !use_stale {
        let mut alt = before.clone();
        let cfg = config::<T>(!k.cfg.kd, k.cfg.max, k.cfg.abs, k.cfg.int);
        let tree = (!k.cfg.kd).then(|| KDTree::from(k.tgt.as_slice()));
        let q = icp_iteration::<T, N>(&k.src, &mut alt.tp, &k.tgt, tree.as_ref(), &mut alt.iso, &mut alt.mse, &cfg);
        let same = iso_bits::<T, N>(&alt.iso) == iso_bits::<T, N>(&st.iso) && q.is_ok() == ok;
        ensure!(same, "tree-changes-result",
            "the step with the tree and the step without it differ: {:?} and {:?}",
            iso_bits::<T, N>(&st.iso).into_iter().map(f64::from_bits).collect::<Vec<_>>(), iso_bits::<T, N>(&alt.iso).into_iter().map(f64::from_bits).collect::<Vec<_>>());
        hit("step repeated with the other search");
    }
}
}

bounds! {
fn restore<T, N>(k: &mut Trk<T, N>, mode: i64) {
    let cp = match mode.rem_euclid(4) {
        0 => k.ckpt.last().cloned(),
        1 => k.ckpt.get(k.ckpt.len() / 2).cloned(),
        2 => k.ckpt.last().cloned().map(|mut c| {
            // Only transform and error were saved.
            hit("restart from a compact checkpoint");
            if c.it > 0 {
                c.tp = k.src.iter().map(|p| c.iso.transform_point(p)).collect();
            }
            c
        }),
        _ => None,
    };
    hit("restart");
    k.tree = None;
    match cp {
        Some(c) => {
            if c.it > 0 { hit("restart from a checkpoint in the middle"); }
            while k.ckpt.last().map(|x| x.it > c.it).unwrap_or(false) { k.ckpt.pop(); }
            k.st = Some(c)
        }
        None => {
            k.ckpt.clear();
            k.st = None;
        }
    }
    k.done = None;
}
}

bounds! {
fn apply<T, N>(k: &mut Trk<T, N>, op: &Op, inv: bool) {
    match op.k.as_str() {
        "src" => { k.src = pts::<T, N>(&op.f); }
        "tgt" => { k.tgt = pts::<T, N>(&op.f); k.tree = None; }
        "old" => { k.stale = pts::<T, N>(&op.f); }
        "cfg" => {
            k.cfg = Cfg {
                pre: op.iv(2) != 0,
                kd: op.iv(0) != 0,
                max: op.iv(1).max(0) as usize,
                abs: (op.p[0] > -1.0).then_some(op.p[0]),
                int: op.p[1],
            };
            if op.p.len() > 2 {
                let rot = <<IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType as Rot<T>>::make(&op.p[2..5]);
                let tr = nalgebra::Translation::from(nalgebra::SVector::<T, N>::from(std::array::from_fn::<T, N, _>(|d| T::of(op.p[5 + d]))));
                k.start = Some(Isometry::from_parts(tr, rot));
                k.dirty = true;
            }
        }
        "step" | "stale" => step(k, op, inv),
        "rst" => { restore(k, op.iv(0)); }
        // The target never arrived.
        "nt" => {
            if k.src.is_empty() || k.done.is_some() { return; }
            let mut st = k.st.take().unwrap_or_else(|| fresh(k));
            let cfg = config::<T>(k.cfg.kd, k.cfg.max, k.cfg.abs, k.cfg.int);
            let b = st.clone();
            let src = &k.src;
            let r = {
                let s = &mut st;
                lib(|| icp_iteration::<T, N>(src, &mut s.tp, &[], None, &mut s.iso, &mut s.mse, &cfg))
            };
            match r {
                Ok(Err(ICPError::NoNearestNeighbour)) => {}
                Ok(x) => violate("no-target", format!("a step without a target ended with {x:?}")),
                Err(Abort::Crash(_)) => { restore(k, op.iv(0)); return; }
                Err(e) => { must::<()>(Err(e), "icp_iteration"); }
            }
            hit("step without a target");
            ensure!(iso_bits::<T, N>(&b.iso) == iso_bits::<T, N>(&st.iso) && b.tp == st.tp && canon(b.mse.to()) == canon(st.mse.to()),
                "failed-step-changed-state", "a step that failed for want of a target changed the caller's state");
            k.st = Some(st);
        }
        "full" => {
            if k.src.is_empty() || k.tgt.is_empty() { return; }
            let (s, t, c) = (&k.src, &k.tgt, &k.cfg);
            for _ in 0..20 {
                match lib(|| whole(s, t, c)) {
                    Ok(f) => {
                        if let Some(d) = k.log.iter().next_back() {
                            if let (Fin::Ok { iter, .. }, false) = (&f, k.dirty) {
                                ensure!(*iter as usize >= *d.0, "diverged",
                                    "icp stopped at iteration {iter}, the caller's own loop went on after {}", d.0);
                            }
                        }
                        break;
                    }
                    Err(Abort::Crash(_)) => hit("icp crashed"),
                    Err(e) => { must::<()>(Err(e), "icp"); }
                }
            }
        }
        // A configuration that has to be refused.
        "bad" => {
            let (s, t) = (&k.src, &k.tgt);
            let which = op.iv(0);
            let mut c = Cfg { pre: op.iv(2) % 2 != 0, kd: op.iv(1) != 0, max: 5, abs: None, int: 0.01 };
            let (mut es, mut et) = (s.as_slice(), t.as_slice());
            if es.is_empty() || et.is_empty() { return; }
            let want = match which {
                0 => { es = &[]; "SourcePointCloudEmpty" }
                1 => { et = &[]; "TargetPointCloudEmpty" }
                2 => { c.max = 0; "IterationNumIsZero" }
                3 => { c.int = *[0.0, -1.0, f64::EPSILON / 4.0, f64::NAN, f64::NEG_INFINITY, -0.0, 1e-40].get(op.iv(2) as usize % 7).unwrap(); "MSEIntervalThreshold" }
                _ => { c.abs = Some(*[0.0, -0.5, f64::NAN, f64::EPSILON / 4.0, f64::NEG_INFINITY, -0.0, 1e-40].get(op.iv(2) as usize % 7).unwrap()); "MSEAbsoluteThreshold" }
            };
            let f = retry("icp", || lib(|| whole(es, et, &c)));
            ensure!(f == Fin::Err(want.into()), "bad-config-accepted", "expected {want}, icp ended with: {}", f.say());
            hit("invalid request refused");
        }
        _ => {}
    }
}
}

bounds! {
fn run<T, N>(plan: &Plan) {
    let inv = plan.prop == "C08";
    let new = || Trk::<T, N> {
        src: vec![], tgt: vec![], stale: vec![],
        cfg: Cfg { pre: false, kd: false, max: 20, abs: None, int: 0.01 },
        tree: None, st: None, start: None, ckpt: vec![], log: BTreeMap::new(), done: None, dirty: false,
    };
    // What an uninterrupted computation in a pristine process gives.
    let mut want: Vec<Option<Fin>> = vec![];
    for t in &plan.tasks {
        let mut k = new();
        for o in t {
            if matches!(o.k.as_str(), "src" | "tgt" | "cfg") { apply(&mut k, o, false); }
        }
        if k.src.is_empty() || k.tgt.is_empty() { want.push(None); continue; }
        match fork_value(|| whole(&k.src, &k.tgt, &k.cfg).bytes()) {
            Some(b) => want.push(Some(Fin::read(&b))),
            None => violate("hang", format!("icp of {} points on {} did not return", k.src.len(), k.tgt.len())),
        }
    }
    run_tasks_with(
        plan,
        |_| Unsent(new()),
        |_, _, op, k| apply(&mut k.0, op, inv),
        |t, k| {
            let mut k = k.0;
            disarm();
            if k.src.is_empty() || k.tgt.is_empty() { return; }
            // Faults have stopped: it has to finish, within a provable bound.
            let fin = Op::new("step").i(&[0, 1]);
            let mut n = 0;
            let mut first: Option<f64> = None;
            if k.dirty { k.cfg.max = usize::MAX; }
            while k.done.is_none() {
                step(&mut k, &fin, inv);
                n += 1;
                if let Some(s) = &k.st {
                    if first.is_none() && s.it > 0 { first = Some(s.mse.to()); }
                }
                let bound = first.map(|e| e / k.cfg.int + 3.0).unwrap_or(3.0).min(2e5);
                ensure!(k.done.is_some() || (n as f64) <= bound + 2.0 + if k.dirty || k.cfg.max > 1000 { 0.0 } else { k.cfg.max as f64 },
                    "no-progress", "after {n} undisturbed steps registration has not finished; every step must lower the error by {} from {first:?}", k.cfg.int);
            }
            if k.dirty { hit("finished after stale targets or from a foreign start"); return; }
            let got = k.done.clone().unwrap();
            let want = want[t].clone().unwrap();
            ensure!(got == want, "diverged",
                "interrupted and restarted: {}; uninterrupted: {}", got.say(), want.say());
            let again = must(lib(|| whole(&k.src, &k.tgt, &k.cfg)), "icp");
            ensure!(again == want, "diverged", "icp now: {}; icp in a fresh process: {}", again.say(), want.say());
            match want { Fin::Ok { iter, .. } => { hit("converged"); ensure!((iter as usize) < k.cfg.max, "iteration-number", "iteration {iter} of {}", k.cfg.max) }
                _ => hit("did not converge in time") }
        },
    );
}
}

pub fn exec(p: &Plan) {
    match (p.par("ty"), p.par("dim")) {
        (1, 2) => run::<f32, 2>(p),
        (1, _) => run::<f32, 3>(p),
        (_, 2) => run::<f64, 2>(p),
        (_, _) => run::<f64, 3>(p),
    }
}

/// A pair of clouds related by a motion, with noise, missing and extra points.
pub fn pair(r: &mut Rng, dim: usize, n: usize) -> (Vec<f64>, Vec<f64>) {
    let kind = r.us(10);
    let scale = *r.pick(&[1.0, 5.0, 20.0]);
    let m = (n as f64 * r.uni(0.6, 1.4)) as usize + 1;
    if kind == 0 {
        // unrelated clouds
        return (
            (0..n * dim).map(|_| r.uni(-scale, scale)).collect(),
            (0..m * dim).map(|_| r.uni(-scale, scale)).collect(),
        );
    }
    let flat = kind == 1; // degenerate: on a line or plane
    let src: Vec<f64> = if kind == 2 {
        gen::cloud(r, n, dim, gen::INTS).iter().map(|x| x / 4.0).collect()
    } else {
        (0..n * dim)
            .map(|i| if flat && i % dim == dim - 1 { 0.0 } else { r.uni(-scale, scale) })
            .collect()
    };
    let ang = if r.chance(0.2) { r.uni(-3.0, 3.0) } else { r.uni(-0.4, 0.4) };
    let ax: Vec<f64> = (0..3).map(|_| r.gauss()).collect();
    let nr = ax.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
    let q = UnitQuaternion::from_scaled_axis(nalgebra::Vector3::new(ax[0] / nr * ang, ax[1] / nr * ang, ax[2] / nr * ang));
    let c = UnitComplex::new(ang);
    let shift: Vec<f64> = (0..dim).map(|_| r.uni(-0.2, 0.2) * scale).collect();
    let noise = *r.pick(&[0.0, 0.0, 0.001, 0.05]) * scale;
    let drop = if r.chance(0.4) { 0.3 } else { 0.0 };
    let mut tgt = vec![];
    let mut idx: Vec<usize> = (0..n).collect();
    if r.chance(0.7) {
        r.shuffle(&mut idx);
    }
    let mut lost = 0;
    for i in idx {
        if lost + 1 < n && r.chance(drop) {
            lost += 1;
            continue;
        }
        let s = &src[i * dim..(i + 1) * dim];
        let v: Vec<f64> = if dim == 2 {
            let p = c * nalgebra::Point2::new(s[0], s[1]);
            vec![p.x, p.y]
        } else {
            let p = q * nalgebra::Point3::new(s[0], s[1], s[2]);
            vec![p.x, p.y, p.z]
        };
        for k in 0..dim {
            tgt.push(v[k] + shift[k] + noise * r.gauss());
        }
    }
    for _ in 0..if r.chance(0.3) { r.us(n / 3 + 1) } else { 0 } {
        for _ in 0..dim {
            tgt.push(r.uni(-scale, scale) * 1.5);
        }
    }
    (src, tgt)
}

/// Clouds on lattices, where most points have several nearest targets.
fn ties(r: &mut Rng, dim: usize, n: usize) -> (Vec<f64>, Vec<f64>) {
    let w = ((n as f64).powf(1.0 / dim as f64).ceil() as i64).max(2);
    let mut lattice = |off: f64| {
        let m = w.pow(dim as u32);
        let mut v: Vec<Vec<f64>> = (0..m)
            .map(|i| (0..dim).map(|k| ((i / w.pow(k as u32)) % w) as f64 + off).collect())
            .collect();
        r.shuffle(&mut v);
        v.truncate(n.max(m as usize * 3 / 4));
        v.concat()
    };
    let t = lattice(0.0);
    let s = lattice(0.5);
    (s, t)
}

/// The clouds and the configuration, and where the clouds lie.
fn problem(r: &mut Rng, p: &mut Plan, dim: usize, start: bool) -> (Vec<Op>, Place) {
    let n = if r.chance(0.25) { 1 + r.us(4) } else { 3 + gen::size(r, 60, 0.02, 200) as usize };
    let single = p.par("ty") == 1;
    let place = Place::draw(r, p, dim);
    let (mut s, mut t) = if !start && p.prop == "C07" && r.chance(0.1) {
        p.env("clouds full of ties", 1);
        ties(r, dim, n)
    } else {
        pair(r, dim, n)
    };
    let e0: f64 = s.iter().map(|x| x * x).sum::<f64>().max(1e-3);
    let int = e0 * *r.pick(&[1e-2, 1e-3, 1e-4, 1e-5]);
    let int = if p.par("ty") == 1 { int.max(e0 * 1e-4).max(1e-6) } else { int.max(1e-12) };
    let abs = if r.chance(0.3) { e0 * *r.pick(&[1e-1, 1e-3, 1e-6]) + 1e-6 } else { -2.0 };
    let int = if !single && r.chance(0.05) { e0 * 1e-10 + 1e-12 } else { int };
    let (int, abs) = (int * place.scale * place.scale, if abs > 0.0 { abs * place.scale * place.scale } else { abs });
    // Nobody asks for less than what rounding leaves.
    let radius = s.iter().chain(&t).fold(0f64, |f, x| f.max(x.abs())) * place.scale * 2.0;
    let delta = rounding(single, n as f64, place.off.iter().fold(0f64, |f, x| f.max(x.abs())) + radius) * 2.0;
    let int = if place.far() || place.scale != 1.0 { int.max(n as f64 * delta * (4.0 * radius + delta)).max(if single { 1e-6 } else { 1e-15 }) } else { int };
    place.put(&mut s);
    place.put(&mut t);
    let max = match r.us(20) {
        0 => r.range(50, 400),
        1..=5 => r.range(1, 60),
        _ => *r.pick(&[1, 2, 3, 5, 10, 20, 40]),
    };
    let max = if r.chance(0.06) && s.len() * t.len() <= 400 * dim * dim && int >= e0 * 1e-3 * place.scale * place.scale {
        // As good as unlimited, also for those who count in fewer bits.
        *r.pick(&[255, 256, 257, 65_535, 65_536, 65_537, 1 << 32, (1 << 32) + 1, i64::MAX])
    } else {
        max
    };
    // No more work than a call may take.
    let max = if max > 1000 { max } else { max.min((2_000_000 / (s.len() * t.len() / dim / dim).max(1)) as i64).max(1) };
    let mut c = vec![abs, int];
    if start {
        for _ in 0..3 {
            c.push(r.uni(-0.3, 0.3));
        }
        // Turned about where the clouds are.
        let turned: Vec<f64> = if dim == 2 {
            let v = UnitComplex::new(c[2]) * nalgebra::Vector2::new(place.off[0], place.off[1]);
            v.iter().copied().collect()
        } else {
            let v = <UnitQuaternion<f64> as Rot<f64>>::make(&c[2..5]) * nalgebra::Vector3::new(place.off[0], place.off[1], place.off[2]);
            v.iter().copied().collect()
        };
        for d in 0..dim {
            c.push(place.off[d] - turned[d] + r.uni(-1.0, 1.0) * place.scale);
        }
    }
    let ops = vec![
        Op::new("src").f(s, dim),
        Op::new("tgt").f(t, dim),
        Op::new("cfg").i(&[r.chance(0.5) as i64, max, r.chance(0.4) as i64]).p(&c),
    ];
    (ops, place)
}

/// Where the clouds of a registration lie, and in which unit they are measured.
struct Place {
    scale: f64,
    off: Vec<f64>,
}

impl Place {
    fn draw(r: &mut Rng, p: &mut Plan, dim: usize) -> Place {
        let single = p.par("ty") == 1;
        let scale = if single || r.chance(0.8) { 1.0 } else { *r.pick(&[1e-3, 1e3, 1e6]) };
        let mut off = vec![0.0; dim];
        if r.chance(0.2) {
            p.env("clouds far from the origin", 1);
            let far = 10f64.powf(if single { r.uni(1.0, 4.0) } else { r.uni(1.0, 9.5) }) * scale;
            off.iter_mut().for_each(|x| *x = r.uni(-1.0, 1.0) * far);
            if r.chance(0.3) { off[r.us(dim)] = 0.0; }
        }
        Place { scale, off }
    }
    fn far(&self) -> bool { self.off.iter().any(|x| *x != 0.0) }
    fn put(&self, v: &mut [f64]) {
        let dim = self.off.len();
        for (i, x) in v.iter_mut().enumerate() { *x = *x * self.scale + self.off[i % dim]; }
    }
}

fn kinds(p: &Plan) -> Vec<Kind> {
    if p.spans {
        vec![Kind::Span, Kind::Span, Kind::Log]
    } else {
        vec![Kind::Alloc, Kind::Log]
    }
}

/// More points on one side than two bytes can count.
fn bulk(r: &mut Rng, p: &mut Plan) {
    let dim = 2 + r.us(2);
    p.set("ty", 2);
    p.set("dim", dim as i64);
    let n = gen::many(r);
    let many = |k: &str, r: &mut Rng| Op::new(k).bulk(r.u64(), n, FRACS, dim);
    let few = |k: &str, r: &mut Rng| {
        let m = 2 + r.us(8);
        Op::new(k).f((0..m * dim).map(|_| r.uni(-20.0, 120.0)).collect(), dim)
    };
    let mut ops = if r.chance(0.6) { vec![many("src", r), few("tgt", r)] } else { vec![few("src", r), many("tgt", r)] };
    ops.push(Op::new("cfg").i(&[r.chance(0.5) as i64, r.range(1, 4), 0]).p(&[-2.0, 1.0]));
    for _ in 0..r.us(3) {
        ops.push(Op::new("step").i(&[r.range(0, 3), 0]));
    }
    p.tasks.push(ops);
    gen::sched(r, p, 1);
}

pub fn gen_c07(r: &mut Rng, p: &mut Plan) {
    if gen::bulk(r) {
        return bulk(r, p);
    }
    p.set("ty", 1 + r.us(2) as i64);
    let dim = 2 + r.us(2);
    p.set("dim", dim as i64);
    p.set("log_level", if r.chance(0.7) { 5 } else { 0 });
    let tasks = 1 + r.us(3);
    gen::sched(r, p, tasks);
    let ks = kinds(p);
    for _ in 0..tasks {
        let (mut ops, _) = problem(r, p, dim, false);
        let n = ops[0].f.len() / dim;
        let rate = *r.pick(&[0.1, 0.3, 0.6]);
        for _ in 0..2 + r.us(16) {
            match r.us(10) {
                0 => {
                    ops.push(Op::new("rst").i(&[r.range(0, 3)]));
                    p.env("restart between steps", 1);
                }
                1 => {
                    ops.push(Op::new("nt").i(&[r.range(0, 3)]));
                    p.env("target message lost", 1);
                }
                2 => ops.push(gen::maybe_fault(r, Op::new("full"), &ks, rate, n as u64 * 4)),
                _ => {
                    let o = Op::new("step").i(&[r.range(0, 3), r.chance(0.3) as i64]);
                    ops.push(gen::maybe_fault(r, o, &ks, rate, n as u64));
                }
            }
        }
        p.tasks.push(ops);
    }
}

pub fn gen_c08(r: &mut Rng, p: &mut Plan) {
    if gen::bulk(r) {
        return bulk(r, p);
    }
    p.set("ty", 1 + (r.us(3) > 0) as i64);
    let dim = 2 + r.us(2);
    p.set("dim", dim as i64);
    p.set("log_level", if r.chance(0.3) { 5 } else { 0 });
    let tasks = 1 + r.us(2);
    gen::sched(r, p, tasks);
    let ks = kinds(p);
    for _ in 0..tasks {
        let start = r.chance(0.4);
        let (mut ops, place) = problem(r, p, dim, start);
        if start {
            p.env("registration started from a foreign guess", 1);
        }
        let n = ops[0].f.len() / dim;
        let stale = r.chance(0.4);
        if stale {
            let (_, mut t) = pair(r, dim, n);
            place.put(&mut t);
            ops.push(Op::new("old").f(t, dim));
        }
        for _ in 0..1 + r.us(10) {
            match r.us(10) {
                0 => {
                    ops.push(Op::new("nt").i(&[r.range(0, 3)]));
                    p.env("target message lost", 1);
                }
                1 => ops.push(Op::new("bad").i(&[r.range(0, 4), r.range(0, 1), r.range(0, 13)])),
                2 | 3 if stale => {
                    ops.push(Op::new("stale").i(&[0, 1]));
                    p.env("stale target delivered", 1);
                }
                4 => {
                    let o = Op::new("step").i(&[r.range(0, 3), 0]);
                    ops.push(gen::maybe_fault(r, o, &ks, 0.5, n as u64));
                }
                _ => ops.push(Op::new("step").i(&[r.range(0, 3), 0])),
            }
        }
        p.tasks.push(ops);
    }
}
