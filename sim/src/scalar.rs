//! A scalar whose every arithmetic operation and comparison is a simulation
//! point. The values are those of f64.
use crate::core::point_or_crash;
use crate::plan::Kind::Scalar;
use mapping_algorithms::types::IsNan;
use num_traits::{AsPrimitive, Bounded, Num, One, Zero};
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy, Debug, Default)]
pub struct SimF(pub f64);

impl PartialEq for SimF {
    fn eq(&self, o: &SimF) -> bool {
        point_or_crash(Scalar);
        self.0 == o.0
    }
}
impl PartialOrd for SimF {
    fn partial_cmp(&self, o: &SimF) -> Option<Ordering> {
        point_or_crash(Scalar);
        self.0.partial_cmp(&o.0)
    }
}
macro_rules! ops {
    ($($tr:ident $m:ident $tra:ident $ma:ident $op:tt;)*) => {$(
        impl $tr for SimF { type Output = SimF;
            #[inline] fn $m(self, o: SimF) -> SimF { point_or_crash(Scalar); SimF(self.0 $op o.0) } }
        impl $tra for SimF { #[inline] fn $ma(&mut self, o: SimF) { point_or_crash(Scalar); self.0 = self.0 $op o.0; } }
    )*};
}
ops! { Add add AddAssign add_assign +; Sub sub SubAssign sub_assign -; Mul mul MulAssign mul_assign *;
Div div DivAssign div_assign /; Rem rem RemAssign rem_assign %; }
impl Neg for SimF {
    type Output = SimF;
    fn neg(self) -> SimF {
        SimF(-self.0)
    }
}
impl Zero for SimF {
    fn zero() -> Self {
        SimF(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for SimF {
    fn one() -> Self {
        SimF(1.0)
    }
}
impl Num for SimF {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl Bounded for SimF {
    fn min_value() -> Self {
        SimF(f64::MIN)
    }
    fn max_value() -> Self {
        SimF(f64::MAX)
    }
}
impl IsNan for SimF {
    fn is_nan(self) -> bool {
        point_or_crash(Scalar);
        self.0.is_nan()
    }
}
macro_rules! asp {
    ($($t:ty)*) => {$(
        impl AsPrimitive<$t> for SimF { fn as_(self) -> $t { self.0 as $t } }
        impl AsPrimitive<SimF> for $t { fn as_(self) -> SimF { SimF(self as f64) } }
    )*};
}
asp! { f32 f64 isize usize }

/// What the scenarios need to know about a coordinate type.
pub trait Sc: Copy + std::fmt::Debug + Default + PartialEq + PartialOrd + Send + Sync + 'static {
    /// Relative tolerance that rounding in this type can explain.
    const TOL: f64;
    const INT: bool;
    fn of(x: f64) -> Self;
    fn to(self) -> f64;
}
macro_rules! sc {
    ($($t:ty, $tol:expr, $int:expr;)*) => {$(
        impl Sc for $t { const TOL: f64 = $tol; const INT: bool = $int;
            fn of(x: f64) -> Self { x as $t } fn to(self) -> f64 { self as f64 } }
    )*};
}
sc! { f32, 2e-6, false; f64, 1e-12, false; i8, 0.0, true; i16, 0.0, true; i32, 0.0, true; i64, 0.0, true; isize, 0.0, true;
u8, 0.0, true; u16, 0.0, true; u32, 0.0, true; u64, 0.0, true; usize, 0.0, true; }
impl Sc for SimF {
    const TOL: f64 = 1e-12;
    const INT: bool = false;
    fn of(x: f64) -> Self {
        SimF(x)
    }
    fn to(self) -> f64 {
        self.0
    }
}

pub fn pt<T: Sc + nalgebra::Scalar, const N: usize>(f: &[f64]) -> nalgebra::Point<T, N> {
    nalgebra::Point::from(std::array::from_fn::<T, N, _>(|i| T::of(f[i])))
}
pub fn pts<T: Sc + nalgebra::Scalar, const N: usize>(f: &[f64]) -> Vec<nalgebra::Point<T, N>> {
    f.chunks_exact(N).map(|c| pt::<T, N>(c)).collect()
}
pub fn arr<T: Sc + nalgebra::Scalar, const N: usize>(p: &nalgebra::Point<T, N>) -> [f64; N] {
    std::array::from_fn(|i| p.coords[i].to())
}
/// The value a coordinate has once stored in `T` (so models see what T sees).
pub fn q<T: Sc>(x: f64) -> f64 {
    T::of(x).to()
}
