//! An `f64` whose comparisons and orientation tests are counted: the monitor
//! of how much geometric work an operation does. `tick` panics past a budget,
//! so an operation that no longer terminates is stopped after a number of
//! steps, not after a time.
use float_next_after::NextAfter;
use geo::kernels::{HasKernel, Kernel, Orientation, RobustKernel};
use geo::Coordinate;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::*;

thread_local! {
    static CMP: Cell<u64> = Cell::new(0);
    static ORI: Cell<u64> = Cell::new(0);
    static CAP: Cell<u64> = Cell::new(u64::MAX);
}
pub fn reset(cap: u64) {
    CMP.with(|c| c.set(0));
    ORI.with(|c| c.set(0));
    CAP.with(|c| c.set(cap));
}
/// Comparisons and orientation tests since the last `reset`.
pub fn counts() -> (u64, u64) {
    (CMP.with(|c| c.get()), ORI.with(|c| c.get()))
}
pub const BUDGET: &str = "geometric-step budget exhausted";
fn tick(c: &'static std::thread::LocalKey<Cell<u64>>) {
    c.with(|c| {
        let v = c.get() + 1;
        c.set(v);
        if v > CAP.with(|c| c.get()) {
            CAP.with(|c| c.set(u64::MAX));
            panic!("{}", BUDGET);
        }
    })
}

/// What remains of the budget.
pub fn left() -> u64 {
    CAP.with(|c| c.get()).saturating_sub(CMP.with(|c| c.get()))
}

/// Spend one step of the budget.
pub fn spend() {
    tick(&CMP)
}

#[derive(Copy, Clone, Debug, Default)]
pub struct W(pub f64);
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        tick(&CMP);
        self.0 == o.0
    }
}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<Ordering> {
        tick(&CMP);
        self.0.partial_cmp(&o.0)
    }
}
macro_rules! op {
    ($($t:ident $f:ident),*) => { $(impl $t for W {
        type Output = W;
        fn $f(self, o: W) -> W { W($t::$f(self.0, o.0)) }
    })* };
}
op!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl Neg for W {
    type Output = W;
    fn neg(self) -> W {
        W(-self.0)
    }
}
impl Zero for W {
    fn zero() -> W {
        W(0.)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.
    }
}
impl One for W {
    fn one() -> W {
        W(1.)
    }
}
impl Num for W {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<W, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(W)
    }
}
impl ToPrimitive for W {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for W {
    fn from<T: ToPrimitive>(n: T) -> Option<W> {
        n.to_f64().map(W)
    }
}
impl NextAfter<W> for W {
    fn next_after(self, y: W) -> W {
        W(NextAfter::next_after(self.0, y.0))
    }
}
pub struct CountingKernel;
impl Kernel<W> for CountingKernel {
    fn orient2d(p: Coordinate<W>, q: Coordinate<W>, r: Coordinate<W>) -> Orientation {
        tick(&ORI);
        let f = |c: Coordinate<W>| Coordinate { x: c.x.0, y: c.y.0 };
        <RobustKernel as Kernel<f64>>::orient2d(f(p), f(q), f(r))
    }
}
impl HasKernel for W {
    type Ker = CountingKernel;
}
impl Float for W {
    fn nan() -> Self {
        W(<f64 as Float>::nan())
    }
    fn infinity() -> Self {
        W(<f64 as Float>::infinity())
    }
    fn neg_infinity() -> Self {
        W(<f64 as Float>::neg_infinity())
    }
    fn neg_zero() -> Self {
        W(<f64 as Float>::neg_zero())
    }
    fn min_value() -> Self {
        W(<f64 as Float>::min_value())
    }
    fn min_positive_value() -> Self {
        W(<f64 as Float>::min_positive_value())
    }
    fn max_value() -> Self {
        W(<f64 as Float>::max_value())
    }
    fn is_nan(self) -> bool {
        Float::is_nan(self.0)
    }
    fn is_infinite(self) -> bool {
        Float::is_infinite(self.0)
    }
    fn is_finite(self) -> bool {
        Float::is_finite(self.0)
    }
    fn is_normal(self) -> bool {
        Float::is_normal(self.0)
    }
    fn classify(self) -> FpCategory {
        Float::classify(self.0)
    }
    fn floor(self) -> Self {
        W(Float::floor(self.0))
    }
    fn ceil(self) -> Self {
        W(Float::ceil(self.0))
    }
    fn round(self) -> Self {
        W(Float::round(self.0))
    }
    fn trunc(self) -> Self {
        W(Float::trunc(self.0))
    }
    fn fract(self) -> Self {
        W(Float::fract(self.0))
    }
    fn abs(self) -> Self {
        W(Float::abs(self.0))
    }
    fn signum(self) -> Self {
        W(Float::signum(self.0))
    }
    fn is_sign_positive(self) -> bool {
        Float::is_sign_positive(self.0)
    }
    fn is_sign_negative(self) -> bool {
        Float::is_sign_negative(self.0)
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        W(Float::mul_add(self.0, a.0, b.0))
    }
    fn recip(self) -> Self {
        W(Float::recip(self.0))
    }
    fn powi(self, n: i32) -> Self {
        W(Float::powi(self.0, n))
    }
    fn powf(self, n: Self) -> Self {
        W(Float::powf(self.0, n.0))
    }
    fn sqrt(self) -> Self {
        W(Float::sqrt(self.0))
    }
    fn exp(self) -> Self {
        W(Float::exp(self.0))
    }
    fn exp2(self) -> Self {
        W(Float::exp2(self.0))
    }
    fn ln(self) -> Self {
        W(Float::ln(self.0))
    }
    fn log(self, base: Self) -> Self {
        W(Float::log(self.0, base.0))
    }
    fn log2(self) -> Self {
        W(Float::log2(self.0))
    }
    fn log10(self) -> Self {
        W(Float::log10(self.0))
    }
    fn max(self, other: Self) -> Self {
        tick(&CMP);
        W(Float::max(self.0, other.0))
    }
    fn min(self, other: Self) -> Self {
        tick(&CMP);
        W(Float::min(self.0, other.0))
    }
    fn abs_sub(self, other: Self) -> Self {
        W(Float::abs_sub(self.0, other.0))
    }
    fn cbrt(self) -> Self {
        W(Float::cbrt(self.0))
    }
    fn hypot(self, other: Self) -> Self {
        W(Float::hypot(self.0, other.0))
    }
    fn sin(self) -> Self {
        W(Float::sin(self.0))
    }
    fn cos(self) -> Self {
        W(Float::cos(self.0))
    }
    fn tan(self) -> Self {
        W(Float::tan(self.0))
    }
    fn asin(self) -> Self {
        W(Float::asin(self.0))
    }
    fn acos(self) -> Self {
        W(Float::acos(self.0))
    }
    fn atan(self) -> Self {
        W(Float::atan(self.0))
    }
    fn atan2(self, other: Self) -> Self {
        W(Float::atan2(self.0, other.0))
    }
    fn sin_cos(self) -> (Self, Self) {
        { let (a, b) = Float::sin_cos(self.0); (W(a), W(b)) }
    }
    fn exp_m1(self) -> Self {
        W(Float::exp_m1(self.0))
    }
    fn ln_1p(self) -> Self {
        W(Float::ln_1p(self.0))
    }
    fn sinh(self) -> Self {
        W(Float::sinh(self.0))
    }
    fn cosh(self) -> Self {
        W(Float::cosh(self.0))
    }
    fn tanh(self) -> Self {
        W(Float::tanh(self.0))
    }
    fn asinh(self) -> Self {
        W(Float::asinh(self.0))
    }
    fn acosh(self) -> Self {
        W(Float::acosh(self.0))
    }
    fn atanh(self) -> Self {
        W(Float::atanh(self.0))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.0)
    }
}
