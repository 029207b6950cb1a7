//! Monitored scalar: carries an initialisation tag and counts every arithmetic step.
//!
//! `Mon<F>` computes bit for bit what `F` computes.  Memory handed out by the allocator is poisoned
//! (see alloc.rs), so an element that was never written has no valid tag; arithmetic or a comparison
//! on it, or finding it in a result, is reported.  The step counter gives a deterministic, machine
//! independent notion of "does not terminate".
use la::ApproxEq;
use num::traits::{Float, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt;
use std::num::FpCategory;
use std::ops::*;

const MAGIC: u32 = 0x5EED_1A57;

thread_local! {
    pub static STEPS: Cell<u64> = const { Cell::new(0) };
    pub static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub struct BudgetExceeded(pub u64);
pub struct UninitRead;

#[inline]
pub fn tick() {
    STEPS.with(|s| {
        let v = s.get() + 1;
        s.set(v);
        if v > BUDGET.with(|b| b.get()) {
            BUDGET.with(|b| b.set(u64::MAX));
            std::panic::panic_any(BudgetExceeded(v));
        }
    });
}

#[derive(Copy, Clone)]
pub struct Mon<F> {
    v: F,
    tag: u32,
}

impl<F: Copy> Mon<F> {
    #[inline]
    pub fn mk(v: F) -> Mon<F> {
        Mon { v, tag: MAGIC }
    }
    #[inline]
    pub fn get(&self) -> F {
        if self.tag != MAGIC {
            std::panic::panic_any(UninitRead);
        }
        self.v
    }
    pub fn init(&self) -> bool {
        self.tag == MAGIC
    }
}

impl<F: Copy + fmt::Debug> fmt::Debug for Mon<F> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.get().fmt(f)
    }
}
impl<F: Copy + PartialEq> PartialEq for Mon<F> {
    #[inline]
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.get() == o.get()
    }
}
impl<F: Copy + PartialOrd> PartialOrd for Mon<F> {
    #[inline]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        tick();
        self.get().partial_cmp(&o.get())
    }
    #[inline]
    fn lt(&self, o: &Self) -> bool { tick(); self.get() < o.get() }
    #[inline]
    fn le(&self, o: &Self) -> bool { tick(); self.get() <= o.get() }
    #[inline]
    fn gt(&self, o: &Self) -> bool { tick(); self.get() > o.get() }
    #[inline]
    fn ge(&self, o: &Self) -> bool { tick(); self.get() >= o.get() }
}
macro_rules! bin {
    ($($t:ident $m:ident),*) => {$(
        impl<F: Copy + $t<Output = F>> $t for Mon<F> {
            type Output = Mon<F>;
            #[inline]
            fn $m(self, o: Mon<F>) -> Mon<F> { tick(); Mon::mk($t::$m(self.get(), o.get())) }
        }
    )*}
}
bin!(Add add, Sub sub, Mul mul, Div div, Rem rem);
macro_rules! asg {
    ($($t:ident $m:ident $b:ident $bm:ident),*) => {$(
        impl<F: Copy + $b<Output = F>> $t for Mon<F> {
            #[inline]
            fn $m(&mut self, o: Mon<F>) { *self = $b::$bm(*self, o); }
        }
    )*}
}
asg!(AddAssign add_assign Add add, SubAssign sub_assign Sub sub, MulAssign mul_assign Mul mul, DivAssign div_assign Div div);
impl<F: Copy + Neg<Output = F>> Neg for Mon<F> {
    type Output = Mon<F>;
    #[inline]
    fn neg(self) -> Mon<F> { tick(); Mon::mk(-self.get()) }
}
impl<F: Copy + Zero> Zero for Mon<F> {
    fn zero() -> Self { Mon::mk(F::zero()) }
    fn is_zero(&self) -> bool { tick(); self.get().is_zero() }
}
impl<F: Copy + One> One for Mon<F> {
    fn one() -> Self { Mon::mk(F::one()) }
}
impl<F: Copy + Num> Num for Mon<F> {
    type FromStrRadixErr = F::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> { F::from_str_radix(s, r).map(Mon::mk) }
}
impl<F: Copy + ToPrimitive> ToPrimitive for Mon<F> {
    fn to_i64(&self) -> Option<i64> { self.get().to_i64() }
    fn to_u64(&self) -> Option<u64> { self.get().to_u64() }
    fn to_f32(&self) -> Option<f32> { self.get().to_f32() }
    fn to_f64(&self) -> Option<f64> { self.get().to_f64() }
}
impl<F: Copy + NumCast> NumCast for Mon<F> {
    fn from<X: ToPrimitive>(n: X) -> Option<Self> { <F as NumCast>::from(n).map(Mon::mk) }
}
impl<F: Copy + Signed> Signed for Mon<F> {
    fn abs(&self) -> Self { tick(); Mon::mk(Signed::abs(&self.get())) }
    fn abs_sub(&self, o: &Self) -> Self { tick(); Mon::mk(Signed::abs_sub(&self.get(), &o.get())) }
    fn signum(&self) -> Self { tick(); Mon::mk(Signed::signum(&self.get())) }
    fn is_positive(&self) -> bool { tick(); Signed::is_positive(&self.get()) }
    fn is_negative(&self) -> bool { tick(); Signed::is_negative(&self.get()) }
}
macro_rules! fl0 { ($($m:ident),*) => {$( fn $m() -> Self { Mon::mk(F::$m()) } )*} }
macro_rules! fl1 { ($($m:ident),*) => {$( #[inline] fn $m(self) -> Self { tick(); Mon::mk(Float::$m(self.get())) } )*} }
macro_rules! fl2 { ($($m:ident),*) => {$( #[inline] fn $m(self, o: Self) -> Self { tick(); Mon::mk(Float::$m(self.get(), o.get())) } )*} }
macro_rules! flb { ($($m:ident),*) => {$( #[inline] fn $m(self) -> bool { tick(); Float::$m(self.get()) } )*} }
impl<F: Float> Float for Mon<F> {
    fl0!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, epsilon, max_value);
    flb!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    fn classify(self) -> FpCategory { tick(); self.get().classify() }
    fl1!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan,
         asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh, to_degrees, to_radians);
    fl2!(powf, log, max, min, abs_sub, hypot, atan2, copysign);
    fn mul_add(self, a: Self, b: Self) -> Self { tick(); Mon::mk(self.get().mul_add(a.get(), b.get())) }
    fn powi(self, n: i32) -> Self { tick(); Mon::mk(self.get().powi(n)) }
    fn sin_cos(self) -> (Self, Self) { tick(); let (a, b) = self.get().sin_cos(); (Mon::mk(a), Mon::mk(b)) }
    fn integer_decode(self) -> (u64, i16, i8) { self.get().integer_decode() }
}
impl<F: Float + ApproxEq<F>> ApproxEq<Mon<F>> for Mon<F> {
    fn approx_epsilon() -> Mon<F> { Mon::mk(F::approx_epsilon()) }
    fn approx_eq(&self, o: &Self) -> bool { tick(); self.get().approx_eq(&o.get()) }
    fn approx_eq_eps(&self, o: &Self, e: &Mon<F>) -> bool { tick(); self.get().approx_eq_eps(&o.get(), &e.get()) }
}

/// Scalars the decompositions are exercised with.
pub trait Sc: Float + Signed + ApproxEq<Self> + fmt::Debug + Copy + Send + Sync + 'static {
    const NAME: &'static str;
    const EPS: f64;
    const MINP: f64;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
    fn good(&self) -> bool;
}
impl Sc for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const MINP: f64 = f64::MIN_POSITIVE;
    fn of(x: f64) -> f64 { x }
    fn f(self) -> f64 { self }
    fn bits(self) -> u64 { if self.is_nan() { 0x7ff8 << 48 } else { self.to_bits() } }
    fn good(&self) -> bool { true }
}
impl Sc for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const MINP: f64 = f32::MIN_POSITIVE as f64;
    fn of(x: f64) -> f32 { x as f32 }
    fn f(self) -> f64 { self as f64 }
    fn bits(self) -> u64 { (self as f64).bits() }
    fn good(&self) -> bool { true }
}
impl Sc for Mon<f64> {
    const NAME: &'static str = "Mon<f64>";
    const EPS: f64 = f64::EPSILON;
    const MINP: f64 = f64::MIN_POSITIVE;
    fn of(x: f64) -> Self { Mon::mk(x) }
    fn f(self) -> f64 { self.get() }
    fn bits(self) -> u64 { self.get().bits() }
    fn good(&self) -> bool { self.init() }
}
impl Sc for Mon<f32> {
    const NAME: &'static str = "Mon<f32>";
    const EPS: f64 = f32::EPSILON as f64;
    const MINP: f64 = f32::MIN_POSITIVE as f64;
    fn of(x: f64) -> Self { Mon::mk(x as f32) }
    fn f(self) -> f64 { self.get() as f64 }
    fn bits(self) -> u64 { (self.get() as f64).bits() }
    fn good(&self) -> bool { self.init() }
}
