//! Exact element types and the reference model of a matrix.
use crate::fw::*;
use crate::gen::sshape;
use crate::mon::Mon;
use la::Matrix;
use num::traits::{Num, One, Zero};
use std::ops::*;

pub const P: u64 = 2147483647;

/// Integers modulo the prime 2^31 - 1: every ring identity holds exactly, nothing rounds.
#[derive(Copy, Clone, PartialEq, Debug)]
pub struct Fp(pub u32);
impl Fp {
    pub fn of(x: u64) -> Fp { Fp((x % P) as u32) }
    pub fn inv(self) -> Fp {
        let (mut b, mut e, mut r) = (self.0 as u64, P - 2, 1u64);
        while e > 0 {
            if e & 1 == 1 { r = r * b % P }
            b = b * b % P;
            e >>= 1;
        }
        Fp(r as u32)
    }
}
impl Add for Fp { type Output = Fp; fn add(self, o: Fp) -> Fp { Fp::of(self.0 as u64 + o.0 as u64) } }
impl Sub for Fp { type Output = Fp; fn sub(self, o: Fp) -> Fp { Fp::of(self.0 as u64 + P - o.0 as u64) } }
impl Mul for Fp { type Output = Fp; fn mul(self, o: Fp) -> Fp { Fp::of(self.0 as u64 * o.0 as u64) } }
impl Div for Fp { type Output = Fp; fn div(self, o: Fp) -> Fp { self * o.inv() } }
impl Rem for Fp { type Output = Fp; fn rem(self, _: Fp) -> Fp { Fp(0) } }
impl Neg for Fp { type Output = Fp; fn neg(self) -> Fp { Fp(0) - self } }
impl Zero for Fp { fn zero() -> Fp { Fp(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for Fp { fn one() -> Fp { Fp(1) } }
impl Num for Fp {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Fp, ()> { Err(()) }
}

/// Quaternions modulo p: multiplication does not commute, so operand order shows.
#[derive(Copy, Clone, PartialEq, Debug)]
pub struct Qn(pub [Fp; 4]);
impl Add for Qn { type Output = Qn; fn add(self, o: Qn) -> Qn { let mut r = self; for i in 0..4 { r.0[i] = r.0[i] + o.0[i] } r } }
impl Mul for Qn {
    type Output = Qn;
    fn mul(self, q: Qn) -> Qn {
        let [a, b, c, d] = self.0;
        let [e, f, g, h] = q.0;
        Qn([a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e])
    }
}
impl Neg for Qn { type Output = Qn; fn neg(self) -> Qn { let mut r = self; for i in 0..4 { r.0[i] = -r.0[i] } r } }
impl Sub for Qn { type Output = Qn; fn sub(self, o: Qn) -> Qn { self + (-o) } }
impl Div for Qn {
    type Output = Qn;
    fn div(self, o: Qn) -> Qn {
        let [a, b, c, d] = o.0;
        let n = (a * a + b * b + c * c + d * d).inv();
        self * Qn([a * n, -b * n, -c * n, -d * n])
    }
}
impl Rem for Qn { type Output = Qn; fn rem(self, _: Qn) -> Qn { Qn::zero() } }
impl One for Qn { fn one() -> Qn { Qn([Fp(1), Fp(0), Fp(0), Fp(0)]) } }
impl Num for Qn {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Qn, ()> { Err(()) }
}
impl Zero for Qn { fn zero() -> Qn { Qn([Fp(0); 4]) } fn is_zero(&self) -> bool { *self == Qn::zero() } }

/// Terms: every operation only records what was done to what, in which order. No law of arithmetic holds,
/// so an element shows exactly which operations made it.
#[derive(Copy, Clone, PartialEq, Debug)]
pub struct Tm(pub u64);
fn term(op: u64, a: Tm, b: Tm) -> Tm { Tm(crate::rng::mix(crate::rng::mix(op ^ a.0) ^ b.0.rotate_left(17))) }
impl Add for Tm { type Output = Tm; fn add(self, o: Tm) -> Tm { term(1, self, o) } }
impl Sub for Tm { type Output = Tm; fn sub(self, o: Tm) -> Tm { term(2, self, o) } }
impl Mul for Tm { type Output = Tm; fn mul(self, o: Tm) -> Tm { term(3, self, o) } }
impl Div for Tm { type Output = Tm; fn div(self, o: Tm) -> Tm { term(4, self, o) } }
impl Rem for Tm { type Output = Tm; fn rem(self, o: Tm) -> Tm { term(5, self, o) } }
impl Neg for Tm { type Output = Tm; fn neg(self) -> Tm { term(6, self, self) } }
impl Zero for Tm { fn zero() -> Tm { Tm(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for Tm { fn one() -> Tm { Tm(1) } }
impl Num for Tm {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Tm, ()> { Err(()) }
}

/// Opaque elements of different sizes; `tok` is injective.
pub trait Tok: Copy + PartialEq + std::fmt::Debug + Send + 'static {
    fn tok(x: u64) -> Self;
}
impl Tok for u64 { fn tok(x: u64) -> u64 { x } }
impl Tok for (u8, u64, u16) { fn tok(x: u64) -> Self { (x as u8, x, (x >> 9) as u16) } }
impl Tok for u32 { fn tok(x: u64) -> u32 { x as u32 } }
impl Tok for Fp { fn tok(x: u64) -> Fp { Fp::of(x) } }

/// Reference matrix.
#[derive(Clone, PartialEq, Debug)]
pub struct Mx<E> {
    pub r: usize,
    pub c: usize,
    pub d: Vec<E>,
}
impl<E: Copy + PartialEq + std::fmt::Debug> Mx<E> {
    pub fn from(r: usize, c: usize, f: impl Fn(usize, usize) -> E) -> Mx<E> {
        let mut d = Vec::with_capacity(r * c);
        for i in 0..r {
            for j in 0..c {
                d.push(f(i, j));
            }
        }
        Mx { r, c, d }
    }
    #[inline]
    pub fn at(&self, i: usize, j: usize) -> E { self.d[i * self.c + j] }
    pub fn put(&mut self, i: usize, j: usize, e: E) { self.d[i * self.c + j] = e }
    pub fn t(&self) -> Mx<E> { Mx::from(self.c, self.r, |i, j| self.at(j, i)) }
    pub fn rows(&self, v: &[usize]) -> Mx<E> { Mx::from(v.len(), self.c, |i, j| self.at(v[i], j)) }
    pub fn cols(&self, v: &[usize]) -> Mx<E> { Mx::from(self.r, v.len(), |i, j| self.at(i, v[j])) }
    pub fn cr(&self, o: &Mx<E>) -> Mx<E> { Mx::from(self.r, self.c + o.c, |i, j| if j < self.c { self.at(i, j) } else { o.at(i, j - self.c) }) }
    pub fn cb(&self, o: &Mx<E>) -> Mx<E> { Mx::from(self.r + o.r, self.c, |i, j| if i < self.r { self.at(i, j) } else { o.at(i - self.r, j) }) }
    pub fn sub(&self, a: usize, b: usize, c: usize, d: usize) -> Mx<E> { Mx::from(c - a, d - b, |i, j| self.at(a + i, b + j)) }
    pub fn minor(&self, r: usize, c: usize) -> Mx<E> { Mx::from(self.r - 1, self.c - 1, |i, j| self.at(i + (i >= r) as usize, j + (j >= c) as usize)) }
    pub fn zip(&self, o: &Mx<E>, f: impl Fn(E, E) -> E) -> Mx<E> { Mx { r: self.r, c: self.c, d: self.d.iter().zip(&o.d).map(|(a, b)| f(*a, *b)).collect() } }
    pub fn map<S>(&self, f: impl Fn(E) -> S) -> Mx<S> { Mx { r: self.r, c: self.c, d: self.d.iter().map(|a| f(*a)).collect() } }
    /// The real thing, over monitored elements.
    pub fn real(&self) -> Matrix<Mon<E>> { Matrix::new(self.r, self.c, self.d.iter().map(|e| Mon::mk(*e)).collect()) }
    pub fn show(&self) -> String {
        let s = format!("{}x{} {:?}", self.r, self.c, self.d);
        if s.len() > 400 { format!("{}...", s.chars().take(400).collect::<String>()) } else { s }
    }
}
impl<E: Copy + PartialEq + std::fmt::Debug + Add<Output = E> + Mul<Output = E> + Zero> Mx<E> {
    pub fn prod(&self, o: &Mx<E>) -> Mx<E> {
        Mx::from(self.r, o.c, |i, j| (0..self.c).fold(E::zero(), |s, k| s + self.at(i, k) * o.at(k, j)))
    }
}

/// What the library reports about a matrix: shape, storage, every element initialised.
pub fn look<E: Copy + PartialEq + std::fmt::Debug>(what: &str, m: &Matrix<Mon<E>>) -> Result<Mx<E>, String> {
    let (r, c) = must(what, || (m.rows(), m.cols())).map_err(|e| format!("asking for the shape: {}", e))?;
    let d = m.get_data();
    if d.len() != r * c {
        return Err(format!("{}: says {}x{} but stores {} elements", what, r, c, d.len()));
    }
    if let Some(i) = d.iter().position(|x| !x.init()) {
        return Err(format!("{}: element ({},{}) was never written", what, i / c, i % c));
    }
    Ok(Mx { r, c, d: d.iter().map(|x| x.get()).collect() })
}
pub fn same<E: Copy + PartialEq + std::fmt::Debug>(what: &str, m: &Matrix<Mon<E>>, want: &Mx<E>) -> Res {
    let g = look(what, m)?;
    if (g.r, g.c) != (want.r, want.c) {
        return Err(format!("{}: result is {}x{}, should be {}x{}", what, g.r, g.c, want.r, want.c));
    }
    if let Some(i) = (0..g.d.len()).find(|&i| g.d[i] != want.d[i]) {
        return Err(format!("{}: element ({},{}) of {}x{} is {:?}, should be {:?}", what, i / g.c, i % g.c, g.r, g.c, g.d[i], want.d[i]));
    }
    Ok(())
}
/// Element by element through the accessor, not the storage.
pub fn same_by_get<E: Copy + PartialEq + std::fmt::Debug>(what: &str, m: &Matrix<Mon<E>>, want: &Mx<E>) -> Res {
    for i in 0..want.r {
        for j in 0..want.c {
            let g = must(what, || m.get(i, j))?;
            if !g.init() || g.get() != want.at(i, j) {
                return Err(format!("{}: get({},{}) of {}x{} differs from the model", what, i, j, want.r, want.c));
            }
        }
    }
    Ok(())
}

pub fn toks<E: Tok>(cx: &mut Cx, r: usize, c: usize) -> Mx<E> {
    let base = cx.rng.u() % 1_000_000_007;
    let mut k = 0;
    let mut d = Vec::with_capacity(r * c);
    for _ in 0..r * c {
        k += 1;
        d.push(E::tok(base + k));
    }
    Mx { r, c, d }
}
pub fn fps(cx: &mut Cx, r: usize, c: usize) -> Mx<Fp> {
    let style = cx.rng.below(4);
    let d = (0..r * c)
        .map(|_| match style {
            0 => Fp::of(cx.rng.u()),
            1 => Fp::of(P + cx.rng.below(7) as u64 - 3),
            2 => if cx.rng.chance(2, 3) { Fp(0) } else { Fp::of(cx.rng.u()) },
            _ => Fp(1 + cx.rng.below(P as usize - 1) as u32),
        })
        .collect();
    Mx { r, c, d }
}
pub fn tshape(cx: &mut Cx) -> (usize, usize) {
    let s = sshape(cx);
    cx.saw(if s.0 == 1 && s.1 == 1 { "1x1" } else if s.0 == 1 { "single row" } else if s.1 == 1 { "single column" } else if s.0 == s.1 { "square" } else if s.0 > s.1 { "tall" } else { "wide" });
    s
}
