//! Reference arithmetic: plain row-major f64 matrices, double-double accumulation, exact rationals.
use crate::mon::Sc;
use la::Matrix;
use num::rational::BigRational;
use num::{BigInt, One, Zero};

#[derive(Clone, Debug, PartialEq)]
pub struct Dm {
    pub r: usize,
    pub c: usize,
    pub d: Vec<f64>,
}

impl Dm {
    pub fn new(r: usize, c: usize, d: Vec<f64>) -> Dm {
        assert_eq!(r * c, d.len());
        Dm { r, c, d }
    }
    pub fn zero(r: usize, c: usize) -> Dm {
        Dm { r, c, d: vec![0.0; r * c] }
    }
    pub fn id(n: usize) -> Dm {
        let mut m = Dm::zero(n, n);
        for i in 0..n {
            m.d[i * n + i] = 1.0;
        }
        m
    }
    #[inline]
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.d[i * self.c + j]
    }
    #[inline]
    pub fn set(&mut self, i: usize, j: usize, v: f64) {
        self.d[i * self.c + j] = v
    }
    pub fn t(&self) -> Dm {
        let mut m = Dm::zero(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                m.d[j * self.r + i] = self.at(i, j);
            }
        }
        m
    }
    pub fn abs(&self) -> Dm {
        Dm { r: self.r, c: self.c, d: self.d.iter().map(|x| x.abs()).collect() }
    }
    pub fn maxabs(&self) -> f64 {
        self.d.iter().fold(0.0, |a, x| if x.is_nan() { f64::NAN } else { x.abs().max(a) })
    }
    pub fn finite(&self) -> bool {
        self.d.iter().all(|x| x.is_finite())
    }
    /// Frobenius norm, safe against overflow.
    pub fn fro(&self) -> f64 {
        norm2(&self.d)
    }
    pub fn col(&self, j: usize) -> Vec<f64> {
        (0..self.r).map(|i| self.at(i, j)).collect()
    }
    pub fn scale_pow2(&self, k: i32) -> Dm {
        let f = 2f64.powi(k);
        Dm { r: self.r, c: self.c, d: self.d.iter().map(|x| x * f).collect() }
    }
    pub fn mat<T: Sc>(&self) -> Matrix<T> {
        Matrix::new(self.r, self.c, self.d.iter().map(|&x| T::of(x)).collect())
    }
    /// Rounded to what the scalar type can hold.
    pub fn rounded<T: Sc>(&self) -> Dm {
        Dm { r: self.r, c: self.c, d: self.d.iter().map(|&x| T::of(x).f()).collect() }
    }
    pub fn show(&self) -> String {
        let mut s = format!("{}x{} [", self.r, self.c);
        for i in 0..self.r {
            if i > 0 {
                s.push_str("; ");
            }
            for j in 0..self.c {
                if j > 0 {
                    s.push_str(", ");
                }
                s.push_str(&format!("{:?}", self.at(i, j)));
            }
            if s.len() > 1500 {
                s.push_str(" ...");
                break;
            }
        }
        s.push(']');
        s
    }
}

/// Read a library matrix through its public accessors, checking that the storage matches the shape.
pub fn dm<T: Sc>(m: &Matrix<T>) -> Result<Dm, String> {
    let (r, c) = (m.rows(), m.cols());
    let d = m.get_data();
    if d.len() != r * c {
        return Err(format!("result claims {}x{} but stores {} elements", r, c, d.len()));
    }
    for (k, x) in d.iter().enumerate() {
        if !x.good() {
            return Err(format!("result element ({},{}) of a {}x{} matrix was never written (uninitialised memory)", k / c, k % c, r, c));
        }
    }
    Ok(Dm { r, c, d: d.iter().map(|x| x.f()).collect() })
}

pub fn dv<T: Sc>(d: &Vec<T>) -> Result<Vec<f64>, String> {
    for (k, x) in d.iter().enumerate() {
        if !x.good() {
            return Err(format!("result entry {} was never written (uninitialised memory)", k));
        }
    }
    Ok(d.iter().map(|x| x.f()).collect())
}

pub fn norm2(v: &[f64]) -> f64 {
    let mx = v.iter().fold(0.0f64, |a, x| if x.is_nan() { f64::NAN } else { a.max(x.abs()) });
    if v.iter().any(|x| x.is_nan()) {
        return f64::NAN;
    }
    if mx == 0.0 || mx.is_infinite() {
        return mx;
    }
    // scale by a power of two: exact
    let e = -(mx.log2().floor() as i32);
    let (e1, e2) = (e / 2, e - e / 2);
    let (f1, f2) = (2f64.powi(e1), 2f64.powi(e2));
    let s: f64 = v.iter().map(|x| { let y = x * f1 * f2; y * y }).sum();
    s.sqrt() / f1 / f2
}

#[inline]
pub fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
pub fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, a.mul_add(b, -p))
}

#[derive(Clone, Copy, Debug)]
pub struct Dd(pub f64, pub f64);
impl Dd {
    pub fn of(x: f64) -> Dd { Dd(x, 0.0) }
    pub fn add(self, o: Dd) -> Dd {
        let (s, e) = two_sum(self.0, o.0);
        let (t, f) = two_sum(self.1, o.1);
        let (s, e) = quick(s, e + t);
        let (s, e) = quick(s, e + f);
        Dd(s, e)
    }
    pub fn neg(self) -> Dd { Dd(-self.0, -self.1) }
    pub fn sub(self, o: Dd) -> Dd { self.add(o.neg()) }
    pub fn mul(self, o: Dd) -> Dd {
        let (p, e) = two_prod(self.0, o.0);
        let e = e + (self.0 * o.1 + self.1 * o.0);
        let (p, e) = quick(p, e);
        Dd(p, e)
    }
    pub fn div(self, o: Dd) -> Dd {
        let q1 = self.0 / o.0;
        let r = self.sub(o.mul(Dd::of(q1)));
        let q2 = r.0 / o.0;
        let r = r.sub(o.mul(Dd::of(q2)));
        let q3 = r.0 / o.0;
        let (a, b) = quick(q1, q2);
        Dd(a, b).add(Dd::of(q3))
    }
    pub fn sqrt(self) -> Dd {
        if self.0 <= 0.0 { return Dd(0.0, 0.0); }
        let x = 1.0 / self.0.sqrt();
        let ax = self.0 * x;
        let e = self.sub(Dd::of(ax).mul(Dd::of(ax))).0 * (x * 0.5);
        let (a, b) = quick(ax, e);
        Dd(a, b)
    }
    pub fn v(self) -> f64 { self.0 + self.1 }
}
#[inline]
fn quick(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}

pub fn dot(a: impl Iterator<Item = (f64, f64)>) -> f64 {
    let mut hi = 0.0;
    let mut lo = 0.0;
    for (x, y) in a {
        let (p, e) = two_prod(x, y);
        let (s, f) = two_sum(hi, p);
        hi = s;
        lo += e + f;
    }
    hi + lo
}

/// a*b, each entry accumulated in double-double.
pub fn mul(a: &Dm, b: &Dm) -> Dm {
    assert_eq!(a.c, b.r);
    let mut m = Dm::zero(a.r, b.c);
    for i in 0..a.r {
        for j in 0..b.c {
            m.d[i * b.c + j] = dot((0..a.c).map(|k| (a.at(i, k), b.at(k, j))));
        }
    }
    m
}
/// a*b - c, each entry accumulated in double-double.
pub fn mul_sub(a: &Dm, b: &Dm, c: &Dm) -> Dm {
    assert_eq!(a.c, b.r);
    assert!(c.r == a.r && c.c == b.c);
    let mut m = Dm::zero(a.r, b.c);
    for i in 0..a.r {
        for j in 0..b.c {
            m.d[i * b.c + j] = dot((0..a.c).map(|k| (a.at(i, k), b.at(k, j))).chain(std::iter::once((-1.0, c.at(i, j)))));
        }
    }
    m
}

/// Largest |(q' q - I)| entry.
pub fn orth_err(q: &Dm) -> f64 {
    let mut e = 0.0f64;
    for i in 0..q.c {
        for j in i..q.c {
            let v = dot((0..q.r).map(|k| (q.at(k, i), q.at(k, j))).chain(std::iter::once((-1.0, if i == j { 1.0 } else { 0.0 }))));
            if v.is_nan() {
                return f64::INFINITY;
            }
            e = e.max(v.abs());
        }
    }
    e
}

/// Double-double Gaussian elimination with partial pivoting: (determinant, inverse) of a square matrix.
pub fn dd_det_inv(a: &Dm) -> (f64, Option<Dm>) {
    let n = a.r;
    let mut w: Vec<Vec<Dd>> = (0..n)
        .map(|i| (0..n).map(|j| Dd::of(a.at(i, j))).chain((0..n).map(|j| Dd::of(if i == j { 1.0 } else { 0.0 }))).collect())
        .collect();
    let mut det = Dd::of(1.0);
    // running magnitude of everything that went into an entry: a pivot far below it is only noise
    let mut acc: Vec<Vec<f64>> = w.iter().map(|r| r.iter().map(|x| x.0.abs()).collect()).collect();
    for k in 0..n {
        let p = (k..n).max_by(|&x, &y| w[x][k].0.abs().partial_cmp(&w[y][k].0.abs()).unwrap()).unwrap();
        if w[p][k].0.abs() <= 1e-24 * acc[p][k] {
            return (0.0, None);
        }
        if p != k {
            w.swap(p, k);
            acc.swap(p, k);
            det = det.neg();
        }
        det = det.mul(w[k][k]);
        for i in 0..n {
            if i != k && w[i][k].0 != 0.0 {
                let f = w[i][k].div(w[k][k]);
                for j in k..2 * n {
                    let t = f.mul(w[k][j]);
                    acc[i][j] += f.0.abs() * acc[k][j];
                    w[i][j] = w[i][j].sub(t);
                }
            }
        }
    }
    let mut inv = Dm::zero(n, n);
    for i in 0..n {
        for j in 0..n {
            inv.set(i, j, w[i][n + j].div(w[i][i]).v());
        }
    }
    (det.v(), Some(inv))
}

/// Exact determinant of an integer-valued matrix (fraction-free elimination over big integers).
pub fn exact_det(a: &Dm) -> BigInt {
    let n = a.r;
    let mut w: Vec<Vec<BigInt>> = (0..n).map(|i| (0..n).map(|j| BigInt::from(a.at(i, j) as i64)).collect()).collect();
    let mut prev = BigInt::one();
    let mut neg = false;
    for k in 0..n {
        let Some(p) = (k..n).find(|&i| !w[i][k].is_zero()) else { return BigInt::zero() };
        if p != k {
            w.swap(p, k);
            neg = !neg;
        }
        for i in k + 1..n {
            for j in k + 1..n {
                let t = &w[i][j] * &w[k][k] - &w[i][k] * &w[k][j];
                w[i][j] = t / &prev;
            }
        }
        prev = w[k][k].clone();
    }
    if neg { -prev } else { prev }
}

pub fn big_to_f64(x: &BigInt) -> f64 {
    x.to_string().parse().unwrap()
}

/// Exact rank of an integer-valued matrix.
pub fn exact_rank(a: &Dm) -> usize {
    let mut w: Vec<Vec<BigRational>> =
        (0..a.r).map(|i| (0..a.c).map(|j| BigRational::from_integer(BigInt::from(a.at(i, j) as i64))).collect()).collect();
    let mut rank = 0;
    for j in 0..a.c {
        let Some(p) = (rank..a.r).find(|&i| !w[i][j].is_zero()) else { continue };
        w.swap(p, rank);
        for i in rank + 1..a.r {
            if !w[i][j].is_zero() {
                let f = &w[i][j] / &w[rank][j];
                for k in j..a.c {
                    let t = &f * &w[rank][k];
                    w[i][k] = &w[i][k] - t;
                }
            }
        }
        rank += 1;
        if rank == a.r {
            break;
        }
    }
    rank
}

pub fn fact_perm_sign(p: &[usize]) -> f64 {
    let mut seen = vec![false; p.len()];
    let mut s = 1.0;
    for i in 0..p.len() {
        if !seen[i] {
            let mut l = 0;
            let mut j = i;
            while !seen[j] {
                seen[j] = true;
                j = p[j];
                l += 1;
            }
            if l % 2 == 0 {
                s = -s;
            }
        }
    }
    s
}

/// Singular values by one-sided Jacobi: an independent reference.
pub fn jacobi_sv(a: &Dm) -> Vec<f64> {
    let mut u = if a.r >= a.c { a.clone() } else { a.t() };
    let (m, n) = (u.r, u.c);
    for _sweep in 0..60 {
        let mut off = 0.0f64;
        for p in 0..n {
            for q in p + 1..n {
                let (mut al, mut be, mut ga) = (0.0, 0.0, 0.0);
                for i in 0..m {
                    al += u.at(i, p) * u.at(i, p);
                    be += u.at(i, q) * u.at(i, q);
                    ga += u.at(i, p) * u.at(i, q);
                }
                if ga == 0.0 || al == 0.0 || be == 0.0 {
                    continue;
                }
                let o = ga.abs() / (al * be).sqrt();
                off = off.max(o);
                if o < 1e-16 {
                    continue;
                }
                let ze = (be - al) / (2.0 * ga);
                let t = ze.signum() / (ze.abs() + (1.0 + ze * ze).sqrt());
                let t = if ze == 0.0 { 1.0 } else { t };
                let c = 1.0 / (1.0 + t * t).sqrt();
                let s = c * t;
                for i in 0..m {
                    let x = u.at(i, p);
                    let y = u.at(i, q);
                    u.set(i, p, c * x - s * y);
                    u.set(i, q, s * x + c * y);
                }
            }
        }
        if off < 1e-15 {
            break;
        }
    }
    let mut s: Vec<f64> = (0..n).map(|j| norm2(&u.col(j))).collect();
    s.sort_by(|a, b| b.partial_cmp(a).unwrap());
    s
}
