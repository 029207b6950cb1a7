//! Workload generators: random, structured, degenerate, graded and textbook matrices.
use crate::fw::{Cx, Tier};
use crate::lin::*;
use crate::rng::Rng;

/// A dimension: mostly small, sometimes beyond any block size an implementation might use.
pub fn dim(cx: &mut Cx, cap: usize) -> usize {
    if cx.big && cx.tier != Tier::Tiny {
        cx.saw("orders of 90 and above");
        let top = if cx.tier == Tier::Thorough { 420 } else { 330 };
        return match cx.rng.below(8) { 0 => cx.rng.us(257, top), 1 | 2 => cx.rng.us(170, 260), _ => cx.rng.us(90, 170) };
    }
    let big = match cx.tier {
        Tier::Tiny => 5,
        Tier::Quick => cap,
        Tier::Thorough => cap * 2,
    };
    let thorough = cx.tier == Tier::Thorough;
    let r = &mut cx.rng;
    // now and then far beyond the usual sizes
    if cap >= 20 && cx.tier != Tier::Tiny && r.chance(1, 1500) {
        return if thorough && r.chance(1, 12) { r.us(141, 270) } else { r.us(41, 140) };
    }
    let d = match r.below(20) {
        0..=9 => r.us(1, 5),
        10..=14 => r.us(3, 9),
        15..=17 => r.us(6, 16),
        18 => r.us(10, 34),
        _ => r.us(1, big.max(2)),
    };
    d.min(big)
}

/// The same workload on large matrices.
#[macro_export]
macro_rules! big { ($f:ident) => {{ fn g(cx: &mut Cx) -> Res { cx.big = true; $f(cx) } g }} }

pub fn shape(cx: &mut Cx, cap: usize) -> (usize, usize) {
    if cx.big && cx.tier != Tier::Tiny {
        // sides alike, or one of them short
        let m = dim(cx, cap);
        let n = match cx.rng.below(6) { 0 | 1 => m, 2 => m + cx.rng.us(1, 40), 3 => cx.rng.us(1, m), _ => cx.rng.us(1, 8) };
        let m = if n <= 8 { m * cx.rng.us(1, 3) } else { m };
        return if cx.rng.chance(1, 2) { (m, n) } else { (n, m) };
    }
    let m = dim(cx, cap);
    let n = match cx.rng.below(6) {
        0 | 1 => m,
        2 => (m + 1 + cx.rng.below(3)).min(cap * 2),
        3 => m.saturating_sub(1 + cx.rng.below(3)).max(1),
        4 => 1,
        _ => dim(cx, cap),
    };
    if cx.tier == Tier::Tiny {
        return (m.min(5), n.min(5));
    }
    if cx.rng.chance(1, 2) { (m, n) } else { (n, m) }
}

pub fn uni(r: &mut Rng, m: usize, n: usize) -> Dm {
    Dm::new(m, n, (0..m * n).map(|_| r.pm1()).collect())
}
pub fn ints(r: &mut Rng, m: usize, n: usize, k: i64) -> Dm {
    Dm::new(m, n, (0..m * n).map(|_| r.range(-k, k) as f64).collect())
}
pub fn sparse_ints(r: &mut Rng, m: usize, n: usize, k: i64, den: usize) -> Dm {
    Dm::new(m, n, (0..m * n).map(|_| if r.chance(1, den) { r.range(-k, k) as f64 } else { 0.0 }).collect())
}
pub fn orth(r: &mut Rng, n: usize) -> Dm {
    let mut q = Dm::id(n);
    for k in 0..n.min(6).max(1) {
        let mut v: Vec<f64> = (0..n).map(|i| if i >= k || n < 7 { r.gauss() } else { r.pm1() }).collect();
        let s = norm2(&v);
        if s == 0.0 {
            continue;
        }
        v.iter_mut().for_each(|x| *x /= s);
        // q := q (I - 2vv')
        for i in 0..n {
            let t: f64 = 2.0 * (0..n).map(|j| q.at(i, j) * v[j]).sum::<f64>();
            for j in 0..n {
                let x = q.at(i, j) - t * v[j];
                q.set(i, j, x);
            }
        }
    }
    q
}
pub fn rot2(r: &mut Rng) -> (f64, f64) {
    let a = r.f01() * 6.3;
    (a.cos(), a.sin())
}
pub fn mm(a: &Dm, b: &Dm) -> Dm {
    mul(a, b)
}
pub fn diag_mn(m: usize, n: usize, s: &[f64]) -> Dm {
    let mut d = Dm::zero(m, n);
    for i in 0..m.min(n) {
        d.set(i, i, s[i]);
    }
    d
}
/// m-by-n with singular values spread geometrically over [1/cond, 1].
pub fn with_cond(r: &mut Rng, m: usize, n: usize, cond: f64) -> Dm {
    let k = m.min(n);
    let mode = r.below(4);
    let s: Vec<f64> = (0..k)
        .map(|i| {
            let t = if k == 1 { 0.0 } else { i as f64 / (k - 1) as f64 };
            match mode {
                0 => cond.powf(-t),
                1 => if i + 1 == k && k > 1 { 1.0 / cond } else { 1.0 },
                2 => if i == 0 { 1.0 } else { 1.0 / cond },
                _ => 1.0 - t * (1.0 - 1.0 / cond),
            }
        })
        .collect();
    mm(&mm(&orth(r, m), &diag_mn(m, n, &s)), &orth(r, n))
}
pub fn signed_perm(r: &mut Rng, n: usize) -> Dm {
    let p = r.perm(n);
    let mut d = Dm::zero(n, n);
    let signed = r.chance(1, 2);
    for i in 0..n {
        let s = if signed { r.sign() } else { 1.0 };
        d.set(i, p[i], s);
    }
    d
}
pub fn cyclic(n: usize) -> Dm {
    let mut d = Dm::zero(n, n);
    for i in 0..n {
        d.set(i, (i + 1) % n, 1.0);
    }
    d
}
pub fn pow2(r: &mut Rng, k: i64) -> f64 {
    2f64.powi(r.range(-k, k) as i32)
}

/// Any rectangular matrix.  `dyn_exp` limits the ratio of magnitudes inside one matrix (powers of two).
pub fn general(r: &mut Rng, m: usize, n: usize, dyn_exp: i64) -> (Dm, &'static str) {
    let k = m.min(n);
    match r.below(24) {
        0 | 1 => (uni(r, m, n), "uniform"),
        2 | 3 => { let b = *r.pick(&[1, 2, 3, 9]); (ints(r, m, n, b), "small-int") }
        4 => { let d = *r.pick(&[2, 3, 5]); (sparse_ints(r, m, n, 4, d), "sparse-int") }
        5 => {
            let mut a = uni(r, m, n);
            for x in a.d.iter_mut() { if r.chance(1, 2) { *x = 0.0 } }
            (a, "sparse-float")
        }
        6 => {
            let rk = r.below(k + 1);
            if rk == 0 { (Dm::zero(m, n), "zero") } else { let x = ints(r, m, rk, 3); let y = ints(r, rk, n, 3); (mm(&x, &y), "int-low-rank") }
        }
        7 => {
            let rk = r.us(1, k);
            let x = uni(r, m, rk); let y = uni(r, rk, n);
            (mm(&x, &y), "float-low-rank")
        }
        8 => {
            let mut a = uni(r, m, n);
            let z = r.below(n);
            for i in 0..m { a.set(i, z, 0.0) }
            if r.chance(1, 2) { let z = r.below(m); for j in 0..n { a.set(z, j, 0.0) } }
            (a, "zero-row-col")
        }
        9 => {
            let mut a = if r.chance(1, 2) { uni(r, m, n) } else { ints(r, m, n, 5) };
            let (p, q) = (r.below(n), r.below(n));
            let f = *r.pick(&[1.0, -1.0, 2.0, 0.5]);
            for i in 0..m { let v = a.at(i, p) * f; a.set(i, q, v) }
            if m > 1 { let (p, q) = (r.below(m), r.below(m)); for j in 0..n { let v = a.at(p, j); a.set(q, j, v) } }
            (a, "duplicated-row-col")
        }
        10 => {
            let mut a = uni(r, m, n);
            let rows = r.chance(1, 2);
            let up = r.chance(1, 2);
            for i in 0..m { for j in 0..n {
                let t = if rows { i as f64 / m as f64 } else { j as f64 / n as f64 };
                let t = if up { t } else { 1.0 - t };
                let v = a.at(i, j) * 2f64.powi((t * dyn_exp as f64) as i32);
                a.set(i, j, v);
            } }
            (a, "graded")
        }
        11 => {
            let mut a = uni(r, m, n);
            for x in a.d.iter_mut() { *x *= pow2(r, dyn_exp / 2) }
            (a, "wild-magnitudes")
        }
        12 => { let c = 10f64.powi(r.range(0, 14) as i32); (with_cond(r, m, n, c), "given-condition") }
        13 => {
            let mut s = vec![0.0; k];
            for x in s.iter_mut() { *x = match r.below(4) { 0 => 0.0, 1 => 1.0, 2 => r.range(-3, 3) as f64, _ => r.pm1() } }
            (diag_mn(m, n, &s), "diagonal")
        }
        14 => {
            let mut a = if r.chance(1, 2) { uni(r, m, n) } else { ints(r, m, n, 2) };
            let up = r.chance(1, 2);
            for i in 0..m { for j in 0..n { if (up && i > j) || (!up && i < j) { a.set(i, j, 0.0) } } }
            (a, "triangular")
        }
        15 => {
            // bidiagonal with exact zeros on the diagonal / superdiagonal: SVD deflation paths
            let mut a = Dm::zero(m, n);
            let pz = r.us(2, 5);
            for i in 0..k {
                let v = if r.chance(1, pz) { 0.0 } else { r.pm1() * 3.0 };
                a.set(i, i, v);
                if i + 1 < n { let v = if r.chance(1, 5) { 0.0 } else { r.pm1() }; a.set(i, i + 1, v) }
            }
            (a, "bidiagonal-with-zeros")
        }
        16 => {
            let v = *r.pick(&[1.0, -2.0, 0.1, 0.0]);
            (Dm::new(m, n, vec![v; m * n]), "constant")
        }
        17 => {
            let mut a = Dm::zero(m, n);
            let (i, j) = (r.below(m), r.below(n));
            let v = r.sign() * 3.5;
            a.set(i, j, v);
            (a, "single-entry")
        }
        18 => {
            let mut a = Dm::zero(m, n);
            for i in 0..m { for j in 0..n { a.set(i, j, 1.0 / (i + j + 1) as f64) } }
            (a, "hilbert")
        }
        19 => {
            let mut a = Dm::zero(m, n);
            for i in 0..m { let x = r.pm1() * 1.5; for j in 0..n { a.set(i, j, x.powi(j.min(12) as i32)) } }
            (a, "vandermonde")
        }
        20 => {
            let p = r.perm(m.max(n));
            let mut a = Dm::zero(m, n);
            for i in 0..m { if p[i] < n { let s = r.sign(); a.set(i, p[i], s) } }
            (a, "partial-permutation")
        }
        21 => {
            let mut a = Dm::zero(m, n);
            for i in 0..m { for j in 0..n { a.set(i, j, (i * n + j + 1) as f64) } }
            (a, "consecutive")
        }
        22 => {
            // ties in magnitude everywhere
            let mut a = Dm::zero(m, n);
            for x in a.d.iter_mut() { *x = r.sign() }
            (a, "plus-minus-one")
        }
        _ => {
            let e = 10f64.powi(-(r.range(1, 15) as i32));
            let rk = r.us(1, k);
            let x = uni(r, m, rk); let y = uni(r, rk, n);
            let mut a = mm(&x, &y);
            for v in a.d.iter_mut() { *v += e * r.pm1() }
            (a, "perturbed-low-rank")
        }
    }
}

/// Symmetric matrices, exactly symmetric in memory.
pub fn symmetric(r: &mut Rng, n: usize, dyn_exp: i64) -> (Dm, &'static str) {
    let sym = |a: &Dm| {
        let mut s = Dm::zero(n, n);
        for i in 0..n { for j in 0..=i { let v = a.at(i, j); s.set(i, j, v); s.set(j, i, v) } }
        s
    };
    match r.below(14) {
        0 | 1 => (sym(&uni(r, n, n)), "sym-uniform"),
        2 | 3 => { let b = *r.pick(&[1, 2, 5]); (sym(&ints(r, n, n, b)), "sym-int") }
        4 => (sym(&sparse_ints(r, n, n, 3, 3)), "sym-sparse"),
        5 => {
            // clustered / repeated spectrum
            let q = orth(r, n);
            let vals = [1.0, 1.0, 2.0, -1.0, 0.0, 1.0 + 1e-9, -1.0 - 1e-13];
            let s: Vec<f64> = (0..n).map(|_| *r.pick(&vals)).collect();
            (sym(&mm(&mm(&q, &diag_mn(n, n, &s)), &q.t())), "sym-clustered")
        }
        6 => {
            let q = orth(r, n);
            let s: Vec<f64> = (0..n).map(|_| r.sign() * 2f64.powi(-(r.below(45) as i32))).collect();
            (sym(&mm(&mm(&q, &diag_mn(n, n, &s)), &q.t())), "sym-graded-spectrum")
        }
        7 => {
            let mut s = Dm::zero(n, n);
            for i in 0..n { let v = r.range(-3, 3) as f64; s.set(i, i, v) }
            (s, "sym-diagonal")
        }
        8 => {
            // tridiagonal, sometimes Wilkinson, sometimes with zero off-diagonals
            let mut s = Dm::zero(n, n);
            let w = r.chance(1, 2);
            for i in 0..n {
                let v = if w { ((n as f64 - 1.0) / 2.0 - i as f64).abs() } else { r.pm1() };
                s.set(i, i, v);
                if i + 1 < n { let v = if w { 1.0 } else if r.chance(1, 4) { 0.0 } else { r.pm1() }; s.set(i, i + 1, v); s.set(i + 1, i, v) }
            }
            (s, "sym-tridiagonal")
        }
        9 => {
            let rk = r.us(1, n);
            let x = if r.chance(1, 2) { ints(r, n, rk, 3) } else { uni(r, n, rk) };
            (sym(&mm(&x, &x.t())), "gram")
        }
        10 => {
            let v = *r.pick(&[0.0, 1.0, -1.0]);
            (Dm::new(n, n, vec![v; n * n]), "sym-constant")
        }
        11 => {
            let mut s = Dm::zero(n, n);
            for i in 0..n { for j in 0..=i {
                let v = r.pm1() * 2f64.powi(-((i + j) as i32 * dyn_exp as i32 / (2 * n as i32)));
                s.set(i, j, v); s.set(j, i, v)
            } }
            (s, "sym-graded")
        }
        12 => {
            // block diagonal: rows whose off-diagonal part is exactly zero
            let mut s = Dm::zero(n, n);
            let mut i = 0;
            while i < n {
                let b = r.us(1, 3).min(n - i);
                for p in 0..b { for q in 0..=p { let v = r.range(-2, 2) as f64; s.set(i + p, i + q, v); s.set(i + q, i + p, v) } }
                i += b;
            }
            (s, "sym-block")
        }
        _ => {
            let mut s = Dm::zero(n, n);
            for i in 0..n { for j in 0..n { s.set(i, j, 1.0 / (i + j + 1) as f64) } }
            (s, "hilbert")
        }
    }
}

/// Square matrices aimed at the nonsymmetric eigenvalue iteration.
pub fn eig_square(r: &mut Rng, n: usize, dyn_exp: i64) -> (Dm, &'static str) {
    match r.below(26) {
        0 | 1 | 2 => { let (a, k) = general(r, n, n, dyn_exp.min(30)); (a, k) }
        3 => (cyclic(n), "cyclic"),
        4 => (signed_perm(r, n), "signed-permutation"),
        5 => {
            // rotation blocks, maybe repeated, maybe similarity transformed
            let mut a = Dm::zero(n, n);
            let (c0, s0) = rot2(r);
            let rep = r.chance(1, 2);
            let mut i = 0;
            while i + 1 < n {
                let (c, s) = if rep { (c0, s0) } else { rot2(r) };
                let f = if rep { 1.0 } else { 1.0 + r.f01() };
                a.set(i, i, c * f); a.set(i, i + 1, s * f); a.set(i + 1, i, -s * f); a.set(i + 1, i + 1, c * f);
                if r.chance(1, 3) && i + 2 < n { let v = r.pm1(); a.set(i, i + 2, v) }
                i += 2;
            }
            if i < n { let v = r.pm1(); a.set(i, i, v) }
            if r.chance(1, 2) { let q = orth(r, n); (mm(&mm(&q, &a), &q.t()), "rotated-complex-blocks") } else { (a, "complex-blocks") }
        }
        6 => {
            // Jordan blocks
            let mut a = Dm::zero(n, n);
            let l = *r.pick(&[0.0, 1.0, -2.0]);
            for i in 0..n { a.set(i, i, l); if i + 1 < n && !r.chance(1, 4) { a.set(i, i + 1, 1.0) } }
            if r.chance(1, 2) { (a, "jordan") } else if r.chance(1, 2) { (a.t(), "jordan-transposed") } else { let q = orth(r, n); (mm(&mm(&q, &a), &q.t()), "rotated-jordan") }
        }
        7 => {
            // companion matrix
            let mut a = Dm::zero(n, n);
            for j in 0..n { let v = match r.below(3) { 0 => 0.0, _ => r.range(-3, 3) as f64 }; a.set(0, j, v) }
            for i in 1..n { a.set(i, i - 1, 1.0) }
            (a, "companion")
        }
        8 => {
            let mut a = uni(r, n, n);
            for i in 0..n { for j in 0..=i { let v = if i == j { 0.0 } else { -a.at(j, i) }; a.set(i, j, v) } }
            (a, "skew-symmetric")
        }
        9 => {
            // symmetric up to one entry
            let (mut a, _) = symmetric(r, n, 20);
            if n > 1 { let i = r.below(n); let j = (i + 1) % n; let v = a.at(i, j); let v = if v != 0.0 && r.chance(1, 2) { v * (1.0 + 2.0 * f64::EPSILON) } else if r.chance(1, 4) && a.maxabs() > 0.0 { v + a.maxabs() * 1e-200 } else { v + 0.5 }; a.set(i, j, v) }
            (a, "almost-symmetric")
        }
        10 => {
            let mut a = uni(r, n, n);
            for i in 0..n { let s: f64 = (0..n).map(|j| a.at(i, j).abs()).sum(); for j in 0..n { let v = a.at(i, j).abs() / s; a.set(i, j, v) } }
            (a, "stochastic")
        }
        11 => {
            // upper Hessenberg with zero subdiagonals
            let mut a = if r.chance(1, 2) { ints(r, n, n, 2) } else { uni(r, n, n) };
            for i in 0..n { for j in 0..n { if i > j + 1 || (i == j + 1 && r.chance(1, 3)) { a.set(i, j, 0.0) } } }
            (a, "hessenberg")
        }
        12 => {
            let mut a = uni(r, n, n);
            for i in 0..n { for j in 0..i { a.set(i, j, 0.0) } let v = *r.pick(&[0.0, 1.0, 1.0, -1.0, 2.0]); a.set(i, i, v) }
            (a, "triangular-repeated")
        }
        13 => {
            // nilpotent
            let mut a = ints(r, n, n, 2);
            for i in 0..n { for j in 0..=i { a.set(i, j, 0.0) } }
            if r.chance(1, 2) { (a.t(), "nilpotent") } else { (a, "nilpotent") }
        }
        14 => {
            // Frank / Grcar
            let mut a = Dm::zero(n, n);
            if r.chance(1, 2) {
                for i in 0..n { for j in 0..n { if j + 1 >= i { a.set(i, j, (n - i.max(j)) as f64) } } }
                (a, "frank")
            } else {
                for i in 0..n { for j in 0..n { if i == j + 1 { a.set(i, j, -1.0) } else if j >= i && j <= i + 3 { a.set(i, j, 1.0) } } }
                (a, "grcar")
            }
        }
        15 => (sparse_ints(r, n, n, 1, 2), "zero-one"),
        16 => {
            // graph adjacency (directed)
            let mut a = Dm::zero(n, n);
            for i in 0..n { for j in 0..n { if r.chance(1, 3) { a.set(i, j, 1.0) } } }
            (a, "digraph")
        }
        17 => {
            // A (x) I + small: repeated complex pairs coupled
            let mut a = Dm::zero(n, n);
            let (c, s) = (r.range(-2, 2) as f64, r.range(1, 3) as f64);
            let mut i = 0;
            while i + 1 < n {
                a.set(i, i, c); a.set(i + 1, i + 1, c); a.set(i, i + 1, s); a.set(i + 1, i, -s);
                if i + 3 < n && r.chance(2, 3) { a.set(i, i + 2, 1.0); a.set(i + 1, i + 3, 1.0) }
                i += 2;
            }
            if i < n { a.set(i, i, c) }
            (a, "coupled-complex-blocks")
        }
        18 => {
            // the matrix known to have hung an early JAMA
            if n >= 5 {
                let b = [0., 0., 0., 0., 0., 0., 0., 0., 0., 1., 0., 0., 0., 1., 0., 1., 1., 0., 0., 1., 1., 0., 1., 0., 1.];
                let mut a = Dm::zero(n, n);
                for i in 0..5 { for j in 0..5 { a.set(i, j, b[i * 5 + j]) } }
                for i in 5..n { let v = r.pm1(); a.set(i, i, v) }
                (a, "jama-badeigs")
            } else { (ints(r, n, n, 1), "small-int") }
        }
        19 => {
            // mixed block diagonal of real, complex and defective blocks with upper coupling
            let mut a = Dm::zero(n, n);
            let mut i = 0;
            while i < n {
                match r.below(3) {
                    0 if i + 1 < n => { let x = r.range(-2, 2) as f64; let y = r.range(1, 2) as f64; a.set(i, i, x); a.set(i + 1, i + 1, x); a.set(i, i + 1, y); a.set(i + 1, i, -y * *r.pick(&[1.0, 4.0])); i += 2 }
                    1 if i + 1 < n => { let x = r.range(-2, 2) as f64; a.set(i, i, x); a.set(i + 1, i + 1, x); a.set(i, i + 1, 1.0); i += 2 }
                    _ => { let x = r.range(-2, 2) as f64; a.set(i, i, x); i += 1 }
                }
            }
            for p in 0..n { for q in p + 2..n { if r.chance(1, 3) { let v = r.pm1(); a.set(p, q, v) } } }
            (a, "mixed-blocks")
        }
        20 => {
            // badly balanced: D A D^-1
            let mut a = uni(r, n, n);
            let d: Vec<f64> = (0..n).map(|_| pow2(r, dyn_exp.min(16) / 2)).collect();
            for i in 0..n { for j in 0..n { let v = a.at(i, j) * d[i] / d[j]; a.set(i, j, v) } }
            (a, "unbalanced")
        }
        21 => { let mut a = uni(r, n, n); for i in 0..n { let v = a.at(i, i) + 10.0 * (i + 1) as f64; a.set(i, i, v) } (a, "diagonally-dominant") }
        22 => {
            // rank one plus shift
            let x = ints(r, n, 1, 2); let y = ints(r, 1, n, 2);
            let mut a = mm(&x, &y);
            let s = r.range(-1, 1) as f64;
            for i in 0..n { let v = a.at(i, i) + s; a.set(i, i, v) }
            (a, "rank-one-plus-shift")
        }
        24 | 25 => {
            // symmetric but for one element, by a lot or by the last bit
            let (mut a, _) = symmetric(r, n, 4);
            if n > 1 {
                let (i, j) = (r.below(n), r.below(n));
                let v = a.at(i, j);
                let d = 2f64.powi(-(r.range(0, 52) as i32));
                let w = if r.chance(1, 4) { 0.0 } else if v != 0.0 { v * (1.0 + d) } else { d };
                a.set(i, j, w);
            }
            (a, "nearly-symmetric")
        }
        _ => (orth(r, n), "orthogonal"),
    }
}

/// Symmetric positive definite with condition number about `cond`.
pub fn spd(r: &mut Rng, n: usize, cond: f64) -> (Dm, &'static str) {
    match r.below(5) {
        0 => {
            let q = orth(r, n);
            let s: Vec<f64> = (0..n).map(|i| if n == 1 { 1.0 } else { cond.powf(-(i as f64) / (n - 1) as f64) }).collect();
            let a = mm(&mm(&q, &diag_mn(n, n, &s)), &q.t());
            let mut b = a.clone();
            for i in 0..n { for j in 0..i { let v = a.at(i, j); b.set(j, i, v) } }
            (b, "spd-spectrum")
        }
        1 => {
            // exact: integer lower factor, power-of-two diagonal
            let mut l = Dm::zero(n, n);
            // (in blocks: the condition grows exponentially with the order)
            for i in 0..n { for j in i / 30 * 30..i { let v = r.range(-3, 3) as f64; l.set(i, j, v) } let v = *r.pick(&[1.0, 2.0, 4.0]); l.set(i, i, v) }
            (mm(&l, &l.t()), "spd-integer")
        }
        2 => {
            let mut a = uni(r, n, n);
            for i in 0..n { for j in 0..i { let v = a.at(i, j); a.set(j, i, v) } a.set(i, i, n as f64 + 1.0) }
            (a, "spd-dominant")
        }
        3 => {
            // scaled rows/columns
            let mut a = uni(r, n, n);
            for i in 0..n { for j in 0..i { let v = a.at(i, j); a.set(j, i, v) } a.set(i, i, n as f64 + 1.0) }
            let d: Vec<f64> = (0..n).map(|_| pow2(r, 8)).collect();
            for i in 0..n { for j in 0..n { let v = a.at(i, j) * d[i] * d[j]; a.set(i, j, v) } }
            (a, "spd-scaled")
        }
        _ => {
            let mut a = Dm::zero(n, n);
            for i in 0..n { a.set(i, i, 2.0); if i + 1 < n { a.set(i, i + 1, -1.0); a.set(i + 1, i, -1.0) } }
            (a, "laplacian")
        }
    }
}

/// A uniform power-of-two factor: mostly none.
pub fn expo(r: &mut Rng, big: i64) -> i32 {
    match r.below(8) {
        0..=4 => 0,
        5 => r.range(-12, 12) as i32,
        6 => r.range(-big / 3, big / 3) as i32,
        _ => r.range(-big, big) as i32,
    }
}

/// Shapes for structural work: every small shape by turns, then random, long, power-of-two-edged and big ones.
pub fn sshape(cx: &mut Cx) -> (usize, usize) {
    if cx.tier == Tier::Tiny {
        return (cx.rng.us(1, 5), cx.rng.us(1, 5));
    }
    let (idx, r) = (cx.idx as usize, &mut cx.rng);
    let edge = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257];
    let (a, b) = match r.below(40) {
        0..=15 => ((idx / 12) % 12 + 1, idx % 12 + 1),
        16..=29 => (r.us(1, 24), r.us(1, 24)),
        30..=32 => if r.chance(1, 20) { (if r.chance(1, 2) { 1 } else { r.us(1, 8) }, r.us(300, 9000)) } else { (1, r.us(1, 300)) },
        33..=36 => (*r.pick(&edge), r.us(1, 9)),
        37..=38 => (r.us(20, 70), r.us(20, 70)),
        _ => if r.chance(1, 12) { (*r.pick(&edge[6..]), *r.pick(&edge[6..])) } else { (r.us(2, 20), *r.pick(&edge)) },
    };
    if r.chance(1, 2) { (a, b) } else { (b, a) }
}
