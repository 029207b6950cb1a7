//! LU, solve / inverse / determinant, QR, least squares, Cholesky.
use crate::big;
use crate::fw::*;
use crate::gen::*;
use crate::lin::*;
use crate::mon::{Mon, Sc};
use la::{CholeskyDecomposition, LUDecomposition, Matrix, QRDecomposition};
use num::rational::BigRational;
use num::{BigInt, Signed, ToPrimitive, Zero};

pub fn budget(n: usize) -> u64 {
    let n = n as u64 + 2;
    (1_000_000 + 4000 * n * n * n).min(3_000_000_000).max(100 * n * n * n)
}

/// Everything a run produced, as bit patterns, for comparing two runs.
pub fn bits(parts: &[&Dm]) -> Vec<u64> {
    parts.iter().flat_map(|m| [m.r as u64, m.c as u64].into_iter().chain(m.d.iter().map(|x| x.bits()))).collect()
}

/// Run the same job on the monitored scalar (step budget, initialisation tags) and on the plain
/// scalar; both must agree bit for bit.  Returns the plain result.
pub fn twin<R>(
    cx: &mut Cx,
    n: usize,
    what: &str,
    f32s: bool,
    mon64: impl Fn() -> Result<R, String>,
    mon32: impl Fn() -> Result<R, String>,
    nat64: impl Fn() -> Result<R, String>,
    nat32: impl Fn() -> Result<R, String>,
    key: impl Fn(&R) -> Vec<u64>,
) -> Result<R, String> {
    let b = budget(n);
    let (m, steps) = with_budget(b, || if f32s { mon32() } else { mon64() });
    let m = m?;
    cx.add("monitored arithmetic steps", steps);
    let r = if f32s { nat32() } else { nat64() }?;
    if key(&m) != key(&r) {
        return Err(format!("{}: two runs on the same input gave different results", what));
    }
    cx.saw(if f32s { "f32 runs" } else { "f64 runs" });
    Ok(r)
}

#[macro_export]
macro_rules! twin {
    ($cx:expr, $n:expr, $what:expr, $f32s:expr, $f:ident ( $($a:expr),* ), $key:expr) => {
        $crate::props::decomp::twin(
            $cx, $n, $what, $f32s,
            || $f::<Mon<f64>>($($a),*),
            || $f::<Mon<f32>>($($a),*),
            || $f::<f64>($($a),*),
            || $f::<f32>($($a),*),
            $key,
        )
    };
}

pub fn eps_of(f32s: bool) -> (f64, f64) {
    if f32s { (f32::EPSILON as f64, f32::MIN_POSITIVE as f64) } else { (f64::EPSILON, f64::MIN_POSITIVE) }
}
pub fn fit(a: Dm, f32s: bool) -> Dm {
    if f32s { a.rounded::<f32>() } else { a }
}

// ------------------------------------------------------------------ LU

pub struct LuOut {
    pub l: Dm,
    pub u: Dm,
    pub p: Dm,
    pub piv: Vec<usize>,
}
pub fn lu_parts<T: Sc>(a: &Dm) -> Result<LuOut, String> {
    let m = a.mat::<T>();
    let lu = must("LU decomposition", || LUDecomposition::new(&m))?;
    let l = must("LU get_l", || lu.get_l())?;
    let u = must("LU get_u", || lu.get_u())?;
    let p = must("LU get_p", || lu.get_p())?;
    let piv = must("LU get_piv", || lu.get_piv().clone())?;
    Ok(LuOut { l: dm(&l)?, u: dm(&u)?, p: dm(&p)?, piv })
}
fn lu_key(o: &LuOut) -> Vec<u64> {
    let mut k = bits(&[&o.l, &o.u, &o.p]);
    k.extend(o.piv.iter().map(|&x| x as u64));
    k
}

/// |L||U| with rows put back in the order of A.
pub fn lu_bound(o: &LuOut) -> Dm {
    let b = mul(&o.l.abs(), &o.u.abs());
    let mut r = Dm::zero(b.r, b.c);
    for (i, &p) in o.piv.iter().enumerate() {
        for j in 0..b.c {
            r.set(p, j, b.at(i, j));
        }
    }
    r
}

pub fn check_lu(cx: &mut Cx, a: &Dm, o: &LuOut, f32s: bool) -> Res {
    let (eps, minp) = eps_of(f32s);
    let (m, n) = (a.r, a.c);
    let k = m.min(n);
    if (o.l.r, o.l.c) != (m, k) || (o.u.r, o.u.c) != (k, n) || (o.p.r, o.p.c) != (m, m) || o.piv.len() != m {
        return Err(format!("LU of {}x{}: L is {}x{}, U is {}x{}, P is {}x{}, {} pivots", m, n, o.l.r, o.l.c, o.u.r, o.u.c, o.p.r, o.p.c, o.piv.len()));
    }
    let mut seen = vec![false; m];
    for &p in &o.piv {
        if p >= m || seen[p] {
            return Err(format!("pivot vector {:?} is not a permutation", o.piv));
        }
        seen[p] = true;
    }
    for i in 0..m {
        for j in 0..m {
            let want = if o.piv[i] == j { 1.0 } else { 0.0 };
            if o.p.at(i, j) != want {
                return Err(format!("P is not the permutation matrix of {:?} at ({},{})", o.piv, i, j));
            }
        }
        for j in 0..k {
            let v = o.l.at(i, j);
            if (i == j && v != 1.0) || (i < j && v != 0.0) {
                return Err(format!("L is not unit lower triangular at ({},{}): {:?}", i, j, v));
            }
            if !(v.abs() <= 1.0) {
                return Err(format!("multiplier L({},{}) = {:?} exceeds 1 in magnitude: rows were not pivoted on the largest entry", i, j, v));
            }
        }
    }
    for i in 0..k {
        for j in 0..i {
            if o.u.at(i, j) != 0.0 {
                return Err(format!("U is not upper triangular at ({},{})", i, j));
            }
        }
    }
    let mut pa = Dm::zero(m, n);
    for i in 0..m {
        for j in 0..n {
            pa.set(i, j, a.at(o.piv[i], j));
        }
    }
    let res = mul_sub(&o.l, &o.u, &pa);
    let bd = mul(&o.l.abs(), &o.u.abs());
    let um = o.u.maxabs();
    for i in 0..m {
        for j in 0..n {
            let b = (k as f64 + 3.0) * eps * (bd.at(i, j) + pa.at(i, j).abs()) + (k as f64 + 2.0) * minp * (1.0 + um);
            cx.bound("|LU - PA| entry", res.at(i, j).abs(), b, || format!("at ({},{})", i, j))?;
        }
    }
    if o.piv.iter().enumerate().any(|(i, &p)| i != p) {
        cx.saw("factorizations with row exchanges");
    }
    if (0..k).any(|i| o.u.at(i, i) == 0.0) {
        cx.saw("factorizations with a zero pivot");
    }
    Ok(())
}

fn c_lu(cx: &mut Cx) -> Res {
    let (m, n) = shape(cx, 48);
    let f32s = cx.rng.chance(1, 4);
    let (a, kind) = general(&mut cx.rng, m, n, if f32s { 16 } else { 60 });
    let e = expo(&mut cx.rng, if f32s { 24 } else { 240 });
    let a = fit(a.scale_pow2(e), f32s);
    cx.hf(&a.d);
    cx.h((m * 1000 + n) as u64);
    cx.nontriv = m > 1 && a.maxabs() > 0.0;
    cx.desc(|| format!("{} scaled 2^{}: {}", kind, e, a.show()));
    cx.saw(if m > n { "tall" } else if m < n { "wide" } else { "square" });
    let o = twin!(cx, m.max(n), "LU", f32s, lu_parts(&a), lu_key)?;
    check_lu(cx, &a, &o, f32s)
}

// ------------------------------------------------------------------ solve / inverse / singularity

pub struct SolveOut {
    pub x1: Option<Dm>,
    pub x2: Option<Dm>,
    pub inv: Option<Dm>,
    pub sing: [bool; 4],
    pub det: f64,
}
fn solve_parts<T: Sc>(a: &Dm, b: &Dm) -> Result<SolveOut, String> {
    let m = a.mat::<T>();
    let bm = b.mat::<T>();
    let lu = must("LU decomposition", || LUDecomposition::new(&m))?;
    let x1 = must("Matrix::solve", || m.solve(&bm))?;
    let x2 = must("LU solve", || lu.solve(&bm))?;
    let inv = must("inverse", || m.inverse())?;
    let sing = [
        must("is_singular", || m.is_singular())?,
        must("is_non_singular", || !m.is_non_singular())?,
        must("LU is_singular", || lu.is_singular())?,
        must("LU is_non_singular", || !lu.is_non_singular())?,
    ];
    let det = must("det", || m.det())?;
    if !det.good() {
        return Err("determinant uses uninitialised memory".into());
    }
    let cv = |x: Option<Matrix<T>>| -> Result<Option<Dm>, String> {
        match x {
            None => Ok(None),
            Some(m) => Ok(Some(dm(&m)?)),
        }
    };
    Ok(SolveOut { x1: cv(x1)?, x2: cv(x2)?, inv: cv(inv)?, sing, det: det.f() })
}
fn solve_key(o: &SolveOut) -> Vec<u64> {
    let mut k = vec![];
    for x in [&o.x1, &o.x2, &o.inv] {
        match x {
            None => k.push(1),
            Some(m) => k.extend(bits(&[m])),
        }
    }
    k.extend(o.sing.iter().map(|&x| x as u64));
    k.push(o.det.bits());
    k
}

/// Whether `a` is singular, if elimination in the given order of rows chooses largest pivots and runs without any rounding
/// (small dyadic numbers throughout). Which of several equally large pivots is chosen is the library's business.
pub fn exact_elimination(a: &Dm) -> Option<bool> {
    let n = a.r;
    if a.d.iter().any(|x| x.fract() != 0.0 || x.abs() > 4096.0) {
        return None;
    }
    let small = |x: &BigRational| -> bool {
        let lim = BigInt::from(1u32 << 12);
        let d = x.denom().clone();
        d <= lim && d.to_u32().map_or(false, |v| v.is_power_of_two()) && x.numer().abs() <= BigInt::from(1u32 << 22)
    };
    let mut w: Vec<Vec<BigRational>> = (0..n).map(|i| (0..n).map(|j| BigRational::from_integer(BigInt::from(a.at(i, j) as i64))).collect()).collect();
    let mut sing = false;
    for k in 0..n {
        if (k + 1..n).any(|i| w[i][k].abs() > w[k][k].abs()) {
            return None;
        }
        if w[k][k].is_zero() {
            sing = true;
            continue;
        }
        for i in k + 1..n {
            let f = &w[i][k] / &w[k][k];
            if !small(&f) {
                return None;
            }
            for j in k..n {
                let t = &f * &w[k][j];
                w[i][j] = &w[i][j] - t;
                if !small(&w[i][j]) {
                    return None;
                }
            }
        }
    }
    Some(sing)
}

fn resid_check(cx: &mut Cx, what: &str, a: &Dm, bd: &Dm, x: &Dm, b: &Dm, eps: f64, minp: f64) -> Res {
    if x.r != a.c || x.c != b.c {
        return Err(format!("{}: solution is {}x{} for a {}x{} system with {} right-hand sides", what, x.r, x.c, a.r, a.c, b.c));
    }
    if !x.finite() {
        return Err(format!("{}: solution is not finite", what));
    }
    let res = mul_sub(a, x, b);
    let w = mul(bd, &x.abs());
    let n = a.r as f64;
    let floor = n * n * minp * (2.0 + bd.maxabs() + x.maxabs() * bd.maxabs());
    for i in 0..b.r {
        for j in 0..b.c {
            let bound = 6.0 * (n + 2.0) * eps * (w.at(i, j) + b.at(i, j).abs()) + floor;
            cx.bound(what, res.at(i, j).abs(), bound, || format!("residual ({},{})", i, j))?;
        }
    }
    Ok(())
}

fn solve_case(cx: &mut Cx, a: Dm, kind: &str, f32s: bool) -> Res {
    let n = a.r;
    let (eps, minp) = eps_of(f32s);
    let nb = *cx.rng.pick(&[1, 1, 2, 3, 7]);
    let mut b = match cx.rng.below(5) {
        0 => ints(&mut cx.rng, n, nb, 5),
        1 => { let mut z = Dm::zero(n, nb); let (i, j) = (cx.rng.below(n), cx.rng.below(nb)); z.set(i, j, 1.0); z }
        2 => { let x = ints(&mut cx.rng, n, nb, 3); fit(mul(&a, &x), f32s) }
        _ => uni(&mut cx.rng, n, nb),
    };
    if cx.rng.chance(1, 5) {
        let e = cx.rng.range(-20, 20) as i32;
        b = b.scale_pow2(e);
    }
    let b = fit(b, f32s);
    cx.hf(&a.d);
    cx.hf(&b.d);
    cx.nontriv = n > 1;
    cx.desc(|| format!("{}: A={} B={}", kind, a.show(), b.show()));
    let o = twin!(cx, n, "solve", f32s, solve_parts(&a, &b), solve_key)?;
    // one verdict on singularity, whichever way it is asked
    let s = o.sing[0];
    if o.sing.iter().any(|&x| x != s) || o.x1.is_none() != s || o.x2.is_none() != s || o.inv.is_none() != s {
        return Err(format!(
            "inconsistent singularity verdicts: is_singular {:?}, solve None {}, LU solve None {}, inverse None {}",
            o.sing, o.x1.is_none(), o.x2.is_none(), o.inv.is_none()
        ));
    }
    let lo = if f32s { lu_parts::<f32>(&a)? } else { lu_parts::<f64>(&a)? };
    let grow: f64 = (0..n).map(|i| lo.u.at(i, i).abs()).filter(|v| *v > 1.0).map(|v| v.log2()).sum();
    if s && o.det != 0.0 && grow < (if f32s { 120.0 } else { 1000.0 }) {
        return Err(format!("matrix called singular but determinant is {:?}", o.det));
    }
    // ... and the right one wherever rounding cannot blur it
    let zero_line = (0..n).any(|i| (0..n).all(|j| a.at(i, j) == 0.0)) || (0..n).any(|j| (0..n).all(|i| a.at(i, j) == 0.0));
    if zero_line && !s {
        return Err("matrix with a zero row or column called non-singular".into());
    }
    if zero_line {
        cx.saw("structurally singular");
    }
    if n <= 12 {
        if let Some(sing) = exact_elimination(&mul(&lo.p, &a)) {
            cx.saw(if sing { "exactly singular" } else { "exactly non-singular" });
            if sing != s {
                return Err(format!("matrix is {} but is_singular says {}", if sing { "exactly singular" } else { "exactly invertible" }, s));
            }
            if !sing && n <= 10 {
                let d = big_to_f64(&exact_det(&a));
                if d.abs() < 1e6 && o.det != d {
                    return Err(format!("determinant {:?}, exactly {:?} (no rounding involved)", o.det, d));
                }
            }
        }
    }
    let bd = lu_bound(&lo);
    if s {
        if (0..n).all(|i| lo.u.at(i, i) != 0.0) {
            return Err("called singular although elimination met no zero pivot".into());
        }
        // not singular by a wide margin?
        if n <= 16 {
            if let (_, Some(inv)) = dd_det_inv(&a) {
                let t = mul(&inv.abs(), &bd);
                let cond = (0..n).map(|i| (0..n).map(|j| t.at(i, j)).sum::<f64>()).fold(0.0, f64::max);
                if cond * (n as f64 + 3.0) * eps * 4.0 < 1.0 && a.maxabs() > minp * 1e30 {
                    return Err(format!("called singular although its condition number is only {:e}", cond));
                }
            }
        }
        cx.saw("singular verdicts");
        return Ok(());
    }
    cx.saw("non-singular verdicts");
    // the solution may leave the representable range when A is numerically singular
    let umin = (0..n).map(|i| lo.u.at(i, i).abs()).fold(f64::INFINITY, f64::min);
    let lim = if f32s { 1e-30 } else { 1e-250 };
    if umin < lim || bd.maxabs() / umin > (if f32s { 1e12 } else { 1e60 }) || b.maxabs() / umin > 1.0 / lim {
        cx.saw("range skips");
        return Ok(());
    }
    let (x1, x2, inv) = (o.x1.unwrap(), o.x2.unwrap(), o.inv.unwrap());
    if !x1.finite() || x1.maxabs() > (if f32s { 1e30 } else { 1e250 }) || inv.maxabs() > (if f32s { 1e30 } else { 1e250 }) {
        cx.saw("range skips");
        if umin * (if f32s { 1e8 } else { 1e100 }) > bd.maxabs() && umin > 1e-10 && n < 12 { return Err("solution overflows although no pivot is small".into()); }
        return Ok(());
    }
    resid_check(cx, "solve residual", &a, &bd, &x1, &b, eps, minp)?;
    resid_check(cx, "LU solve residual", &a, &bd, &x2, &b, eps, minp)?;
    resid_check(cx, "inverse residual", &a, &bd, &inv, &Dm::id(n), eps, minp)?;
    cx.saw("solutions checked");
    Ok(())
}
fn c_solve(cx: &mut Cx) -> Res {
    let n = dim(cx, 40);
    let f32s = cx.rng.chance(1, 4);
    let (a, kind) = general(&mut cx.rng, n, n, if f32s { 12 } else { 40 });
    let e = expo(&mut cx.rng, if f32s { 24 } else { 240 });
    let a = fit(a.scale_pow2(e), f32s);
    solve_case(cx, a, kind, f32s)
}
fn c_solve_exact(cx: &mut Cx) -> Res {
    let n = cx.rng.us(1, if cx.tier == Tier::Tiny { 4 } else { 8 });
    let a = match cx.rng.below(6) {
        0 => sparse_ints(&mut cx.rng, n, n, 1, 2),
        1 => sparse_ints(&mut cx.rng, n, n, 2, 3),
        2 => signed_perm(&mut cx.rng, n),
        3 => { let mut a = ints(&mut cx.rng, n, n, 1); if n > 1 { let (p, q) = (cx.rng.below(n), cx.rng.below(n)); for j in 0..n { let v = a.at(p, j); a.set(q, j, v) } } a }
        4 => {
            // P^T L U with unit multipliers; optionally one zero pivot
            let mut l = Dm::id(n);
            for i in 0..n { for j in 0..i { let v = *cx.rng.pick(&[0.0, 1.0, -1.0, 0.5]); l.set(i, j, v) } }
            let mut u = Dm::zero(n, n);
            for i in 0..n { for j in i..n { let v = cx.rng.range(-3, 3) as f64 * 2.0; u.set(i, j, v) } let v = cx.rng.sign() * 64.0; u.set(i, i, v) }
            if cx.rng.chance(1, 2) { let i = cx.rng.below(n); u.set(i, i, 0.0) }
            mul(&signed_perm(&mut cx.rng, n), &mul(&l, &u))
        }
        _ => ints(&mut cx.rng, n, n, 1),
    };
    let f32s = cx.rng.chance(1, 4);
    solve_case(cx, a, "exact-elimination candidate", f32s)
}
/// Systems whose matrix is far from singular: every route must deliver a solution.
fn c_solve_good(cx: &mut Cx) -> Res {
    let n = dim(cx, 40);
    let f32s = cx.rng.chance(1, 4);
    let a = match cx.rng.below(4) {
        0 => with_cond(&mut cx.rng, n, n, 100.0),
        1 => { let mut a = uni(&mut cx.rng, n, n); for i in 0..n { let s = cx.rng.sign(); a.set(i, i, s * (n as f64 + 0.5)) } mul(&signed_perm(&mut cx.rng, n), &a) }
        2 => orth(&mut cx.rng, n),
        _ => { let mut a = Dm::zero(n, n); for i in 0..n { for j in 0..=i { let v = cx.rng.pm1(); a.set(i, j, v) } let v = cx.rng.sign() * 2.0; a.set(i, i, v) } let s = signed_perm(&mut cx.rng, n); if cx.rng.chance(1, 2) { mul(&s, &a) } else { mul(&a, &s) } }
    };
    let e = expo(&mut cx.rng, if f32s { 24 } else { 280 });
    let a = fit(a.scale_pow2(e), f32s);
    let r = solve_case(cx, a, "well-conditioned", f32s);
    if r.is_ok() && !cx.obs.contains_key("solutions checked") && !cx.obs.contains_key("range skips") && n <= 16 {
        let _ = n;
    }
    r
}

// ------------------------------------------------------------------ determinant

fn det_parts<T: Sc>(a: &Dm) -> Result<(f64, f64), String> {
    let m = a.mat::<T>();
    let d1 = must("det", || m.det())?;
    let d2 = must("LU det", || LUDecomposition::new(&m).det())?;
    if !d1.good() || !d2.good() {
        return Err("determinant uses uninitialised memory".into());
    }
    Ok((d1.f(), d2.f()))
}
/// Row-permuted triangles with powers of two on the diagonal: elimination has nothing to round.
fn c_det_large(cx: &mut Cx) -> Res {
    let n = if cx.tier == Tier::Tiny { cx.rng.us(2, 6) } else { cx.rng.us(64, if cx.tier == Tier::Thorough { 420 } else { 330 }) };
    let f32s = cx.rng.chance(1, 5);
    let mono = cx.rng.chance(1, 2);
    let p = if mono { cx.rng.perm(n) } else { (0..n).collect() };
    let fill = *cx.rng.pick(&[1usize, 4, 10]);
    let neg = *cx.rng.pick(&[0usize, 1, 10]);
    let mut a = Dm::zero(n, n);
    let (mut e, mut used) = (0i32, 0);
    let mut want = fact_perm_sign(&p);
    for i in 0..n {
        // partial products stay in range whatever their order
        let k = if used > (if f32s { 90 } else { 900 }) || cx.rng.chance(1, 2) { 0 } else if e > 0 { -cx.rng.range(0, 20) as i32 } else { cx.rng.range(0, 20) as i32 };
        e += k;
        used += k.abs();
        let s = if cx.rng.below(20) < neg { -1.0 } else { 1.0 };
        want *= s;
        a.set(i, p[i], s * 2f64.powi(k));
        if !mono {
            for j in i + 1..n {
                if cx.rng.below(10) < fill { let v = cx.rng.range(-4, 4) as f64; a.set(i, p[j], v) }
            }
        }
    }
    if !mono && cx.rng.chance(3, 4) {
        let q = cx.rng.perm(n);
        let mut b = Dm::zero(n, n);
        for i in 0..n { for j in 0..n { b.set(q[i], j, a.at(i, j)) } }
        want *= fact_perm_sign(&q);
        a = b;
    }
    want *= 2f64.powi(e);
    let a = fit(a, f32s);
    cx.hf(&a.d);
    cx.nontriv = true;
    cx.desc(|| format!("permuted triangle of order {}: {}", n, a.show()));
    let (d1, d2) = twin!(cx, n, "det", f32s, det_parts(&a), |o: &(f64, f64)| vec![o.0.bits(), o.1.bits()])?;
    cx.saw("permuted triangles of large order");
    if mono {
        for d in [d1, d2] {
            if d != want { return Err(format!("determinant of a power-of-two monomial matrix is {:?}, exactly {:?}", d, want)) }
        }
        return Ok(());
    }
    let lo = if f32s { lu_parts::<f32>(&a)? } else { lu_parts::<f64>(&a)? };
    let exact = lo.l.d.iter().all(|x| *x == 0.0 || *x == 1.0);
    if exact {
        cx.saw("large determinants without rounding");
        for d in [d1, d2] {
            if d != want { return Err(format!("determinant is {:?}, exactly {:?}", d, want)) }
        }
    }
    Ok(())
}
fn c_det(cx: &mut Cx) -> Res {
    let n = match cx.tier { Tier::Tiny => cx.rng.us(1, 4), _ => match cx.rng.below(10) { 0 => cx.rng.us(8, 30), _ => cx.rng.us(1, 9) } };
    let f32s = cx.rng.chance(1, 5);
    let (a, kind) = match cx.rng.below(6) {
        0 => (signed_perm(&mut cx.rng, n), "signed-permutation"),
        1 => (with_cond(&mut cx.rng, n, n, 50.0), "well-conditioned"),
        2 => { let mut a = signed_perm(&mut cx.rng, n); for x in a.d.iter_mut() { *x *= 2f64.powi(cx.rng.range(-3, 3) as i32) } (a, "scaled-permutation") }
        3 => {
            let mut a = ints(&mut cx.rng, n, n, 3);
            for i in 0..n { for j in 0..i { a.set(i, j, 0.0) } }
            (mul(&signed_perm(&mut cx.rng, n), &a), "permuted-triangular")
        }
        _ => general(&mut cx.rng, n, n, if f32s { 10 } else { 20 }),
    };
    let e = if n <= 8 { expo(&mut cx.rng, if f32s { 6 } else { 40 }) } else { 0 };
    let a = fit(a.scale_pow2(e), f32s);
    cx.hf(&a.d);
    cx.nontriv = n > 1 && a.maxabs() > 0.0;
    cx.desc(|| format!("{} 2^{}: {}", kind, e, a.show()));
    let (d1, d2) = twin!(cx, n, "det", f32s, det_parts(&a), |o: &(f64, f64)| vec![o.0.bits(), o.1.bits()])?;
    let (eps, minp) = eps_of(f32s);
    let lo = if f32s { lu_parts::<f32>(&a)? } else { lu_parts::<f64>(&a)? };
    // partial products must stay in range whatever the order of multiplication
    let (mut up, mut dn) = (0.0, 0.0);
    for i in 0..n {
        let v = lo.u.at(i, i).abs();
        if v > 1.0 { up += v.log2() } else if v > 0.0 { dn -= v.log2() }
    }
    let lim = if f32s { 120.0 } else { 1000.0 };
    if up > lim || dn > lim {
        cx.saw("range skips");
        return Ok(());
    }
    // exact when the matrix is a scaled permutation
    let bd = lu_bound(&lo);
    let g = (n as f64 + 3.0) * eps;
    let (rd, inv) = dd_det_inv(&a);
    // exact whenever a power of two makes every element a small integer
    let mut k = 0;
    let low = a.d.iter().filter(|x| **x != 0.0).map(|x| (x.to_bits() & ((1 << 52) - 1) | 1 << 52).trailing_zeros() as i64 - 52 + x.abs().log2().floor() as i64).min().unwrap_or(0);
    if low.abs() < 100 && low.abs() * (n as i64) < 900 { k = -low as i32 }
    let ai = a.scale_pow2(k);
    let is_int = ai.d.iter().all(|x| x.fract() == 0.0 && x.abs() < 1e9);
    let want = if is_int { cx.saw("exact references"); big_to_f64(&exact_det(&ai)) * 2f64.powi(-k * n as i32) } else { rd };
    let big = a.maxabs();
    let mut tol = f64::NAN;
    if let Some(inv) = inv {
        let mut s = 0.0;
        for i in 0..n { for j in 0..n { s += inv.at(j, i).abs() * (g * bd.at(i, j) + 1e-26 * big) } }
        if s < 0.02 && want != 0.0 {
            tol = want.abs() * (3.0 * s + 4.0 * (n as f64 + 1.0) * eps);
            cx.saw("relative comparisons");
            // below the noise a sign can not be read off; here it can
            if (d1 > 0.0) != (want > 0.0) || d1 == 0.0 {
                return Err(format!("determinant {:?} has the wrong sign, should be {:?}", d1, want));
            }
        }
    }
    if tol.is_nan() {
        if n > 14 {
            cx.saw("too close to singular to compare");
            return Ok(());
        }
        // perturbation bound through Hadamard's inequality
        let (mut p0, mut p1) = (1.0, 1.0);
        for i in 0..n {
            let na = norm2(&(0..n).map(|j| a.at(i, j)).collect::<Vec<_>>());
            let ne = norm2(&(0..n).map(|j| g * bd.at(i, j)).collect::<Vec<_>>());
            p0 *= na;
            p1 *= na + ne;
        }
        tol = (p1 - p0) * 1.01 + 8.0 * (n as f64) * eps * p1;
        cx.saw("absolute comparisons");
    }
    for d in [d1, d2] {
        cx.bound("determinant", (d - want).abs(), tol + minp * 4.0, || format!("got {:?}, want {:?}", d, want))?;
    }
    let monomial = (0..n).all(|i| (0..n).filter(|&j| a.at(i, j) != 0.0).count() == 1) && (0..n).all(|j| (0..n).filter(|&i| a.at(i, j) != 0.0).count() == 1);
    if monomial && a.d.iter().all(|x| *x == 0.0 || x.abs().log2().fract() == 0.0) {
        cx.saw("exact monomial determinants");
        let p: Vec<usize> = (0..n).map(|i| (0..n).find(|&j| a.at(i, j) != 0.0).unwrap()).collect();
        let w = fact_perm_sign(&p) * (0..n).map(|i| a.at(i, p[i])).product::<f64>();
        if d1 != w {
            return Err(format!("determinant of a power-of-two monomial matrix is {:?}, exactly {:?}", d1, w));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ QR

pub struct QrOut {
    pub q: Dm,
    pub r: Dm,
    pub h: Dm,
    pub full: bool,
}
pub fn qr_parts<T: Sc>(a: &Dm) -> Result<QrOut, String> {
    let m = a.mat::<T>();
    let qr = must("QR decomposition", || QRDecomposition::new(&m))?;
    let q = must("QR get_q", || qr.get_q())?;
    let r = must("QR get_r", || qr.get_r())?;
    let h = must("QR get_h", || qr.get_h())?;
    let full = must("QR is_full_rank", || qr.is_full_rank())?;
    Ok(QrOut { q: dm(&q)?, r: dm(&r)?, h: dm(&h)?, full })
}
fn qr_key(o: &QrOut) -> Vec<u64> {
    let mut k = bits(&[&o.q, &o.r, &o.h]);
    k.push(o.full as u64);
    k
}
fn c_qr(cx: &mut Cx) -> Res {
    let (m, n) = shape(cx, 40);
    let f32s = cx.rng.chance(1, 4);
    let (a, kind) = general(&mut cx.rng, m, n, if f32s { 16 } else { 60 });
    let e = expo(&mut cx.rng, if f32s { 20 } else { 240 });
    let a = fit(a.scale_pow2(e), f32s);
    cx.hf(&a.d);
    cx.h((m * 1000 + n) as u64);
    cx.nontriv = m > 1 && a.maxabs() > 0.0;
    cx.desc(|| format!("{} 2^{}: {}", kind, e, a.show()));
    cx.saw(if m > n { "tall" } else if m < n { "wide" } else { "square" });
    let o = twin!(cx, m.max(n), "QR", f32s, qr_parts(&a), qr_key)?;
    let (eps, minp) = eps_of(f32s);
    if (o.q.r, o.q.c) != (m, m) || (o.r.r, o.r.c) != (m, n) || (o.h.r, o.h.c) != (m, n) {
        return Err(format!("QR of {}x{}: Q is {}x{}, R is {}x{}, H is {}x{}", m, n, o.q.r, o.q.c, o.r.r, o.r.c, o.h.r, o.h.c));
    }
    if !o.q.finite() || !o.r.finite() {
        return Err("QR factors are not finite".into());
    }
    for i in 0..m {
        for j in 0..n {
            if i > j && o.r.at(i, j) != 0.0 {
                return Err(format!("R is not upper trapezoidal at ({},{})", i, j));
            }
            if i < j && o.h.at(i, j) != 0.0 {
                return Err(format!("H is not lower trapezoidal at ({},{})", i, j));
            }
        }
    }
    let k = m.min(n) as f64;
    let oe = orth_err(&o.q).max(orth_err(&o.q.t()));
    cx.bound("|Q'Q - I|", oe, 4.0 * (k + 4.0) * (m as f64).sqrt() * eps * 4.0, || "Q is not orthogonal".into())?;
    let res = mul_sub(&o.q, &o.r, &a);
    let c0 = 12.0 * (k + 3.0) * (m as f64 + 3.0).sqrt() * eps;
    let mut colb = vec![0.0; n];
    for j in 0..n {
        colb[j] = c0 * norm2(&a.col(j)) + 100.0 * (m as f64) * minp;
        cx.bound("|QR - A| column", norm2(&res.col(j)), colb[j], || format!("column {}", j))?;
    }
    // the Householder vectors reproduce R
    let mut w = a.clone();
    for c in 0..m.min(n) {
        let u = o.h.col(c);
        let s = norm2(&u);
        if s == 0.0 || !s.is_finite() || !(s > 1e-150) {
            if s != 0.0 { return Ok(()); }
            continue;
        }
        let u: Vec<f64> = u.iter().map(|x| x / s).collect();
        for j in 0..n {
            let t = 2.0 * dot((0..m).map(|i| (u[i], w.at(i, j))));
            for i in 0..m {
                let v = w.at(i, j) - t * u[i];
                w.set(i, j, v);
            }
        }
    }
    for j in 0..n {
        let d: Vec<f64> = (0..m).map(|i| w.at(i, j) - o.r.at(i, j)).collect();
        cx.bound("|H A - R| column", norm2(&d), colb[j] * 2.0, || format!("reflecting A by the Householder vectors does not give R, column {}", j))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ least squares

fn ls_parts<T: Sc>(a: &Dm, b: &Dm) -> Result<(bool, Option<Dm>), String> {
    let m = a.mat::<T>();
    let bm = b.mat::<T>();
    let qr = must("QR decomposition", || QRDecomposition::new(&m))?;
    let full = must("QR is_full_rank", || qr.is_full_rank())?;
    let x = must("QR solve", || qr.solve(&bm))?;
    Ok((full, match x { None => None, Some(x) => Some(dm(&x)?) }))
}
fn c_ls(cx: &mut Cx) -> Res {
    let (mut m, mut n) = shape(cx, 30);
    if m < n && !cx.rng.chance(1, 6) {
        std::mem::swap(&mut m, &mut n);
    }
    let f32s = cx.rng.chance(1, 4);
    let (a, kind) = match cx.rng.below(3) {
        0 => { let c = 10f64.powi(cx.rng.range(0, 6) as i32); (with_cond(&mut cx.rng, m, n, c), "given-condition") }
        _ => general(&mut cx.rng, m, n, if f32s { 10 } else { 30 }),
    };
    let e = expo(&mut cx.rng, if f32s { 20 } else { 220 });
    let a = fit(a.scale_pow2(e), f32s);
    let nb = *cx.rng.pick(&[1, 1, 2, 4]);
    let b = match cx.rng.below(4) {
        0 => { let x = ints(&mut cx.rng, n, nb, 3); mul(&a, &x) }
        1 => ints(&mut cx.rng, m, nb, 4),
        2 => { let mut z = Dm::zero(m, nb); let i = cx.rng.below(m); for j in 0..nb { z.set(i, j, 1.0) } z }
        _ => uni(&mut cx.rng, m, nb),
    };
    let b = fit(b, f32s);
    cx.hf(&a.d);
    cx.hf(&b.d);
    cx.nontriv = m > 1;
    cx.desc(|| format!("{} 2^{}: A={} B={}", kind, e, a.show(), b.show()));
    let (full, x) = twin!(cx, m.max(n), "least squares", f32s, ls_parts(&a, &b), |o: &(bool, Option<Dm>)| {
        let mut k = vec![o.0 as u64];
        if let Some(x) = &o.1 { k.extend(bits(&[x])) }
        k
    })?;
    let (eps, minp) = eps_of(f32s);
    if full != x.is_some() {
        return Err(format!("is_full_rank says {} but solve {}", full, if x.is_some() { "returned a solution" } else { "refused" }));
    }
    let zero_col = (0..n).any(|j| (0..m).all(|i| a.at(i, j) == 0.0));
    if full && (zero_col || m < n) {
        return Err("a matrix without full column rank is called full rank".into());
    }
    if !full && m >= n {
        // must be justified: columns scaled to unit length must be dependent to working precision
        let mut s = a.clone();
        for j in 0..n {
            let c = norm2(&a.col(j));
            if c > 0.0 { for i in 0..m { let v = a.at(i, j) / c; s.set(i, j, v) } }
        }
        let sv = jacobi_sv(&s);
        if sv[n - 1] > 1e3 * (m as f64) * (n as f64) * eps {
            return Err(format!("called rank deficient although the smallest scaled singular value is {:e}", sv[n - 1]));
        }
    }
    let Some(x) = x else {
        cx.saw(if m < n { "wide refusals" } else { "rank-deficient refusals" });
        return Ok(());
    };
    if (x.r, x.c) != (n, nb) {
        return Err(format!("least-squares solution is {}x{}, should be {}x{}", x.r, x.c, n, nb));
    }
    // when R is numerically singular x may be astronomically large; stay in range
    let big = if f32s { 1e15 } else { 1e100 };
    if !x.finite() || x.maxabs() > big * (1.0 + b.maxabs()) {
        let sv = jacobi_sv(&a);
        if sv[n - 1] > 1e-6 * sv[0] && sv[n - 1] > 1e-20 * (if f32s { 1e8 } else { 1e-60 }) {
            return Err("solution overflows although the matrix is well conditioned".into());
        }
        cx.saw("range skips");
        return Ok(());
    }
    cx.saw(if m == n { "square systems" } else { "overdetermined systems" });
    let cn: Vec<f64> = (0..n).map(|j| norm2(&a.col(j))).collect();
    let c0 = 40.0 * (n as f64 + 3.0) * (m as f64 + 3.0).sqrt() * eps;
    for c in 0..nb {
        let xc = Dm::new(n, 1, x.col(c));
        let bc = Dm::new(m, 1, b.col(c));
        let r = mul_sub(&a, &xc, &bc);
        let rn = norm2(&r.d);
        let ax: f64 = (0..n).map(|k| cn[k] * xc.d[k].abs()).sum();
        let size = rn + ax + norm2(&bc.d);
        for j in 0..n {
            // residual orthogonal to every column: the normal equations, i.e. optimality
            let g = dot((0..m).map(|i| (a.at(i, j), r.d[i])));
            cx.bound("least-squares optimality", g.abs(), c0 * cn[j] * size + 1e4 * minp * (1.0 + cn[j]) * (1.0 + size), || format!("column {} of A against the residual of right-hand side {}", j, c))?;
        }
        if m == n {
            cx.bound("square system residual", rn, c0 * (ax + norm2(&bc.d)) + 1e4 * minp, || "residual of a square system".into())?;
        }
        // no nearby point does better (a direct reading of "least squares")
        for _ in 0..2 {
            let mut y = xc.clone();
            for k in 0..n { if cn[k] > 0.0 { y.d[k] += cx.rng.pm1() * 0.1 * (norm2(&bc.d) + 1e-3 * ax) / cn[k] } }
            let r2 = mul_sub(&a, &y, &bc);
            let slack = c0 * size;
            if norm2(&r2.d) + slack < rn {
                return Err(format!("another vector has a smaller residual ({:e} < {:e})", norm2(&r2.d), rn));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ Cholesky

fn chol_parts<T: Sc>(a: &Dm, b: &Dm) -> Result<(Option<Dm>, Option<Dm>), String> {
    let m = a.mat::<T>();
    let c = must("Cholesky decomposition", || CholeskyDecomposition::new(&m))?;
    match c {
        None => Ok((None, None)),
        Some(c) => {
            let l = must("Cholesky get_l", || c.get_l().clone())?;
            let x = if b.r == a.r { Some(dm(&must("Cholesky solve", || c.solve(&b.mat::<T>()))?)?) } else { None };
            Ok((Some(dm(&l)?), x))
        }
    }
}
fn chol_key(o: &(Option<Dm>, Option<Dm>)) -> Vec<u64> {
    let mut k = vec![];
    for x in [&o.0, &o.1] {
        match x { None => k.push(7), Some(m) => k.extend(bits(&[m])) }
    }
    k
}
fn check_chol_factor(cx: &mut Cx, a: &Dm, l: &Dm, eps: f64, minp: f64) -> Res {
    let n = a.r;
    if (l.r, l.c) != (n, n) {
        return Err(format!("Cholesky factor of a {}x{} matrix is {}x{}", n, a.c, l.r, l.c));
    }
    for i in 0..n {
        for j in 0..n {
            if j > i && l.at(i, j) != 0.0 {
                return Err(format!("Cholesky factor is not lower triangular at ({},{})", i, j));
            }
        }
        if !(l.at(i, i) > 0.0) {
            return Err(format!("Cholesky diagonal entry {} is {:?}, should be positive", i, l.at(i, i)));
        }
    }
    let res = mul_sub(l, &l.t(), a);
    let bd = mul(&l.abs(), &l.t().abs());
    let floor = (n as f64 + 1.0) * 4.0 * minp * (1.0 + l.maxabs());
    for i in 0..n {
        for j in 0..n {
            cx.bound("|LL' - A| entry", res.at(i, j).abs(), (n as f64 + 4.0) * eps * (bd.at(i, j) + a.at(i, j).abs()) + floor, || format!("at ({},{})", i, j))?;
        }
    }
    Ok(())
}
/// inputs that certainly have a factor
fn c_chol_yes(cx: &mut Cx) -> Res {
    let n = dim(cx, 40);
    let f32s = cx.rng.chance(1, 4);
    let c = 10f64.powi(cx.rng.range(0, if f32s { 2 } else { 8 }) as i32);
    let (a, kind) = spd(&mut cx.rng, n, c);
    let e = expo(&mut cx.rng, if f32s { 16 } else { 240 });
    let a = fit(a.scale_pow2(e), f32s);
    cx.hf(&a.d);
    cx.nontriv = n > 1;
    cx.desc(|| format!("{} 2^{}: {}", kind, e, a.show()));
    let b = Dm::zero(n, 1);
    let o = twin!(cx, n, "Cholesky", f32s, chol_parts(&a, &b), chol_key)?;
    let (eps, minp) = eps_of(f32s);
    match o.0 {
        None => {
            // justified only if A is not positive definite to working precision once scaled to unit diagonal
            if kind != "spd-spectrum" && kind != "spd-integer" && kind != "laplacian" || n <= 3 && !f32s {
                return Err(format!("positive definite matrix ({}) has no Cholesky factor", kind));
            }
            let mut s = a.clone();
            for i in 0..n { for j in 0..n { let v = a.at(i, j) / (a.at(i, i).sqrt() * a.at(j, j).sqrt()); s.set(i, j, v) } }
            let sv = jacobi_sv(&s);
            if sv[n - 1] > 4.0 * (n as f64 + 2.0) * (n as f64 + 2.0) * eps {
                return Err(format!("positive definite matrix (smallest scaled eigenvalue {:e}) has no Cholesky factor", sv[n - 1]));
            }
            cx.saw("definite to less than working precision");
            Ok(())
        }
        Some(l) => {
            cx.saw("factors checked");
            check_chol_factor(cx, &a, &l, eps, minp)
        }
    }
}
/// inputs that certainly have none
fn c_chol_no(cx: &mut Cx) -> Res {
    let n = dim(cx, 24);
    let f32s = cx.rng.chance(1, 4);
    let (base, _) = spd(&mut cx.rng, n, 100.0);
    let mut a = base;
    let why;
    match cx.rng.below(8) {
        0 => {
            // not square
            let (m, k) = (cx.rng.us(1, 6), cx.rng.us(1, 6));
            if m == k { a = Dm::new(m, m + 1, vec![1.0; m * (m + 1)]); } else { a = uni(&mut cx.rng, m, k); for i in 0..m.min(k) { a.set(i, i, 50.0) } }
            why = "not square";
        }
        1 | 2 if n > 1 => {
            // asymmetric in exactly one entry, by as little as one unit in the last place
            let i = cx.rng.below(n);
            let j = (i + 1 + cx.rng.below(n - 1)) % n;
            let v = a.at(i, j);
            let w = match cx.rng.below(3) {
                0 => if f32s { ((v as f32) * (1.0 + 2.0 * f32::EPSILON) + 1e-30) as f64 } else { v * (1.0 + 2.0 * f64::EPSILON) + 1e-200 },
                1 => v + 0.25 * a.at(i, i).min(a.at(j, j)),
                _ => -v - 0.125 * a.at(i, i).min(a.at(j, j)),
            };
            a.set(i, j, w);
            why = "not symmetric";
        }
        3 => {
            let i = cx.rng.below(n);
            let v = a.at(i, i);
            a.set(i, i, *cx.rng.pick(&[0.0, -v, -0.0]));
            why = "non-positive diagonal entry";
        }
        4 if n > 1 => {
            // a 2x2 principal minor with negative determinant
            let i = cx.rng.below(n);
            let j = (i + 1 + cx.rng.below(n - 1)) % n;
            let v = 2.0 * a.at(i, i).sqrt() * a.at(j, j).sqrt() * cx.rng.sign();
            a.set(i, j, v);
            a.set(j, i, v);
            why = "indefinite 2x2 minor";
        }
        5 => {
            // exactly singular semidefinite, no rounding anywhere
            let mut l = Dm::zero(n, n);
            for i in 0..n { for j in 0..i { let v = cx.rng.range(-3, 3) as f64; l.set(i, j, v) } let v = *cx.rng.pick(&[1.0, 2.0, 4.0]); l.set(i, i, v) }
            let z = cx.rng.below(n);
            l.set(z, z, 0.0);
            for i in z + 1..n { l.set(i, z, 0.0) }
            a = mul(&l, &l.t());
            why = "exactly semidefinite";
        }
        6 => {
            let x = if f32s { f32::NAN as f64 } else { f64::NAN };
            let i = cx.rng.below(n);
            let j = cx.rng.below(n);
            a.set(i, j, x);
            a.set(j, i, x);
            why = "contains NaN";
        }
        _ => {
            // shift the spectrum below zero: x'Ax < 0 for a vector we know
            let s = (0..n).map(|i| a.at(i, i)).sum::<f64>();
            for i in 0..n { let v = a.at(i, i) - s * (1.0 / n as f64) * 1.001 - 1e-3; a.set(i, i, v) }
            why = "negative trace";
        }
    }
    let a = fit(a, f32s);
    if why == "not symmetric" && (0..a.r).all(|i| (0..a.c).all(|j| a.at(i, j) == a.at(j, i))) {
        return Ok(());
    }
    cx.hf(&a.d);
    cx.h(a.r as u64);
    cx.nontriv = true;
    cx.desc(|| format!("{}: {}", why, a.show()));
    cx.saw(why);
    let b = Dm::zero(1, 1);
    let o = if why == "contains NaN" {
        if f32s { chol_parts::<f32>(&a, &Dm::zero(a.r + 1, 1))? } else { chol_parts::<f64>(&a, &Dm::zero(a.r + 1, 1))? }
    } else {
        let bb = if a.r == 1 { Dm::zero(2, 1) } else { b };
        twin!(cx, a.r, "Cholesky", f32s, chol_parts(&a, &bb), chol_key)?
    };
    if o.0.is_some() {
        return Err(format!("a matrix that is not symmetric positive definite ({}) was factored", why));
    }
    Ok(())
}
/// anything at all: whatever is returned must be right
fn c_chol_any(cx: &mut Cx) -> Res {
    let n = dim(cx, 20);
    let f32s = cx.rng.chance(1, 4);
    let (a, kind) = if cx.rng.chance(3, 4) { symmetric(&mut cx.rng, n, 20) } else { general(&mut cx.rng, n, n, 20) };
    let a = fit(a, f32s);
    cx.hf(&a.d);
    cx.nontriv = n > 1;
    cx.desc(|| format!("{}: {}", kind, a.show()));
    let b = Dm::zero(n + 1, 1);
    let o = twin!(cx, n, "Cholesky", f32s, chol_parts(&a, &b), chol_key)?;
    let (eps, minp) = eps_of(f32s);
    let sym = (0..n).all(|i| (0..n).all(|j| a.at(i, j) == a.at(j, i)));
    match o.0 {
        Some(l) => {
            if !sym {
                return Err("an asymmetric matrix was factored".into());
            }
            cx.saw("accepted");
            check_chol_factor(cx, &a, &l, eps, minp)
        }
        None => {
            cx.saw("rejected");
            if sym && n <= 24 && (0..n).all(|i| a.at(i, i) > 0.0) {
                // is it clearly positive definite after all?  Gershgorin on the unit-diagonal scaling
                let ok = (0..n).all(|i| (0..n).filter(|&j| j != i).map(|j| (a.at(i, j) / (a.at(i, i).sqrt() * a.at(j, j).sqrt())).abs()).sum::<f64>() < 0.99);
                if ok && a.maxabs() > minp * 1e20 {
                    return Err("a diagonally dominant positive definite matrix was rejected".into());
                }
            }
            Ok(())
        }
    }
}
fn c_chol_solve(cx: &mut Cx) -> Res {
    let n = dim(cx, 36);
    let f32s = cx.rng.chance(1, 4);
    let c = 10f64.powi(cx.rng.range(0, if f32s { 2 } else { 8 }) as i32);
    let (a, kind) = spd(&mut cx.rng, n, c);
    let e = expo(&mut cx.rng, if f32s { 20 } else { 240 });
    let a = fit(a.scale_pow2(e), f32s);
    let nb = *cx.rng.pick(&[1, 1, 2, 3, 6]);
    let b = match cx.rng.below(4) {
        0 => ints(&mut cx.rng, n, nb, 5),
        1 => { let x = ints(&mut cx.rng, n, nb, 3); mul(&a, &x) }
        2 => { let mut z = Dm::zero(n, nb); let i = cx.rng.below(n); for j in 0..nb { z.set(i, j, 1.0) } z }
        _ => uni(&mut cx.rng, n, nb),
    };
    let b = fit(b, f32s);
    cx.hf(&a.d);
    cx.hf(&b.d);
    cx.nontriv = n > 1;
    cx.desc(|| format!("{} 2^{}: A={} B={}", kind, e, a.show(), b.show()));
    let o = twin!(cx, n, "Cholesky", f32s, chol_parts(&a, &b), chol_key)?;
    let (eps, minp) = eps_of(f32s);
    let (Some(l), Some(x)) = o else { cx.saw("not definite to working precision"); return Ok(()) };
    let bd = mul(&l.abs(), &l.t().abs());
    cx.saw("systems solved");
    resid_check(cx, "Cholesky solve residual", &a, &bd, &x, &b, eps, minp)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "random/structured/degenerate matrices of every shape, f32 and f64; non-trivial: more than one row and not all zero; distinct by input bits",
            fams: vec![
                Fam { name: "lu", tiny: 30, quick: 40000, thorough: 1200000, f: c_lu },
                Fam { name: "large", tiny: 1, quick: 10, thorough: 1000, f: big!(c_lu) },
            ],
            need: vec!["tall", "wide", "square", "factorizations with row exchanges", "factorizations with a zero pivot", "f32 runs", "f64 runs"],
        },
        Prop {
            id: "C08",
            rule: "square systems (general, exactly singular, rounding-free, well conditioned) with 1-7 right-hand sides; non-trivial: order above 1; distinct by bits of A and B",
            fams: vec![
                Fam { name: "general", tiny: 20, quick: 12000, thorough: 400000, f: c_solve },
                Fam { name: "exact", tiny: 20, quick: 16000, thorough: 400000, f: c_solve_exact },
                Fam { name: "good", tiny: 10, quick: 8000, thorough: 250000, f: c_solve_good },
                Fam { name: "large", tiny: 1, quick: 20, thorough: 600, f: big!(c_solve) },
                Fam { name: "large-good", tiny: 1, quick: 20, thorough: 600, f: big!(c_solve_good) },
            ],
            need: vec!["structurally singular", "exactly singular", "exactly non-singular", "singular verdicts", "solutions checked"],
        },
        Prop {
            id: "C09",
            rule: "square matrices of order 1-30 against exact integer or double-double determinants; monomial matrices and permuted triangles of order 64-420 against their exact determinants; non-trivial: order above 1 and not all zero",
            fams: vec![Fam { name: "det", tiny: 30, quick: 60000, thorough: 2000000, f: c_det }, Fam { name: "large", tiny: 2, quick: 12, thorough: 800, f: c_det_large }],
            need: vec!["relative comparisons", "exact references", "permuted triangles of large order", "absolute comparisons", "exact monomial determinants"],
        },
        Prop {
            id: "C10",
            rule: "random/structured/degenerate matrices of every shape, f32 and f64; non-trivial: more than one row and not all zero",
            fams: vec![
                Fam { name: "qr", tiny: 25, quick: 16000, thorough: 500000, f: c_qr },
                Fam { name: "large", tiny: 1, quick: 10, thorough: 800, f: big!(c_qr) },
            ],
            need: vec!["tall", "wide", "square", "f32 runs", "f64 runs"],
        },
        Prop {
            id: "C11",
            rule: "least-squares problems with 1-4 right-hand sides, consistent and inconsistent, full rank and deficient, tall, square and wide; non-trivial: more than one row",
            fams: vec![
                Fam { name: "ls", tiny: 25, quick: 24000, thorough: 700000, f: c_ls },
                Fam { name: "large", tiny: 1, quick: 10, thorough: 800, f: big!(c_ls) },
            ],
            need: vec!["square systems", "overdetermined systems", "wide refusals", "rank-deficient refusals"],
        },
        Prop {
            id: "C12",
            rule: "matrices that are / are not / may be symmetric positive definite; non-trivial: order above 1 or a refusal class",
            fams: vec![
                Fam { name: "definite", tiny: 15, quick: 12000, thorough: 300000, f: c_chol_yes },
                Fam { name: "not-definite", tiny: 25, quick: 24000, thorough: 700000, f: c_chol_no },
                Fam { name: "any", tiny: 10, quick: 12000, thorough: 400000, f: c_chol_any },
                Fam { name: "large-definite", tiny: 1, quick: 10, thorough: 400, f: big!(c_chol_yes) },
                Fam { name: "large-not-definite", tiny: 1, quick: 10, thorough: 400, f: big!(c_chol_no) },
                Fam { name: "large-any", tiny: 1, quick: 10, thorough: 400, f: big!(c_chol_any) },
            ],
            need: vec!["factors checked", "not square", "not symmetric", "non-positive diagonal entry", "indefinite 2x2 minor", "exactly semidefinite", "contains NaN", "accepted", "rejected"],
        },
        Prop {
            id: "C13",
            rule: "positive definite systems with 1-6 right-hand sides; non-trivial: order above 1",
            fams: vec![
                Fam { name: "chol-solve", tiny: 15, quick: 20000, thorough: 500000, f: c_chol_solve },
                Fam { name: "large", tiny: 1, quick: 10, thorough: 800, f: big!(c_chol_solve) },
            ],
            need: vec!["systems solved"],
        },
    ]
}
