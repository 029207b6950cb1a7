//! Singular values, rank, pseudo-inverse, eigenvalues, termination, agreement between routes.
use crate::fw::*;
use crate::gen::*;
use crate::lin::*;
use crate::mon::{Mon, Sc};
use crate::props::decomp::{bits, budget, eps_of, fit, twin};
use crate::{big, twin};
use la::{CholeskyDecomposition, EigenDecomposition, LUDecomposition, Matrix, QRDecomposition, SVD};

// ------------------------------------------------------------------ SVD

pub struct SvdOut {
    pub u: Dm,
    pub s: Dm,
    pub v: Dm,
    pub rank: usize,
}
fn svd_read<T: Sc>(s: &SVD<T>, with_rank: bool) -> Result<SvdOut, String> {
    let u = must("SVD get_u", || s.get_u().clone())?;
    let sm = must("SVD get_s", || s.get_s().clone())?;
    let v = must("SVD get_v", || s.get_v().clone())?;
    let rank = if with_rank { must("SVD rank", || s.rank())? } else { 0 };
    Ok(SvdOut { u: dm(&u)?, s: dm(&sm)?, v: dm(&v)?, rank })
}
pub fn svd_parts<T: Sc>(a: &Dm) -> Result<SvdOut, String> {
    let m = a.mat::<T>();
    let s = must("SVD", || SVD::new(&m))?;
    svd_read(&s, true)
}
fn direct_parts<T: Sc>(a: &Dm) -> Result<SvdOut, String> {
    let m = a.mat::<T>();
    let s = must("direct SVD", || SVD::direct(&m))?;
    svd_read(&s, false)
}
fn svd_key(o: &SvdOut) -> Vec<u64> {
    let mut k = bits(&[&o.u, &o.s, &o.v]);
    k.push(o.rank as u64);
    k
}
fn svd_shape(a: &Dm, o: &SvdOut) -> Res {
    let (m, n) = (a.r, a.c);
    if (o.u.r, o.u.c) != (m, m) || (o.s.r, o.s.c) != (m, n) || (o.v.r, o.v.c) != (n, n) {
        return Err(format!("SVD of {}x{}: U is {}x{}, S is {}x{}, V is {}x{}", m, n, o.u.r, o.u.c, o.s.r, o.s.c, o.v.r, o.v.c));
    }
    if !o.u.finite() || !o.s.finite() || !o.v.finite() {
        return Err("SVD factors are not finite".into());
    }
    for i in 0..m {
        for j in 0..n {
            if i != j && o.s.at(i, j) != 0.0 {
                return Err(format!("S is not diagonal at ({},{})", i, j));
            }
        }
    }
    let k = m.min(n);
    for i in 0..k {
        if !(o.s.at(i, i) >= 0.0) {
            return Err(format!("singular value {} is negative: {:?}", i, o.s.at(i, i)));
        }
        if i + 1 < k && !(o.s.at(i, i) >= o.s.at(i + 1, i + 1)) {
            return Err(format!("singular values out of order at {}: {:?} < {:?}", i, o.s.at(i, i), o.s.at(i + 1, i + 1)));
        }
    }
    Ok(())
}
fn recon(a: &Dm, o: &SvdOut) -> Dm {
    // exact power-of-two scaling keeps the check itself in range
    mul_sub(&mul(&o.u, &o.s), &o.v.t(), a)
}
fn scaled_gen(cx: &mut Cx, m: usize, n: usize, f32s: bool, big: i64) -> (Dm, &'static str, i32) {
    let (a, kind) = general(&mut cx.rng, m, n, if f32s { 16 } else { 60 });
    let e = expo(&mut cx.rng, big);
    (fit(a.scale_pow2(e), f32s), kind, e)
}
fn c_svd(cx: &mut Cx) -> Res {
    let (m, n) = shape(cx, 36);
    let f32s = cx.rng.chance(1, 4);
    let (a, kind, e) = scaled_gen(cx, m, n, f32s, if f32s { 24 } else { 300 });
    svd_case(cx, a, kind, e, f32s)
}
fn c_svd_bidiag(cx: &mut Cx) -> Res {
    // bidiagonal input reaches the deflation cases directly: exact zeros, tiny entries, repeated values
    let n = cx.rng.us(2, if cx.tier == Tier::Tiny { 4 } else { 9 });
    let m = n + if cx.rng.chance(1, 3) { cx.rng.us(1, 3) } else { 0 };
    let f32s = cx.rng.chance(1, 4);
    let vals = if f32s { [0.0, 1.0, -1.0, 1e-8, 3.0, 1e-20, 0.5, -2.0] } else { [0.0, 1.0, -1.0, 1e-17, 3.0, 1e-40, 0.5, -2.0] };
    let mut a = Dm::zero(m, n);
    let sup = cx.rng.chance(3, 4);
    for i in 0..n {
        let v = *cx.rng.pick(&vals);
        a.set(i, i, v);
        let v = *cx.rng.pick(&vals);
        if sup && i + 1 < n { a.set(i, i + 1, v) }
        if !sup && i + 1 < m { a.set(i + 1, i, v) }
    }
    if cx.rng.chance(1, 3) { a = a.t() }
    svd_case(cx, fit(a, f32s), "bidiagonal", 0, f32s)
}
fn svd_case(cx: &mut Cx, a: Dm, kind: &str, e: i32, f32s: bool) -> Res {
    let (m, n) = (a.r, a.c);
    cx.hf(&a.d);
    cx.h((m * 1000 + n) as u64);
    cx.nontriv = m.min(n) > 1 && a.maxabs() > 0.0;
    cx.desc(|| format!("{} 2^{}: {}", kind, e, a.show()));
    cx.saw(if m > n { "tall" } else if m < n { "wide" } else { "square" });
    let o = twin!(cx, m.max(n), "SVD", f32s, svd_parts(&a), svd_key)?;
    let (eps, minp) = eps_of(f32s);
    svd_shape(&a, &o)?;
    let (mn, mx) = (m.min(n) as f64, m.max(n) as f64);
    if (0..m.min(n)).any(|i| o.s.at(i, i) == 0.0) {
        cx.saw("exactly zero singular values");
    }
    let c0 = 20.0 * (mn + 4.0) * (mx + 4.0).sqrt() * eps;
    cx.bound("|U'U - I|", orth_err(&o.u), c0, || "U is not orthogonal".into())?;
    cx.bound("|V'V - I|", orth_err(&o.v), c0, || "V is not orthogonal".into())?;
    cx.bound("|USV' - A|", recon(&a, &o).fro(), c0 * a.fro() + 1e3 * mx * minp, || format!("does not reconstruct A (norm {:e})", a.fro()))?;
    Ok(())
}

// ------------------------------------------------------------------ rank

fn rank_only<T: Sc>(a: &Dm) -> Result<usize, String> {
    let m = a.mat::<T>();
    let s = must("SVD", || SVD::new(&m))?;
    must("SVD rank", || s.rank())
}
/// Matrices whose rank is beyond doubt: nonzero singular values far above rounding noise.
fn c_rank(cx: &mut Cx) -> Res {
    let (m, n) = shape(cx, 30);
    let k = m.min(n);
    let f32s = cx.rng.chance(1, 4);
    let want;
    let a;
    let kind;
    match cx.rng.below(7) {
        0 => {
            // exact integers, exact rank
            let rk = cx.rng.us(0, k);
            a = if rk == 0 { Dm::zero(m, n) } else { mul(&ints(&mut cx.rng, m, rk, 2), &ints(&mut cx.rng, rk, n, 2)) };
            if m * n > 400 { cx.saw("skipped: exact elimination too large"); return Ok(()); }
            want = exact_rank(&a);
            kind = "integer product";
        }
        1 => { a = with_cond(&mut cx.rng, m, n, 100.0); want = k; kind = "full rank"; }
        2 => {
            // prescribed spectrum with a wide gap
            let rk = cx.rng.us(0, k);
            let s: Vec<f64> = (0..k).map(|i| if i < rk { 1.0 + cx.rng.f01() * 20.0 } else { 0.0 }).collect();
            a = mul(&mul(&orth(&mut cx.rng, m), &diag_mn(m, n, &s)), &orth(&mut cx.rng, n));
            want = rk;
            kind = "spectrum with a gap";
        }
        3 => {
            // diagonal: nothing rounds, values may span many magnitudes
            let mut s = vec![0.0; k];
            let mut c = 0;
            for x in s.iter_mut() { if cx.rng.chance(2, 3) { *x = cx.rng.sign() * pow2(&mut cx.rng, if f32s { 4 } else { 12 }); c += 1; } }
            a = mul(&signed_perm(&mut cx.rng, m), &diag_mn(m, n, &s));
            want = c;
            kind = "scattered diagonal";
        }
        4 => {
            let mut b = uni(&mut cx.rng, m, n);
            // duplicate rows or columns
            let d = cx.rng.us(1, k);
            let mut w = 0;
            for i in 0..m { let src = i % d; let v: Vec<f64> = (0..n).map(|j| b.at(src, j)).collect(); for j in 0..n { b.set(i, j, v[j]) } w = w.max(src + 1) }
            let sv = jacobi_sv(&b);
            if sv[w.min(k) - 1] < 1e-3 * sv[0] { cx.saw("skipped: gap not clear"); return Ok(()); }
            a = b; want = w.min(k); kind = "repeated rows";
        }
        5 => {
            let b = ints(&mut cx.rng, m, n, 2);
            if m * n > 400 { cx.saw("skipped: exact elimination too large"); return Ok(()); }
            want = exact_rank(&b); a = b; kind = "small integers";
        }
        _ => {
            // graded but well above the threshold
            let c = if f32s { 1e3 } else { 1e9 };
            a = with_cond(&mut cx.rng, m, n, c); want = k; kind = "graded full rank";
        }
    }
    let e = expo(&mut cx.rng, if f32s { 20 } else { 200 });
    let a = fit(a.scale_pow2(e), f32s);
    // the integer cases need a clear gap, too
    let (eps, _) = eps_of(f32s);
    if want > 0 && (kind == "integer product" || kind == "small integers") {
        let b = a.scale_pow2(-e);
        let sv = jacobi_sv(&b);
        if sv[want - 1] < 200.0 * (m.max(n) as f64) * eps * sv[0] { cx.saw("skipped: gap not clear"); return Ok(()); }
    }
    cx.hf(&a.d);
    cx.h((m * 1000 + n) as u64);
    cx.nontriv = k > 1;
    cx.desc(|| format!("{} 2^{} rank {}: {}", kind, e, want, a.show()));
    let got = twin!(cx, m.max(n), "SVD rank", f32s, rank_only(&a), |r: &usize| vec![*r as u64])?;
    // noise floor of the computed zero singular values is a few eps times the norm; the documented
    // threshold is max(m,n) eps sigma_0.  Skip shapes where the two can meet.
    let exact_zero = kind == "scattered diagonal" || want == k || want == 0;
    if !exact_zero && m.max(n) < 6 {
        // judged by the reference threshold only if the computed values are clearly on one side
        let o = if f32s { svd_parts::<f32>(&a)? } else { svd_parts::<f64>(&a)? };
        let tol = m.max(n) as f64 * eps * o.s.at(0, 0);
        if want < k && o.s.at(want, want) > 0.5 * tol { cx.saw("skipped: noise near the threshold"); return Ok(()); }
    }
    cx.saw(if want < k { "rank-deficient matrices" } else { "full-rank matrices" });
    cx.saw(if m > n { "tall" } else if m < n { "wide" } else { "square" });
    if got != want {
        return Err(format!("rank is {}, reported {}", want, got));
    }
    Ok(())
}

// ------------------------------------------------------------------ pseudo-inverse

fn pinv_parts<T: Sc>(a: &Dm) -> Result<Dm, String> {
    let m = a.mat::<T>();
    dm(&must("pinverse", || m.pinverse())?)
}
fn c_pinv(cx: &mut Cx) -> Res {
    let (m, n) = shape(cx, 24);
    let f32s = cx.rng.chance(1, 5);
    let cond = if f32s { 1.0 + 2.0 * cx.rng.f01() } else { 10f64.powf(cx.rng.f01() * 1.5) };
    let (a, kind) = match cx.rng.below(5) {
        0 => {
            // orthogonal columns/rows of different length
            let k = m.min(n);
            let s: Vec<f64> = (0..k).map(|_| 1.0 + cx.rng.f01()).collect();
            (mul(&orth(&mut cx.rng, m), &diag_mn(m, n, &s)), "orthogonal columns")
        }
        1 => {
            let k = m.min(n);
            let s: Vec<f64> = (0..k).map(|_| cx.rng.sign() * (1.0 + cx.rng.below(3) as f64)).collect();
            (mul(&signed_perm(&mut cx.rng, m), &mul(&diag_mn(m, n, &s), &signed_perm(&mut cx.rng, n))), "monomial")
        }
        2 => {
            let mut a = uni(&mut cx.rng, m, n);
            for i in 0..m.min(n) { let v = a.at(i, i) + 2.0 * (m.max(n) as f64); a.set(i, i, v) }
            (a, "dominant")
        }
        _ => (with_cond(&mut cx.rng, m, n, cond), "given-condition"),
    };
    let e = expo(&mut cx.rng, if f32s { 20 } else { 240 });
    let a = fit(a.scale_pow2(e), f32s);
    cx.hf(&a.d);
    cx.h((m * 1000 + n) as u64);
    cx.nontriv = m.min(n) > 1;
    cx.desc(|| format!("{} 2^{}: {}", kind, e, a.show()));
    cx.saw(if m > n { "tall" } else if m < n { "wide" } else { "square" });
    let x = twin!(cx, m.max(n), "pinverse", f32s, pinv_parts(&a), |o: &Dm| bits(&[o]))?;
    let (eps, _) = eps_of(f32s);
    if (x.r, x.c) != (n, m) {
        return Err(format!("pseudo-inverse of a {}x{} matrix is {}x{}", m, n, x.r, x.c));
    }
    if !x.finite() {
        return Err("pseudo-inverse is not finite".into());
    }
    let sv = jacobi_sv(&a.scale_pow2(-e));
    let k = sv[0] / sv[m.min(n) - 1];
    if k > (if f32s { 6.0 } else { 60.0 }) { cx.saw("skipped: too ill conditioned"); return Ok(()); }
    let d = (m + n) as f64 + 4.0;
    let c0 = 6.0 * d * eps * k * k * k * k;
    if c0 > 0.3 { cx.saw("skipped: too ill conditioned"); return Ok(()); }
    let ax = mul(&a, &x);
    let xa = mul(&x, &a);
    let fr = (m.min(n) as f64).sqrt();
    cx.bound("A X A = A", mul_sub(&ax, &a, &a).fro() / a.fro(), c0, || "first Penrose condition".into())?;
    cx.bound("X A X = X", mul_sub(&xa, &x, &x).fro() / x.fro(), c0, || "second Penrose condition".into())?;
    let asym = |p: &Dm| { let t = p.t(); Dm { r: p.r, c: p.c, d: p.d.iter().zip(&t.d).map(|(a, b)| a - b).collect() }.fro() };
    cx.bound("A X symmetric", asym(&ax) / fr, c0, || "third Penrose condition".into())?;
    cx.bound("X A symmetric", asym(&xa) / fr, c0, || "fourth Penrose condition".into())?;
    let idd = if m >= n { xa } else { ax };
    let q = idd.r;
    let df = Dm { r: q, c: q, d: idd.d.iter().zip(&Dm::id(q).d).map(|(a, b)| a - b).collect() };
    cx.bound("one-sided inverse", df.fro() / fr, c0, || "the product on the short side is not the identity".into())?;
    cx.saw("pseudo-inverses checked");
    Ok(())
}

// ------------------------------------------------------------------ eigenvalues

pub struct EigOut {
    pub d: Vec<f64>,
    pub e: Vec<f64>,
    pub v: Dm,
    pub dm: Dm,
}
pub fn eig_parts<T: Sc>(a: &Dm) -> Result<EigOut, String> {
    let m = a.mat::<T>();
    let g = must("eigendecomposition", || EigenDecomposition::new(&m))?;
    let d = must("real eigenvalues", || g.get_real_eigenvalues().clone())?;
    let e = must("imaginary eigenvalues", || g.get_imag_eigenvalues().clone())?;
    let v = must("eigenvectors", || g.get_v().clone())?;
    let dd = must("get_d", || g.get_d())?;
    Ok(EigOut { d: dv(&d)?, e: dv(&e)?, v: dm(&v)?, dm: dm(&dd)? })
}
fn eig_key(o: &EigOut) -> Vec<u64> {
    let mut k = bits(&[&o.v, &o.dm]);
    k.extend(o.d.iter().chain(&o.e).map(|x| x.bits()));
    k
}
fn eig_shape(n: usize, o: &EigOut) -> Res {
    if o.d.len() != n || o.e.len() != n || (o.v.r, o.v.c) != (n, n) || (o.dm.r, o.dm.c) != (n, n) {
        return Err(format!("eigendecomposition of order {}: {} real parts, {} imaginary parts, V {}x{}, D {}x{}", n, o.d.len(), o.e.len(), o.v.r, o.v.c, o.dm.r, o.dm.c));
    }
    if o.d.iter().chain(&o.e).any(|x| !x.is_finite()) || !o.v.finite() {
        return Err("eigendecomposition is not finite".into());
    }
    // complex values come as adjacent conjugate pairs, positive imaginary part first
    let mut j = 0;
    while j < n {
        if o.e[j] == 0.0 {
            j += 1;
            continue;
        }
        if !(o.e[j] > 0.0) || j + 1 >= n || o.d[j + 1] != o.d[j] || o.e[j + 1] != -o.e[j] {
            return Err(format!("complex eigenvalues do not form adjacent conjugate pairs at {}: {:?} / {:?}", j, o.d, o.e));
        }
        j += 2;
    }
    for i in 0..n {
        for j in 0..n {
            let want = if i == j { o.d[i] } else if o.e[i] > 0.0 && j == i + 1 { o.e[i] } else if o.e[i] < 0.0 && i == j + 1 { o.e[i] } else { 0.0 };
            if o.dm.at(i, j) != want {
                return Err(format!("D({},{}) is {:?}, eigenvalues say {:?}", i, j, o.dm.at(i, j), want));
            }
        }
    }
    Ok(())
}
fn c_symeig(cx: &mut Cx) -> Res {
    let n = dim(cx, 36);
    let f32s = cx.rng.chance(1, 4);
    let (a, kind) = symmetric(&mut cx.rng, n, if f32s { 16 } else { 50 });
    let e = expo(&mut cx.rng, if f32s { 20 } else { 200 });
    let a = fit(a.scale_pow2(e), f32s);
    symeig_case(cx, a, kind, e, f32s)
}
fn symeig_case(cx: &mut Cx, a: Dm, kind: &str, e: i32, f32s: bool) -> Res {
    let n = a.r;
    cx.hf(&a.d);
    cx.h(n as u64);
    cx.nontriv = n > 1 && a.maxabs() > 0.0;
    cx.desc(|| format!("{} 2^{}: {}", kind, e, a.show()));
    let o = twin!(cx, n, "symmetric eigendecomposition", f32s, eig_parts(&a), eig_key)?;
    let (eps, minp) = eps_of(f32s);
    eig_shape(n, &o)?;
    if let Some(i) = (0..n).find(|&i| o.e[i] != 0.0) {
        return Err(format!("symmetric matrix has an imaginary eigenvalue part at {}: {:?}", i, o.e[i]));
    }
    if let Some(i) = (1..n).find(|&i| !(o.d[i - 1] >= o.d[i])) {
        return Err(format!("eigenvalues of a symmetric matrix not in descending order at {}: {:?}", i, o.d));
    }
    let nf = n as f64;
    let c0 = 12.0 * (nf + 4.0) * (nf + 4.0).sqrt() * eps;
    cx.bound("|V'V - I|", orth_err(&o.v), c0, || "eigenvectors are not orthonormal".into())?;
    let av = mul(&a, &o.v);
    let r = mul_sub(&o.v, &o.dm, &av);
    cx.bound("|AV - VD|", r.fro(), c0 * a.fro() + 1e3 * nf * minp, || format!("eigenpairs do not satisfy A v = lambda v (norm {:e})", a.fro()))?;
    Ok(())
}

/// |trace(A^k) - sum lambda^k| for small k, on a matrix scaled to norm about 1.
fn power_sums(cx: &mut Cx, a: &Dm, o: &EigOut, eps: f64) -> Res {
    let n = a.r;
    let nf = n as f64;
    let f = a.fro();
    if f == 0.0 {
        if o.d.iter().any(|x| *x != 0.0) { return Err("zero matrix has a nonzero eigenvalue".into()); }
        return Ok(());
    }
    let b = Dm { r: n, c: n, d: a.d.iter().map(|x| x / f).collect() };
    let mut p = b.clone();
    let (mut zr, mut zi): (Vec<f64>, Vec<f64>) = (vec![1.0; n], vec![0.0; n]);
    for k in 1..=4u32 {
        if k > 1 { p = mul(&p, &b) }
        for j in 0..n {
            let (x, y) = (o.d[j] / f, o.e[j] / f);
            let (u, v) = (zr[j], zi[j]);
            zr[j] = u * x - v * y;
            zi[j] = u * y + v * x;
        }
        let tr: f64 = (0..n).map(|i| p.at(i, i)).sum();
        let s: f64 = zr.iter().sum();
        cx.bound("eigenvalue power sums", (tr - s).abs(), 12.0 * k as f64 * (nf + 3.0) * nf.sqrt().max(1.5) * eps, || format!("sum of lambda^{} is {:e}, trace of A^{} is {:e} (relative to the norm)", k, s, k, tr))?;
    }
    Ok(())
}
/// A v = lambda v column by column.
fn pairs(cx: &mut Cx, a: &Dm, o: &EigOut, eps: f64, minp: f64) -> Res {
    let n = a.r;
    let nf = n as f64;
    let av = mul(a, &o.v);
    let f = a.fro();
    let c0 = 60.0 * (nf + 3.0) * (nf + 3.0).sqrt() * eps;
    let mut j = 0;
    while j < n {
        if o.e[j] == 0.0 {
            let v = o.v.col(j);
            let vn = norm2(&v);
            if vn == 0.0 { return Err(format!("eigenvector {} is zero", j)); }
            let r: Vec<f64> = (0..n).map(|i| av.at(i, j) - o.d[j] * v[i]).collect();
            cx.bound("real eigenpair", norm2(&r), c0 * f * vn + 1e3 * minp * (vn + 1.0), || format!("A v differs from lambda v for eigenvalue {} = {:?}", j, o.d[j]))?;
            cx.saw("real eigenpairs");
            j += 1;
        } else {
            let (x, y) = (o.v.col(j), o.v.col(j + 1));
            let vn = (norm2(&x).powi(2) + norm2(&y).powi(2)).sqrt();
            if vn == 0.0 { return Err(format!("eigenvector pair {} is zero", j)); }
            let (p, q) = (o.d[j], o.e[j]);
            // A (x + iy) = (p + iq)(x + iy) up to the sign convention fixed by A V = V D
            let r1: Vec<f64> = (0..n).map(|i| av.at(i, j) - (p * x[i] - q * y[i])).collect();
            let r2: Vec<f64> = (0..n).map(|i| av.at(i, j + 1) - (q * x[i] + p * y[i])).collect();
            cx.bound("complex eigenpair", (norm2(&r1).powi(2) + norm2(&r2).powi(2)).sqrt(), c0 * f * vn + 1e3 * minp * (vn + 1.0), || format!("A V differs from V D for the pair at {} = {:?} +- {:?}i", j, p, q))?;
            cx.saw("complex eigenpairs");
            j += 2;
        }
    }
    Ok(())
}
fn c_eig(cx: &mut Cx) -> Res {
    let n = dim(cx, 30);
    let f32s = cx.rng.chance(1, 4);
    let (a, kind) = eig_square(&mut cx.rng, n, if f32s { 10 } else { 30 });
    let e = expo(&mut cx.rng, if f32s { 16 } else { 200 });
    let a = fit(a.scale_pow2(e), f32s);
    eig_case(cx, a, kind, e, f32s)
}
fn eig_case(cx: &mut Cx, a: Dm, kind: &str, e: i32, f32s: bool) -> Res {
    let n = a.r;
    let sym = (0..n).all(|i| (0..n).all(|j| a.at(i, j) == a.at(j, i)));
    cx.hf(&a.d);
    cx.h(n as u64);
    cx.nontriv = n > 1 && a.maxabs() > 0.0;
    cx.desc(|| format!("{} 2^{}: {}", kind, e, a.show()));
    cx.saw(if sym { "symmetric inputs" } else { "nonsymmetric inputs" });
    let o = twin!(cx, n, "eigendecomposition", f32s, eig_parts(&a), eig_key)?;
    let (eps, minp) = eps_of(f32s);
    eig_shape(n, &o)?;
    power_sums(cx, &a, &o, eps)?;
    pairs(cx, &a, &o, eps, minp)
}
/// Small integer and zero-one matrices: where exact ties, zero pivots and repeated values live.
fn c_eig_small(cx: &mut Cx) -> Res {
    let n = cx.rng.us(1, if cx.tier == Tier::Tiny { 4 } else { 7 });
    let b = *cx.rng.pick(&[1, 1, 2, 3]);
    let a = if cx.rng.chance(1, 2) { ints(&mut cx.rng, n, n, b) } else { sparse_ints(&mut cx.rng, n, n, b, 2) };
    let f32s = cx.rng.chance(1, 4);
    eig_case(cx, a, "small-int", 0, f32s)
}
/// Known, well separated, well conditioned spectrum: eigenvalues must match and eigenvectors be independent.
fn c_eig_known(cx: &mut Cx) -> Res {
    let n = cx.rng.us(1, if cx.tier == Tier::Tiny { 4 } else { 10 });
    let f32s = cx.rng.chance(1, 5);
    let mut d = Dm::zero(n, n);
    let mut want: Vec<(f64, f64)> = vec![];
    let mut i = 0;
    let ord = cx.rng.perm(n);
    while i < n {
        let base = (ord[i] as f64 - n as f64 / 2.0) * 2.0;
        if i + 1 < n && cx.rng.chance(1, 2) {
            let im = 0.5 + cx.rng.f01();
            d.set(i, i, base); d.set(i + 1, i + 1, base); d.set(i, i + 1, im); d.set(i + 1, i, -im);
            want.push((base, im));
            want.push((base, -im));
            i += 2;
        } else {
            d.set(i, i, base);
            want.push((base, 0.0));
            i += 1;
        }
    }
    let q = orth(&mut cx.rng, n);
    let mut a = mul(&mul(&q, &d), &q.t());
    // a mild non-orthogonal similarity keeps it nonsymmetric without hurting the conditioning
    let s: Vec<f64> = (0..n).map(|_| 1.0 + cx.rng.f01()).collect();
    for i in 0..n { for j in 0..n { let v = a.at(i, j) * s[i] / s[j]; a.set(i, j, v) } }
    let a = fit(a, f32s);
    cx.hf(&a.d);
    cx.nontriv = n > 1;
    cx.desc(|| format!("known spectrum {:?}: {}", want, a.show()));
    let o = twin!(cx, n, "eigendecomposition", f32s, eig_parts(&a), eig_key)?;
    let (eps, minp) = eps_of(f32s);
    eig_shape(n, &o)?;
    power_sums(cx, &a, &o, eps)?;
    pairs(cx, &a, &o, eps, minp)?;
    let tol = 200.0 * (n as f64 + 2.0) * (n as f64 + 2.0).sqrt() * eps * (a.fro() + 1.0);
    let mut used = vec![false; n];
    for w in &want {
        let k = (0..n).filter(|&k| !used[k]).min_by(|&x, &y| ((o.d[x] - w.0).hypot(o.e[x] - w.1)).partial_cmp(&((o.d[y] - w.0).hypot(o.e[y] - w.1))).unwrap()).unwrap();
        used[k] = true;
        cx.bound("known eigenvalue", (o.d[k] - w.0).hypot(o.e[k] - w.1), tol, || format!("eigenvalue {:?} missing from {:?} / {:?}", w, o.d, o.e))?;
    }
    // independent eigenvectors
    let mut v = o.v.clone();
    let mut j = 0;
    while j < n {
        let w = if o.e[j] != 0.0 { 2 } else { 1 };
        let s = (0..w).map(|t| norm2(&v.col(j + t)).powi(2)).sum::<f64>().sqrt();
        for t in 0..w { for i in 0..n { let x = v.at(i, j + t) / s; v.set(i, j + t, x) } }
        j += w;
    }
    let sv = jacobi_sv(&v);
    if !(sv[n - 1] > 0.01 / (n as f64)) {
        return Err(format!("eigenvectors are (nearly) dependent: smallest singular value {:e} although the eigenproblem is well conditioned", sv[n - 1]));
    }
    cx.saw("known spectra");
    Ok(())
}

// ------------------------------------------------------------------ direct SVD

fn c_direct(cx: &mut Cx) -> Res {
    let (m, n) = shape(cx, 20);
    let f32s = cx.rng.chance(1, 5);
    let cond = if f32s { 1.0 + 4.0 * cx.rng.f01() } else { 10f64.powf(2.0 * cx.rng.f01()) };
    let a = match cx.rng.below(4) {
        0 => { let k = m.min(n); let s: Vec<f64> = (0..k).map(|_| cx.rng.sign() * (1.0 + cx.rng.below(4) as f64)).collect(); mul(&signed_perm(&mut cx.rng, m), &mul(&diag_mn(m, n, &s), &signed_perm(&mut cx.rng, n))) }
        1 => { let mut a = uni(&mut cx.rng, m, n); for i in 0..m.min(n) { let v = a.at(i, i) + (m.max(n) as f64); a.set(i, i, v) } a }
        _ => with_cond(&mut cx.rng, m, n, cond),
    };
    let e = expo(&mut cx.rng, if f32s { 16 } else { 200 });
    let a = fit(a.scale_pow2(e), f32s);
    cx.hf(&a.d);
    cx.h((m * 1000 + n) as u64);
    cx.nontriv = m.min(n) > 1;
    cx.desc(|| format!("2^{}: {}", e, a.show()));
    let sv = jacobi_sv(&a.scale_pow2(-e));
    let k = sv[0] / sv[m.min(n) - 1];
    if k > (if f32s { 10.0 } else { 200.0 }) { cx.saw("skipped: too ill conditioned"); return Ok(()); }
    cx.saw(if m > n { "tall" } else if m < n { "wide" } else { "square" });
    let o = twin!(cx, m.max(n), "direct SVD", f32s, direct_parts(&a), svd_key)?;
    let (eps, _) = eps_of(f32s);
    // the longer side's factor is completed with zero columns, so only the shapes of S and the short side are fixed
    let (mm, nn) = (m.max(n), m.min(n));
    svd_shape(&a, &o)?;
    let short = if m >= n { &o.v } else { &o.u };
    let long = if m >= n { &o.u } else { &o.v };
    let d = (m + n) as f64 + 4.0;
    let c1 = 12.0 * d * d.sqrt() * eps;
    cx.bound("short factor orthogonal", orth_err(short), c1, || "factor on the short side is not orthogonal".into())?;
    let mut lead = Dm::zero(mm, nn);
    for i in 0..mm { for j in 0..nn { lead.set(i, j, long.at(i, j)) } }
    cx.bound("long factor orthonormal columns", orth_err(&lead), c1 * k * k * 2.0, || "leading columns of the long factor are not orthonormal".into())?;
    cx.bound("|USV' - A|", recon(&a, &o).fro(), c1 * a.fro() * (1.0 + k), || "does not reconstruct A".into())?;
    for i in 0..nn {
        let s = o.s.at(i, i) * 2f64.powi(-e);
        cx.bound("singular value", (s - sv[i]).abs(), c1 * sv[0] * (sv[0] / sv[i]), || format!("singular value {} is {:?}, reference {:?}", i, s, sv[i]))?;
    }
    cx.saw("direct decompositions checked");
    Ok(())
}

// ------------------------------------------------------------------ termination

fn steps_of<T: Sc>(a: &Dm, hostile: bool) -> Result<(Vec<(&'static str, u64)>, u64), String> {
    let m = a.mat::<T>();
    let n = a.r.max(a.c);
    let b = budget(n);
    let mut v = vec![];
    let mut refusals = 0;
    let mut go = |name: &'static str, f: &dyn Fn()| -> Res {
        let (r, s) = with_budget(b, || attempt(|| f()));
        match r {
            Ok(()) => { v.push((name, s)); Ok(()) }
            // out-of-range elements may be refused, never worked on forever
            Err(Fail::Panic(_)) if hostile => { v.push((name, s)); refusals += 1; Ok(()) }
            Err(f) => Err(format!("{} of a {}x{} {} matrix {}", name, a.r, a.c, T::NAME, f.text())),
        }
    };
    go("SVD", &|| { let _ = SVD::new(&m).rank(); })?;
    if a.r == a.c {
        go("eigendecomposition", &|| { let _ = EigenDecomposition::new(&m).get_d(); })?;
        go("Cholesky", &|| { let _ = CholeskyDecomposition::new(&m); })?;
        go("determinant", &|| { let _ = m.det(); })?;
        go("inverse", &|| { let _ = m.inverse(); })?;
        go("solve", &|| { let _ = m.solve(&m); })?;
    }
    go("LU", &|| { let _ = LUDecomposition::new(&m); })?;
    go("QR", &|| { let q = QRDecomposition::new(&m); let _ = q.get_q(); let _ = q.get_r(); })?;
    if a.r >= a.c { go("least squares", &|| { let _ = QRDecomposition::new(&m).solve(&m); })?; }
    if hostile {
        go("pinverse", &|| { let _ = m.pinverse(); })?;
        go("direct SVD", &|| { let _ = SVD::direct(&m); })?;
    }
    Ok((v, refusals))
}
fn term_case(cx: &mut Cx, a: Dm, kind: &str, f32s: bool, hostile: bool) -> Res {
    cx.hf(&a.d);
    cx.h((a.r * 1000 + a.c) as u64 + f32s as u64);
    cx.nontriv = a.r.max(a.c) > 1;
    cx.desc(|| format!("{} {}: {}", kind, if f32s { "f32" } else { "f64" }, a.show()));
    let (v, refusals) = if f32s { steps_of::<Mon<f32>>(&a, hostile)? } else { steps_of::<Mon<f64>>(&a, hostile)? };
    cx.add("refusals of out-of-range elements", refusals);
    let n = a.r.max(a.c);
    for (w, s) in v {
        cx.add("monitored arithmetic steps", s);
        cx.saw(&format!("{} runs", w));
        let r = s as f64 / budget(n) as f64;
        let e = cx.maxr.entry(format!("{} steps / budget", w)).or_insert(0.0);
        if r > *e { *e = r }
    }
    Ok(())
}
fn c_term_gen(cx: &mut Cx) -> Res {
    let (m, n) = shape(cx, 30);
    let f32s = cx.rng.chance(1, 2);
    let (a, kind) = general(&mut cx.rng, m, n, if f32s { 20 } else { 60 });
    let e = expo(&mut cx.rng, if f32s { 24 } else { 300 });
    let a = fit(a.scale_pow2(e), f32s);
    term_case(cx, a, kind, f32s, false)
}
fn c_term_eig(cx: &mut Cx) -> Res {
    let n = dim(cx, 28);
    let f32s = cx.rng.chance(1, 2);
    let (a, kind) = if cx.rng.chance(1, 4) { symmetric(&mut cx.rng, n, if f32s { 20 } else { 60 }) } else { eig_square(&mut cx.rng, n, if f32s { 12 } else { 30 }) };
    let e = expo(&mut cx.rng, if f32s { 16 } else { 200 });
    let a = fit(a.scale_pow2(e), f32s);
    term_case(cx, a, kind, f32s, false)
}
fn c_term_int(cx: &mut Cx) -> Res {
    let (m, n) = (cx.rng.us(1, 6), cx.rng.us(1, 6));
    let n = if cx.rng.chance(3, 4) { m } else { n };
    let (m, n) = if cx.tier == Tier::Tiny { (m.min(4), n.min(4)) } else { (m, n) };
    let k = *cx.rng.pick(&[1, 1, 2, 3]);
    let a = if cx.rng.chance(1, 2) { ints(&mut cx.rng, m, n, k) } else { sparse_ints(&mut cx.rng, m, n, k, 2) };
    let f32s = cx.rng.chance(1, 2);
    term_case(cx, a, "small-int", f32s, false)
}

/// Elements no decomposition can be expected to handle well: it still has to come to an end.
fn c_term_hostile(cx: &mut Cx) -> Res {
    let (m, n) = shape(cx, 12);
    let (m, n) = (m.min(330), n.min(330));
    let n = if cx.rng.chance(1, 2) { m } else { n };
    let f32s = cx.rng.chance(1, 2);
    let (mx, mn) = if f32s { (f32::MAX as f64, f32::MIN_POSITIVE as f64) } else { (f64::MAX, f64::MIN_POSITIVE) };
    let sub = if f32s { f32::from_bits(1) as f64 } else { f64::from_bits(1) };
    let (mut a, _) = if m == n && cx.rng.chance(1, 2) { eig_square(&mut cx.rng, n, 10) } else { general(&mut cx.rng, m, n, 20) };
    let kind = match cx.rng.below(6) {
        0 => {
            for _ in 0..cx.rng.us(1, 3) { let (i, j) = (cx.rng.below(m), cx.rng.below(n)); let v = *cx.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); a.set(i, j, v); if m == n && cx.rng.chance(1, 2) { a.set(j, i, v) } }
            cx.saw("inputs with NaN or infinity"); "nan-inf"
        }
        1 => {
            for v in a.d.iter_mut() { *v = cx.rng.sign() * mx * *cx.rng.pick(&[1.0, 0.5, 0.1, 1e-10]) }
            cx.saw("inputs that overflow"); "huge"
        }
        2 => {
            for v in a.d.iter_mut() { *v = cx.rng.sign() * sub * cx.rng.below(9) as f64 }
            cx.saw("subnormal inputs"); "subnormal"
        }
        3 => {
            let all = [0.0, 1.0, mx, -mx, mn, -mn, sub, 1.0 / mn, mx.sqrt(), mn.sqrt(), -1.0, 3.0, -sub, 0.0];
            for v in a.d.iter_mut() { *v = *cx.rng.pick(&all) }
            cx.saw("inputs across the whole range"); "mixed extremes"
        }
        4 => {
            // a block at the bottom of the range below a moderate one, or the other way round
            let k = cx.rng.below(m + 1);
            let s = if cx.rng.chance(1, 2) { mn * 1e3 } else { mx / 1e3 };
            for i in 0..m { for j in 0..n { if (i < k) == (j < k) { if i >= k { let v = a.at(i, j) * s; a.set(i, j, v) } } else { a.set(i, j, 0.0) } } }
            cx.saw("inputs across the whole range"); "blocks"
        }
        _ => {
            let s = *cx.rng.pick(&[mx.sqrt(), mn.sqrt(), mn * 8.0, mx / 64.0, sub * 64.0]);
            for v in a.d.iter_mut() { *v *= s }
            cx.saw("inputs across the whole range"); "scaled"
        }
    };
    if m == n && cx.rng.chance(1, 3) { for i in 0..n { for j in 0..i { let v = a.at(j, i); a.set(i, j, v) } } }
    term_case(cx, fit(a, f32s), kind, f32s, true)
}

// ------------------------------------------------------------------ independent routes agree

fn dets<T: Sc>(a: &Dm) -> Result<(f64, Vec<f64>, Vec<f64>, Vec<f64>, f64, f64), String> {
    let m = a.mat::<T>();
    let d = must("det", || m.det())?.f();
    let s = must("SVD", || SVD::new(&m).get_s().clone())?;
    let s = dm(&s)?;
    let g = eig_parts::<T>(a)?;
    let (tr, fr) = must("trace and Frobenius norm", || (m.trace(), m.frobenius_norm()))?;
    Ok((d, (0..a.r).map(|i| s.at(i, i)).collect(), g.d, g.e, tr.f(), fr.f()))
}
fn prod_range(v: &[f64], lim: f64) -> bool {
    let (mut up, mut dn) = (0.0, 0.0);
    for x in v { let x = x.abs(); if x > 1.0 { up += x.log2() } else if x > 0.0 { dn -= x.log2() } }
    up < lim && dn < lim
}
fn c_agree_det(cx: &mut Cx) -> Res {
    let n = cx.rng.us(1, if cx.tier == Tier::Tiny { 4 } else { 14 });
    let f32s = cx.rng.chance(1, 5);
    let (a, kind) = if cx.rng.chance(1, 2) { eig_square(&mut cx.rng, n, 10) } else { general(&mut cx.rng, n, n, 10) };
    let a = fit(a, f32s);
    cx.hf(&a.d);
    cx.nontriv = n > 1;
    cx.desc(|| format!("{}: {}", kind, a.show()));
    let (d, s, lr, li, tr, fr) = if f32s { dets::<f32>(&a)? } else { dets::<f64>(&a)? };
    let (eps, minp) = eps_of(f32s);
    if !prod_range(&s, if f32s { 100.0 } else { 900.0 }) { cx.saw("range skips"); return Ok(()); }
    // each product is the determinant of a matrix within eta of A
    let nf = n as f64;
    let f = a.fro();
    let eta = 40.0 * (nf + 3.0) * (nf + 3.0).sqrt() * eps * f;
    cx.bound("trace vs sum of eigenvalues", (tr - lr.iter().sum::<f64>()).abs(), eta * nf.sqrt(), || format!("trace {:e}, eigenvalues {:?}", tr, lr))?;
    cx.bound("sum of imaginary parts", li.iter().sum::<f64>().abs(), 4.0 * nf * eps * f, || format!("{:?}", li))?;
    cx.bound("Frobenius norm vs singular values", (fr - norm2(&s)).abs(), eta, || format!("{:e} vs {:e}", fr, norm2(&s)))?;
    // perturbation of |det| under |E| <= eta: prod(s_i + eta) - prod(s_i)
    let p0: f64 = s.iter().product();
    let p1: f64 = s.iter().map(|x| x + eta).product();
    let tol = (p1 - p0) + 1e3 * minp;
    cx.bound("det vs product of singular values", (d.abs() - p0).abs(), 2.0 * tol, || format!("|det| {:e}, product {:e}", d.abs(), p0))?;
    let (mut re, mut im) = (1.0f64, 0.0f64);
    for j in 0..n { let (x, y) = (lr[j], li[j]); let t = re * x - im * y; im = re * y + im * x; re = t; }
    cx.bound("det vs product of eigenvalues", (d - re).hypot(im), 2.0 * tol, || format!("det {:e}, product of eigenvalues {:e} + {:e}i", d, re, im))?;
    if p1 < 1.5 * p0 { cx.saw("signs compared"); }
    // spectral radius bound and Frobenius identity tie the two spectra together
    let rho = (0..n).map(|j| lr[j].hypot(li[j])).fold(0.0, f64::max);
    if rho > s[0] + eta { return Err(format!("spectral radius {:e} exceeds the largest singular value {:e}", rho, s[0])); }
    let sf = norm2(&s);
    cx.bound("singular values vs Frobenius norm", (sf - f).abs(), eta, || format!("{:e} vs {:e}", sf, f))?;
    Ok(())
}
fn traces<T: Sc>(a: &Dm) -> Result<(f64, f64, Vec<f64>, Vec<f64>), String> {
    let m = a.mat::<T>();
    let tr = must("trace", || m.trace())?.f();
    let fr = must("frobenius_norm", || m.frobenius_norm())?.f();
    let g = eig_parts::<T>(a)?;
    Ok((tr, fr, g.d, g.e))
}
/// the sums that tie the spectrum to the matrix, at any order
fn c_agree_trace(cx: &mut Cx) -> Res {
    let n = dim(cx, 44);
    let f32s = cx.rng.chance(1, 5);
    let (a, kind) = match cx.rng.below(3) { 0 => symmetric(&mut cx.rng, n, 10), 1 => eig_square(&mut cx.rng, n, 10), _ => (uni(&mut cx.rng, n, n), "uniform") };
    let a = fit(a, f32s);
    cx.hf(&a.d);
    cx.nontriv = n > 1;
    cx.desc(|| format!("{}: {}", kind, a.show()));
    let (tr, fr, lr, li) = if f32s { traces::<f32>(&a)? } else { traces::<f64>(&a)? };
    let (eps, _) = eps_of(f32s);
    let nf = n as f64;
    let f = a.fro();
    cx.bound("Frobenius norm", (fr - f).abs(), (nf * nf + 4.0) * eps * f, || format!("{:e} vs {:e}", fr, f))?;
    let eta = 20.0 * (nf + 3.0) * (nf + 3.0).sqrt() * eps * f;
    cx.bound("trace vs sum of eigenvalues, any order", (tr - lr.iter().sum::<f64>()).abs(), eta, || format!("trace {:e}, eigenvalues {:?}", tr, lr))?;
    cx.bound("sum of imaginary parts", li.iter().sum::<f64>().abs(), 4.0 * nf * eps * f, || format!("{:?}", li))?;
    cx.saw("traces compared");
    Ok(())
}
fn routes<T: Sc>(a: &Dm, b: &Dm, spd: bool) -> Result<Vec<(&'static str, Dm)>, String> {
    let m = a.mat::<T>();
    let bm = b.mat::<T>();
    let mut v = vec![];
    let none = |s: &str| format!("{} refused a well conditioned system", s);
    v.push(("Matrix::solve", dm(&must("solve", || m.solve(&bm))?.ok_or_else(|| none("solve"))?)?));
    v.push(("QR solve", dm(&must("QR solve", || QRDecomposition::new(&m).solve(&bm))?.ok_or_else(|| none("QR solve"))?)?));
    let inv = must("inverse", || m.inverse())?.ok_or_else(|| none("inverse"))?;
    v.push(("inverse times B", dm(&must("product", || &inv * &bm)?)?));
    let pi = must("pinverse", || m.pinverse())?;
    v.push(("pseudo-inverse times B", dm(&must("product", || &pi * &bm)?)?));
    if spd {
        let c = must("Cholesky", || CholeskyDecomposition::new(&m))?.ok_or_else(|| none("Cholesky"))?;
        v.push(("Cholesky solve", dm(&must("Cholesky solve", || c.solve(&bm))?)?));
    }
    Ok(v)
}
fn c_agree_solve(cx: &mut Cx) -> Res {
    let n = dim(cx, 20);
    let f32s = cx.rng.chance(1, 5);
    let spd_ = cx.rng.chance(1, 2);
    let cond = if f32s { 3.0 } else { 20.0 };
    let a = if spd_ {
        let q = orth(&mut cx.rng, n);
        let s: Vec<f64> = (0..n).map(|_| 1.0 + cx.rng.f01() * (cond - 1.0)).collect();
        let a = mul(&mul(&q, &diag_mn(n, n, &s)), &q.t());
        let a = fit(a, f32s);
        let mut b = a.clone();
        for i in 0..n { for j in 0..i { let v = a.at(i, j); b.set(j, i, v) } }
        b
    } else { with_cond(&mut cx.rng, n, n, cond) };
    let a = fit(a, f32s);
    let nb = cx.rng.us(1, 3);
    let b = if cx.rng.chance(1, 2) { ints(&mut cx.rng, n, nb, 5) } else { uni(&mut cx.rng, n, nb) };
    let b = fit(b, f32s);
    cx.hf(&a.d);
    cx.hf(&b.d);
    cx.nontriv = n > 1;
    cx.desc(|| format!("{} A={} B={}", if spd_ { "spd" } else { "general" }, a.show(), b.show()));
    let rs = if f32s { routes::<f32>(&a, &b, spd_)? } else { routes::<f64>(&a, &b, spd_)? };
    let (eps, _) = eps_of(f32s);
    let Some(inv) = dd_det_inv(&a).1 else { return Err("INCONCLUSIVE reference inverse".into()) };
    let want = mul(&inv, &b);
    let nf = n as f64;
    for (w, x) in rs {
        if (x.r, x.c) != (n, nb) { return Err(format!("{} gives a {}x{} result", w, x.r, x.c)); }
        let k = cond.powi(if w.starts_with("pseudo") { 4 } else { 2 });
        let d = Dm { r: n, c: nb, d: x.d.iter().zip(&want.d).map(|(a, b)| a - b).collect() };
        cx.bound(&format!("{} vs reference", w), d.fro(), 30.0 * (nf + 2.0) * nf.sqrt() * eps * k * (want.fro() + b.fro()), || format!("{} disagrees with the other ways of solving the same system", w))?;
    }
    cx.saw(if spd_ { "systems solved five ways" } else { "systems solved four ways" });
    Ok(())
}
fn spectra<T: Sc>(a: &Dm) -> Result<(Vec<f64>, Vec<f64>, Vec<f64>, usize, usize), String> {
    let s = svd_parts::<T>(a)?;
    let st = svd_parts::<T>(&a.t())?;
    let k = a.r.min(a.c);
    let g = if a.r == a.c && *a == a.t() { eig_parts::<T>(a)?.d } else { vec![] };
    Ok(((0..k).map(|i| s.s.at(i, i)).collect(), (0..k).map(|i| st.s.at(i, i)).collect(), g, s.rank, st.rank))
}
fn c_agree_spec(cx: &mut Cx) -> Res {
    let f32s = cx.rng.chance(1, 5);
    let a = if cx.rng.chance(1, 2) { let n = dim(cx, 24); symmetric(&mut cx.rng, n, 12).0 } else { let (m, n) = shape(cx, 24); general(&mut cx.rng, m, n, 12).0 };
    let a = fit(a, f32s);
    cx.hf(&a.d);
    cx.h(a.r as u64);
    cx.nontriv = a.r.min(a.c) > 1;
    cx.desc(|| a.show());
    let (s, st, mut g, _, _) = if f32s { spectra::<f32>(&a)? } else { spectra::<f64>(&a)? };
    let (eps, minp) = eps_of(f32s);
    let d = a.r.max(a.c) as f64 + 3.0;
    let eta = 40.0 * d * d.sqrt() * eps * a.fro() + 1e3 * minp;
    for i in 0..s.len() {
        cx.bound("singular values of the transpose", (s[i] - st[i]).abs(), eta, || format!("{}: {:e} vs {:e}", i, s[i], st[i]))?;
    }
    if !g.is_empty() {
        g.iter_mut().for_each(|x| *x = x.abs());
        g.sort_by(|x, y| y.partial_cmp(x).unwrap());
        for i in 0..s.len() {
            cx.bound("singular values vs |eigenvalues| (symmetric)", (s[i] - g[i]).abs(), eta, || format!("{}: {:e} vs {:e}", i, s[i], g[i]))?;
        }
        cx.saw("symmetric spectra compared");
    }
    Ok(())
}
fn full_rank<T: Sc>(a: &Dm) -> Result<(usize, bool, Option<bool>), String> {
    let m = a.mat::<T>();
    let r = must("SVD rank", || SVD::new(&m).rank())?;
    let f = must("is_full_rank", || QRDecomposition::new(&m).is_full_rank())?;
    let s = if a.r == a.c { Some(must("is_singular", || m.is_singular())?) } else { None };
    Ok((r, f, s))
}
/// rank, full-rank and singularity verdicts on matrices where they cannot differ
fn c_agree_rank(cx: &mut Cx) -> Res {
    let (m, n) = shape(cx, 16);
    let f32s = cx.rng.chance(1, 5);
    let deficient = cx.rng.chance(1, 2);
    let mut a = with_cond(&mut cx.rng, m, n, 10.0);
    if deficient {
        // a zero column survives every algorithm exactly
        let j = cx.rng.below(n);
        for i in 0..m { a.set(i, j, 0.0) }
    }
    let a = fit(a, f32s);
    cx.hf(&a.d);
    cx.nontriv = m.min(n) > 1;
    cx.desc(|| a.show());
    let (r, f, s) = if f32s { full_rank::<f32>(&a)? } else { full_rank::<f64>(&a)? };
    let full = !deficient && m >= n;
    if f != full { return Err(format!("is_full_rank says {}, should be {}", f, full)); }
    if m >= n && (r == n) != full { return Err(format!("rank {} of a {}x{} matrix, full column rank is {}", r, m, n, full)); }
    if let Some(s) = s { if s == full { return Err(format!("is_singular says {}, full rank is {}", s, full)); } }
    cx.saw("rank verdicts compared");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            rule: "random/structured/degenerate matrices of every shape, scaled by 2^-300..2^300, f32 and f64; non-trivial: both dimensions above 1 and not all zero",
            fams: vec![
                Fam { name: "svd", tiny: 12, quick: 8000, thorough: 250000, f: c_svd },
                Fam { name: "bidiagonal", tiny: 12, quick: 12000, thorough: 400000, f: c_svd_bidiag },
                Fam { name: "large", tiny: 1, quick: 6, thorough: 400, f: big!(c_svd) },
            ],
            need: vec!["tall", "wide", "square", "exactly zero singular values", "f32 runs", "f64 runs"],
        },
        Prop {
            id: "C15",
            rule: "matrices of known rank with a clear gap (exact integers, prescribed spectra, scattered diagonals, repeated rows); non-trivial: both dimensions above 1",
            fams: vec![
                Fam { name: "rank", tiny: 12, quick: 10000, thorough: 300000, f: c_rank },
                Fam { name: "large", tiny: 1, quick: 6, thorough: 400, f: big!(c_rank) },
            ],
            need: vec!["tall", "wide", "square", "rank-deficient matrices", "full-rank matrices"],
        },
        Prop {
            id: "C16",
            rule: "full-rank matrices of every shape with condition below 60 (f32: 6); non-trivial: both dimensions above 1",
            fams: vec![
                Fam { name: "pinv", tiny: 10, quick: 10000, thorough: 250000, f: c_pinv },
                Fam { name: "large", tiny: 1, quick: 4, thorough: 400, f: big!(c_pinv) },
            ],
            need: vec!["tall", "wide", "square", "pseudo-inverses checked"],
        },
        Prop {
            id: "C17",
            rule: "symmetric matrices (random, integer, clustered, graded, tridiagonal, block, low rank), f32 and f64; non-trivial: order above 1 and not all zero",
            fams: vec![
                Fam { name: "symeig", tiny: 15, quick: 16000, thorough: 400000, f: c_symeig },
                Fam { name: "large", tiny: 1, quick: 6, thorough: 400, f: big!(c_symeig) },
            ],
            need: vec!["f32 runs", "f64 runs"],
        },
        Prop {
            id: "C18",
            rule: "square matrices aimed at the nonsymmetric iteration (permutations, complex and defective blocks, companion, nilpotent, stochastic, integer); non-trivial: order above 1 and not all zero",
            fams: vec![
                Fam { name: "eig", tiny: 15, quick: 12000, thorough: 350000, f: c_eig },
                Fam { name: "small-int", tiny: 10, quick: 12000, thorough: 500000, f: c_eig_small },
                Fam { name: "known", tiny: 6, quick: 6000, thorough: 200000, f: c_eig_known },
                Fam { name: "large", tiny: 1, quick: 6, thorough: 400, f: big!(c_eig) },
            ],
            need: vec!["nonsymmetric inputs", "symmetric inputs", "real eigenpairs", "complex eigenpairs", "known spectra"],
        },
        Prop {
            id: "C19",
            rule: "full-rank matrices of every shape with condition below 200 (f32: 10); non-trivial: both dimensions above 1",
            fams: vec![
                Fam { name: "direct", tiny: 10, quick: 10000, thorough: 250000, f: c_direct },
                Fam { name: "large", tiny: 1, quick: 6, thorough: 400, f: big!(c_direct) },
            ],
            need: vec!["tall", "wide", "square", "direct decompositions checked"],
        },
        Prop {
            id: "C20",
            rule: "every decomposition of general, eigenvalue-hostile and small-integer matrices on a step-counting scalar, both precisions; non-trivial: some dimension above 1",
            fams: vec![
                Fam { name: "general", tiny: 10, quick: 8000, thorough: 250000, f: c_term_gen },
                Fam { name: "eig", tiny: 10, quick: 10000, thorough: 300000, f: c_term_eig },
                Fam { name: "small-int", tiny: 10, quick: 30000, thorough: 1500000, f: c_term_int },
                Fam { name: "hostile", tiny: 10, quick: 15000, thorough: 600000, f: c_term_hostile },
                Fam { name: "large", tiny: 1, quick: 10, thorough: 150, f: big!(c_term_gen) },
                Fam { name: "large-eig", tiny: 1, quick: 10, thorough: 150, f: big!(c_term_eig) },
                Fam { name: "large-hostile", tiny: 1, quick: 10, thorough: 150, f: big!(c_term_hostile) },
            ],
            need: vec!["inputs with NaN or infinity", "inputs that overflow", "subnormal inputs", "inputs across the whole range", "SVD runs", "eigendecomposition runs", "Cholesky runs", "LU runs", "QR runs", "determinant runs", "inverse runs"],
        },
        Prop {
            id: "C27",
            rule: "the same quantity obtained along independent routes; non-trivial: order above 1",
            fams: vec![
                Fam { name: "det", tiny: 8, quick: 12000, thorough: 300000, f: c_agree_det },
                Fam { name: "solve", tiny: 8, quick: 8000, thorough: 200000, f: c_agree_solve },
                Fam { name: "spectra", tiny: 8, quick: 8000, thorough: 200000, f: c_agree_spec },
                Fam { name: "rank", tiny: 8, quick: 8000, thorough: 200000, f: c_agree_rank },
                Fam { name: "trace", tiny: 4, quick: 4000, thorough: 100000, f: c_agree_trace },
                Fam { name: "large-trace", tiny: 1, quick: 4, thorough: 200, f: big!(c_agree_trace) },
                Fam { name: "large-solve", tiny: 1, quick: 4, thorough: 200, f: big!(c_agree_solve) },
                Fam { name: "large-spectra", tiny: 1, quick: 4, thorough: 200, f: big!(c_agree_spec) },
                Fam { name: "large-rank", tiny: 1, quick: 4, thorough: 200, f: big!(c_agree_rank) },
            ],
            need: vec!["signs compared", "systems solved five ways", "systems solved four ways", "symmetric spectra compared", "rank verdicts compared", "traces compared"],
        },
    ]
}
#[allow(dead_code)]
fn _keep(_: Matrix<f64>) {}
