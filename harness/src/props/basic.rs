//! Element-wise arithmetic, products, refusals, norms, comparisons, random matrices.
use crate::exact::*;
use crate::fw::*;
use crate::gen::*;
use crate::lin::*;
use crate::mon::{Mon, Sc};
use crate::props::decomp::{eps_of, fit};
use la::{ApproxEq, CholeskyDecomposition, EigenDecomposition, LUDecomposition, Matrix, QRDecomposition};
use num::Zero;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

type M = Matrix<Mon<Fp>>;

// ------------------------------------------------------------------ C04: element-wise arithmetic

fn c_elem(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    let (ma, mb) = (fps(cx, r, c), fps(cx, r, c));
    let (a, b) = (ma.real(), mb.real());
    let k = if cx.rng.chance(1, 5) { Fp::of(cx.rng.below(3) as u64) } else { Fp::of(cx.rng.u()) };
    let mk = Mon::mk(k);
    cx.h((r * 1000 + c) as u64);
    cx.h(ma.d[0].0 as u64);
    cx.nontriv = r * c > 1;
    let op = cx.rng.below(8);
    cx.h(op as u64);
    cx.desc(|| format!("operation {} on {}x{}", op, r, c));
    // by reference, by value, in place: one meaning
    macro_rules! forms { ($nm:expr, $want:expr, [$($e:expr),*], [$($f:expr),*]) => {{
        let want: Mx<Fp> = $want;
        $( same(concat!($nm, ": ", stringify!($e)), &must($nm, || $e)?, &want)?; cx.saw("forms compared"); )*
        $( { let mut t = a.clone(); must($nm, || { let f: &dyn Fn(&mut M) = &$f; f(&mut t) })?; same(concat!($nm, ": ", stringify!($f)), &t, &want)?; cx.saw("forms compared"); } )*
    }} }
    match op {
        0 => forms!("addition", ma.zip(&mb, |x, y| x + y), [&a + &b, &a + b.clone(), a.clone() + &b, a.clone() + b.clone()], [|t: &mut M| t.madd(&b)]),
        1 => forms!("subtraction", ma.zip(&mb, |x, y| x - y), [&a - &b, &a - b.clone(), a.clone() - &b, a.clone() - b.clone()], [|t: &mut M| t.msub(&b)]),
        2 => forms!("negation", ma.map(|x| -x), [-&a, -(a.clone())], [|t: &mut M| t.mneg()]),
        3 => forms!("scaling", ma.map(|x| k * x), [a.scale(mk)], [|t: &mut M| t.mscale(mk)]),
        4 => forms!("element product", ma.zip(&mb, |x, y| x * y), [a.elem_mul(&b)], [|t: &mut M| t.melem_mul(&b)]),
        5 => {
            let mut mb = mb.clone();
            for x in mb.d.iter_mut() { if x.is_zero() { *x = Fp(3) } }
            let b = mb.real();
            forms!("element quotient", ma.zip(&mb, |x, y| x / y), [a.elem_div(&b)], [|t: &mut M| t.melem_div(&b)])
        }
        6 => {
            forms!("map", ma.map(|x| x * x + k), [a.map(&|x| *x * *x + mk)], [|t: &mut M| t.mmap(&|x| *x * *x + mk)]);
            // once for each element, whatever the function is and does
            let seen: RefCell<Vec<u32>> = RefCell::new(vec![]);
            let s = must("map", || a.map(&|x| { seen.borrow_mut().push(x.get().0); Mon::mk(seen.borrow().len() as u64) }))?;
            once(cx, "map", &ma, seen.into_inner(), s.get_data().iter().map(|x| x.get()).collect())?;
            let seen: RefCell<Vec<u32>> = RefCell::new(vec![]);
            let mut s = a.clone();
            must("mmap", || s.mmap(&|x| { seen.borrow_mut().push(x.get().0); Mon::mk(Fp(seen.borrow().len() as u32)) }))?;
            once(cx, "mmap", &ma, seen.into_inner(), s.get_data().iter().map(|x| x.get().0 as u64).collect())?;
            // to another element type
            let s: Matrix<Mon<(u8, u32)>> = must("map", || a.map(&|x| Mon::mk(((x.get().0 % 7) as u8, x.get().0 ^ 5))))?;
            same("map to another type", &s, &ma.map(|x| ((x.0 % 7) as u8, x.0 ^ 5)))?;
            // a function that itself maps, folds and adds matrices, this one among them
            if r * c <= 60 {
                let inner = |x: Mon<Fp>| { let t = &a + &b; let u = t.map(&|y| *y * x); let v = u.reduce(&vec![x; c], &|s, y| *s * mk + *y); v.get(0, c - 1) };
                let want = ma.map(|x| (0..r).fold(x, |s, i| s * k + (ma.at(i, c - 1) + mb.at(i, c - 1)) * x));
                forms!("map within map", want.clone(), [a.map(&|x| inner(*x))], [|t: &mut M| t.mmap(&|x| inner(*x))]);
                cx.saw("functions that use matrices");
            }
            let s: Matrix<Mon<bool>> = must("map", || a.map(&|x| Mon::mk(x.get().0 % 2 == 0)))?;
            same("map to bool", &s, &ma.map(|x| x.0 % 2 == 0))?;
        }
        _ => {
            // fold down every column, top row first; the fold does not commute and changes the type
            let init = fps(cx, 1, c);
            let iv: Vec<Mon<Fp>> = init.d.iter().map(|x| Mon::mk(*x)).collect();
            let calls = Cell::new(0);
            let g = must("reduce", || a.reduce(&iv, &|s: &Mon<Fp>, x: &Mon<Fp>| { calls.set(calls.get() + 1); *s * mk + *x }))?;
            if calls.get() != r * c { return Err(format!("reduce called the function {} times for {} elements", calls.get(), r * c)) }
            same("reduce", &g, &Mx::from(1, c, |_, j| (0..r).fold(init.d[j], |s, i| s * k + ma.at(i, j))))?;
            if r * c <= 60 {
                let g = must("reduce", || a.reduce(&iv, &|s: &Mon<Fp>, x: &Mon<Fp>| *s * b.reduce(&iv, &|p: &Mon<Fp>, q: &Mon<Fp>| *p * mk + *q).get(0, 0) + *x))?;
                let f = (0..r).fold(init.d[0], |s, i| s * k + mb.at(i, 0));
                same("reduce within reduce", &g, &Mx::from(1, c, |_, j| (0..r).fold(init.d[j], |s, i| s * f + ma.at(i, j))))?;
            }
            let iv: Vec<Mon<(u64, u16)>> = (0..c).map(|j| Mon::mk((j as u64, 0))).collect();
            let g = must("reduce", || a.reduce(&iv, &|s: &Mon<(u64, u16)>, x: &Mon<Fp>| { let (h, n) = s.get(); Mon::mk((crate::rng::mix(h ^ x.get().0 as u64), n + 1)) }))?;
            same("reduce to another type", &g, &Mx::from(1, c, |_, j| (0..r).fold((j as u64, 0u16), |s, i| (crate::rng::mix(s.0 ^ ma.at(i, j).0 as u64), s.1 + 1))))?;
        }
    }
    same("left operand", &a, &ma)?;
    same("right operand", &b, &mb)?;
    cx.saw(&format!("element operation {}", op));
    Ok(())
}
/// Call number k of the function got `seen[k]` and its result is the element holding k + 1.
fn once(cx: &mut Cx, what: &str, m: &Mx<Fp>, seen: Vec<u32>, got: Vec<u64>) -> Res {
    if seen.len() != m.d.len() { return Err(format!("{} called the function {} times for {} elements", what, seen.len(), m.d.len())) }
    for i in 0..got.len() {
        let k = got[i] as usize;
        if k == 0 || k > seen.len() || seen[k - 1] != m.d[i].0 { return Err(format!("{}: element {} holds the result of call {}, which was not given this element", what, i, k)) }
    }
    cx.add("function calls followed", seen.len() as u64);
    Ok(())
}
/// Over terms, where no law of arithmetic holds: which operation was applied to what, in which order.
fn c_elem_term(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    let gen = |cx: &mut Cx| Mx { r, c, d: (0..r * c).map(|_| if cx.rng.chance(1, 8) { Tm(cx.rng.below(3) as u64) } else { Tm(cx.rng.u()) }).collect::<Vec<Tm>>() };
    let (ma, mb) = (gen(cx), gen(cx));
    type T = Matrix<Mon<Tm>>;
    let (a, b): (T, T) = (ma.real(), mb.real());
    let k = if cx.rng.chance(1, 3) { Tm(cx.rng.below(2) as u64) } else { Tm(cx.rng.u()) };
    cx.h((r * 1000 + c) as u64);
    cx.h(ma.d[0].0);
    cx.nontriv = r * c > 1;
    cx.desc(|| format!("terms, {}x{}", r, c));
    let ip = |f: &dyn Fn(&mut T)| -> Result<T, String> { let mut t = a.clone(); must("in-place operation", || f(&mut t))?; Ok(t) };
    for (what, g, want) in vec![
        ("&a + &b", must("+", || &a + &b)?, ma.zip(&mb, |x, y| x + y)),
        ("a + &b", must("+", || a.clone() + &b)?, ma.zip(&mb, |x, y| x + y)),
        ("&a + b", must("+", || &a + b.clone())?, ma.zip(&mb, |x, y| x + y)),
        ("a + b", must("+", || a.clone() + b.clone())?, ma.zip(&mb, |x, y| x + y)),
        ("madd", ip(&|t| t.madd(&b))?, ma.zip(&mb, |x, y| x + y)),
        ("&a - &b", must("-", || &a - &b)?, ma.zip(&mb, |x, y| x - y)),
        ("a - &b", must("-", || a.clone() - &b)?, ma.zip(&mb, |x, y| x - y)),
        ("&a - b", must("-", || &a - b.clone())?, ma.zip(&mb, |x, y| x - y)),
        ("a - b", must("-", || a.clone() - b.clone())?, ma.zip(&mb, |x, y| x - y)),
        ("msub", ip(&|t| t.msub(&b))?, ma.zip(&mb, |x, y| x - y)),
        ("elem_mul", must("elem_mul", || a.elem_mul(&b))?, ma.zip(&mb, |x, y| x * y)),
        ("melem_mul", ip(&|t| t.melem_mul(&b))?, ma.zip(&mb, |x, y| x * y)),
        ("elem_div", must("elem_div", || a.elem_div(&b))?, ma.zip(&mb, |x, y| x / y)),
        ("melem_div", ip(&|t| t.melem_div(&b))?, ma.zip(&mb, |x, y| x / y)),
        ("-&a", must("negation", || -&a)?, ma.map(|x| -x)),
        ("-a", must("negation", || -a.clone())?, ma.map(|x| -x)),
        ("mneg", ip(&|t| t.mneg())?, ma.map(|x| -x)),
    ] {
        same(what, &g, &want)?;
    }
    // scaling: the factor may stand on either side, but always on the same one
    let mk = Mon::mk(k);
    let (s, t) = (must("scale", || a.scale(mk))?, ip(&|t| t.mscale(mk))?);
    let left = same("scale", &s, &ma.map(|x| k * x));
    if left.is_err() && same("scale", &s, &ma.map(|x| x * k)).is_err() { return left }
    if left.is_ok() { same("mscale", &t, &ma.map(|x| k * x))? } else { same("mscale", &t, &ma.map(|x| x * k))? }
    cx.add("operations over terms", 19);
    Ok(())
}
/// The same over floating point and machine integers: one IEEE operation per element is exact to compare.
fn c_elem_native(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    cx.h((r * 1000 + c) as u64);
    cx.nontriv = r * c > 1;
    let n = r * c;
    let special = cx.rng.chance(1, 3);
    let gen = |cx: &mut Cx| -> Vec<f64> {
        (0..n).map(|_| if special && cx.rng.chance(1, 4) { *cx.rng.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, 5e-324, -1.0]) } else { cx.rng.pm1() * 2f64.powi(cx.rng.range(-30, 30) as i32) }).collect()
    };
    let (x, y) = (gen(cx), gen(cx));
    let k = if cx.rng.chance(1, 3) { cx.saw("special scaling factors"); *cx.rng.pick(&[0.0, -0.0, 1.0, -1.0, 2.0, f64::INFINITY, f64::NAN, f64::MAX, 5e-324]) } else { cx.rng.pm1() * 8.0 };
    cx.hf(&x[..n.min(4)]);
    cx.desc(|| format!("floating point {}x{}{}", r, c, if special { " with special values" } else { "" }));
    if special { cx.saw("special values") }
    let (a, b) = (Matrix::new(r, c, x.clone()), Matrix::new(r, c, y.clone()));
    let chk = |w: &str, m: Matrix<f64>, f: &dyn Fn(f64, f64) -> f64| -> Res {
        if (m.rows(), m.get_data().len()) != (r, n) { return Err(format!("{}: wrong shape", w)) }
        for i in 0..n {
            let (g, e) = (m.get_data()[i], f(x[i], y[i]));
            if !(g.to_bits() == e.to_bits() || g.is_nan() && e.is_nan()) { return Err(format!("{}: element {} of {}x{}: {:?} and {:?} gave {:?}, should be {:?}", w, i, r, c, x[i], y[i], g, e)) }
        }
        Ok(())
    };
    let ip = |f: &dyn Fn(&mut Matrix<f64>)| -> Result<Matrix<f64>, String> { let mut t = a.clone(); must("in-place operation", || f(&mut t))?; Ok(t) };
    chk("+", must("+", || &a + &b)?, &|p, q| p + q)?;
    chk("-", must("-", || &a - &b)?, &|p, q| p - q)?;
    chk("elem_mul", must("elem_mul", || a.elem_mul(&b))?, &|p, q| p * q)?;
    chk("elem_div", must("elem_div", || a.elem_div(&b))?, &|p, q| p / q)?;
    chk("neg", must("neg", || -&a)?, &|p, _| -p)?;
    chk("scale", must("scale", || a.scale(k))?, &|p, _| k * p)?;
    chk("madd", ip(&|t| t.madd(&b))?, &|p, q| p + q)?;
    chk("msub", ip(&|t| t.msub(&b))?, &|p, q| p - q)?;
    chk("melem_mul", ip(&|t| t.melem_mul(&b))?, &|p, q| p * q)?;
    chk("melem_div", ip(&|t| t.melem_div(&b))?, &|p, q| p / q)?;
    chk("mneg", ip(&|t| t.mneg())?, &|p, _| -p)?;
    chk("mscale", ip(&|t| t.mscale(k))?, &|p, _| k * p)?;
    // a few machine integers, within range
    let u: Vec<i32> = (0..n).map(|_| cx.rng.range(-1000, 1000) as i32).collect();
    let v: Vec<i32> = (0..n).map(|_| { let z = cx.rng.range(-1000, 1000) as i32; if z == 0 { 7 } else { z } }).collect();
    let (p, q) = (Matrix::new(r, c, u.clone()), Matrix::new(r, c, v.clone()));
    let z = |f: &dyn Fn(i32, i32) -> i32| -> Vec<i32> { u.iter().zip(&v).map(|(a, b)| f(*a, *b)).collect() };
    for (w, g, e) in [
        ("+", must("+", || &p + &q)?, z(&|a, b| a + b)), ("-", must("-", || &p - &q)?, z(&|a, b| a - b)),
        ("elem_mul", must("elem_mul", || p.elem_mul(&q))?, z(&|a, b| a * b)), ("elem_div", must("elem_div", || p.elem_div(&q))?, z(&|a, b| a / b)),
        ("scale", must("scale", || p.scale(-3))?, z(&|a, _| -3 * a)), ("neg", must("neg", || -p.clone())?, z(&|a, _| -a)),
    ] {
        if g.rows() != r || *g.get_data() != e { return Err(format!("{} over i32 {}x{} is wrong", w, r, c)) }
    }
    cx.add("native element operations", 18);
    Ok(())
}

// ------------------------------------------------------------------ C05: products

fn pshape(cx: &mut Cx) -> (usize, usize, usize) {
    if cx.tier == Tier::Tiny { return (cx.rng.us(1, 4), cx.rng.us(1, 4), cx.rng.us(1, 4)) }
    let edge = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129];
    let i = cx.idx as usize;
    let r = &mut cx.rng;
    let s = match r.below(20) {
        0..=8 => (i % 6 + 1, (i / 6) % 6 + 1, (i / 36) % 6 + 1),
        9..=15 => (r.us(1, 16), r.us(1, 16), r.us(1, 16)),
        16 => { let k = r.us(1, 40); (k, k, k) }
        17 => if r.chance(1, 8) { let big = [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4097]; let l = if r.chance(1, 2) { *r.pick(&big) } else { r.us(130, 2500) }; [(r.us(1, 3), l, r.us(1, 3)), (l, r.us(1, 3), r.us(1, 3)), (r.us(1, 3), r.us(1, 3), l)][r.below(3)] } else { (r.us(1, 4), *r.pick(&edge), r.us(1, 4)) },
        18 => (*r.pick(&edge), r.us(1, 6), *r.pick(&edge[..12])),
        _ => if r.chance(1, 20) { (r.us(60, 132), r.us(60, 132), r.us(60, 132)) } else { (r.us(1, 40), r.us(1, 40), r.us(1, 40)) },
    };
    cx.saw(if s.1 == 1 { "outer products" } else if s.0 == 1 && s.2 == 1 { "inner products" } else if s.0 == s.1 && s.1 == s.2 { "square products" } else { "rectangular products" });
    s
}
fn c_prod(cx: &mut Cx) -> Res {
    let (r, k, c) = pshape(cx);
    let (ma, mb) = (fps(cx, r, k), fps(cx, k, c));
    let (a, b) = (ma.real(), mb.real());
    cx.h((r * 1000000 + k * 1000 + c) as u64);
    cx.h(ma.d[0].0 as u64);
    cx.nontriv = r * k * c > 1;
    cx.desc(|| format!("{}x{} times {}x{} over a prime field", r, k, k, c));
    let want = ma.prod(&mb);
    same("&a * &b", &must("*", || &a * &b)?, &want)?;
    if r * k * c < 40000 {
        same("&a * b", &must("*", || &a * b.clone())?, &want)?;
        same("a * &b", &must("*", || a.clone() * &b)?, &want)?;
        same("a * b", &must("*", || a.clone() * b.clone())?, &want)?;
    }
    let mut t = a.clone();
    must("mmul", || t.mmul(&b))?;
    same("mmul", &t, &want)?;
    same_by_get("mmul", &t, &want)?;
    same("left operand", &a, &ma)?;
    same("right operand", &b, &mb)?;
    if r == k && cx.rng.chance(1, 2) {
        let mut t = a.clone();
        must("mmul with itself", || t.mmul(&a))?;
        same("square by mmul", &t, &ma.prod(&ma))?;
    }
    cx.saw("exact products");
    Ok(())
}
/// Elements whose multiplication does not commute.
fn c_prod_nc(cx: &mut Cx) -> Res {
    let (r, k, c) = pshape(cx);
    let (r, k, c) = (r.min(24), k.min(24), c.min(24));
    let q = |cx: &mut Cx, r: usize, c: usize| -> Mx<Qn> { let v: Vec<Qn> = (0..r * c).map(|_| Qn([Fp::of(cx.rng.u()), Fp::of(cx.rng.u()), Fp::of(cx.rng.u()), Fp::of(cx.rng.u())])).collect(); Mx { r, c, d: v } };
    let (ma, mb) = (q(cx, r, k), q(cx, k, c));
    let (a, b) = (ma.real(), mb.real());
    cx.h((r * 1000000 + k * 1000 + c) as u64);
    cx.h(ma.d[0].0[0].0 as u64);
    cx.nontriv = r * k * c > 1;
    cx.desc(|| format!("{}x{} times {}x{} over quaternions", r, k, k, c));
    let want = ma.prod(&mb);
    for form in 0..5 {
        let g = must("product", || match form {
            0 => &a * &b,
            1 => a.clone() * &b,
            2 => &a * b.clone(),
            3 => a.clone() * b.clone(),
            _ => { let mut t = a.clone(); t.mmul(&b); t }
        })?;
        same(["&a * &b", "a * &b", "&a * b", "a * b", "mmul"][form], &g, &want)?;
    }
    cx.saw("non-commutative products");
    Ok(())
}
fn prod_native<T: Sc + Send>(a: &Dm, b: &Dm, inplace: bool) -> Result<Dm, String> {
    let (x, y) = (a.mat::<T>(), b.mat::<T>());
    let z = must("product", || if inplace { let mut t = x.clone(); t.mmul(&y); t } else { &x * &y })?;
    dm(&z)
}
fn c_prod_float(cx: &mut Cx) -> Res {
    let (r, k, c) = pshape(cx);
    let f32s = cx.rng.chance(1, 3);
    let special = cx.rng.chance(1, 4);
    let e = if special { 0 } else { expo(&mut cx.rng, if f32s { 36 } else { 300 }) };
    let g = |cx: &mut Cx, r: usize, c: usize| -> Dm {
        let (mut a, _) = if cx.rng.chance(1, 4) { (ints(&mut cx.rng, r, c, 9), "") } else { general(&mut cx.rng, r, c, 12) };
        if special { for _ in 0..cx.rng.us(1, 3) { let q = cx.rng.below(r * c); a.d[q] = *cx.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, 0.0]) } }
        fit(a.scale_pow2(e), f32s)
    };
    let (a, b) = (g(cx, r, k), g(cx, k, c));
    cx.hf(&a.d[..1]);
    cx.h((r * 1000000 + k * 1000 + c) as u64);
    cx.nontriv = r * k * c > 1;
    cx.desc(|| format!("{}x{} times {}x{}{}: {} * {}", r, k, k, c, if special { " with special values" } else { "" }, a.show(), b.show()));
    let inp = cx.rng.chance(1, 2);
    let z = if f32s { prod_native::<f32>(&a, &b, inp)? } else { prod_native::<f64>(&a, &b, inp)? };
    if (z.r, z.c) != (r, c) { return Err(format!("product of {}x{} and {}x{} is {}x{}", r, k, k, c, z.r, z.c)) }
    let (eps, minp) = eps_of(f32s);
    for i in 0..r {
        for j in 0..c {
            let t: Vec<f64> = (0..k).map(|q| a.at(i, q) * b.at(q, j)).collect();
            let nan = t.iter().any(|x| x.is_nan());
            let (pi, ni) = (t.iter().any(|x| *x == f64::INFINITY), t.iter().any(|x| *x == f64::NEG_INFINITY));
            let g = z.at(i, j);
            if nan || pi && ni {
                cx.saw("entries that must be NaN");
                if !g.is_nan() { return Err(format!("entry ({},{}) is {:?}, but the row and column give NaN", i, j, g)) }
            } else if pi || ni {
                let w = if pi { f64::INFINITY } else { f64::NEG_INFINITY };
                if g != w { return Err(format!("entry ({},{}) is {:?}, but the row and column give {:?}", i, j, g, w)) }
            } else {
                let s = dot((0..k).map(|q| (a.at(i, q), b.at(q, j))));
                let ab: f64 = t.iter().map(|x| x.abs()).sum();
                cx.bound("floating-point product", (g - s).abs(), 1.05 * (k as f64 + 1.0) * eps * ab + (k as f64 + 1.0) * minp, || format!("entry ({},{}) is {:e}, should be {:e}", i, j, g, s))?;
            }
        }
    }
    cx.saw("floating-point products");
    Ok(())
}

// ------------------------------------------------------------------ C06: refusals

fn refuse_with_target(cx: &mut Cx, what: &str, a: &M, f: &dyn Fn(&mut M)) -> Res {
    let before = look(what, a)?;
    let mut t = a.clone();
    match attempt(|| f(&mut t)) {
        Err(Fail::Panic(_)) => {}
        Err(e) => return Err(format!("{}: {}", what, e.text())),
        Ok(()) => return Err(format!("{}: accepted, should have been refused", what)),
    }
    same(&format!("target of the refused {}", what), &t, &before)?;
    cx.saw("refused in-place requests, target intact");
    Ok(())
}
fn other_shape(cx: &mut Cx, r: usize, c: usize) -> (usize, usize) {
    loop {
        let s = match cx.rng.below(7) {
            0 => (c, r), // as many elements, other shape
            1 => (1, r * c),
            2 => (r * c, 1),
            3 => (r + 1, c),
            4 => (r, c + 1),
            5 => (r.max(2) - 1, c),
            _ => (cx.rng.us(1, 9), cx.rng.us(1, 9)),
        };
        if s != (r, c) { return s }
    }
}
fn c_ref_shape(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    let (r, c) = (r.min(40), c.min(40));
    let a = fps(cx, r, c).real();
    let (r2, c2) = other_shape(cx, r, c);
    let b = fps(cx, r2, c2).real();
    cx.h((r * 1000 + c) as u64);
    cx.h((r2 * 1000 + c2) as u64);
    cx.nontriv = true;
    cx.desc(|| format!("{}x{} with {}x{}", r, c, r2, c2));
    let w = |n: &str| format!("{} of {}x{} and {}x{}", n, r, c, r2, c2);
    refused(&w("&a + &b"), || &a + &b)?;
    refused(&w("a + &b"), || a.clone() + &b)?;
    refused(&w("&a + b"), || &a + b.clone())?;
    refused(&w("a + b"), || a.clone() + b.clone())?;
    refused(&w("&a - &b"), || &a - &b)?;
    refused(&w("a - &b"), || a.clone() - &b)?;
    refused(&w("&a - b"), || &a - b.clone())?;
    refused(&w("a - b"), || a.clone() - b.clone())?;
    refused(&w("elem_mul"), || a.elem_mul(&b))?;
    refused(&w("elem_div"), || a.elem_div(&b))?;
    refuse_with_target(cx, &w("madd"), &a, &|t| t.madd(&b))?;
    refuse_with_target(cx, &w("msub"), &a, &|t| t.msub(&b))?;
    refuse_with_target(cx, &w("melem_mul"), &a, &|t| t.melem_mul(&b))?;
    refuse_with_target(cx, &w("melem_div"), &a, &|t| t.melem_div(&b))?;
    if r != r2 {
        refused(&w("cr"), || a.cr(&b))?;
        refused(&w("|"), || a.clone() | &b)?;
        cx.saw("side-by-side mismatches");
    }
    if c != c2 { refused(&w("cb"), || a.cb(&b))?; cx.saw("stacking mismatches"); }
    if c != r2 {
        refused(&w("&a * &b"), || &a * &b)?;
        refused(&w("a * &b"), || a.clone() * &b)?;
        refused(&w("&a * b"), || &a * b.clone())?;
        refused(&w("a * b"), || a.clone() * b.clone())?;
        refuse_with_target(cx, &w("mmul"), &a, &|t| t.mmul(&b))?;
        cx.saw("product mismatches");
    }
    let l = if cx.rng.chance(1, 2) { c + cx.rng.us(1, 3) } else { c - cx.rng.us(1, c) };
    let init = vec![Mon::mk(Fp(0)); l];
    refused(&w("reduce with the wrong number of starting values"), || a.reduce(&init, &|s: &Mon<Fp>, _: &Mon<Fp>| *s))?;
    if r == c && r2 == c2 { cx.saw("both square") }
    Ok(())
}
fn c_ref_index(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    let a = fps(cx, r, c).real();
    cx.h((r * 1000 + c) as u64);
    cx.nontriv = true;
    let big = [usize::MAX, usize::MAX / 2 + 1, 1 << 63, 1 << 32, usize::MAX - 1, (usize::MAX / c).saturating_add(1)];
    // beyond the edge in one direction, the other still inside; the linear position may well exist
    let (i, j) = match cx.rng.below(6) {
        0 => (r, cx.rng.below(c)),
        1 => (cx.rng.below(r), c),
        2 => (cx.rng.below(r), c + cx.rng.below(c * r)),
        3 => (r + cx.rng.below(4), c + cx.rng.below(4)),
        4 => (*cx.rng.pick(&big), cx.rng.below(c)),
        _ => (cx.rng.below(r), *cx.rng.pick(&big)),
    };
    let bad_r = i >= r;
    let bad_c = j >= c;
    cx.h(i as u64);
    cx.h(j as u64);
    cx.desc(|| format!("({},{}) of {}x{}", i, j, r, c));
    let w = |n: &str| format!("{}({},{}) of {}x{}", n, i, j, r, c);
    refused(&w("get"), || a.get(i, j))?;
    refused(&w("get_ref"), || *a.get_ref(i, j))?;
    refused(&w("index"), || a[(i, j)])?;
    refuse_with_target(cx, &w("set"), &a, &|t| t.set(i, j, Mon::mk(Fp(9))))?;
    refuse_with_target(cx, &w("get_mref"), &a, &|t| *t.get_mref(i, j) = Mon::mk(Fp(9)))?;
    refused(&w("minor"), || a.minor(i, j))?;
    if bad_c { refused(&w("get_column"), || a.get_column(j))? }
    if bad_r {
        let mut v: Vec<usize> = (0..cx.rng.us(0, 4)).map(|_| cx.rng.below(r)).collect();
        let at = cx.rng.below(v.len() + 1);
        v.insert(at, i);
        refused(&w("permute_rows"), || a.permute_rows(&v))?;
    }
    if bad_c {
        let mut v: Vec<usize> = (0..cx.rng.us(0, 4)).map(|_| cx.rng.below(c)).collect();
        let at = cx.rng.below(v.len() + 1);
        v.insert(at, j);
        refused(&w("permute_columns"), || a.permute_columns(&v))?;
    }
    if r == 1 || c == 1 { refused("minor of a single row or column", || a.minor(0, 0))?; cx.saw("minors of vectors"); }
    // ranges
    let (y, x) = (cx.rng.below(r), cx.rng.below(c));
    let (y2, x2) = (cx.rng.us(y + 1, r), cx.rng.us(x + 1, c));
    let bads = [
        (y, x, r + 1, x2), (y, x, y2, c + 1), (y, x, r + 1, c + 1), (y, x, y, x2), (y, x, y2, x), (y2, x, y, x2), (y, x2, y2, x),
        (r, x, r + 1, x2), (y, c, y2, c + 1), (y, x, usize::MAX, x2), (y, x, y2, usize::MAX), (usize::MAX, x, 1, x2), (y, 0, y2, c + cx.rng.us(1, r * c)),
        (y, c, y2, c), (r, x, r, x2),
    ];
    for (p, q, s, t) in bads {
        refused(&format!("sub_matrix({},{},{},{}) of {}x{}", p, q, s, t, r, c), || a.sub_matrix(p, q, s, t))?;
        cx.saw("refused ranges");
    }
    // selectors
    for d in [1usize, 2, r] {
        refused("select_rows with a long selector", || a.select_rows(&vec![true; r + d]))?;
        refused("select_columns with a long selector", || a.select_columns(&vec![true; c + d]))?;
        if d <= r { refused("select_rows with a short selector", || a.select_rows(&vec![true; r - d]))? }
        if d <= c { refused("select_columns with a short selector", || a.select_columns(&vec![true; c - d]))? }
    }
    let mut tail = vec![true; r];
    tail.push(false);
    refused("select_rows with a long selector", || a.select_rows(&tail))?;
    let mut tail = vec![true; c];
    tail.push(false);
    refused("select_columns with a long selector", || a.select_columns(&tail))?;
    cx.saw("refused positions");
    Ok(())
}
fn c_ref_ctor(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    cx.h((r * 1000 + c) as u64);
    cx.nontriv = true;
    cx.desc(|| format!("constructors around {}x{}", r, c));
    let n = r * c;
    let v = |l: usize| vec![1i32; l];
    for l in [0, 1, n - 1, n + 1, n + c, n - c.min(n), n + r, 2 * n, r + c] {
        if l != n { refused(&format!("new {}x{} from {} elements", r, c, l), || Matrix::new(r, c, v(l)))?; cx.saw("wrong element counts"); }
    }
    refused("new 0xn", || Matrix::new(0, c, v(0)))?;
    refused("new nx0", || Matrix::new(r, 0, v(0)))?;
    refused("new 0xn from elements", || Matrix::new(0, c, v(c)))?;
    refused("new nx0 from elements", || Matrix::new(r, 0, v(r)))?;
    refused("new 0x0", || Matrix::new(0, 0, v(0)))?;
    refused("vector of nothing", || Matrix::<f64>::vector(vec![]))?;
    refused("row_vector of nothing", || Matrix::<f64>::row_vector(vec![]))?;
    refused("diag of nothing", || Matrix::<f64>::diag(vec![]))?;
    refused("zero_vector(0)", || Matrix::<f64>::zero_vector(0))?;
    refused("one_vector(0)", || Matrix::<f64>::one_vector(0))?;
    for (p, q) in [(0, c), (r, 0), (0, 0)] {
        refused(&format!("id({},{})", p, q), || Matrix::<f64>::id(p, q))?;
        refused(&format!("zero({},{})", p, q), || Matrix::<f64>::zero(p, q))?;
        refused(&format!("random({},{})", p, q), || Matrix::<f64>::random(p, q))?;
        refused(&format!("block_diag({},{})", p, q), || Matrix::<f64>::block_diag(p, q, vec![]))?;
    }
    let k = r.min(c);
    for l in [0, k - 1, k + 1, r.max(c), n] {
        if l != k { refused(&format!("block_diag {}x{} from {}", r, c, l), || Matrix::block_diag(r, c, v(l)))? }
    }
    // products of dimensions that wrap round to something small
    for (p, q) in [(1usize << 32, 1usize << 32), (1 << 63, 2), (2, 1 << 63), (usize::MAX, 2), ((1 << 63) + 1, 2), (usize::MAX, usize::MAX)] {
        let wrap = p.wrapping_mul(q);
        refused(&format!("zero({},{})", p, q), || Matrix::<f64>::zero(p, q))?;
        refused(&format!("id({},{})", p, q), || Matrix::<f64>::id(p, q))?;
        refused(&format!("random({},{})", p, q), || Matrix::<f64>::random(p, q))?;
        if wrap <= 4 { refused(&format!("new({},{}) from {}", p, q, wrap), || Matrix::new(p, q, v(wrap)))? }
        cx.saw("overflowing dimensions");
    }
    Ok(())
}
fn ref_num<T: Sc>(cx: &mut Cx) -> Res {
    let (r, mut c) = tshape(cx);
    let r = r.min(30);
    c = c.min(30);
    if r == c { c += 1 }
    cx.h((r * 1000 + c) as u64);
    cx.nontriv = true;
    cx.desc(|| format!("square-only requests on {}x{} over {}", r, c, T::NAME));
    let a = with_cond(&mut cx.rng, r, c, 10.0).mat::<T>();
    let w = |n: &str| format!("{} of {}x{}", n, r, c);
    refused(&w("det"), || a.det())?;
    refused(&w("inverse"), || a.inverse())?;
    refused(&w("is_singular"), || a.is_singular())?;
    refused(&w("is_non_singular"), || a.is_non_singular())?;
    refused(&w("eigendecomposition"), || EigenDecomposition::new(&a))?;
    match attempt(|| CholeskyDecomposition::new(&a).is_some()) {
        Ok(true) => return Err(w("accepted Cholesky decomposition")),
        Ok(false) | Err(Fail::Panic(_)) => {}
        Err(e) => return Err(format!("{} {}", w("Cholesky decomposition"), e.text())),
    }
    let lu = must("LU", || LUDecomposition::new(&a))?;
    refused(&w("LU det"), || lu.det())?;
    refused(&w("LU is_singular"), || lu.is_singular())?;
    refused(&w("LU is_non_singular"), || lu.is_non_singular())?;
    let b = uni(&mut cx.rng, r, 2).mat::<T>();
    refused(&w("solve"), || a.solve(&b))?;
    refused(&w("LU solve"), || lu.solve(&b))?;
    cx.saw("square-only requests");
    // right-hand sides of the wrong height
    let n = r;
    let s = spd(&mut cx.rng, n, 10.0).0.mat::<T>();
    let h = loop { let h = match cx.rng.below(4) { 0 => n + 1, 1 => n.max(2) - 1, 2 => 2 * n, _ => cx.rng.us(1, 12) }; if h != n { break h } };
    let bw = if cx.rng.chance(1, 2) { n } else { 1 };
    let b = uni(&mut cx.rng, h, bw).mat::<T>();
    let w = |n2: &str| format!("{} of order {} with a right-hand side of {} rows", n2, n, h);
    refused(&w("solve"), || s.solve(&b))?;
    let lu = must("LU", || LUDecomposition::new(&s))?;
    refused(&w("LU solve"), || lu.solve(&b))?;
    let q = must("QR", || QRDecomposition::new(&s))?;
    refused(&w("QR solve"), || q.solve(&b))?;
    if let Some(ch) = must("Cholesky", || CholeskyDecomposition::new(&s))? {
        refused(&w("Cholesky solve"), || ch.solve(&b))?;
        cx.saw("wrong right-hand sides");
    }
    if r > c {
        let q = must("QR", || QRDecomposition::new(&a))?;
        let b = uni(&mut cx.rng, c, 1).mat::<T>();
        refused("QR solve of a tall matrix with a short right-hand side", || q.solve(&b))?;
        let b = uni(&mut cx.rng, r + 1, 1).mat::<T>();
        refused("QR solve of a tall matrix with a long right-hand side", || q.solve(&b))?;
    }
    // vector norms are for column vectors
    if c > 1 {
        let w = |n: &str| format!("{} of {}x{}", n, r, c);
        refused(&w("vector_euclidean_norm"), || a.vector_euclidean_norm())?;
        refused(&w("length"), || a.length())?;
        refused(&w("vector_2_norm"), || a.vector_2_norm())?;
        refused(&w("vector_1_norm"), || a.vector_1_norm())?;
        refused(&w("vector_p_norm"), || a.vector_p_norm(T::of(3.0)))?;
        refused(&w("vector_inf_norm"), || a.vector_inf_norm())?;
        cx.saw("vector norms of matrices");
    }
    Ok(())
}
fn c_ref_num(cx: &mut Cx) -> Res {
    match cx.rng.below(3) { 0 => ref_num::<f64>(cx), 1 => ref_num::<f32>(cx), _ => ref_num::<Mon<f64>>(cx) }
}

// ------------------------------------------------------------------ C22: norms and trace

struct Norms { e: [f64; 3], one: f64, inf: f64, p: f64, fro: f64 }
fn norms_of<T: Sc>(x: &Dm, p: f64) -> Result<Norms, String> {
    let v = x.mat::<T>();
    let g = |n: &str, f: &dyn Fn() -> T| -> Result<f64, String> { let y = must(n, || f())?; if !y.good() { return Err(format!("{} was never computed", n)) } Ok(y.f()) };
    Ok(Norms {
        e: [g("vector_euclidean_norm", &|| v.vector_euclidean_norm())?, g("length", &|| v.length())?, g("vector_2_norm", &|| v.vector_2_norm())?],
        one: g("vector_1_norm", &|| v.vector_1_norm())?,
        inf: g("vector_inf_norm", &|| v.vector_inf_norm())?,
        p: g("vector_p_norm", &|| v.vector_p_norm(T::of(p)))?,
        fro: g("frobenius_norm", &|| v.frobenius_norm())?,
    })
}
fn vec_gen(cx: &mut Cx, n: usize, lim: i64) -> Vec<f64> {
    let style = cx.rng.below(7);
    let hot = cx.rng.below(n);
    (0..n).map(|i| match style {
        0 => cx.rng.pm1(),
        1 => cx.rng.range(-9, 9) as f64,
        2 => cx.rng.sign() * 2f64.powi(cx.rng.range(-lim, lim) as i32),
        3 => -cx.rng.f01(),
        4 => if i == hot { -3.0 } else { 0.0 },
        5 => if i == hot { cx.rng.sign() * 100.0 } else { cx.rng.pm1() },
        _ => 0.0,
    }).collect()
}
fn c_norm(cx: &mut Cx) -> Res {
    let n = match cx.rng.below(8) { 0 => 1, 1..=4 => cx.rng.us(1, 12), 5 | 6 => cx.rng.us(1, 80), _ => cx.rng.us(60, if cx.tier == Tier::Tiny { 61 } else { 700 }) };
    let n = if cx.tier == Tier::Tiny { n.min(6) } else { n };
    let f32s = cx.rng.chance(1, 3);
    let (eps, _) = eps_of(f32s);
    let lim = if f32s { 6 } else { 40 };
    let d = vec_gen(cx, n, lim);
    let x = fit(Dm::new(n, 1, d), f32s);
    let p = match cx.rng.below(9) { 0 => 1.0, 1 => 2.0, 2 | 3 => 3.0, 4 => 0.5, 5 => 4.0, 6 => 5.0, 7 => 1.5, _ => 0.5 + 6.0 * cx.rng.f01() };
    let p = if f32s { p as f32 as f64 } else { p };
    cx.hf(&x.d);
    cx.nontriv = n > 1 && x.maxabs() > 0.0;
    cx.desc(|| format!("p={:?}: {}", p, x.show()));
    let g = match (f32s, cx.rng.below(3) == 0) { (true, false) => norms_of::<f32>(&x, p)?, (false, false) => norms_of::<f64>(&x, p)?, (true, true) => norms_of::<Mon<f32>>(&x, p)?, (false, true) => norms_of::<Mon<f64>>(&x, p)? };
    let nf = n as f64;
    let two = norm2(&x.d);
    for (k, v) in ["vector_euclidean_norm", "length", "vector_2_norm"].iter().zip(g.e) {
        cx.bound("euclidean norm", (v - two).abs(), (nf + 4.0) * eps * two, || format!("{} is {:e}, should be {:e}", k, v, two))?;
    }
    cx.bound("frobenius norm of a vector", (g.fro - two).abs(), (nf + 4.0) * eps * two, || format!("{:e}, should be {:e}", g.fro, two))?;
    let one = dot(x.d.iter().map(|v| (v.abs(), 1.0)));
    cx.bound("1-norm", (g.one - one).abs(), (nf + 1.0) * eps * one, || format!("{:e}, should be {:e}", g.one, one))?;
    if g.inf != x.maxabs() { return Err(format!("vector_inf_norm is {:?}, should be {:?}", g.inf, x.maxabs())) }
    // sum |x|^p, scaled by the largest element
    let mx = x.maxabs();
    if mx == 0.0 {
        if g.p != 0.0 { return Err(format!("vector_p_norm of a zero vector is {:?}", g.p)) }
        cx.saw("zero vectors");
    } else {
        let s: f64 = x.d.iter().map(|v| (v.abs() / mx).powf(p)).sum();
        let want = mx * s.powf(1.0 / p);
        // x^p carries p*eps*|ln x|, the root divides it by p again
        let l = x.d.iter().filter(|v| **v != 0.0).map(|v| v.abs().ln().abs()).fold(0.0, f64::max);
        let tol = eps * (6.0 * (nf + 4.0) / p.min(1.0) + 4.0 * l + 8.0 * (nf.ln() / p).abs());
        cx.bound("p-norm", (g.p - want).abs(), tol * want, || format!("vector_p_norm({:?}) is {:e}, should be {:e}", p, g.p, want))?;
        if p.fract() == 0.0 && p as i64 % 2 == 1 && x.d.iter().any(|v| *v < 0.0) { cx.saw("odd p with negative elements") }
        if p.fract() != 0.0 && x.d.iter().any(|v| *v < 0.0) { cx.saw("fractional p with negative elements") }
    }
    cx.saw("vector norms");
    Ok(())
}
fn fro_tr<T: Sc>(x: &Dm) -> Result<(f64, f64), String> {
    let a = x.mat::<T>();
    let (f, t) = must("frobenius_norm/trace", || (a.frobenius_norm(), a.trace()))?;
    if !f.good() || !t.good() { return Err("norm or trace was never computed".into()) }
    Ok((f.f(), t.f()))
}
fn c_trace(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    let f32s = cx.rng.chance(1, 3);
    let (eps, _) = eps_of(f32s);
    let d = vec_gen(cx, r * c, if f32s { 6 } else { 40 });
    let x = fit(Dm::new(r, c, d), f32s);
    cx.hf(&x.d);
    cx.h((r * 1000 + c) as u64);
    cx.nontriv = r * c > 1 && x.maxabs() > 0.0;
    cx.desc(|| x.show());
    let (f, t) = match (f32s, cx.rng.below(3) == 0) { (true, false) => fro_tr::<f32>(&x)?, (false, false) => fro_tr::<f64>(&x)?, (true, true) => fro_tr::<Mon<f32>>(&x)?, (false, true) => fro_tr::<Mon<f64>>(&x)? };
    let k = r.min(c);
    let want = dot((0..k).map(|i| (x.at(i, i), 1.0)));
    let ab: f64 = (0..k).map(|i| x.at(i, i).abs()).sum();
    cx.bound("trace", (t - want).abs(), (k as f64) * eps * ab, || format!("trace is {:e}, should be {:e}", t, want))?;
    let w = x.fro();
    cx.bound("frobenius norm", (f - w).abs(), ((r * c) as f64 + 4.0) * eps * w, || format!("{:e}, should be {:e}", f, w))?;
    cx.saw("traces");
    Ok(())
}

// ------------------------------------------------------------------ C23: comparisons

const TOL: f64 = 1.0e-6;
fn near<T: Sc>(a: f64, b: f64) -> bool {
    // |a - b| in the element type, strictly below the tolerance of the element type
    let d = (T::of(a) - T::of(b)).f().abs();
    d < T::of(TOL).f()
}
fn nudge<T: Sc>(cx: &mut Cx, a: f64) -> f64 {
    let t = T::of(TOL).f();
    let d = match cx.rng.below(12) {
        0 => t, 1 => t * 0.999, 2 => t * 1.001, 3 => t * 0.5, 4 => t * 2.0, 5 => 0.0, 6 => t * 1e-3, 7 => 0.1, 8 => 1.0,
        9 => f64::from_bits(t.to_bits() - 1), 10 => f64::from_bits(t.to_bits() + 1), _ => cx.rng.f01() * 2.0 * t,
    };
    T::of(a + cx.rng.sign() * d).f()
}
/// Magnitude of the elements compared: the tolerance is the same at every one of them.
fn cmp_scale<T: Sc>(cx: &mut Cx) -> f64 {
    let s = *cx.rng.pick(&[0.0, 1.0, 1.0, 1e-6, 1e3, 1e-3, 1e4, 1e5, 1e6, 1e8, 1e9, 1e12, 1e30, 1e-12, 1e-30]);
    if s >= 1e4 { cx.saw("large elements") }
    s
}
/// Sometimes an element neither finite nor small.
fn odd<T: Sc>(cx: &mut Cx) -> f64 {
    *cx.rng.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, T::of(1e38).f(), -T::of(1e38).f(), T::of(1e-40).f(), T::of(1e-45).f()])
}
fn cmp_case<T: Sc + ApproxEq<T>>(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    let scale = cmp_scale::<T>(cx);
    let special = cx.rng.chance(1, 8);
    let a = Dm::new(r, c, (0..r * c).map(|_| if special && cx.rng.chance(1, 4) { odd::<T>(cx) } else { T::of(cx.rng.pm1() * scale).f() }).collect());
    let mut b = a.clone();
    if special && cx.rng.chance(1, 2) { let i = cx.rng.below(r * c); b.d[i] = odd::<T>(cx) }
    let k = *cx.rng.pick(&[0, 1, 1, 1, 2, 3]);
    for q in 0..k {
        let i = if q == 0 && cx.rng.chance(1, 4) { r * c - 1 } else { cx.rng.below(r * c) };
        b.d[i] = if cx.rng.chance(1, 14) { f64::NAN } else if cx.rng.chance(1, 12) { b.d[i] * (1.0 + 1e-7 * cx.rng.pm1()) } else { nudge::<T>(cx, b.d[i]) };
        b.d[i] = T::of(b.d[i]).f();
    }
    cx.hf(&b.d);
    cx.h((r * 1000 + c) as u64);
    cx.nontriv = k > 0;
    cx.desc(|| format!("{} {} vs {}", T::NAME, a.show(), b.show()));
    let (x, y) = (a.mat::<T>(), b.mat::<T>());
    let want = a.d.iter().zip(&b.d).all(|(p, q)| near::<T>(*p, *q));
    // whether an infinity differs from itself by less than the tolerance is left open
    let open = a.d.iter().zip(&b.d).any(|(p, q)| p.is_infinite() && p == q);
    for (w, g) in [("a.approx_eq(b)", must("approx_eq", || x.approx_eq(&y))?), ("b.approx_eq(a)", must("approx_eq", || y.approx_eq(&x))?)] {
        if g != want && !open { return Err(format!("{} is {}, should be {}", w, g, want)) }
    }
    if special { cx.saw("infinite, NaN and extreme elements") }
    cx.saw(if want { "approximately equal" } else { "not approximately equal" });
    let eq = a.d.iter().zip(&b.d).all(|(p, q)| p == q);
    let (g, h) = must("==", || (x == y, x != y))?;
    if g != eq || h == eq { return Err(format!("== is {} and != is {}, should be {} and {}", g, h, eq, !eq)) }
    cx.saw(if eq { "exactly equal" } else { "not exactly equal" });
    // the element type's own notion
    for _ in 0..3 {
        let p = if special { odd::<T>(cx) } else { T::of(cx.rng.pm1() * scale).f() };
        let q = if special { odd::<T>(cx) } else { nudge::<T>(cx, p) };
        if p.is_infinite() && p == q { continue }
        let e = *cx.rng.pick(&[1e-6, 1e-3, 0.5, 1e-9, 0.0]);
        let (tp, tq, te) = (T::of(p), T::of(q), T::of(e));
        if tp.approx_eq(&tq) != near::<T>(p, q) { return Err(format!("approx_eq({:?}, {:?}) is wrong", p, q)) }
        let w = (tp - tq).f().abs() < te.f();
        if tp.approx_eq_eps(&tq, &te) != w { return Err(format!("approx_eq_eps({:?}, {:?}, {:?}) is wrong", p, q, e)) }
        if T::approx_epsilon().f() != T::of(TOL).f() { return Err("approx_epsilon is not the tolerance in use".into()) }
        cx.saw("scalar comparisons");
    }
    // other shapes are never equal, whatever they hold
    let (r2, c2) = other_shape(cx, r, c);
    let z = Dm::new(r2, c2, (0..r2 * c2).map(|i| *a.d.get(i).unwrap_or(&0.0)).collect()).mat::<T>();
    if must("approx_eq", || x.approx_eq(&z) || z.approx_eq(&x))? || must("==", || x == z)? {
        return Err(format!("{}x{} compares equal to {}x{}", r, c, r2, c2));
    }
    cx.saw("different shapes");
    Ok(())
}
fn c_cmp(cx: &mut Cx) -> Res {
    match cx.rng.below(3) { 0 => cmp_case::<f32>(cx), 1 => cmp_case::<Mon<f64>>(cx), _ => cmp_case::<f64>(cx) }
}
fn sym_case<T: Sc + ApproxEq<T>>(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    let square = cx.rng.chance(5, 6);
    let (r, c) = if square { let r = if r > 400 { 200 + r % 200 } else { r }; (r, r) } else { (r, c) };
    let scale = if cx.rng.chance(1, 2) { 1.0 } else { cmp_scale::<T>(cx) };
    let special = cx.rng.chance(1, 8);
    let mut a = Dm::new(r, c, (0..r * c).map(|_| if special && cx.rng.chance(1, 4) { odd::<T>(cx) } else { T::of(cx.rng.pm1() * scale).f() }).collect());
    if r == c { for i in 0..r {
        if !a.at(i, i).is_finite() { a.set(i, i, 2.5) }
        for j in 0..i { let v = if a.at(j, i).is_infinite() { -a.at(j, i) } else { a.at(j, i) }; a.set(i, j, v) }
    } }
    let k = *cx.rng.pick(&[0, 1, 1, 1, 2]);
    if r > 1 && r == c {
        for _ in 0..k {
            let i = cx.rng.us(1, r - 1);
            let j = match cx.rng.below(4) { 0 => 0, 1 => i - 1, _ => cx.rng.below(i) };
            let i = if cx.rng.chance(1, 4) { r - 1 } else { i };
            let v = nudge::<T>(cx, a.at(i, j));
            if cx.rng.chance(1, 2) { a.set(i, j, v) } else { a.set(j, i, v) }
        }
    }
    cx.hf(&a.d);
    cx.h((r * 1000 + c) as u64);
    cx.nontriv = r > 1;
    cx.desc(|| format!("{} {}", T::NAME, a.show()));
    let want = r == c && (0..r).all(|i| (0..i).all(|j| near::<T>(a.at(i, j), a.at(j, i))));
    let m = a.mat::<T>();
    let (g, h) = must("is_symmetric", || (m.is_symmetric(), m.is_non_symmetric()))?;
    if g != want || h == want { return Err(format!("is_symmetric is {} and is_non_symmetric is {}, should be {} and {}", g, h, want, !want)) }
    cx.saw(if want { "symmetric" } else if r == c { "square, not symmetric" } else { "not square" });
    Ok(())
}
fn c_sym(cx: &mut Cx) -> Res {
    match cx.rng.below(3) { 0 => sym_case::<f32>(cx), 1 => sym_case::<Mon<f64>>(cx), _ => sym_case::<f64>(cx) }
}

// ------------------------------------------------------------------ C28: random matrices

thread_local! {
    static TICKETS: Cell<u64> = const { Cell::new(0) };
    static SEEN: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
}
/// Element type that notes every draw.
#[derive(Copy, Clone, PartialEq, Debug)]
struct Drawn(u64, u64);
impl rand::Rand for Drawn {
    fn rand<R: rand::Rng>(r: &mut R) -> Drawn {
        let t = TICKETS.with(|c| { let v = c.get() + 1; c.set(v); v });
        let x = r.next_u64();
        SEEN.with(|s| s.borrow_mut().push(x));
        Drawn(t, x)
    }
}
impl rand::Rand for Mon<Drawn> {
    fn rand<R: rand::Rng>(r: &mut R) -> Mon<Drawn> { Mon::mk(<Drawn as rand::Rand>::rand(r)) }
}
fn c_random(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    let n = r * c;
    cx.h((r * 1000 + c) as u64);
    cx.nontriv = n > 1;
    cx.desc(|| format!("random {}x{}", r, c));
    SEEN.with(|s| s.borrow_mut().clear());
    let t0 = TICKETS.with(|t| t.get());
    let m: Matrix<Mon<Drawn>> = must("random", || Matrix::random(r, c))?;
    let g = look("random", &m)?;
    if (g.r, g.c) != (r, c) { return Err(format!("random({},{}) is {}x{}", r, c, g.r, g.c)) }
    let drawn = SEEN.with(|s| s.borrow().clone());
    let mut tk: Vec<u64> = g.d.iter().map(|x| x.0).collect();
    if g.d.iter().any(|x| x.0 <= t0 || drawn.get((x.0 - t0 - 1) as usize) != Some(&x.1)) { return Err("an element is not a draw of the element type".into()) }
    tk.sort();
    tk.dedup();
    if tk.len() != n { return Err(format!("{} elements came from only {} draws", n, tk.len())) }
    cx.add("draws observed", n as u64);
    let (a, b) = must("random", || (Matrix::<f64>::random(r, c), Matrix::<f64>::random(r, c)))?;
    for x in a.get_data().iter().chain(b.get_data()) { if !(*x >= 0.0 && *x < 1.0) { return Err(format!("random f64 element {:?} outside [0,1)", x)) } }
    if a.rows() != r || a.cols() != c || a.get_data().len() != n { return Err("random f64 matrix has the wrong shape".into()) }
    if a == b { return Err("two random matrices are equal".into()) }
    let f = must("random", || Matrix::<f32>::random(r, c))?;
    for x in f.get_data() { if !(*x >= 0.0 && *x < 1.0) { return Err(format!("random f32 element {:?} outside [0,1)", x)) } }
    if n >= 64 {
        // ten standard deviations
        let mean = a.get_data().iter().sum::<f64>() / n as f64;
        if (mean - 0.5).abs() > 10.0 * (1.0 / 12.0 / n as f64).sqrt() { return Err(format!("mean of {} random elements is {}", n, mean)) }
        let u = must("random", || Matrix::<u8>::random(r, c))?;
        let k = u.get_data().iter().filter(|x| **x >= 128).count() as f64;
        if (k - n as f64 / 2.0).abs() > 10.0 * (n as f64 / 4.0).sqrt() { return Err(format!("{} of {} random bytes have the top bit", k, n)) }
        let v = must("random", || Matrix::<bool>::random(r, c))?;
        let k = v.get_data().iter().filter(|x| **x).count();
        if k == 0 || k == n { return Err("random bools are all the same".into()) }
        cx.saw("distributions looked at");
    }
    Ok(())
}

/// Draws of 64 bits are all different: within a matrix, from one matrix to the next, between threads and between processes.
fn c_random_apart(cx: &mut Cx) -> Res {
    let tiny = cx.tier == Tier::Tiny;
    let (r, c) = if tiny { (3, 2) } else { (cx.rng.us(1, 60), cx.rng.us(2, 60)) };
    let threads = if tiny { 2 } else { cx.rng.us(2, 6) };
    let procs = if cfg!(miri) || cx.rng.below(4) > 0 { 0 } else { 2 };
    let each = cx.rng.us(1, 3);
    cx.h((r * 100 + c) as u64);
    cx.h((threads * 10 + each) as u64);
    cx.nontriv = true;
    cx.desc(|| format!("{} random {}x{} matrices of 64 bits on each of {} threads, and in {} processes", each, r, c, threads, procs));
    let draw = move || -> Vec<u64> { (0..each).flat_map(|_| Matrix::<u64>::random(r, c).get_data().clone()).collect() };
    let hs: Vec<_> = (0..threads).map(|_| std::thread::spawn(draw)).collect();
    let mut all: Vec<(String, Vec<u64>)> = vec![("this thread".into(), must("random", draw)?)];
    for (k, h) in hs.into_iter().enumerate() {
        all.push((format!("thread {}", k), h.join().map_err(|_| "random panicked on a thread of its own".to_string())?));
    }
    for k in 0..procs {
        let exe = std::env::current_exe().map_err(|e| format!("INCONCLUSIVE no path to this program: {}", e))?;
        let o = std::process::Command::new(exe).args(["draw", &r.to_string(), &c.to_string(), &each.to_string()]).output().map_err(|e| format!("INCONCLUSIVE could not start a process: {}", e))?;
        if !o.status.success() { return Err("INCONCLUSIVE the drawing process failed".into()) }
        let t = String::from_utf8_lossy(&o.stdout).to_string();
        all.push((format!("process {}", k), t.split_whitespace().map(|x| x.parse().unwrap()).collect()));
        cx.saw("processes compared");
    }
    cx.add("threads compared", threads as u64);
    let mut seen: HashMap<u64, (usize, usize)> = HashMap::new();
    for (w, (name, v)) in all.iter().enumerate() {
        if v.len() != r * c * each { return Err(format!("{}: {} random matrices of {}x{} have {} elements", name, each, r, c, v.len())) }
        for (k, x) in v.iter().enumerate() {
            if let Some(&(w0, k0)) = seen.get(x) {
                return Err(format!("draw {} of {} equals draw {} of {}: {:#x}", k, name, k0, all[w0].0, x));
            }
            seen.insert(*x, (w, k));
        }
    }
    let n = seen.len() as f64;
    if n >= 400.0 {
        // every bit on its own and next to its neighbours; ten standard deviations
        let lim = 5.0 * n.sqrt();
        for b in 0..64 {
            let ones: f64 = all.iter().flat_map(|(_, v)| v.iter()).map(|x| (x >> b & 1) as f64).sum();
            if (ones - n / 2.0).abs() > lim { return Err(format!("bit {} is set in {} of {} draws", b, ones, n)) }
        }
        for lag in [1, 2, c, r * c] {
            let (mut k, mut s) = (0.0, 0.0);
            for (_, v) in &all {
                for i in lag..v.len() { k += 1.0; s += (v[i] as f64 / 1.8446744073709552e19 - 0.5) * (v[i - lag] as f64 / 1.8446744073709552e19 - 0.5) }
            }
            if k >= 400.0 && (s / k).abs() > 10.0 / 12.0 / f64::sqrt(k) { return Err(format!("draws {} apart go together: {} over {}", lag, s / k, k)) }
        }
        cx.saw("bits and neighbours looked at");
    }
    Ok(())
}
pub fn draw_main(a: &[String]) {
    let k = |i: usize| a[i].parse::<usize>().unwrap();
    let mut s = String::new();
    for _ in 0..k(2) { for x in Matrix::<u64>::random(k(0), k(1)).get_data() { s.push_str(&format!("{}\n", x)) } }
    print!("{}", s);
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            rule: "element-wise operations in every calling form over a prime field (every shape class), over terms that record each operation, and over f64/i32 including special values; non-trivial: more than one element",
            fams: vec![
                Fam { name: "field", tiny: 24, quick: 60000, thorough: 1500000, f: c_elem },
                Fam { name: "native", tiny: 6, quick: 15000, thorough: 400000, f: c_elem_native },
                Fam { name: "terms", tiny: 6, quick: 6000, thorough: 150000, f: c_elem_term },
            ],
            need: vec!["forms compared", "operations over terms", "function calls followed", "functions that use matrices", "native element operations", "special values", "element operation 0", "element operation 5", "element operation 6", "element operation 7", "tall", "wide", "square"],
        },
        Prop {
            id: "C05",
            rule: "products in every calling form over a prime field and quaternions (exact) and over f64/f32 with an error bound and special values; non-trivial: more than one multiplication",
            fams: vec![
                Fam { name: "field", tiny: 15, quick: 25000, thorough: 600000, f: c_prod },
                Fam { name: "quaternion", tiny: 6, quick: 8000, thorough: 150000, f: c_prod_nc },
                Fam { name: "float", tiny: 10, quick: 15000, thorough: 400000, f: c_prod_float },
            ],
            need: vec!["exact products", "non-commutative products", "floating-point products", "entries that must be NaN", "outer products", "inner products", "square products", "rectangular products"],
        },
        Prop {
            id: "C06",
            rule: "ill-formed requests: mismatched shapes, positions and ranges just and far outside, wrong selector and element counts, empty and overflowing dimensions, square-only requests; non-trivial: all",
            fams: vec![
                Fam { name: "shapes", tiny: 6, quick: 12000, thorough: 250000, f: c_ref_shape },
                Fam { name: "positions", tiny: 6, quick: 12000, thorough: 250000, f: c_ref_index },
                Fam { name: "constructors", tiny: 3, quick: 3000, thorough: 40000, f: c_ref_ctor },
                Fam { name: "numeric", tiny: 6, quick: 6000, thorough: 120000, f: c_ref_num },
            ],
            need: vec!["refused in-place requests, target intact", "side-by-side mismatches", "stacking mismatches", "product mismatches", "refused positions", "refused ranges", "wrong element counts", "overflowing dimensions", "square-only requests", "wrong right-hand sides", "vector norms of matrices", "minors of vectors", "both square"],
        },
        Prop {
            id: "C22",
            rule: "vectors up to 700 long and matrices of every shape class, signs and magnitudes mixed, p from 0.5 to 6.5; non-trivial: more than one element, not all zero",
            fams: vec![
                Fam { name: "vectors", tiny: 12, quick: 60000, thorough: 1500000, f: c_norm },
                Fam { name: "matrices", tiny: 8, quick: 20000, thorough: 500000, f: c_trace },
            ],
            need: vec!["vector norms", "traces", "zero vectors", "odd p with negative elements", "fractional p with negative elements"],
        },
        Prop {
            id: "C23",
            rule: "pairs of matrices differing at chosen elements by amounts around the tolerance, square matrices made asymmetric likewise, other shapes; non-trivial: differing or order above 1",
            fams: vec![
                Fam { name: "pairs", tiny: 12, quick: 40000, thorough: 1000000, f: c_cmp },
                Fam { name: "symmetry", tiny: 8, quick: 30000, thorough: 800000, f: c_sym },
            ],
            need: vec!["large elements", "infinite, NaN and extreme elements", "approximately equal", "not approximately equal", "exactly equal", "not exactly equal", "scalar comparisons", "different shapes", "symmetric", "square, not symmetric", "not square"],
        },
        Prop {
            id: "C28",
            rule: "random matrices of every shape class over an element type that records its draws, f64, f32, u8 and bool; 64-bit draws on several threads and in several processes; non-trivial: more than one element",
            fams: vec![Fam { name: "random", tiny: 3, quick: 5000, thorough: 150000, f: c_random }, Fam { name: "apart", tiny: 1, quick: 60, thorough: 3000, f: c_random_apart }],
            need: vec!["draws observed", "distributions looked at", "threads compared", "processes compared", "bits and neighbours looked at"],
        },
    ]
}
