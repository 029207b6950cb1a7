//! Shape/storage consistency under histories, element addressing, structural rearrangements.
use crate::exact::*;
use crate::fw::*;
use crate::mon::Mon;
use la::Matrix;
use num::{One, Zero};

type M = Matrix<Mon<Fp>>;

// ------------------------------------------------------------------ C01: histories

struct Hist {
    pool: Vec<(M, Mx<Fp>)>,
    log: Vec<String>,
}
const CAP: usize = 900;

fn one_op(cx: &mut Cx, h: &mut Hist) -> Res {
    let n = h.pool.len();
    let a = cx.rng.below(n);
    let b = if cx.rng.chance(3, 4) {
        // a partner that fits more often than not
        let (r, c) = (h.pool[a].1.r, h.pool[a].1.c);
        let fit: Vec<usize> = (0..n).filter(|&k| { let m = &h.pool[k].1; (m.r == r && m.c == c) || m.r == c || m.r == r || m.c == c }).collect();
        *cx.rng.pick(&fit)
    } else { cx.rng.below(n) };
    let op = cx.rng.below(44);
    let (ar, ac) = (h.pool[a].1.r, h.pool[a].1.c);
    let (br, bc) = (h.pool[b].1.r, h.pool[b].1.c);
    let mut made: Option<(Result<M, Fail>, Option<Mx<Fp>>)> = None; // result and what it should be (None: refusal)
    let name: String;
    macro_rules! new { ($nm:expr, $real:expr, $want:expr) => {{ name = $nm.into(); made = Some((attempt(|| $real), $want)); }} }
    // in-place: run on the pool entry itself, compare afterwards, refused means untouched
    macro_rules! inplace {
        ($nm:expr, $want:expr, $f:expr) => {{
            name = $nm.into();
            let want: Option<Mx<Fp>> = $want;
            let other = h.pool[b].0.clone();
            let r = { let t = &mut h.pool[a].0; attempt(|| { let f: &dyn Fn(&mut M, &M) = &$f; f(t, &other) }) };
            match (r, want) {
                (Ok(()), Some(w)) => { cx.saw("in-place operations"); h.pool[a].1 = w }
                (Err(Fail::Panic(_)), None) => cx.saw("refused operations"),
                (Ok(()), None) => return Err(format!("{} on {}x{} with {}x{} was accepted", name, ar, ac, br, bc)),
                (Err(e), _) => return Err(format!("{} on {}x{} with {}x{} {}", name, ar, ac, br, bc, e.text())),
            }
        }};
    }
    let same_shape = ar == br && ac == bc;
    let elt = Fp::of(cx.rng.u());
    {
        let (ra, ma) = (&h.pool[a].0, &h.pool[a].1);
        let (rb, mb) = (&h.pool[b].0, &h.pool[b].1);
        let form = cx.rng.below(4);
        match op {
            0 => { let (r, c) = (cx.rng.us(1, 9), cx.rng.us(1, 9)); let m = fps(cx, r, c); new!("new", m.real(), Some(m.clone())) }
            1 => { let r = cx.rng.us(0, 9); let m = fps(cx, r, 1); let v: Vec<_> = m.d.iter().map(|x| Mon::mk(*x)).collect();
                   if cx.rng.chance(1, 2) { new!("vector", Matrix::vector(v), if r > 0 { Some(m.clone()) } else { None }) }
                   else { new!("row_vector", Matrix::row_vector(v), if r > 0 { Some(m.t()) } else { None }) } }
            2 => { let (r, c) = (cx.rng.us(0, 7), cx.rng.us(0, 7)); let ok = r > 0 && c > 0;
                   new!("id", Matrix::id(r, c), if ok { Some(Mx::from(r, c, |i, j| if i == j { Fp::one() } else { Fp::zero() })) } else { None }) }
            3 => { let (r, c) = (cx.rng.us(0, 7), cx.rng.us(0, 7)); let ok = r > 0 && c > 0;
                   new!("zero", Matrix::zero(r, c), if ok { Some(Mx::from(r, c, |_, _| Fp::zero())) } else { None }) }
            4 => { let r = cx.rng.us(0, 7); let m = fps(cx, r, 1); let v: Vec<_> = m.d.iter().map(|x| Mon::mk(*x)).collect();
                   new!("diag", Matrix::diag(v), if r > 0 { Some(Mx::from(r, r, |i, j| if i == j { m.d[i] } else { Fp::zero() })) } else { None }) }
            5 => { let (r, c, k) = (cx.rng.us(1, 7), cx.rng.us(1, 7), cx.rng.us(0, 7)); let k = if cx.rng.chance(3, 4) { r.min(c) } else { k };
                   let m = fps(cx, k.max(1), 1); let v: Vec<_> = m.d.iter().take(k).map(|x| Mon::mk(*x)).collect();
                   new!("block_diag", Matrix::block_diag(r, c, v), if k == r.min(c) { Some(Mx::from(r, c, |i, j| if i == j { m.d[i] } else { Fp::zero() })) } else { None }) }
            6 => { let r = cx.rng.us(0, 9); let one = cx.rng.chance(1, 2); let e = if one { Fp::one() } else { Fp::zero() };
                   new!("zero/one_vector", if one { Matrix::one_vector(r) } else { Matrix::zero_vector(r) }, if r > 0 { Some(Mx::from(r, 1, |_, _| e)) } else { None }) }
            7 => { let (r, c) = (cx.rng.us(0, 5), cx.rng.us(0, 5)); let l = cx.rng.us(0, 12); let m = fps(cx, 1, l.max(1)); let v: Vec<_> = m.d.iter().take(l).map(|x| Mon::mk(*x)).collect();
                   let ok = r > 0 && c > 0 && r * c == l;
                   new!("new with any length", Matrix::new(r, c, v), if ok { Some(Mx { r, c, d: m.d[..l].to_vec() }) } else { None }) }
            8 => new!("t", ra.t(), Some(ma.t())),
            9 | 10 => inplace!("mt", Some(ma.t()), |t: &mut M, _: &M| t.mt()),
            11 => new!("cr", ra.cr(rb), if ar == br { Some(ma.cr(mb)) } else { None }),
            12 => new!("|", ra.clone() | rb, if ar == br { Some(ma.cr(mb)) } else { None }),
            13 => new!("cb", ra.cb(rb), if ac == bc { Some(ma.cb(mb)) } else { None }),
            14 => { let (i, j) = (cx.rng.below(ar + 1), cx.rng.below(ac + 1)); new!("minor", ra.minor(i, j), if i < ar && j < ac && ar > 1 && ac > 1 { Some(ma.minor(i, j)) } else { None }) }
            15 | 16 => { let (p, q, r, s) = (cx.rng.below(ar + 1), cx.rng.below(ac + 1), cx.rng.below(ar + 2), cx.rng.below(ac + 2));
                    new!("sub_matrix", ra.sub_matrix(p, q, r, s), if p < r && q < s && r <= ar && s <= ac { Some(ma.sub(p, q, r, s)) } else { None }) }
            17 => { let j = cx.rng.below(ac + 1); new!("get_column", ra.get_column(j), if j < ac { Some(ma.cols(&[j])) } else { None }) }
            18 => { let v: Vec<usize> = (0..cx.rng.us(1, ar + 2)).map(|_| { let x = cx.rng.chance(1, 30) as usize; cx.rng.below(ar + x) }).collect();
                    new!("permute_rows", ra.permute_rows(&v), if v.iter().all(|x| *x < ar) { Some(ma.rows(&v)) } else { None }) }
            19 => { let v: Vec<usize> = (0..cx.rng.us(1, ac + 2)).map(|_| { let x = cx.rng.chance(1, 30) as usize; cx.rng.below(ac + x) }).collect();
                    new!("permute_columns", ra.permute_columns(&v), if v.iter().all(|x| *x < ac) { Some(ma.cols(&v)) } else { None }) }
            20 | 21 => {
                let rows = op == 20;
                let l = if rows { ar } else { ac };
                let mut sel: Vec<bool> = (0..l).map(|_| cx.rng.chance(2, 3)).collect();
                if !sel.iter().any(|x| *x) { sel[0] = true }
                let v: Vec<usize> = (0..l).filter(|i| sel[*i]).collect();
                let wrong = cx.rng.chance(1, 10);
                let s2: Vec<bool> = if wrong { sel.iter().cloned().chain(vec![true]).collect() } else { sel.clone() };
                if rows {
                    if cx.rng.chance(1, 2) { new!("select_rows", ra.select_rows(&s2), if wrong { None } else { Some(ma.rows(&v)) }) }
                    else { new!("filter_rows", ra.filter_rows(&|_, i| sel[i]), Some(ma.rows(&v))) }
                } else if cx.rng.chance(1, 2) { new!("select_columns", ra.select_columns(&s2), if wrong { None } else { Some(ma.cols(&v)) }) }
                else { new!("filter_columns", ra.filter_columns(&|_, i| sel[i]), Some(ma.cols(&v))) }
            }
            22 => new!("map", ra.map(&|x| *x + Mon::mk(elt)), Some(ma.map(|x| x + elt))),
            23 => inplace!("mmap", Some(ma.map(|x| x * elt)), |t: &mut M, _: &M| t.mmap(&|x| *x * Mon::mk(elt))),
            24 => { let l = if cx.rng.chance(7, 8) { ac } else { ac + 1 }; let init = fps(cx, 1, l); let iv: Vec<_> = init.d.iter().map(|x| Mon::mk(*x)).collect();
                    let want = if l == ac { Some(Mx::from(1, ac, |_, j| (0..ar).fold(init.d[j], |s, i| s * elt + ma.at(i, j)))) } else { None };
                    new!("reduce", ra.reduce(&iv, &|s: &Mon<Fp>, x: &Mon<Fp>| *s * Mon::mk(elt) + *x), want) }
            25 => new!("neg", if form < 2 { -ra } else { -(ra.clone()) }, Some(ma.map(|x| -x))),
            26 => inplace!("mneg", Some(ma.map(|x| -x)), |t: &mut M, _: &M| t.mneg()),
            27 => new!("scale", ra.scale(Mon::mk(elt)), Some(ma.map(|x| elt * x))),
            28 => inplace!("mscale", Some(ma.map(|x| elt * x)), |t: &mut M, _: &M| t.mscale(Mon::mk(elt))),
            29 => new!("+", match form { 0 => ra + rb, 1 => ra + rb.clone(), 2 => ra.clone() + rb, _ => ra.clone() + rb.clone() }, if same_shape { Some(ma.zip(mb, |x, y| x + y)) } else { None }),
            30 => inplace!("madd", if same_shape { Some(ma.zip(mb, |x, y| x + y)) } else { None }, |t: &mut M, o: &M| t.madd(o)),
            31 => new!("-", match form { 0 => ra - rb, 1 => ra - rb.clone(), 2 => ra.clone() - rb, _ => ra.clone() - rb.clone() }, if same_shape { Some(ma.zip(mb, |x, y| x - y)) } else { None }),
            32 => inplace!("msub", if same_shape { Some(ma.zip(mb, |x, y| x - y)) } else { None }, |t: &mut M, o: &M| t.msub(o)),
            33 => new!("elem_mul", ra.elem_mul(rb), if same_shape { Some(ma.zip(mb, |x, y| x * y)) } else { None }),
            34 => inplace!("melem_mul", if same_shape { Some(ma.zip(mb, |x, y| x * y)) } else { None }, |t: &mut M, o: &M| t.melem_mul(o)),
            35 => new!("elem_div", ra.elem_div(rb), if same_shape { Some(ma.zip(mb, |x, y| x / y)) } else { None }),
            36 => inplace!("melem_div", if same_shape { Some(ma.zip(mb, |x, y| x / y)) } else { None }, |t: &mut M, o: &M| t.melem_div(o)),
            37 => new!("*", match form { 0 => ra * rb, 1 => ra * rb.clone(), 2 => ra.clone() * rb, _ => ra.clone() * rb.clone() }, if ac == br { Some(ma.prod(mb)) } else { None }),
            38 | 39 => inplace!("mmul", if ac == br { Some(ma.prod(mb)) } else { None }, |t: &mut M, o: &M| t.mmul(o)),
            40 => { let (i, j) = (cx.rng.below(ar + 1), cx.rng.below(ac + 1)); let ok = i < ar && j < ac;
                    let want = if ok { let mut w = ma.clone(); w.put(i, j, elt); Some(w) } else { None };
                    inplace!("set", want, |t: &mut M, _: &M| t.set(i, j, Mon::mk(elt))) }
            41 => { let (i, j) = (cx.rng.below(ar + 1), cx.rng.below(ac + 1)); let ok = i < ar && j < ac;
                    let want = if ok { let mut w = ma.clone(); w.put(i, j, elt); Some(w) } else { None };
                    inplace!("get_mref", want, |t: &mut M, _: &M| *t.get_mref(i, j) = Mon::mk(elt)) }
            42 => { let k = cx.rng.below(ar * ac); let mut w = ma.clone(); w.d[k] = elt; let want = Some(w);
                    inplace!("get_mut_data", want, |t: &mut M, _: &M| t.get_mut_data()[k] = Mon::mk(elt)) }
            _ => new!("clone", ra.clone(), Some(ma.clone())),
        }
    }
    let ent = format!("{}({}x{}, {}x{})", name, ar, ac, br, bc);
    if h.log.len() < 200 { h.log.push(ent.clone()) }
    cx.saw(&format!("op {}", name));
    match made {
        None => {}
        Some((Ok(m), Some(w))) => {
            same(&ent, &m, &w)?;
            same_by_get(&ent, &m, &w)?;
            if w.d.len() <= CAP {
                if h.pool.len() < 6 && cx.rng.chance(3, 4) { h.pool.push((m, w)) } else { let k = cx.rng.below(h.pool.len()); h.pool[k] = (m, w) }
            }
        }
        Some((Err(Fail::Panic(_)), None)) => cx.saw("refused operations"),
        Some((Ok(m), None)) => return Err(format!("{} was accepted (result {}x{}?)", ent, m.rows(), m.get_data().len())),
        Some((Err(e), _)) => return Err(format!("{} {}", ent, e.text())),
    }
    // every matrix alive still looks exactly as the model says
    for (k, (m, w)) in h.pool.iter().enumerate() {
        same(&format!("matrix {} after {}", k, ent), m, w)?;
    }
    Ok(())
}
fn c_hist(cx: &mut Cx) -> Res {
    let len = match cx.tier { Tier::Tiny => 12, Tier::Quick => cx.rng.us(5, 40), Tier::Thorough => cx.rng.us(5, 120) };
    let mut h = Hist { pool: vec![], log: vec![] };
    let sq = cx.rng.chance(1, 3);
    let d = cx.rng.us(1, 9);
    for _ in 0..3 {
        let (r, c) = if sq { (d, d) } else { (cx.rng.us(1, 10), cx.rng.us(1, 10)) };
        let m = fps(cx, r, c);
        cx.h((r * 100 + c) as u64);
        h.pool.push((m.real(), m));
    }
    for _ in 0..len {
        if let Err(e) = one_op(cx, &mut h) {
            let l = h.log.len();
            return Err(format!("{} [history: {}]", e, h.log[l.saturating_sub(12)..].join(" ; ")));
        }
        cx.saw("operations in histories");
    }
    for (m, w) in &h.pool { same_by_get("end of history", m, w)? }
    let l = h.log.join(";");
    cx.h(crate::rng::hash_str(&l));
    cx.nontriv = len > 4;
    cx.desc(|| h.log.iter().take(12).cloned().collect::<Vec<_>>().join(" ; "));
    Ok(())
}
/// Selecting nothing: either refused or a matrix whose shape can be asked for.
fn c_empty(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    let m = toks::<u64>(cx, r, c);
    let a = m.real();
    cx.h((r * 1000 + c) as u64);
    cx.nontriv = r > 1 || c > 1;
    cx.desc(|| format!("selecting nothing from {}x{}", r, c));
    let none_r = vec![false; r];
    let none_c = vec![false; c];
    let ops: Vec<(&str, bool, Box<dyn Fn() -> Matrix<Mon<u64>>>)> = vec![
        ("permute_rows", true, { let a = a.clone(); Box::new(move || a.permute_rows(&[])) }),
        ("filter_rows", true, { let a = a.clone(); Box::new(move || a.filter_rows(&|_, _| false)) }),
        ("select_rows", true, { let a = a.clone(); Box::new(move || a.select_rows(&none_r)) }),
        ("permute_columns", false, { let a = a.clone(); Box::new(move || a.permute_columns(&[])) }),
        ("filter_columns", false, { let a = a.clone(); Box::new(move || a.filter_columns(&|_, _| false)) }),
        ("select_columns", false, { let a = a.clone(); Box::new(move || a.select_columns(&none_c)) }),
    ];
    for (name, rows, f) in ops {
        match attempt(|| f()) {
            Err(Fail::Panic(_)) => cx.saw("empty selections refused"),
            Err(e) => return Err(format!("{} of nothing {}", name, e.text())),
            Ok(m) => {
                cx.saw("empty selections answered");
                if !m.get_data().is_empty() || m.rows() != (if rows { 0 } else { r }) {
                    return Err(format!("{} of nothing from {}x{}: {} rows, {} elements", name, r, c, m.rows(), m.get_data().len()));
                }
                match attempt(|| m.cols()) {
                    Ok(k) if k == (if rows { c } else { 0 }) => {}
                    Err(Fail::Panic(_)) if rows => cx.finding(&format!("empty-row-selection:{}", name), "a selection of no rows gives a matrix whose column count cannot be asked for (cols() panics)"),
                    Ok(k) => return Err(format!("{} of nothing from {}x{}: {} columns", name, r, c, k)),
                    Err(e) => return Err(format!("{} of nothing from {}x{}: cols {}", name, r, c, e.text())),
                }
            }
        }
    }
    same("operand of an empty selection", &a, &m)
}

// ------------------------------------------------------------------ C02: element addressing

fn addressing<E: Tok>(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    let m = toks::<E>(cx, r, c);
    cx.h((r * 1000 + c) as u64);
    cx.h(std::mem::size_of::<E>() as u64);
    cx.nontriv = r * c > 1;
    cx.desc(|| format!("{}x{} of {}-byte elements", r, c, std::mem::size_of::<E>()));
    let mut a = must("new", || m.real())?;
    same("new", &a, &m)?;
    same_by_get("new", &a, &m)?;
    if a.is_square() != (r == c) || a.is_not_square() != (r != c) {
        return Err(format!("is_square of {}x{} is {}", r, c, a.is_square()));
    }
    for i in 0..r {
        for j in 0..c {
            let want = Mon::mk(m.at(i, j));
            let (x, y) = must("get_ref/index", || (a.get_ref(i, j).get(), a[(i, j)].get()))?;
            if x != want.get() || y != want.get() {
                return Err(format!("get_ref/index ({},{}) of {}x{}: {:?} / {:?}, should be {:?}", i, j, r, c, x, y, want.get()));
            }
            let z = must("get_mref", || a.get_mref(i, j).get())?;
            if z != want.get() {
                return Err(format!("get_mref ({},{}) of {}x{} refers to {:?}, should be {:?}", i, j, r, c, z, want.get()));
            }
            cx.add("elements addressed", 1);
        }
    }
    // writes touch the named element only
    let mut w = m.clone();
    let k = if cx.tier == Tier::Tiny { 2 } else { 6 };
    for q in 0..k {
        let (i, j) = if q == 0 { (r - 1, c - 1) } else { (cx.rng.below(r), cx.rng.below(c)) };
        let e = E::tok(2_000_000_000 + cx.rng.u() % 1_000_000_000);
        w.put(i, j, e);
        if cx.rng.chance(1, 2) { must("set", || a.set(i, j, Mon::mk(e)))? } else { must("get_mref", || *a.get_mref(i, j) = Mon::mk(e))? }
        same(&format!("after writing ({},{})", i, j), &a, &w)?;
        if a.get(i, j).get() != e { return Err(format!("get({},{}) does not return what was written", i, j)) }
        cx.saw("elements written");
    }
    // the raw storage is the same elements in row order, both ways
    let q = cx.rng.below(r * c);
    let e = E::tok(3_000_000_000);
    a.get_mut_data()[q] = Mon::mk(e);
    w.d[q] = e;
    same_by_get("after writing through the storage", &a, &w)?;
    // a copy is independent
    let b = a.clone();
    let (i, j) = (cx.rng.below(r), cx.rng.below(c));
    a.set(i, j, Mon::mk(E::tok(3_500_000_000)));
    same("copy after the original was written", &b, &w)?;
    // vectors
    let v: Vec<Mon<E>> = m.d.iter().map(|x| Mon::mk(*x)).collect();
    let n = v.len();
    same("vector", &must("vector", || Matrix::vector(v.clone()))?, &Mx { r: n, c: 1, d: m.d.clone() })?;
    same("row_vector", &must("row_vector", || Matrix::row_vector(v))?, &Mx { r: 1, c: n, d: m.d.clone() })?;
    Ok(())
}
fn c_addr8(cx: &mut Cx) -> Res { addressing::<u64>(cx) }
fn c_addr4(cx: &mut Cx) -> Res { addressing::<u32>(cx) }
fn c_addr_odd(cx: &mut Cx) -> Res { addressing::<(u8, u64, u16)>(cx) }
fn c_ctor(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    cx.h((r * 1000 + c) as u64);
    cx.nontriv = r * c > 1;
    cx.desc(|| format!("structured constructors {}x{}", r, c));
    let k = r.min(c);
    let e = fps(cx, 1, r.max(c));
    let v: Vec<Mon<Fp>> = e.d.iter().map(|x| Mon::mk(*x)).collect();
    let dg = |f: &dyn Fn(usize) -> Fp, r: usize, c: usize| Mx::from(r, c, |i, j| if i == j { f(i) } else { Fp(0) });
    same("id", &must("id", || M::id(r, c))?, &dg(&|_| Fp(1), r, c))?;
    same("zero", &must("zero", || M::zero(r, c))?, &dg(&|_| Fp(0), r, c))?;
    same("block_diag", &must("block_diag", || M::block_diag(r, c, v[..k].to_vec()))?, &dg(&|i| e.d[i], r, c))?;
    if r <= 70 { same("diag", &must("diag", || M::diag(v[..r].to_vec()))?, &dg(&|i| e.d[i], r, r))? }
    same("zero_vector", &must("zero_vector", || M::zero_vector(r))?, &Mx::from(r, 1, |_, _| Fp(0)))?;
    same("one_vector", &must("one_vector", || M::one_vector(r))?, &Mx::from(r, 1, |_, _| Fp(1)))?;
    // the same over plain machine types
    let i = must("id", || Matrix::<i32>::id(r, c))?;
    let z = must("zero", || Matrix::<f64>::zero(r, c))?;
    let b = must("block_diag", || Matrix::<u8>::block_diag(r, c, vec![7; k]))?;
    for y in 0..r { for x in 0..c {
        if i.get(y, x) != (y == x) as i32 || z.get(y, x) != 0.0 || b.get(y, x) != if x == y { 7 } else { 0 } { return Err(format!("structured constructor of a machine type wrong at ({},{}) of {}x{}", y, x, r, c)) }
    } }
    cx.add("structured matrices", 9);
    Ok(())
}

// ------------------------------------------------------------------ C03: structural rearrangements

fn structural<E: Tok>(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    let m = toks::<E>(cx, r, c);
    let a = m.real();
    cx.h((r * 1000 + c) as u64);
    cx.h(std::mem::size_of::<E>() as u64);
    cx.nontriv = r * c > 1;
    let op = if cx.tier == Tier::Tiny { cx.idx as usize % 10 } else { cx.rng.below(10) };
    cx.h(op as u64);
    cx.desc(|| format!("operation {} on {}x{}", op, r, c));
    match op {
        0 => {
            let t = must("t", || a.t())?;
            same("t", &t, &m.t())?;
            same("t of t", &must("t", || t.t())?, &m)?;
        }
        1 => {
            let mut b = a.clone();
            must("mt", || b.mt())?;
            same("mt", &b, &m.t())?;
            same_by_get("mt", &b, &m.t())?;
            must("mt", || b.mt())?;
            same("mt twice", &b, &m)?;
        }
        2 => {
            let k = cx.rng.us(1, c + 3);
            let n = toks::<E>(cx, r, k);
            let b = n.real();
            same("cr", &must("cr", || a.cr(&b))?, &m.cr(&n))?;
            same("|", &must("|", || a.clone() | &b)?, &m.cr(&n))?;
            same("cr with itself", &must("cr", || a.cr(&a))?, &m.cr(&m))?;
            same("right operand of cr", &b, &n)?;
        }
        3 => {
            let k = cx.rng.us(1, r + 3);
            let n = toks::<E>(cx, k, c);
            let b = n.real();
            same("cb", &must("cb", || a.cb(&b))?, &m.cb(&n))?;
            same("cb with itself", &must("cb", || a.cb(&a))?, &m.cb(&m))?;
            same("right operand of cb", &b, &n)?;
        }
        4 => {
            if r > 1 && c > 1 {
                let all = r * c <= 64;
                for q in 0..if all { r * c } else { 6 } {
                    let (i, j) = if all { (q / c, q % c) } else if q == 0 { (r - 1, c - 1) } else if q == 1 { (0, 0) } else { (cx.rng.below(r), cx.rng.below(c)) };
                    same(&format!("minor({},{})", i, j), &must("minor", || a.minor(i, j))?, &m.minor(i, j))?;
                    cx.saw("minors");
                }
            }
        }
        5 => {
            for q in 0..6 {
                let (y, x) = (cx.rng.below(r), cx.rng.below(c));
                let (y2, x2) = (cx.rng.us(y + 1, r), cx.rng.us(x + 1, c));
                let (y, x, y2, x2) = match q { 0 => (0, 0, r, c), 1 => (r - 1, c - 1, r, c), 2 => (y, 0, y2, c), _ => (y, x, y2, x2) };
                same(&format!("sub_matrix({},{},{},{})", y, x, y2, x2), &must("sub_matrix", || a.sub_matrix(y, x, y2, x2))?, &m.sub(y, x, y2, x2))?;
                cx.saw("sub-matrices");
            }
        }
        6 => {
            for j in 0..c.min(40) {
                let j = if c > 40 { cx.rng.below(c) } else { j };
                same(&format!("get_column({})", j), &must("get_column", || a.get_column(j))?, &m.cols(&[j]))?;
            }
            same("get_column(last)", &must("get_column", || a.get_column(c - 1))?, &m.cols(&[c - 1]))?;
        }
        7 => {
            for q in 0..4 {
                let v: Vec<usize> = match q { 0 => cx.rng.perm(r), 1 => (0..cx.rng.us(1, 2 * r)).map(|_| cx.rng.below(r)).collect(), 2 => (0..r).rev().collect(), _ => vec![cx.rng.below(r)] };
                same("permute_rows", &must("permute_rows", || a.permute_rows(&v))?, &m.rows(&v))?;
                let v: Vec<usize> = match q { 0 => cx.rng.perm(c), 1 => (0..cx.rng.us(1, 2 * c)).map(|_| cx.rng.below(c)).collect(), 2 => (0..c).rev().collect(), _ => vec![cx.rng.below(c)] };
                same("permute_columns", &must("permute_columns", || a.permute_columns(&v))?, &m.cols(&v))?;
                cx.saw("permutations");
            }
        }
        8 => {
            let den = cx.rng.us(1, 3);
            for q in 0..3 {
                let mut sr: Vec<bool> = (0..r).map(|_| cx.rng.chance(den, 4)).collect();
                let mut sc: Vec<bool> = (0..c).map(|_| cx.rng.chance(den, 4)).collect();
                if q == 0 { sr = vec![true; r]; sc = vec![true; c] }
                let (fr, fc) = (cx.rng.below(r), cx.rng.below(c));
                sr[fr] = true;
                sc[fc] = true;
                let vr: Vec<usize> = (0..r).filter(|i| sr[*i]).collect();
                let vc: Vec<usize> = (0..c).filter(|i| sc[*i]).collect();
                same("select_rows", &must("select_rows", || a.select_rows(&sr))?, &m.rows(&vr))?;
                same("select_columns", &must("select_columns", || a.select_columns(&sc))?, &m.cols(&vc))?;
                // filters decide from the index, or from the matrix they are handed
                same("filter_rows", &must("filter_rows", || a.filter_rows(&|_, i| sr[i]))?, &m.rows(&vr))?;
                same("filter_columns", &must("filter_columns", || a.filter_columns(&|_, j| sc[j]))?, &m.cols(&vc))?;
                let by = |e: E| -> bool { format!("{:?}", e).bytes().map(|b| b as u32).sum::<u32>() % 3 != 0 };
                let (pc, pr) = (cx.rng.below(c), cx.rng.below(r));
                let vr: Vec<usize> = (0..r).filter(|i| by(m.at(*i, pc))).collect();
                let vc: Vec<usize> = (0..c).filter(|j| by(m.at(pr, *j))).collect();
                if !vr.is_empty() { same("filter_rows by content", &must("filter_rows", || a.filter_rows(&|x, i| by(x.get(i, pc).get())))?, &m.rows(&vr))? }
                if !vc.is_empty() { same("filter_columns by content", &must("filter_columns", || a.filter_columns(&|x, j| by(x.get(pr, j).get())))?, &m.cols(&vc))? }
                cx.saw("selections");
            }
        }
        _ => {
            // one law across several operations: cutting and glueing gives the matrix back
            if r > 1 && c > 1 {
                let (y, x) = (cx.rng.us(1, r - 1), cx.rng.us(1, c - 1));
                let g = must("cut and glue", || {
                    let top = a.sub_matrix(0, 0, y, x).cr(&a.sub_matrix(0, x, y, c));
                    let bot = a.sub_matrix(y, 0, r, x).cr(&a.sub_matrix(y, x, r, c));
                    top.cb(&bot)
                })?;
                same("cut and glue", &g, &m)?;
            }
            let p = cx.rng.perm(r);
            let mut inv = vec![0; r];
            for (i, x) in p.iter().enumerate() { inv[*x] = i }
            same("permutation and its inverse", &must("permute_rows", || a.permute_rows(&p).permute_rows(&inv))?, &m)?;
            same("rows of the transpose", &must("permute", || a.t().permute_columns(&p).t())?, &m.rows(&p))?;
        }
    }
    same("operand", &a, &m)?;
    cx.saw(&format!("structural operation {}", op));
    Ok(())
}
fn c_str8(cx: &mut Cx) -> Res { structural::<u64>(cx) }
fn c_str4(cx: &mut Cx) -> Res { structural::<u32>(cx) }
fn c_str_odd(cx: &mut Cx) -> Res { structural::<(u8, u64, u16)>(cx) }

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "random histories of constructors, rearrangements, arithmetic, in-place operations, element writes and ill-formed requests over a pool of matrices, each step compared with a reference model; selections of nothing; non-trivial: more than four operations",
            fams: vec![
                Fam { name: "history", tiny: 25, quick: 30000, thorough: 1000000, f: c_hist },
                Fam { name: "empty", tiny: 3, quick: 300, thorough: 3000, f: c_empty },
            ],
            need: vec!["operations in histories", "in-place operations", "refused operations", "op mt", "op mmul", "op sub_matrix", "op *", "op reduce", "op map"],
        },
        Prop {
            id: "C02",
            rule: "every small shape and random, long and large shapes, elements of 4, 8 and 24 bytes carrying unique tokens; non-trivial: more than one element",
            fams: vec![
                Fam { name: "8-byte", tiny: 6, quick: 5000, thorough: 150000, f: c_addr8 },
                Fam { name: "4-byte", tiny: 3, quick: 3000, thorough: 80000, f: c_addr4 },
                Fam { name: "24-byte", tiny: 3, quick: 3000, thorough: 80000, f: c_addr_odd },
                Fam { name: "structured", tiny: 6, quick: 5000, thorough: 150000, f: c_ctor },
            ],
            need: vec!["elements addressed", "elements written", "structured matrices", "square", "tall", "wide", "single row", "single column"],
        },
        Prop {
            id: "C03",
            rule: "rearrangements of matrices of unique tokens of every shape class, compared with the defining index formula; non-trivial: more than one element",
            fams: vec![
                Fam { name: "8-byte", tiny: 20, quick: 25000, thorough: 600000, f: c_str8 },
                Fam { name: "4-byte", tiny: 10, quick: 8000, thorough: 200000, f: c_str4 },
                Fam { name: "24-byte", tiny: 10, quick: 8000, thorough: 200000, f: c_str_odd },
            ],
            need: vec!["minors", "sub-matrices", "permutations", "selections", "structural operation 0", "structural operation 1", "structural operation 2", "structural operation 3", "structural operation 9", "square", "tall", "wide", "single row", "single column"],
        },
    ]
}
