//! C21: results depend on nothing but the arguments.
//!
//! Every public operation is run on the same arguments again and again: with the heap pre-filled with
//! different garbage, after other work, and at the same time from several threads that share the
//! arguments.  All runs must give the same outcome bit for bit.  The same tour runs with monitored
//! elements (which know whether they were ever written), under Miri and under AddressSanitizer.
use crate::alloc::set_pattern;
use crate::exact::tshape;
use crate::fw::*;
use crate::gen::*;
use crate::lin::*;
use crate::mon::{Mon, Sc};
use crate::rng::{hash_str, mix};
use la::*;
use std::cell::RefCell;
use std::fmt::Debug;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

trait Fp {
    fn fp(&self) -> u64;
}
macro_rules! fpint { ($($t:ty),*) => {$( impl Fp for $t { fn fp(&self) -> u64 { mix(*self as u64 ^ 0x51) } } )*} }
fpint!(bool, usize, u64, u32, u8, char);
impl Fp for () { fn fp(&self) -> u64 { 1 } }
impl Fp for f64 { fn fp(&self) -> u64 { Sc::bits(*self) } }
impl Fp for f32 { fn fp(&self) -> u64 { Sc::bits(*self) } }
impl Fp for Mon<f64> { fn fp(&self) -> u64 { Sc::bits(*self) } }
impl Fp for Mon<f32> { fn fp(&self) -> u64 { Sc::bits(*self) } }
impl<T: Copy + Fp> Fp for Mon<T> where T: NotFloat { fn fp(&self) -> u64 { self.get().fp() } }
trait NotFloat {}
impl NotFloat for u64 {}
impl Fp for &'static str { fn fp(&self) -> u64 { hash_str(self) } }
impl Fp for String { fn fp(&self) -> u64 { hash_str(self) } }
impl Fp for [u16; 3] { fn fp(&self) -> u64 { mix(self[0] as u64 ^ (self[1] as u64) << 16 ^ (self[2] as u64) << 32) } }
impl<T: Fp> Fp for Vec<T> { fn fp(&self) -> u64 { self.iter().fold(self.len() as u64, |h, x| mix(h ^ x.fp())) } }
impl<T: Fp> Fp for Option<T> { fn fp(&self) -> u64 { match self { None => 3, Some(x) => mix(x.fp() ^ 7) } } }
impl<T: Fp + ?Sized> Fp for &T where T: Seq { fn fp(&self) -> u64 { (*self).fp() } }
trait Seq {}
impl<T> Seq for Vec<T> {}
impl<T> Seq for Matrix<T> {}
impl<A: Fp, B: Fp> Fp for (A, B) { fn fp(&self) -> u64 { mix(self.0.fp() ^ mix(self.1.fp())) } }
impl<A: Fp, B: Fp, C: Fp> Fp for (A, B, C) { fn fp(&self) -> u64 { mix(self.0.fp() ^ mix(self.1.fp() ^ mix(self.2.fp()))) } }
impl<T: Copy + Fp> Fp for Matrix<T> {
    fn fp(&self) -> u64 {
        let mut h = mix(self.rows() as u64 ^ mix(self.get_data().len() as u64));
        for x in self.get_data() { h = mix(h ^ x.fp()) }
        h
    }
}

type Trail = Vec<(&'static str, u64)>;
/// A meeting point for threads: before each operation they wait (a moment, not for ever) until all have
/// arrived, so that they run the same operation at the same time.
struct Meet { at: Vec<AtomicUsize>, n: usize }
impl Meet {
    fn new(n: usize) -> Meet { Meet { at: (0..256).map(|_| AtomicUsize::new(0)).collect(), n } }
    fn wait(&self, k: usize) {
        let Some(c) = self.at.get(k) else { return };
        c.fetch_add(1, Ordering::SeqCst);
        for i in 0..if cfg!(miri) { 64 } else { 4000u32 } {
            if c.load(Ordering::SeqCst) >= self.n { return }
            if i % 64 == 63 { std::thread::yield_now() } else { std::hint::spin_loop() }
        }
    }
}
thread_local! { static MEET: RefCell<Option<Arc<Meet>>> = const { RefCell::new(None) }; }

/// Runs one operation; a refusal is an outcome like any other, an unwritten value is not.
fn step<R: Fp>(t: &mut Trail, name: &'static str, f: impl Fn() -> R) -> Res {
    let meet = MEET.with(|m| m.borrow().clone());
    if let Some(m) = &meet { m.wait(t.len()) }
    let once = || match attempt(|| f().fp()) {
        Ok(h) => Ok(h),
        Err(Fail::Panic(_)) => Ok(0xdead),
        Err(e) => Err(format!("{} {}", name, e.text())),
    };
    let h = once()?;
    if meet.is_some() {
        for _ in 0..2 {
            let k = once()?;
            if k != h { return Err(format!("{} gave different results one after the other ({:x} against {:x})", name, h, k)) }
        }
    }
    t.push((name, h));
    Ok(())
}
macro_rules! st { ($t:ident, $($n:literal => $e:expr),* $(,)?) => {$( step($t, $n, || $e)?; )*} }

/// Arguments of one case.
struct Args<T> {
    a: Matrix<T>,      // m x n
    b: Matrix<T>,      // m x n
    p: Matrix<T>,      // n x k
    q: Matrix<T>,      // square
    s: Matrix<T>,      // symmetric positive definite
    w: Matrix<T>,      // symmetric
    rhs: Matrix<T>,
    v: Matrix<T>,      // column
    i: usize,
    j: usize,
    i2: usize,
    j2: usize,
    rsel: Vec<bool>,
    csel: Vec<bool>,
    rows: Vec<usize>,
    cols: Vec<usize>,
}

fn shuffles<T: Copy + Fp + Debug>(t: &mut Trail, g: &Args<T>) -> Res {
    let a = &g.a;
    let (m, n) = (a.rows(), a.cols());
    let e = |f: &dyn Fn(&mut Matrix<T>)| { let mut x = a.clone(); f(&mut x); x };
    st!(t,
        "new" => Matrix::new(m, n, a.get_data().clone()),
        "vector" => Matrix::vector(a.get_data().clone()),
        "row_vector" => Matrix::row_vector(a.get_data().clone()),
        "rows/cols" => (a.rows(), a.cols()),
        "is_square" => (a.is_square(), a.is_not_square()),
        "get" => a.get(g.i, g.j),
        "get_ref" => *a.get_ref(g.i, g.j),
        "index" => a[(g.i, g.j)],
        "set" => e(&|x| x.set(g.i, g.j, g.b.get(0, 0))),
        "get_mref" => e(&|x| *x.get_mref(g.i, g.j) = g.b.get(0, 0)),
        "get_mut_data" => e(&|x| x.get_mut_data()[0] = g.b.get(0, 0)),
        "get out of range" => a.get(m, g.j),
        "map" => a.map(&|x| x.fp()),
        "mmap" => e(&|x| x.mmap(&|y| *y)),
        "reduce" => a.reduce(&vec![1u64; n], &|s: &u64, x: &T| mix(*s ^ x.fp())),
        "t" => a.t(),
        "mt" => e(&|x| x.mt()),
        "cr" => a.cr(&g.b),
        "|" => a.clone() | &g.b,
        "cb" => a.cb(&g.b),
        "minor" => a.minor(g.i, g.j),
        "sub_matrix" => a.sub_matrix(g.i, g.j, g.i2, g.j2),
        "get_column" => a.get_column(g.j),
        "permute_rows" => a.permute_rows(&g.rows),
        "permute_columns" => a.permute_columns(&g.cols),
        "filter_rows" => a.filter_rows(&|_, r| g.rsel[r]),
        "filter_columns" => a.filter_columns(&|_, c| g.csel[c]),
        "select_rows" => a.select_rows(&g.rsel),
        "select_columns" => a.select_columns(&g.csel),
        "debug text" => format!("{:?}", a),
        "clone" => a.clone(),
        "map within map" => a.map(&|x| mix(x.fp() ^ g.b.map(&|y| y.fp()).fp())),
        "map left by a panic" => a.map(&|x| if x.fp() % 3 == 0 { panic!("left") } else { x.fp() }),
        "reduce left by a panic" => a.reduce(&vec![1u64; n], &|s: &u64, x: &T| if x.fp() % 5 == 0 { panic!("left") } else { mix(*s ^ x.fp()) }),
        "after a panic" => { let mut x = a.clone(); let _ = attempt(|| x.mmap(&|y| if y.fp() % 3 == 0 { panic!("left") } else { *y })); x },
    );
    Ok(())
}
fn numeric<T: Sc + Fp>(t: &mut Trail, g: &Args<T>, iter: bool) -> Res {
    let a = &g.a;
    let e = |f: &dyn Fn(&mut Matrix<T>)| { let mut x = a.clone(); f(&mut x); x };
    let k = g.b.get(0, 0);
    let (m, n) = (a.rows(), a.cols());
    st!(t,
        "id" => Matrix::<T>::id(m, n),
        "zero" => Matrix::<T>::zero(m, n),
        "diag" => Matrix::diag(g.v.get_data().clone()),
        "block_diag" => Matrix::block_diag(m, n, a.get_data()[..m.min(n)].to_vec()),
        "zero_vector" => Matrix::<T>::zero_vector(m),
        "one_vector" => Matrix::<T>::one_vector(m),
        "neg" => -a,
        "neg owned" => -(a.clone()),
        "mneg" => e(&|x| x.mneg()),
        "scale" => a.scale(k),
        "mscale" => e(&|x| x.mscale(k)),
        "&a + &b" => a + &g.b,
        "&a + b" => a + g.b.clone(),
        "a + &b" => a.clone() + &g.b,
        "a + b" => a.clone() + g.b.clone(),
        "&a - &b" => a - &g.b,
        "&a - b" => a - g.b.clone(),
        "a - &b" => a.clone() - &g.b,
        "a - b" => a.clone() - g.b.clone(),
        "madd" => e(&|x| x.madd(&g.b)),
        "msub" => e(&|x| x.msub(&g.b)),
        "elem_mul" => a.elem_mul(&g.b),
        "melem_mul" => e(&|x| x.melem_mul(&g.b)),
        "elem_div" => a.elem_div(&g.b),
        "melem_div" => e(&|x| x.melem_div(&g.b)),
        "&a * &p" => a * &g.p,
        "&a * p" => a * g.p.clone(),
        "a * &p" => a.clone() * &g.p,
        "a * p" => a.clone() * g.p.clone(),
        "mmul" => e(&|x| x.mmul(&g.p)),
        "trace" => a.trace(),
        "det" => g.q.det(),
        "solve" => g.q.solve(&g.rhs),
        "inverse" => g.q.inverse(),
        "is_singular" => (g.q.is_singular(), g.q.is_non_singular()),
        "pinverse" => a.pinverse(),
        "vector_euclidean_norm" => g.v.vector_euclidean_norm(),
        "length" => g.v.length(),
        "vector_1_norm" => g.v.vector_1_norm(),
        "vector_2_norm" => g.v.vector_2_norm(),
        "vector_p_norm" => g.v.vector_p_norm(T::of(3.0)),
        "frobenius_norm" => a.frobenius_norm(),
        "vector_inf_norm" => g.v.vector_inf_norm(),
        "is_symmetric" => (g.w.is_symmetric(), g.q.is_non_symmetric()),
        "approx_eq" => (a.approx_eq(a), a.approx_eq(&g.b)),
        "==" => (*a == *a, *a == g.b),
    );
    let lu = |x: &Matrix<T>, t: &mut Trail| -> Res {
        let d = must("LU", || LUDecomposition::new(x))?;
        st!(t, "LU" => { let d = LUDecomposition::new(x); (d.get_l(), d.get_u(), d.get_p()) });
        st!(t, "LU l" => d.get_l(), "LU u" => d.get_u(), "LU p" => d.get_p(), "LU piv" => d.get_piv(), "LU det" => d.det(),
            "LU singular" => (d.is_singular(), d.is_non_singular()), "LU solve" => d.solve(&g.rhs));
        Ok(())
    };
    lu(&g.q, t)?;
    lu(a, t)?;
    for x in [a, &g.q] {
        let d = must("QR", || QRDecomposition::new(x))?;
        st!(t, "QR" => { let d = QRDecomposition::new(x); (d.get_q(), d.get_r(), d.is_full_rank()) });
        st!(t, "QR q" => d.get_q(), "QR r" => d.get_r(), "QR h" => d.get_h(), "QR full rank" => d.is_full_rank(), "QR solve" => d.solve(&g.rhs));
    }
    if let Some(d) = must("Cholesky", || CholeskyDecomposition::new(&g.s))? {
        st!(t, "Cholesky l" => d.get_l(), "Cholesky solve" => d.solve(&g.rhs));
    }
    st!(t, "Cholesky of a general matrix" => CholeskyDecomposition::new(&g.q).map(|d| d.get_l().clone()));
    if iter {
        for x in [a, &g.q] {
            st!(t, "SVD" => { let d = SVD::new(x); (d.get_u().clone(), d.get_s().clone(), (d.get_v().clone(), d.rank())) });
        }
        st!(t, "SVD direct" => { let d = SVD::direct(a); (d.get_u().clone(), d.get_s().clone(), d.get_v().clone()) });
        for x in [&g.w, &g.q] {
            st!(t, "eigendecomposition" => { let d = EigenDecomposition::new(x);
                (d.get_v().clone(), (d.get_real_eigenvalues().clone(), d.get_imag_eigenvalues().clone()), d.get_d()) });
        }
    }
    Ok(())
}

fn args<T: Copy>(cx: &mut Cx, m: usize, n: usize, f: &dyn Fn(f64) -> T) -> Args<T> {
    let k = cx.rng.us(1, 5);
    let sq = if cx.tier == Tier::Tiny { cx.rng.us(1, 4) } else { dim(cx, 16) };
    let mk = |d: Dm| -> Matrix<T> { Matrix::new(d.r, d.c, d.d.iter().map(|x| f(*x)).collect()) };
    let a = general(&mut cx.rng, m, n, 2).0;
    let b = uni(&mut cx.rng, m, n);
    let p = general(&mut cx.rng, n, k, 2).0;
    let q = if cx.rng.chance(1, 2) { general(&mut cx.rng, sq, sq, 2).0 } else { eig_square(&mut cx.rng, sq, 2).0 };
    let s = spd(&mut cx.rng, sq, 50.0).0;
    let w = symmetric(&mut cx.rng, sq, 2).0;
    let rhs = uni(&mut cx.rng, sq, k);
    let v = uni(&mut cx.rng, m, 1);
    let (i, j) = (cx.rng.below(m), cx.rng.below(n));
    let rows = (0..m + 1).map(|_| cx.rng.below(m)).collect();
    let cols = (0..n + 1).map(|_| cx.rng.below(n)).collect();
    let mut rsel: Vec<bool> = (0..m).map(|_| cx.rng.chance(1, 2)).collect();
    let mut csel: Vec<bool> = (0..n).map(|_| cx.rng.chance(1, 2)).collect();
    rsel[i] = true;
    csel[j] = true;
    let (i2, j2) = (cx.rng.us(i + 1, m), cx.rng.us(j + 1, n));
    Args { a: mk(a), b: mk(b), p: mk(p), q: mk(q), s: mk(s), w: mk(w), rhs: mk(rhs), v: mk(v), i, j, i2, j2, rsel, csel, rows, cols }
}

/// All the repetitions of one case.  `h` is another set of arguments, used between and beside.
fn repeat<T: Copy + Sync + Send + Fp>(cx: &mut Cx, g: &Args<T>, h: &Args<T>, tour: &(dyn Fn(&mut Trail, &Args<T>) -> Res + Sync), threads: bool) -> Res {
    let run = |g: &Args<T>, pat: u8| -> Result<Trail, String> {
        set_pattern(pat);
        let mut t = vec![];
        tour(&mut t, g)?;
        Ok(t)
    };
    let base = run(g, 0xA7)?;
    let other = if cfg!(miri) && !threads { vec![] } else { run(h, 0xA7)? };
    let cmp = |what: &str, base: &Trail, o: &Trail| -> Res {
        if base.len() != o.len() { return Err(format!("{}: {} operations, first run {}", what, o.len(), base.len())) }
        for (x, y) in base.iter().zip(o) { if x != y { return Err(format!("{}: {} gave a different result ({:x} against {:x})", what, x.0, x.1, y.1)) } }
        Ok(())
    };
    let pats: &[u8] = if cfg!(miri) { &[0xA7] } else { &[0x00, 0xFF, 0x3F, 0xC0, 0x01] };
    for p in pats {
        cmp(&format!("heap filled with {:#04x}", p), &base, &run(g, *p)?)?;
        cx.add("operations repeated on a differently filled heap", base.len() as u64);
    }
    if !cfg!(miri) {
        cmp("other arguments, again after the first ones", &other, &run(h, 0x5A)?)?;
        cx.add("operations repeated after work on other arguments", 2 * base.len() as u64);
    }
    if threads {
        let meet = Arc::new(Meet::new(5));
        let rs: Vec<Result<Trail, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..5u8).map(|i| { let (run, meet) = (&run, meet.clone()); s.spawn(move || {
                MEET.with(|m| *m.borrow_mut() = Some(meet));
                run(if i < 3 { g } else { h }, 0x11 * (i + 1))
            }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread died".into()))).collect()
        });
        for (i, r) in rs.into_iter().enumerate() {
            cmp("several threads at once", if i < 3 { &base } else { &other }, &r?)?;
            cx.add(if i < 3 { "operations repeated on shared arguments from other threads" } else { "operations repeated while other threads work on other arguments" }, 3 * base.len() as u64);
        }
    }
    for (n, _) in &base { cx.h(hash_str(n)) }
    cx.add("operations observed", base.len() as u64);
    cx.add("refusals observed", base.iter().filter(|x| x.1 == 0xdead).count() as u64);
    set_pattern(0xA7);
    Ok(())
}

fn shape21(cx: &mut Cx) -> (usize, usize) {
    if cx.tier == Tier::Tiny { return (cx.rng.us(1, 4), cx.rng.us(1, 4)) }
    let (m, n) = tshape(cx);
    if m * n > 900 { (m.min(30), n.min(30)) } else { (m, n) }
}
fn scal<T: Sc + Fp>(cx: &mut Cx, mark: &'static str) -> Res {
    let (m, n) = shape21(cx);
    let g = args(cx, m, n, &|x| T::of(x));
    cx.h((m * 1000 + n) as u64);
    for x in g.a.get_data().iter().chain(g.q.get_data()) { cx.h(x.bits()) }
    cx.nontriv = m * n > 1;
    cx.desc(|| format!("every operation on {}x{} and {}x{} {} matrices", m, n, g.q.rows(), g.q.cols(), T::NAME));
    let (m2, n2) = shape21(cx);
    let h = args(cx, m2, n2, &|x| T::of(x));
    let threads = cx.idx % 3 == 0;
    repeat(cx, &g, &h, &|t, g| { shuffles(t, g)?; numeric(t, g, true) }, threads)?;
    cx.saw(mark);
    Ok(())
}
fn c_f64(cx: &mut Cx) -> Res { scal::<f64>(cx, "tours with f64") }
fn c_f32(cx: &mut Cx) -> Res { scal::<f32>(cx, "tours with f32") }
fn c_mon(cx: &mut Cx) -> Res { scal::<Mon<f64>>(cx, "tours with elements that know whether they were written") }
fn opaque<T: Copy + Sync + Send + Fp + Debug>(cx: &mut Cx, f: &dyn Fn(f64) -> T) -> Res {
    let (m, n) = shape21(cx);
    let g = args(cx, m, n, f);
    cx.h((m * 1000 + n) as u64);
    for x in g.a.get_data() { cx.h(x.fp()) }
    cx.nontriv = m * n > 1;
    cx.desc(|| format!("every rearrangement of a {}x{} matrix of {}", m, n, std::any::type_name::<T>()));
    let (m2, n2) = shape21(cx);
    let h = args(cx, m2, n2, f);
    let threads = cx.idx % 3 == 0;
    repeat(cx, &g, &h, &|t, g| shuffles(t, g), threads)?;
    cx.saw("tours with other element types");
    Ok(())
}
fn c_other(cx: &mut Cx) -> Res {
    const W: [&str; 5] = ["", "a", "matrix", "element", "poison"];
    match cx.rng.below(8) {
        0 => opaque::<u8>(cx, &|x| x.to_bits() as u8 ^ (x.to_bits() >> 44) as u8),
        1 => opaque::<()>(cx, &|_| ()),
        2 => opaque::<char>(cx, &|x| char::from_u32(0x41 + (x.to_bits() >> 40) as u32 % 500).unwrap()),
        3 => opaque::<&'static str>(cx, &|x| W[(x.to_bits() >> 40) as usize % 5]),
        4 => opaque::<bool>(cx, &|x| x > 0.0),
        5 => opaque::<[u16; 3]>(cx, &|x| { let b = x.to_bits(); [b as u16, (b >> 20) as u16, (b >> 40) as u16] }),
        6 => opaque::<Mon<u64>>(cx, &|x| Mon::mk(x.to_bits())),
        _ => opaque::<Option<u32>>(cx, &|x| if x > 0.3 { None } else { Some(x.to_bits() as u32) }),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        rule: "one case runs every public operation on one set of arguments, six times with the heap pre-filled with six different patterns, after work on other arguments and, in every third case, from three threads sharing the arguments while two more use others, all five running the same operation at the same time; element types f64, f32, tagged f64, tagged u64, zero-sized, bool, char, str, Option, arrays; non-trivial: more than one element",
        fams: vec![
            Fam { name: "f64", tiny: 3, quick: 1200, thorough: 30000, f: c_f64 },
            Fam { name: "f32", tiny: 2, quick: 600, thorough: 15000, f: c_f32 },
            Fam { name: "tagged", tiny: 2, quick: 1200, thorough: 30000, f: c_mon },
            Fam { name: "other", tiny: 10, quick: 3000, thorough: 60000, f: c_other },
        ],
        need: vec!["operations observed", "operations repeated on a differently filled heap", "operations repeated on shared arguments from other threads", "operations repeated while other threads work on other arguments", "operations repeated after work on other arguments", "refusals observed", "tours with f64", "tours with f32", "tours with elements that know whether they were written", "tours with other element types"],
    }]
}
