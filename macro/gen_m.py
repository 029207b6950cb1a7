"""Generates Rust programs full of uses of the matrix-building macro, each with its expected outcome.

Every use records, by side effect, which element expressions were evaluated and in which order, so the
program itself can tell "once each, row by row".  Expected shapes and values are computed here.
"""
import random


class Gen:
    def __init__(self, seed, cases, edition):
        self.r = random.Random("m!%d" % seed)
        self.n = cases
        self.edition = edition
        self.uses = []
        self.keys = set()  # distinct non-trivial uses
        self.stats = {}

    def saw(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # ---- element expressions: (source, value as Rust literal, evaluates `tick`?)
    def int_expr(self, ty, k):
        """An expression of integer type with a small value; k is its position."""
        r = self.r
        v = r.randint(0, 60)
        kinds = ["lit", "sum", "prec", "paren", "block", "if", "match", "call", "method", "index", "closure",
                 "cast", "field", "macro", "nested", "tick", "tick", "shadow", "let", "deref", "loop", "tuple"]
        kind = r.choice(kinds)
        self.saw("expression kind: " + kind)
        a, b = r.randint(0, 9), r.randint(0, 6)
        tick = False
        if kind == "lit":
            s = "%d" % v
        elif kind == "sum":
            s, v = "%d + %d" % (a, b), a + b
        elif kind == "prec":
            c = r.randint(0, 5)
            s, v = "%d + %d * %d" % (a, b, c), a + b * c
        elif kind == "paren":
            c = r.randint(0, 5)
            s, v = "(%d + %d) * %d" % (a, b, c), (a + b) * c
        elif kind == "block":
            s, v = "{ let t = %d; t + %d }" % (a, b), a + b
        elif kind == "if":
            s, v = "if %d < %d { %d } else { %d }" % (a, b, a, b), (a if a < b else b)
        elif kind == "match":
            s, v = "match %d { 0 => 11, 1 => 22, _ => 33 }" % a, {0: 11, 1: 22}.get(a, 33)
        elif kind == "call":
            s, v = "add(%d, %d) as %s" % (a, b, ty), a + b
        elif kind == "method":
            s, v = "std::cmp::max(%d as %s, %d)" % (a, ty, b), max(a, b)
        elif kind == "index":
            s, v = "[%d, %d, 9][%d]" % (a, b, k % 3), [a, b, 9][k % 3]
        elif kind == "closure":
            s, v = "(|x: %s| x + %d)(%d)" % (ty, a, b), a + b
        elif kind == "cast":
            s, v = "%du16 as %s" % (v, ty), v
        elif kind == "field":
            s, v = "Pt { x: %d, y: %d }.y as %s" % (a, b, ty), b
        elif kind == "macro":
            s, v = "vec![1u8; %d].len() as %s" % (a, ty), a
        elif kind == "nested":
            i, j = r.randint(0, 1), r.randint(0, 2)
            w = [r.randint(0, 9) for _ in range(6)]
            s = "m!(%d, %d, %d; %d, %d, %d).get(%d, %d)" % (*w, i, j)
            v = w[i * 3 + j]
        elif kind == "tick":
            s, tick = "tick(%d, %d as %s)" % (k, v, ty), True
        elif kind == "shadow":
            # names an implementation may use inside the macro
            s, v = r.choice([("_rows", 5), ("_cols", 7), ("rows", 13), ("data", 17), ("v", 19), ("n", 23)])
            s = s + " as " + ty
        elif kind == "let":
            s, v = "*&{ %d }" % v, v
        elif kind == "deref":
            s, v = "*std::cmp::min(&%d, &%d)" % (a, b), min(a, b)
        elif kind == "loop":
            s, v = "loop { break %d; }" % a, a
        elif kind == "tuple":
            s, v = "(%d, %d).1" % (a, b), b
        if not tick and r.random() < 0.5:
            s, tick = "tick(%d, %s)" % (k, s), True
        return s, "%d" % v, tick

    def elem(self, ty, k):
        r = self.r
        if ty in ("i32", "u64", "i8", "usize"):
            s, v, t = self.int_expr(ty, k)
            if ty in ("i32", "i8") and r.random() < 0.2:
                return "-(%s)" % s, "-%s" % v, t
            return s, v, t
        if ty in ("f64", "f32"):
            x = r.choice([0.0, 1.0, 2.5, 0.125, 1e3, 7.75, 3.0, 1e-3])
            y = r.choice([0.5, 2.0, 4.0, 0.25])
            kind = r.randint(0, 6)
            lit = lambda z: repr(float(z))
            if kind == 0:
                s, v = lit(x), lit(x)
            elif kind == 1:
                s, v = "-" + lit(x), "-" + lit(x)
            elif kind == 2:
                s, v = "%s * %s" % (lit(x), lit(y)), "(%s * %s)" % (lit(x), lit(y))
            elif kind == 3:
                s, v = "%s - %s" % (lit(x), lit(y)), "(%s - %s)" % (lit(x), lit(y))
            elif kind == 4:
                n = r.randint(0, 99)
                s, v = "%di32 as %s" % (n, ty), "%d.0" % n
            elif kind == 5:
                s, v = "%s::INFINITY" % ty, "%s::INFINITY" % ty
            else:
                s, v = "(%s as %s).abs()" % ("-" + lit(x), ty), lit(x)
            if r.random() < 0.5:
                return "tick(%d, %s)" % (k, s), v, True
            return s, v, False
        if ty == "bool":
            a, b = r.randint(0, 5), r.randint(0, 5)
            s, v = r.choice([("true", True), ("false", False), ("%d < %d" % (a, b), a < b),
                             ("%d == %d && true" % (a, b), a == b), ("!(%d > %d)" % (a, b), not a > b)])
            if r.random() < 0.5:
                return "tick(%d, %s)" % (k, s), str(v).lower(), True
            return s, str(v).lower(), False
        if ty == "&'static str":
            w = r.choice(["", "a", "la", "x;y", "1,2", "m!(1)"])
            if r.random() < 0.5:
                return 'tick(%d, "%s")' % (k, w), '"%s"' % w, True
            return '"%s"' % w, '"%s"' % w, False
        if ty == "(i32, char)":
            n, c = r.randint(-9, 9), r.choice("abc,;")
            if r.random() < 0.5:
                return "tick(%d, (%d, '%s'))" % (k, n, c), "(%d, '%s')" % (n, c), True
            return "(%d, '%s')" % (n, c), "(%d, '%s')" % (n, c), False
        if ty == "Option<u8>":
            n = r.randint(0, 9)
            s = r.choice(["None", "Some(%d)" % n])
            if r.random() < 0.5:
                return "tick(%d, %s)" % (k, s), s, True
            return s, s, False
        raise ValueError(ty)

    def shape(self):
        r = self.r
        k = r.randint(0, 11)
        if k == 0:
            return 1, r.randint(1, 40)
        if k == 1:
            return r.randint(1, 40), 1
        if k == 2:
            return r.randint(6, 14), r.randint(6, 14)
        return r.randint(1, 6), r.randint(1, 6)

    def sep(self, s):
        """The same separator, laid out in different ways."""
        return self.r.choice([s + " ", s, " " + s + " ", s + "\n      ", s + " /* , ; */ "])

    def good(self, i):
        r = self.r
        ty = r.choice(["i32", "u64", "i8", "usize", "f64", "f64", "f32", "bool", "&'static str", "(i32, char)", "Option<u8>"])
        m, n = self.shape()
        src, want, ticks = "", [], []
        for a in range(m):
            row = ""
            for b in range(n):
                k = a * n + b
                s, v, t = self.elem(ty, k)
                want.append(v)
                if t:
                    ticks.append(k)
                row += (self.sep(",") if b else "") + s
            src += (self.sep(";") if a else "") + row
        self.saw("element type: " + ty)
        self.saw("elements written", m * n)
        self.saw("single row" if m == 1 else "single column" if n == 1 else "square" if m == n else "tall" if m > n else "wide")
        br = r.choice(["()", "[]", "{}"])
        use = "m!%s%s%s" % (br[0], src, br[1])
        if m * n > 1:
            self.keys.add((ty, src))
        form = r.randint(0, 3)
        if form == 0:
            mk = "let x: Matrix<%s> = %s;" % (ty, use)
        elif form == 1:
            mk = "let x = same::<%s>(%s);" % (ty, use)
        elif form == 2:
            mk = "let f = || -> Matrix<%s> { %s }; let x = f();" % (ty, use)
        else:
            mk = "let x: Matrix<%s> = { let y: Matrix<%s> = %s; y };" % (ty, ty, use)
        self.uses.append("""
fn u%d(c: &mut Ctx) {
    let (_rows, _cols, rows, data, v, n) = (5, 7, 13, 17, 19, 23);
    let _ = (_rows + 0u8, _cols + 0u8, rows + 0u8, data + 0u8, v + 0u8, n + 0u8);
    log_clear();
    %s
    let want: [%s; %d] = [%s];
    check(c, %d, &x, %d, %d, &want, &%s);
}""" % (i, mk, ty, m * n, ", ".join(want), i, m, n, ("[0usize; 0]" if not ticks else "[%s]" % ", ".join("%dusize" % t for t in ticks))))

    def ragged(self, i):
        """Rows that do not all have the same length: refused."""
        r = self.r
        while True:
            m = r.randint(2, 6)
            lens = [r.randint(1, 6) for _ in range(m)]
            if r.random() < 0.4:
                # all but one the same, or the total still divides evenly
                base = r.randint(2, 5)
                lens = [base] * m
                a = r.randrange(m)
                lens[a] += r.choice([-1, 1])
                if r.random() < 0.6:
                    b = r.randrange(m)
                    if b != a:
                        lens[b] += base - lens[a]
            if min(lens) >= 1 and len(set(lens)) > 1:
                break
        if sum(lens) % m == 0:
            self.saw("ragged with a total that divides evenly")
        self.saw("ragged uses")
        ty = r.choice(["i32", "f64", "bool"])
        self.keys.add((ty, tuple(lens)))
        k = 0
        rows = []
        for l in lens:
            rows.append(", ".join(self.elem(ty, k + j)[0] for j in range(l)))
            k += l
        self.uses.append("""
fn u%d(c: &mut Ctx) {
    let (_rows, _cols, rows, data, v, n) = (5, 7, 13, 17, 19, 23);
    let _ = (_rows + 0u8, _cols + 0u8, rows + 0u8, data + 0u8, v + 0u8, n + 0u8);
    let r = std::panic::catch_unwind(|| { let x: Matrix<%s> = m!(%s); (x.rows(), x.get_data().len()) });
    refused(c, %d, "rows of lengths %s", r);
}""" % (i, ty, "; ".join(rows), i, lens))

    def early(self, i):
        """An element expression that leaves early: nothing after it is evaluated."""
        r = self.r
        m, n = r.randint(1, 4), r.randint(1, 4)
        at = r.randrange(m * n)
        kind = r.choice(["panic", "?", "return"])
        self.saw("early exit by " + kind)
        src = []
        for a in range(m):
            row = []
            for b in range(n):
                k = a * n + b
                if k == at:
                    row.append({"panic": 'boom()', "?": "none()?", "return": "return None"}[kind])
                else:
                    row.append("tick(%d, %d)" % (k, k))
            src.append(", ".join(row))
        body = "; ".join(src)
        self.keys.add(body)
        self.uses.append("""
#[allow(unreachable_code)]
fn u%d(c: &mut Ctx) {
    log_clear();
    fn f() -> Option<Matrix<i32>> { let x: Matrix<i32> = m!(%s); Some(x) }
    let r = std::panic::catch_unwind(|| f().is_some());
    left_early(c, %d, r, %s, %d);
}""" % (i, body, i, "true" if kind == "panic" else "false", at))

    def generic(self, i):
        r = self.r
        v = [r.randint(-50, 50) for _ in range(6)]
        self.saw("uses in generic code")
        self.keys.add(tuple(v))
        self.uses.append("""
fn u%d(c: &mut Ctx) {
    fn g<T: Copy>(a: T, b: T, f: &dyn Fn(usize) -> T) -> Matrix<T> { m!(a, b, f(0); b, f(1), a) }
    log_clear();
    let x = g(%d, %d, &|k| tick(k, if k == 0 { %d } else { %d }));
    let want = [%d, %d, %d, %d, %d, %d];
    check(c, %d, &x, 2, 3, &want, &[0usize, 1usize]);
}""" % (i, v[0], v[1], v[2], v[3], v[0], v[1], v[2], v[1], v[3], v[0], i))

    def program(self):
        for i in range(self.n):
            x = self.r.random()
            if x < 0.68:
                self.good(i)
            elif x < 0.88:
                self.ragged(i)
            elif x < 0.96:
                self.early(i)
            else:
                self.generic(i)
        head = HEAD
        calls = "\n".join("    run(&mut c, %d, u%d);" % (i, i) for i in range(self.n))
        return head + "\n".join(self.uses) + MAIN % calls


HEAD = r"""// generated
#![allow(unused, clippy::all, unconditional_panic)]
#[macro_use]
extern crate la;
use la::Matrix;
use std::cell::RefCell;
use std::fmt::Debug;

thread_local! { static LOG: RefCell<Vec<usize>> = RefCell::new(Vec::new()); }
fn log_clear() { LOG.with(|l| l.borrow_mut().clear()) }
fn tick<T>(k: usize, v: T) -> T { LOG.with(|l| l.borrow_mut().push(k)); v }
fn add(a: i64, b: i64) -> i64 { a + b }
fn boom() -> i32 { panic!("element panicked") }
fn none() -> Option<i32> { None }
fn same<T: Copy>(m: Matrix<T>) -> Matrix<T> { m }
struct Pt { x: i64, y: i64 }
struct Ctx { uses: u64, elems: u64, evals: u64, refused: u64, early: u64, bad: u64 }

fn fail(c: &mut Ctx, id: usize, msg: String) { c.bad += 1; println!("BAD {} {}", id, msg) }
fn check<T: Copy + PartialEq + Debug>(c: &mut Ctx, id: usize, x: &Matrix<T>, m: usize, n: usize, want: &[T], ticks: &[usize]) {
    if x.rows() != m || x.cols() != n || x.get_data().len() != m * n {
        return fail(c, id, format!("{} rows of {} elements made a {}x{} matrix of {} elements", m, n, x.rows(), x.cols(), x.get_data().len()));
    }
    for i in 0..m { for j in 0..n {
        if x.get(i, j) != want[i * n + j] { return fail(c, id, format!("element ({},{}) of {}x{} is {:?}, should be {:?}", i, j, m, n, x.get(i, j), want[i * n + j])) }
    } }
    let log = LOG.with(|l| l.borrow().clone());
    if log != ticks { return fail(c, id, format!("{}x{}: element expressions evaluated in the order {:?}, should be {:?}", m, n, log, ticks)) }
    c.evals += log.len() as u64;
    c.elems += (m * n) as u64;
}
fn refused(c: &mut Ctx, id: usize, what: &str, r: Result<(usize, usize), Box<dyn std::any::Any + Send>>) {
    match r {
        Err(_) => c.refused += 1,
        Ok((m, e)) => fail(c, id, format!("{} accepted as a matrix of {} rows and {} elements", what, m, e)),
    }
}
fn left_early(c: &mut Ctx, id: usize, r: Result<bool, Box<dyn std::any::Any + Send>>, panics: bool, at: usize) {
    let log = LOG.with(|l| l.borrow().clone());
    let want: Vec<usize> = (0..at).collect();
    if log != want { return fail(c, id, format!("before the element that leaves early, {:?} were evaluated, should be {:?}", log, want)) }
    match (r, panics) {
        (Err(_), true) | (Ok(false), false) => c.early += 1,
        _ => fail(c, id, "an element expression that leaves early did not".to_string()),
    }
}
fn run(c: &mut Ctx, id: usize, f: fn(&mut Ctx)) {
    c.uses += 1;
    let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(c)));
    if p.is_err() { fail(c, id, "a well-formed use panicked".to_string()) }
}
"""

MAIN = r"""
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx { uses: 0, elems: 0, evals: 0, refused: 0, early: 0, bad: 0 };
%s
    println!("DONE uses={} elements={} evaluations={} refused={} early={} bad={}", c.uses, c.elems, c.evals, c.refused, c.early, c.bad);
}
"""

CARGO = """[package]
name = "mprog"
version = "0.1.0"
edition = "%s"

[workspace]

[dependencies]
la = { path = "/repo" }

[profile.dev]
debug = false
opt-level = 0
incremental = false
"""

if __name__ == "__main__":
    import sys
    g = Gen(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else "2021")
    sys.stdout.write(g.program())
