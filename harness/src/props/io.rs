//! C24 (comma-separated files) and C25 (debug text and printing).
use crate::exact::{look, tshape};
use crate::fw::*;
use crate::mon::Mon;
use crate::rng::mix;
use la::Matrix;
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write as _};
use std::path::PathBuf;
use std::sync::{Mutex, OnceLock};

// ------------------------------------------------------------------ scratch files

struct Scratch(PathBuf);
/// One private directory per process, removed by `cleanup`.
pub fn scratch() -> &'static PathBuf {
    static S: OnceLock<Scratch> = OnceLock::new();
    &S.get_or_init(|| {
        let base = std::env::var("LAMON_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let d = base.join(format!("lamon-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    })
    .0
}
pub fn cleanup() {
    let _ = std::fs::remove_dir_all(scratch());
}
struct TmpFile(PathBuf);
impl TmpFile {
    fn new(bytes: &[u8]) -> TmpFile {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = scratch().join(format!("f{}.csv", N.fetch_add(1, Ordering::SeqCst)));
        std::fs::write(&p, bytes).expect("scratch file");
        TmpFile(p)
    }
    fn s(&self) -> &str { self.0.to_str().unwrap() }
}
impl Drop for TmpFile {
    fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); }
}

// ------------------------------------------------------------------ C24

const BODY: &[&str] = &["", "a", "0", "-1.5", "1e300", "x y", "\"q", "é", "日本", "ß🦀", "NaN", "a;b", "a\tb", "'", "#", "+", ".", "0x1F", "true", "-", "\"", "\"a b\"", "\u{feff}", "//", "\\", "\0", "%", "|", "NA", "null", "1_000", "1e5f", "\u{200b}", "\u{1b}[0m", "$1", "=A1", "[", "}"];
const WS: &[&str] = &["", "", "", " ", "  ", "\t", " \t ", "\u{a0}", "\u{3000}", "\u{b}"];

fn field(cx: &mut Cx, size: usize) -> (String, String) {
    // (as written in the file, as the parser must see it)
    let mut b = String::new();
    for _ in 0..cx.rng.below(size + 1) { b.push_str(*cx.rng.pick(BODY)) }
    if cx.rng.chance(1, 40) { for _ in 0..cx.rng.below(300) { b.push('z') } }
    if cx.rng.chance(1, 24) { let q = *cx.rng.pick(&['"', '\'', '`', '|']); b = format!("{}{}{}", q, b, q) }
    let l = cx.rng.pick(WS).to_string();
    let r = cx.rng.pick(WS).to_string();
    let t = format!("{}{}{}", l, b, r);
    // the reference trims by its own reading of "white space"
    let cs: Vec<char> = t.chars().collect();
    let ws = |c: &char| c.is_whitespace();
    let i = cs.iter().position(|c| !ws(c)).unwrap_or(cs.len());
    let j = cs.iter().rposition(|c| !ws(c)).map(|k| k + 1).unwrap_or(i);
    (t, cs[i..j].iter().collect())
}
fn lines(cx: &mut Cx, rows: &[Vec<String>]) -> Vec<u8> {
    let style = cx.rng.below(3); // 0: \n, 1: \r\n, 2: mixed
    let last = cx.rng.chance(2, 3);
    let mut s = String::new();
    for (i, r) in rows.iter().enumerate() {
        s.push_str(&r.join(","));
        let end = if style == 1 || (style == 2 && cx.rng.chance(1, 2)) { "\r\n" } else { "\n" };
        // an empty last line only exists if it is terminated
        let empty = r.len() == 1 && r[0].is_empty();
        if i + 1 < rows.len() || last || empty { s.push_str(end) } else { cx.saw("no final newline") }
        if end == "\r\n" { cx.saw("CRLF line ends") }
    }
    s.into_bytes()
}

fn csv_shape(cx: &mut Cx) -> (usize, usize) {
    if cx.tier == Tier::Tiny { return (cx.rng.us(1, 4), cx.rng.us(1, 4)) }
    match cx.rng.below(200) {
        0 => (cx.rng.us(100, 400), cx.rng.us(60, 130)),
        1..=5 => (cx.rng.us(1, 3), cx.rng.us(500, 3000)),
        6..=10 => (cx.rng.us(500, 3000), cx.rng.us(1, 3)),
        11..=70 => (cx.rng.us(1, 60), cx.rng.us(1, 60)),
        71..=90 => (1, cx.rng.us(1, 12)),
        91..=120 => (cx.rng.us(1, 12), 1),
        _ => (cx.rng.us(1, 12), cx.rng.us(1, 12)),
    }
}
/// What the parser was called with, in order.
fn read_logged(what: &str, path: &str) -> Result<(Result<Matrix<Mon<u64>>, Fail>, Vec<String>), String> {
    let log: RefCell<Vec<String>> = RefCell::new(vec![]);
    let r = {
        let parser = |s: &str| -> Mon<u64> {
            let mut l = log.borrow_mut();
            l.push(s.to_string());
            Mon::mk(l.len() as u64 * 3 + 1)
        };
        attempt(|| la::util::read_csv(path, &parser))
    };
    if let Err(Fail::Uninit) = r { return Err(format!("{}: read memory that was never written", what)) }
    Ok((r, log.into_inner()))
}
fn c_csv_good(cx: &mut Cx) -> Res {
    let (r, c) = csv_shape(cx);
    let size = if r * c > 2000 { 1 } else { cx.rng.us(0, 3) };
    let mut raw = vec![];
    let mut want = vec![];
    for _ in 0..r {
        let mut row = vec![];
        for _ in 0..c {
            let (t, w) = field(cx, size);
            row.push(t);
            want.push(w);
        }
        raw.push(row);
    }
    let bytes = lines(cx, &raw);
    cx.h(bytes.len() as u64);
    for b in bytes.iter().take(4096) { cx.hash = mix(cx.hash ^ *b as u64) }
    cx.nontriv = r * c > 1;
    cx.desc(|| format!("{}x{} file of {} bytes: {:?}", r, c, bytes.len(), String::from_utf8_lossy(&bytes).chars().take(120).collect::<String>()));
    let f = TmpFile::new(&bytes);
    let (m, log) = read_logged("read_csv", f.s())?;
    let m = m.map_err(|e| format!("read_csv of a well-formed {}x{} file {}", r, c, e.text()))?;
    let g = look("read_csv", &m)?;
    if (g.r, g.c) != (r, c) { return Err(format!("{} lines of {} fields gave a {}x{} matrix", r, c, g.r, g.c)) }
    if log.len() != want.len() { return Err(format!("{} fields, but the parser was called {} times", want.len(), log.len())) }
    for k in 0..want.len() {
        if log[k] != want[k] { return Err(format!("field {} of line {} reached the parser as {:?}, should be {:?}", k % c, k / c, log[k], want[k])) }
        if g.d[k] != (k as u64 + 1) * 3 + 1 { return Err(format!("element ({},{}) is the result of parser call {}", k / c, k % c, g.d[k] / 3)) }
    }
    cx.add("fields followed to their element", want.len() as u64);
    cx.add("bytes read", bytes.len() as u64);
    if bytes.len() > 8192 { cx.saw("files larger than one buffer") }
    if r * c > 16384 { cx.saw("more elements than preallocated") }
    if want.iter().any(|w| w.is_empty()) { cx.saw("files with empty fields") }
    if raw.iter().any(|w| w.len() == 1 && w[0].is_empty()) { cx.saw("files with empty lines") }
    Ok(())
}
/// Files of some megabytes: many lines, long lines, or few enormous fields.
fn c_csv_bulk(cx: &mut Cx) -> Res {
    let kind = cx.rng.below(3);
    let bytes = if cx.tier == Tier::Tiny { cx.rng.us(100, 400) } else { cx.rng.us(1 << 16, if cx.tier == Tier::Thorough { 12 << 20 } else { 3 << 20 }) };
    let (c, len) = match kind { 0 => (cx.rng.us(1, 4), cx.rng.us(1, 9)), 1 => (cx.rng.us(bytes / 64 + 1, bytes / 16 + 2), cx.rng.us(1, 9)), _ => (cx.rng.us(1, 3), bytes / cx.rng.us(2, 8)) };
    let r = (bytes / (c * (len + 1))).max(1);
    let off = cx.rng.us(1, 1000);
    let end = *cx.rng.pick(&["\n", "\r\n"]);
    // every field tells where it belongs
    let text = |k: usize| -> String {
        let mut s = format!("{}", k * 7 + off);
        if s.len() < len && (kind == 2 || k % 5 == 0) { let n = len - s.len(); s.push_str(&"x".repeat(n)); s.push_str("end") }
        s
    };
    let mut file = String::new();
    for i in 0..r {
        for j in 0..c { if j > 0 { file.push(',') } file.push_str(&text(i * c + j)); }
        if i + 1 < r || off % 2 == 0 { file.push_str(end) }
    }
    cx.h(bytes as u64);
    cx.h((c * 1000 + len) as u64);
    cx.nontriv = r * c > 1;
    cx.desc(|| format!("{}x{} file of {} bytes", r, c, file.len()));
    let f = TmpFile::new(file.as_bytes());
    let n = Cell::new(0usize);
    let bad: RefCell<Option<String>> = RefCell::new(None);
    let res = {
        let parser = |s: &str| -> Mon<u64> {
            let k = n.get();
            n.set(k + 1);
            if bad.borrow().is_none() && s != text(k) {
                *bad.borrow_mut() = Some(format!("field {} of line {} reached the parser as {:?} ({} bytes), should be {:?}", k % c, k / c, s.chars().take(60).collect::<String>(), s.len(), text(k).chars().take(60).collect::<String>()));
            }
            Mon::mk(k as u64 * 3 + 1)
        };
        attempt(|| la::util::read_csv(f.s(), &parser))
    };
    if let Some(x) = bad.into_inner() { return Err(x) }
    if n.get() != r * c { return Err(format!("{} fields, but the parser was called {} times", r * c, n.get())) }
    let m = res.map_err(|e| format!("read_csv of a well-formed {}x{} file of {} bytes {}", r, c, file.len(), e.text()))?;
    let g = look("read_csv", &m)?;
    if (g.r, g.c) != (r, c) { return Err(format!("{} lines of {} fields gave a {}x{} matrix", r, c, g.r, g.c)) }
    for k in 0..r * c { if g.d[k] != k as u64 * 3 + 1 { return Err(format!("element ({},{}) is the result of parser call {}", k / c, k % c, g.d[k] / 3)) } }
    cx.add("bytes read", file.len() as u64);
    if file.len() > 1 << 20 { cx.saw("files above one mebibyte") }
    if kind == 2 && len > 1 << 17 { cx.saw("fields above 128 kibibytes") }
    Ok(())
}
/// Numbers written out in full come back bit for bit.
fn c_csv_numbers(cx: &mut Cx) -> Res {
    let (r, c) = csv_shape(cx);
    let xs: Vec<f64> = (0..r * c).map(|_| loop {
        let x = match cx.rng.below(6) {
            0 => f64::from_bits(cx.rng.u()),
            1 => cx.rng.range(-9, 9) as f64,
            2 => *cx.rng.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324]),
            _ => cx.rng.gauss() * 10f64.powi(cx.rng.range(-30, 30) as i32),
        };
        if !x.is_nan() { break x }
    }).collect();
    let rows: Vec<Vec<String>> = (0..r).map(|i| (0..c).map(|j| {
        let x = xs[i * c + j];
        let t = if cx.rng.chance(1, 2) { format!("{:?}", x) } else { format!("{:e}", x) };
        if cx.rng.chance(1, 4) { format!(" {} ", t) } else { t }
    }).collect()).collect();
    let bytes = lines(cx, &rows);
    cx.hf(&xs);
    cx.nontriv = r * c > 1;
    cx.desc(|| format!("{}x{} numbers {:?}", r, c, xs.iter().take(6).collect::<Vec<_>>()));
    let f = TmpFile::new(&bytes);
    let m = must("read_csv", || la::util::read_csv(f.s(), &|s: &str| s.parse::<f64>().unwrap()))?;
    if m.rows() != r || m.cols() != c { return Err(format!("{}x{} numbers read as {}x{}", r, c, m.rows(), m.cols())) }
    for i in 0..r { for j in 0..c {
        if m.get(i, j).to_bits() != xs[i * c + j].to_bits() { return Err(format!("number {:?} at ({},{}) came back as {:?}", xs[i * c + j], i, j, m.get(i, j))) }
    } }
    cx.add("numbers round-tripped", (r * c) as u64);
    Ok(())
}
fn c_csv_bad(cx: &mut Cx) -> Res {
    let (r, c) = if cx.tier == Tier::Tiny { (cx.rng.us(2, 4), cx.rng.us(1, 4)) } else { (cx.rng.us(2, 30), cx.rng.us(1, 12)) };
    cx.nontriv = true;
    let k = cx.rng.below(9);
    cx.h(k as u64);
    cx.h((r * 100 + c) as u64);
    let mut rows: Vec<Vec<String>> = (0..r).map(|i| (0..c).map(|j| format!("{}", i * c + j)).collect()).collect();
    let mut what: String;
    let bytes: Vec<u8> = match k {
        0 => { what = "an empty file".to_string(); vec![] }
        1 | 2 | 3 | 4 => {
            // the first row is never the only odd one out: any row may differ, by any amount
            let i = cx.rng.below(r);
            let dmax = if cx.rng.chance(1, 2) { 1 } else { c + 2 };
            let d = cx.rng.us(1, dmax);
            if k % 2 == 0 && c > 1 { let d = d.min(c - 1); rows[i].truncate(c - d) } else { for _ in 0..d { rows[i].push("7".into()) } }
            what = format!("{}x{} with line {} of {} fields", r, c, i, rows[i].len());
            if k == 3 && r > 2 {
                // another row makes up for it, so the total still fits
                let j = (i + 1 + cx.rng.below(r - 1)) % r;
                let short = rows[i].len() as i64 - c as i64;
                let nl = c as i64 - short;
                if nl >= 1 && j != i {
                    rows[j] = (0..nl).map(|x| x.to_string()).collect();
                    what = format!("{}x{} with line {} of {} and line {} of {} fields", r, c, i, rows[i].len(), j, nl);
                    cx.saw("ragged files with the right total");
                }
            }
            cx.saw("ragged files");
            lines(cx, &rows)
        }
        5 => {
            // an empty line among lines of several fields
            let mut rows = rows.clone();
            for x in rows.iter_mut() { if x.len() == 1 { x.push("1".into()) } }
            let i = cx.rng.below(r + 1);
            rows.insert(i, vec![String::new()]);
            what = format!("{} lines with an empty line at {}", r, i);
            cx.saw("ragged files");
            lines(cx, &rows)
        }
        6 => {
            let mut b = lines(cx, &rows);
            let bad: &[&[u8]] = &[b"\xff", b"\xc3", b"\xe2\x82", b"\x80", b"\xed\xa0\x80"];
            let x: Vec<u8> = cx.rng.pick(bad).to_vec();
            // between two ASCII bytes every one of these is malformed
            let at = cx.rng.below(b.len());
            for (n, y) in x.iter().enumerate() { b.insert(at + n, *y) }
            what = format!("bytes {:?} at {}, which are not UTF-8", x, at);
            cx.saw("files that are not text");
            b
        }
        7 => { what = "a missing file".into(); vec![] }
        _ => { what = "a directory".into(); vec![] }
    };
    if let Ok(s) = std::str::from_utf8(&bytes) { if k == 6 { let _ = s; return Ok(()) } }
    cx.desc(|| what.clone());
    for b in bytes.iter().take(2000) { cx.hash = mix(cx.hash ^ *b as u64) }
    let f;
    let path = match k {
        7 => { cx.saw("missing files"); scratch().join("no-such-file.csv").to_str().unwrap().to_string() }
        8 => { cx.saw("unreadable paths"); scratch().to_str().unwrap().to_string() }
        _ => { f = TmpFile::new(&bytes); let s = f.s().to_string(); let (m, _) = read_logged(&what, &s)?; return expect_refused(cx, &what, m) }
    };
    let (m, log) = read_logged(&what, &path)?;
    if !log.is_empty() { return Err(format!("{}: the parser was called", what)) }
    expect_refused(cx, &what, m)
}
fn expect_refused(cx: &mut Cx, what: &str, m: Result<Matrix<Mon<u64>>, Fail>) -> Res {
    match m {
        Err(Fail::Panic(_)) => { cx.saw("refused files"); Ok(()) }
        Err(e) => Err(format!("read_csv of {}: {}", what, e.text())),
        Ok(m) => Err(format!("read_csv accepted {} and made a matrix of {} elements", what, m.get_data().len())),
    }
}

// ------------------------------------------------------------------ C25

fn model<T: fmt::Debug>(r: usize, c: usize, d: &[T]) -> String {
    let t: Vec<String> = d.iter().map(|x| format!("{:?}", x)).collect();
    let w = t.iter().map(|s| s.chars().count()).max().unwrap();
    let mut s = String::from("\n");
    for i in 0..r {
        s.push('|');
        for j in 0..c {
            let x = &t[i * c + j];
            s.push(' ');
            for _ in x.chars().count()..w { s.push(' ') }
            s.push_str(x);
        }
        s.push_str(" |\n");
    }
    s
}
struct Choked { got: String, left: usize }
impl fmt::Write for Choked {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for ch in s.chars() {
            if self.left == 0 { return Err(fmt::Error) }
            self.left -= 1;
            self.got.push(ch);
        }
        Ok(())
    }
}
fn show<T: fmt::Debug + Copy + Send>(cx: &mut Cx, r: usize, c: usize, d: Vec<T>) -> Res {
    let want = model(r, c, &d);
    cx.h(crate::rng::hash_str(&want));
    cx.nontriv = r * c > 1;
    cx.desc(|| format!("{}x{} {:?}", r, c, want.chars().take(100).collect::<String>()));
    let m = must("new", || Matrix::new(r, c, d.clone()))?;
    let got = must("debug text", || format!("{:?}", m))?;
    let differ = |what: &str, got: &str| -> Res {
        if got == want { return Ok(()) }
        let k = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
        Err(format!("{} of a {}x{} matrix differs at byte {}: {:?}, should be {:?}", what, r, c, k, String::from_utf8_lossy(&got.as_bytes()[k.saturating_sub(20)..got.len().min(k + 40)]), String::from_utf8_lossy(&want.as_bytes()[k.saturating_sub(20)..want.len().min(k + 40)])))
    };
    differ("debug text", &got)?;
    cx.add("elements rendered", (r * c) as u64);
    // inside another value's text
    let nested = must("debug text", || format!("{:?}", Some(&m)))?;
    differ("debug text inside an option", nested.strip_prefix("Some(").and_then(|s| s.strip_suffix(")")).unwrap_or(&nested))?;
    // a destination that fails part way
    let left = cx.rng.below(want.len());
    let mut ch = Choked { got: String::new(), left };
    let res = must("debug text into a failing destination", || write!(ch, "{:?}", m))?;
    if res.is_ok() { return Err(format!("writing to a destination that fails after {} characters reported success", left)) }
    if !want.starts_with(&ch.got) { return Err("a failing destination received something other than a prefix of the text".into()) }
    cx.saw("failing destinations");
    if cx.idx % 4 == 0 && !cfg!(miri) {
        let got = captured(|| must("print", || m.print()))?;
        differ("printed text", &got)?;
        cx.saw("printed matrices");
    }
    // looking does not change anything
    let again = must("debug text", || format!("{:?}", m))?;
    differ("debug text the second time", &again)
}
/// What `f` writes to file descriptor 1.
fn captured(f: impl FnOnce() -> Res) -> Result<String, String> {
    use std::io::{Read, Seek, Write};
    use std::os::fd::FromRawFd;
    static LOCK: Mutex<()> = Mutex::new(());
    let _g = LOCK.lock().unwrap();
    std::io::stdout().flush().unwrap();
    let (r, s) = unsafe {
        let mf = libc::memfd_create(b"out\0".as_ptr() as *const libc::c_char, 0);
        assert!(mf >= 0, "memfd");
        let old = libc::dup(1);
        assert!(old >= 0 && libc::dup2(mf, 1) == 1, "dup2");
        let r = f();
        let _ = std::io::stdout().flush();
        libc::dup2(old, 1);
        libc::close(old);
        let mut file = std::fs::File::from_raw_fd(mf);
        file.rewind().unwrap();
        let mut s = vec![];
        file.read_to_end(&mut s).unwrap();
        (r, s)
    };
    r?;
    String::from_utf8(s).map_err(|_| "printed text is not UTF-8".to_string())
}
#[derive(Copy, Clone)]
struct Odd(u8);
impl fmt::Debug for Odd {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&"abcdefghijklmnopqrstuvwxyz0123456789"[..(self.0 % 37) as usize])
    }
}
/// Text of any length, now and then beyond any fixed buffer.
#[derive(Copy, Clone)]
struct Long(u16);
impl fmt::Debug for Long {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for i in 0..self.0 { f.write_char((b'!' + (i % 90) as u8) as char)? }
        Ok(())
    }
}
/// An element whose own text is made by writing out another matrix.
#[derive(Copy, Clone)]
struct Nest(u8);
impl fmt::Debug for Nest {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let (r, c) = (1 + self.0 as usize % 3, 1 + self.0 as usize / 3 % 3);
        let m = Matrix::new(r, c, (0..r * c).map(|i| 10u64.pow((self.0 as u32 + i as u32) % 19)).collect());
        f.write_str(&format!("{:?}", m).replace('\n', "/"))
    }
}
fn c_debug(cx: &mut Cx) -> Res {
    let (r, c) = tshape(cx);
    let n = r * c;
    let wide = cx.rng.below(12) as u32;
    match cx.rng.below(9) {
        7 => {
            let (r, c) = (r.min(40), c.min(12));
            let top = *cx.rng.pick(&[40, 70, 130, 260, 1030, 4100]);
            let k = *cx.rng.pick(&[1, 2, 8]);
            let d = (0..r * c).map(|_| Long(if cx.rng.chance(1, k) { cx.rng.us(0, top) } else { cx.rng.us(0, 9) } as u16)).collect();
            cx.saw("long texts");
            show::<Long>(cx, r, c, d)
        }
        8 => {
            let (r, c) = (r.min(20), c.min(20));
            let d = (0..r * c).map(|_| Nest(cx.rng.u() as u8)).collect();
            cx.saw("elements that write out a matrix of their own");
            show::<Nest>(cx, r, c, d)
        }
        0 => { let d = (0..n).map(|_| cx.rng.range(-(10i64.pow(wide)), 10i64.pow(wide))).collect(); show::<i64>(cx, r, c, d) }
        1 => { let d = (0..n).map(|_| (cx.rng.gauss() * 10f64.powi(cx.rng.range(-20, 20) as i32)) as f32).collect(); show::<f32>(cx, r, c, d) }
        2 => { let d = (0..n).map(|_| f64::from_bits(cx.rng.u())).collect(); show::<f64>(cx, r, c, d) }
        3 => { let d = (0..n).map(|_| cx.rng.chance(1, 2)).collect(); show::<bool>(cx, r, c, d) }
        4 => { let d = (0..n).map(|_| (cx.rng.u() as u8, *cx.rng.pick(&[None, Some(-3i8)]))).collect(); show::<(u8, Option<i8>)>(cx, r, c, d) }
        5 => { let d = (0..n).map(|_| Odd(cx.rng.u() as u8 % if wide < 6 { 3 } else { 37 })).collect(); show::<Odd>(cx, r, c, d) }
        _ => { let d = (0..n).map(|_| Mon::mk(cx.rng.gauss() * 1e3)).collect(); show::<Mon<f64>>(cx, r, c, d) }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            rule: "scratch files: 1 to 50000 fields, some of up to 12 MiB, LF/CRLF/mixed line ends, with and without a final newline, empty fields and lines, ASCII and Unicode white space and multi-byte text at every buffer alignment; malformed, missing and unreadable files; the parser logs every call; non-trivial: more than one field, or a file that must be refused",
            fams: vec![
                Fam { name: "well-formed", tiny: 6, quick: 6000, thorough: 100000, f: c_csv_good },
                Fam { name: "numbers", tiny: 3, quick: 3000, thorough: 50000, f: c_csv_numbers },
                Fam { name: "bulk", tiny: 1, quick: 3, thorough: 400, f: c_csv_bulk },
                Fam { name: "malformed", tiny: 8, quick: 5000, thorough: 80000, f: c_csv_bad },
            ],
            need: vec!["files above one mebibyte", "fields above 128 kibibytes", "fields followed to their element", "files larger than one buffer", "more elements than preallocated", "files with empty fields", "files with empty lines", "no final newline", "CRLF line ends", "numbers round-tripped", "ragged files", "ragged files with the right total", "files that are not text", "missing files", "unreadable paths", "refused files"],
        },
        Prop {
            id: "C25",
            rule: "matrices of nine element types with debug texts of 0 to 4100 ASCII characters, one of them writing out another matrix, all shapes; text compared with an independent formatter, printing captured at the file descriptor, destinations that fail after any number of characters; non-trivial: more than one element",
            fams: vec![Fam { name: "text", tiny: 8, quick: 12000, thorough: 250000, f: c_debug }],
            need: vec!["elements rendered", "long texts", "elements that write out a matrix of their own", "failing destinations", "printed matrices", "single row", "single column", "1x1", "tall", "wide"],
        },
    ]
}
