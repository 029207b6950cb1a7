//! Case runner: families of generated cases, guarded calls into the library, observation counters.
use crate::alloc::set_pattern;
use crate::mon::{BudgetExceeded, UninitRead, BUDGET, STEPS};
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Tiny, // Miri / sanitizer-interpreter sized
    Quick,
    Thorough,
}

pub struct Cx {
    pub rng: Rng,
    pub tier: Tier,
    pub idx: u64,
    pub obs: BTreeMap<String, u64>,
    pub maxr: BTreeMap<String, f64>,
    pub hash: u64,
    pub nontriv: bool,
    pub sample: String,
    pub known: BTreeMap<String, String>,
    /// whether this run of the case is one whose input gets written out
    pub render: bool,
    /// a case of the families of large matrices
    pub big: bool,
}

impl Cx {
    pub fn saw(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.obs.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.obs.insert(k.to_string(), n);
            }
        }
    }
    pub fn h(&mut self, v: u64) {
        self.hash = mix(self.hash ^ v);
    }
    pub fn hf(&mut self, d: &[f64]) {
        for x in d {
            self.h(x.to_bits());
        }
    }
    pub fn desc(&mut self, s: impl FnOnce() -> String) {
        if self.render && self.sample.is_empty() {
            self.sample = s();
        }
    }
    /// `err` must not exceed `bound`; remembers how close it came.
    pub fn bound(&mut self, what: &str, err: f64, bound: f64, detail: impl FnOnce() -> String) -> Res {
        let r = if err == 0.0 { 0.0 } else { err / bound };
        match self.maxr.get_mut(what) {
            Some(m) => if r > *m { *m = r },
            None => { self.maxr.insert(what.to_string(), if r > 0.0 { r } else { 0.0 }); }
        }
        self.add("tolerance comparisons", 1);
        if !(r <= 1.0) {
            return Err(format!("{}: error {:e} exceeds bound {:e}; {}", what, err, bound, detail()));
        }
        Ok(())
    }
    /// A listed defect signature was seen; the driver decides whether the committed file lists it.
    pub fn finding(&mut self, sig: &str, msg: &str) {
        self.known.insert(sig.to_string(), msg.to_string());
    }
}

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
    static EXPECT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub enum Fail {
    Panic(String),
    Budget(u64),
    Uninit,
}
impl Fail {
    pub fn text(&self) -> String {
        match self {
            Fail::Panic(s) => format!("panicked: {}", s),
            Fail::Budget(n) => format!("did not terminate within the step budget ({} arithmetic steps)", n),
            Fail::Uninit => "used a value that was never written (uninitialised memory)".to_string(),
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = if i.payload().is::<BudgetExceeded>() || i.payload().is::<UninitRead>() {
            String::new()
        } else {
            format!("{}", i)
        };
        if EXPECT.with(|e| e.get()) {
            LAST.with(|l| *l.borrow_mut() = s);
        } else {
            eprintln!("HARNESS-PANIC {}", s);
        }
    }));
}

/// Call into the library; a panic there comes back as a value.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, Fail> {
    let prev = EXPECT.with(|e| e.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    EXPECT.with(|e| e.set(prev));
    r.map_err(|p| {
        if let Some(b) = p.downcast_ref::<BudgetExceeded>() {
            Fail::Budget(b.0)
        } else if p.is::<UninitRead>() {
            Fail::Uninit
        } else {
            Fail::Panic(LAST.with(|l| l.borrow().replace('\n', " ")))
        }
    })
}

/// Call that the property says must succeed.
pub fn must<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    attempt(f).map_err(|e| format!("{} {}", what, e.text()))
}

/// Call that the property says must be refused (by a panic).
pub fn refused<R>(what: &str, f: impl FnOnce() -> R) -> Res {
    match attempt(f) {
        Err(Fail::Panic(_)) => Ok(()),
        Err(e) => Err(format!("{}: {}", what, e.text())),
        Ok(_) => Err(format!("{}: accepted, should have been refused", what)),
    }
}

/// Runs `f` with a budget of arithmetic steps on monitored scalars; returns steps used.
pub fn with_budget<R>(budget: u64, f: impl FnOnce() -> R) -> (R, u64) {
    STEPS.with(|s| s.set(0));
    BUDGET.with(|b| b.set(budget));
    let r = f();
    BUDGET.with(|b| b.set(u64::MAX));
    (r, STEPS.with(|s| s.get()))
}

#[derive(Clone, Copy)]
pub struct Fam {
    pub name: &'static str,
    pub tiny: u64,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Cx) -> Res,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub fams: Vec<Fam>,
    /// observation counters that must be non-zero, or the run observed too little to say anything
    pub need: Vec<&'static str>,
}

#[derive(Default)]
pub struct Out {
    pub evals: u64,
    pub hashes: HashSet<u64>,
    pub distinct_nontriv: HashSet<u64>,
    pub obs: BTreeMap<String, u64>,
    pub fam_counts: BTreeMap<String, u64>,
    pub maxr: BTreeMap<String, f64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, String>,
    pub viol: Vec<(String, u64, String)>,
    pub harness_errors: Vec<String>,
    /// per family, the slowest case and its CPU time in milliseconds
    pub slowest: BTreeMap<String, (u64, u64)>,
}

impl Out {
    fn absorb(&mut self, obs: BTreeMap<String, u64>, maxr: BTreeMap<String, f64>, known: BTreeMap<String, String>) {
        for (k, v) in obs {
            match self.obs.get_mut(&k) {
                Some(e) => *e += v,
                None => { self.obs.insert(k, v); }
            }
        }
        for (k, v) in maxr {
            let e = self.maxr.entry(k).or_insert(0.0);
            if v > *e || v.is_nan() {
                *e = v;
            }
        }
        for (k, v) in known {
            self.known.entry(k).or_insert(v);
        }
    }
    /// What another thread saw.
    fn join(&mut self, x: Out) {
        self.evals += x.evals;
        for (k, v) in x.fam_counts {
            *self.fam_counts.entry(k).or_insert(0) += v;
        }
        self.absorb(x.obs, x.maxr, x.known);
        for (k, v) in x.slowest {
            let e = self.slowest.entry(k).or_insert(v);
            if v.0 > e.0 { *e = v }
        }
        self.hashes.extend(x.hashes);
        self.distinct_nontriv.extend(x.distinct_nontriv);
        self.viol.extend(x.viol);
        self.samples.extend(x.samples);
        self.harness_errors.extend(x.harness_errors);
        self.samples.truncate(6);
        self.harness_errors.truncate(5);
    }
}

fn thread_cpu_ns() -> u64 {
    if cfg!(miri) {
        return 0;
    }
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

pub fn case_cx(prop: &str, fam: &str, idx: u64, seed: u64, tier: Tier) -> Cx {
    let s = mix(seed ^ hash_str(prop)) ^ mix(hash_str(fam).wrapping_add(idx));
    Cx {
        rng: Rng::new(s),
        tier,
        idx,
        obs: BTreeMap::new(),
        maxr: BTreeMap::new(),
        hash: 0,
        nontriv: false,
        sample: String::new(),
        known: BTreeMap::new(),
        render: true,
        big: false,
    }
}

pub struct Opts {
    pub seed: u64,
    pub tier: Tier,
    pub threads: usize,
    pub scale: f64,
    pub only: Option<(String, u64)>,
    pub family: Option<String>,
    pub journal: Option<String>,
    pub max_viol: usize,
    pub case_cpu_s: u64,
    pub deadline_s: u64,
    pub slice: (u64, u64),
}

/// Exit code used when one case has burnt `case_cpu_s` seconds of its own CPU time.
pub const EXIT_STUCK: i32 = 40;

pub fn run(p: &Prop, o: &Opts) -> Out {
    // (family, first position) of each family, and how many positions there are
    let mut from: Vec<(usize, u64)> = vec![];
    let mut all = 0u64;
    for (fi, f) in p.fams.iter().enumerate() {
        let n = match o.tier {
            Tier::Tiny => f.tiny,
            Tier::Quick => f.quick,
            Tier::Thorough => f.thorough,
        };
        let n = if n == 0 || o.tier == Tier::Tiny { n } else { ((n as f64 * o.scale).ceil() as u64).max(1) };
        if o.family.as_ref().map(|x| !f.name.starts_with(x.as_str())).unwrap_or(false) { continue }
        let n = match &o.only {
            Some((nm, _)) => (nm == f.name) as u64,
            None => n,
        };
        if n > 0 { from.push((fi, all)) }
        all += n;
    }
    // this run's share: every position that leaves the right remainder
    let total = if o.slice.1 > 1 { (all + o.slice.1 - 1 - o.slice.0) / o.slice.1 } else { all } as usize;
    let case_at = |ci: usize| -> (usize, u64) {
        let at = if o.slice.1 > 1 { ci as u64 * o.slice.1 + o.slice.0 } else { ci as u64 };
        let k = from.partition_point(|x| x.1 <= at) - 1;
        match &o.only {
            Some((_, ix)) => (from[k].0, *ix),
            None => (from[k].0, at - from[k].1),
        }
    };
    let next = AtomicU64::new(0);
    let start = std::time::Instant::now();
    let out = Mutex::new(Out::default());
    let nviol = AtomicU64::new(0);
    // Interleave families so that a deadline cuts all of them evenly.
    let stride = if o.only.is_some() || total < 8 { 1 } else {
        let mut s = (total as f64 * 0.618) as usize | 1;
        fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
        while gcd(s, total) != 1 { s += 1 }
        s
    };
    let nthreads = if o.journal.is_some() || cfg!(miri) { 1 } else { o.threads };
    let slots: Vec<(AtomicU64, AtomicU64)> = (0..nthreads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let done = std::sync::atomic::AtomicBool::new(false);
    let body = |tid: usize| {
        let mut g = Out::default();
        let mut jf = o.journal.as_ref().map(|p| std::fs::File::create(p).unwrap());
        loop {
            let k = next.fetch_add(1, Ordering::SeqCst) as usize;
            if k >= total || (!cfg!(miri) && o.deadline_s > 0 && start.elapsed().as_secs() >= o.deadline_s) {
                break;
            }
            let ci = ((k as u128 * stride as u128) % total as u128) as usize;
            let (fi, idx) = case_at(ci);
            let fam = &p.fams[fi];
            if let Some(f) = jf.as_mut() {
                let _ = writeln!(f, "{}:{}", fam.name, idx);
            }
            slots[tid].1.store(0, Ordering::SeqCst);
            slots[tid].0.store(ci as u64, Ordering::SeqCst);
            let mut cx = case_cx(p.id, fam.name, idx, o.seed, o.tier);
            let pats = [0xA7u8, 0x3F, 0xC1, 0xFF, 0x40, 0x01];
            set_pattern(pats[(mix(idx ^ 77) % 6) as usize]);
            let t0 = thread_cpu_ns();
            cx.render = k < 96 || o.only.is_some();
            let r = catch_unwind(AssertUnwindSafe(|| (fam.f)(&mut cx)));
            let ms = (thread_cpu_ns() - t0) / 1_000_000;
            match g.slowest.get_mut(fam.name) {
                Some(x) => if ms > x.0 { *x = (ms, idx) },
                None => { g.slowest.insert(fam.name.to_string(), (ms, idx)); }
            }
            if matches!(r, Ok(Err(_))) && !cx.render {
                // the same case again, only to write its input out
                let mut again = case_cx(p.id, fam.name, idx, o.seed, o.tier);
                let _ = catch_unwind(AssertUnwindSafe(|| (fam.f)(&mut again)));
                cx.sample = again.sample;
            }
            slots[tid].0.store(u64::MAX, Ordering::SeqCst);
            g.evals += 1;
            match g.fam_counts.get_mut(fam.name) {
                Some(n) => *n += 1,
                None => { g.fam_counts.insert(fam.name.to_string(), 1); }
            }
            cx.h(hash_str(fam.name));
            // (beyond some millions only counted, not remembered: the numbers of distinct cases are lower bounds)
            if g.hashes.len() < 1_500_000 { g.hashes.insert(cx.hash); }
            if cx.nontriv && g.distinct_nontriv.len() < 1_500_000 {
                g.distinct_nontriv.insert(cx.hash);
            }
            let own = cx;
            if !own.sample.is_empty() && own.nontriv && g.samples.len() < 6 && own.sample.len() < 600 {
                g.samples.push(format!("{}:{} {}", fam.name, idx, own.sample));
            }
            match r {
                Err(_) => {
                    if g.harness_errors.len() < 5 {
                        g.harness_errors.push(format!("{}:{} harness panic", fam.name, idx));
                    }
                }
                Ok(Err(m)) => {
                    if m.starts_with("INCONCLUSIVE") {
                        *g.obs.entry("inconclusive cases".into()).or_insert(0) += 1;
                    } else {
                        g.viol.push((fam.name.to_string(), idx, format!("{} [case: {}]", m, own.sample)));
                        if nviol.fetch_add(1, Ordering::SeqCst) + 1 >= o.max_viol as u64 {
                            next.store(u64::MAX / 2, Ordering::SeqCst);
                        }
                    }
                }
                Ok(Ok(())) => {}
            }
            g.absorb(own.obs, own.maxr, own.known);
        }
        out.lock().unwrap().join(g);
    };
    if nthreads == 1 && (cfg!(miri) || o.journal.is_some()) {
        body(0);
    } else {
        let clocks: Mutex<Vec<Option<libc::clockid_t>>> = Mutex::new(vec![None; nthreads]);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for t in 0..nthreads {
                let b = &body;
                let c = &clocks;
                hs.push(s.spawn(move || {
                    let mut ck: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut ck) };
                    c.lock().unwrap()[t] = Some(ck);
                    b(t)
                }));
            }
            // Watchdog: judges a stuck case by the CPU time its own thread has burnt, not by the wall clock.
            let d = &done;
            let sl = &slots;
            let cs = &case_at;
            let clk = &clocks;
            s.spawn(move || {
                let mut base: Vec<(u64, u64)> = vec![(u64::MAX, 0); nthreads];
                while !d.load(Ordering::SeqCst) {
                    std::thread::sleep(std::time::Duration::from_millis(100));
                    for t in 0..nthreads {
                        let cur = sl[t].0.load(Ordering::SeqCst);
                        let Some(ck) = clk.lock().unwrap()[t] else { continue };
                        if cur == u64::MAX {
                            base[t].0 = u64::MAX;
                            continue;
                        }
                        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
                        if unsafe { libc::clock_gettime(ck, &mut ts) } != 0 {
                            continue;
                        }
                        let now = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                        if base[t].0 != cur {
                            base[t] = (cur, now);
                        } else if now - base[t].1 > o.case_cpu_s * 1_000_000_000 {
                            let (fi, idx) = cs(cur as usize);
                            // large matrices may take longer
                            if p.fams[fi].name.starts_with("large") && now - base[t].1 <= 6 * o.case_cpu_s * 1_000_000_000 { continue }
                            println!("STUCK {}:{}", p.fams[fi].name, idx);
                            let _ = std::io::stdout().flush();
                            unsafe { libc::_exit(EXIT_STUCK) };
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Ordering::SeqCst);
        });
    }
    let mut o2 = out.into_inner().unwrap();
    o2.viol.sort();
    o2.samples.sort();
    o2
}

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub fn to_json(p: &Prop, o: &Out) -> String {
    let mut s = String::from("{");
    s += &format!("\"property\":{},\"rule\":{},", json_str(p.id), json_str(p.rule));
    s += &format!("\"evaluations\":{},\"distinct\":{},\"distinct_nontrivial\":{},", o.evals, o.hashes.len(), o.distinct_nontriv.len());
    let j = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
    s += &format!("\"observed\":{{{}}},", j(&o.obs));
    s += &format!("\"families\":{{{}}},", j(&o.fam_counts));
    s += &format!(
        "\"max_error_over_bound\":{{{}}},",
        o.maxr.iter().map(|(k, v)| format!("{}:{}", json_str(k), if v.is_finite() { format!("{:.4e}", v) } else { "1e999".into() })).collect::<Vec<_>>().join(",")
    );
    s += &format!("\"samples\":[{}],", o.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","));
    s += &format!("\"findings\":{{{}}},", o.known.iter().map(|(k, v)| format!("{}:{}", json_str(k), json_str(v))).collect::<Vec<_>>().join(","));
    s += &format!("\"need\":[{}],", p.need.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","));
    s += &format!(
        "\"violations\":[{}],",
        o.viol.iter().map(|(f, i, m)| format!("{{\"case\":{},\"message\":{}}}", json_str(&format!("{}:{}", f, i)), json_str(m))).collect::<Vec<_>>().join(",")
    );
    s += &format!("\"harness_errors\":[{}]", o.harness_errors.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","));
    s += "}";
    s
}
