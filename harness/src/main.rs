//! lamon: runs the la crate under generated workloads with monitors attached and reports what they saw.
mod alloc;
mod exact;
mod fw;
mod gen;
mod lin;
mod mon;
mod props;
mod rng;

use fw::{Opts, Tier};

#[cfg(not(any(miri, feature = "sysalloc")))]
#[global_allocator]
static GLOBAL: alloc::Poison = alloc::Poison;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    if args.first().map(|s| s == "draw").unwrap_or(false) {
        return props::basic::draw_main(&args[1..]);
    }
    let all = props::all();
    if args.first().map(|s| s == "list").unwrap_or(false) {
        for p in &all {
            println!("{} {}", p.id, p.fams.iter().map(|f| format!("{}({}/{})", f.name, f.quick, f.thorough)).collect::<Vec<_>>().join(" "));
        }
        return;
    }
    let id = get("--property").expect("--property");
    let tier = match get("--tier").as_deref() {
        Some("tiny") => Tier::Tiny,
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let num = |k: &str, d: u64| get(k).map(|s| s.parse().expect(k)).unwrap_or(d);
    let o = Opts {
        seed: num("--seed", 1),
        tier,
        threads: num("--threads", 8) as usize,
        scale: get("--scale").map(|s| s.parse().unwrap()).unwrap_or(1.0),
        only: get("--only").map(|s| {
            let (a, b) = s.rsplit_once(':').expect("fam:idx");
            (a.to_string(), b.parse().expect("idx"))
        }),
        family: get("--family"),
        journal: get("--journal"),
        max_viol: num("--max-viol", 12) as usize,
        case_cpu_s: num("--case-cpu", 20),
        deadline_s: num("--deadline", 0),
        slice: get("--slice").map(|s| { let (a, b) = s.split_once('/').expect("k/n"); (a.parse().unwrap(), b.parse().unwrap()) }).unwrap_or((0, 1)),
    };
    fw::install_hook();
    let ids: Vec<&fw::Prop> = all.iter().filter(|p| id == "all" || p.id == id).collect();
    if ids.is_empty() {
        eprintln!("no such property {}", id);
        std::process::exit(2);
    }
    let mut bad = false;
    let mut broken = false;
    let mut js = vec![];
    for p in ids {
        let t0 = std::time::Instant::now();
        let out = fw::run(p, &o);
        if !out.viol.is_empty() {
            bad = true;
        }
        if !out.harness_errors.is_empty() {
            broken = true;
        }
        if get("--out").is_none() || id == "all" {
            if cfg!(miri) {
                println!("{} evals {} viol {} harness {}", p.id, out.evals, out.viol.len(), out.harness_errors.len());
            } else {
                println!("{} {:.1}s evals {} distinct-nontrivial {} viol {} harness {}", p.id, t0.elapsed().as_secs_f64(), out.evals, out.distinct_nontriv.len(), out.viol.len(), out.harness_errors.len());
                println!("   obs {:?}", out.obs);
                println!("   max ratio {:?}", out.maxr);
                println!("   slowest {:?}", out.slowest);
            }
            for (k, v) in &out.known {
                println!("   finding {} : {}", k, v);
            }
            for (f, i, m) in out.viol.iter().take(6) {
                println!("   VIOL {}:{} {}", f, i, m.chars().take(if args.iter().any(|a| a == "-v") { 6000 } else { 420 }).collect::<String>());
            }
            for h in &out.harness_errors {
                println!("   HARNESS {}", h);
            }
        }
        js.push(fw::to_json(p, &out));
    }
    if let Some(f) = get("--out") {
        std::fs::write(f, js.join("\n")).unwrap();
    }
    props::io::cleanup();
    if broken {
        std::process::exit(3);
    }
    if bad {
        std::process::exit(1);
    }
}
