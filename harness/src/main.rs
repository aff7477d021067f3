mod checks;
mod child;
mod data;
mod engine;
mod frame;
mod raw;
mod sim;

use frame::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::Instant;

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}
fn scale() -> f64 {
    std::env::var("PV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}
fn verif() -> PathBuf {
    PathBuf::from(std::env::var("PV_VERIF").unwrap_or_else(|_| "/verif".into()))
}

#[derive(serde::Deserialize, Clone)]
struct Finding {
    property: String,
    what: String,
    check: String,
    kind: String,
    case: serde_json::Value,
}
fn known(id: &str) -> Result<Vec<Finding>, String> {
    let p = verif().join("known_findings.json");
    let Ok(b) = std::fs::read(&p) else { return Ok(vec![]) };
    let v: serde_json::Value = serde_json::from_slice(&b).map_err(|e| e.to_string())?;
    let f: Vec<Finding> = serde_json::from_value(v["findings"].clone()).map_err(|e| e.to_string())?;
    Ok(f.into_iter().filter(|f| f.property == id).collect())
}

fn main() {
    // Errors capture backtraces otherwise, which takes most of the time.
    if std::env::var_os("PV_BT").is_none() {
        std::env::set_var("RUST_BACKTRACE", "0");
        std::env::set_var("RUST_LIB_BACKTRACE", "0");
    }
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2]),
        Some("worker") => {
            sim::record_blocks();
            let (id, name, idx, n) = (&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap());
            let seed = env_u64("VERIF_SEED", 1);
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
            let mut reps = vec![];
            for c in checks::get(id) {
                if name == "-" || name == c.name() {
                    let r = c.work(id, seed, idx, n, thorough, scale());
                    let stop = r.violation.is_some() || r.error.is_some();
                    reps.push(r);
                    if stop {
                        break;
                    }
                }
            }
            if let Some(r) = reps.last_mut() {
                (r.blocks, r.all_blocks) = sim::blocks();
            }
            println!("{}", serde_json::to_string(&reps).unwrap());
            0
        }
        Some("replay") => {
            let r: Replay = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let mut code = 2;
            with_scratch(|| {
                for c in checks::get(&r.property) {
                    if c.name() == r.check {
                        match c.replay(&r.case) {
                            Ok(o) => match o.fail {
                                Some(f) => {
                                    println!("fails: {}: {}", f.kind, f.msg);
                                    code = 1
                                }
                                None => {
                                    println!("passes: {:?}", o.stats);
                                    code = 0
                                }
                            },
                            Err(e) => println!("error: {e}"),
                        }
                    }
                }
            });
            code
        }
        Some("list") => {
            for i in 1..=22 {
                let id = format!("C{i:02}");
                for c in checks::get(&id) {
                    println!("{id} {}", c.name());
                }
            }
            0
        }
        _ => {
            eprintln!("usage: pv run ID | pv worker ID CHECK|- IDX N | pv replay FILE");
            2
        }
    };
    std::process::exit(code);
}

fn with_scratch(f: impl FnOnce()) {
    let base = if PathBuf::from("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let owned = std::env::var_os("PV_SCRATCH").is_none();
    if owned {
        let d = format!("{base}/pv-{}", std::process::id());
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_var("PV_SCRATCH", &d);
    }
    f();
    if owned {
        let d = PathBuf::from(std::env::var_os("PV_SCRATCH").unwrap());
        assert!(d.file_name().unwrap().to_str().unwrap().starts_with("pv-"));
        let _ = std::fs::remove_dir_all(&d);
        std::env::remove_var("PV_SCRATCH");
    }
}

fn run(id: &str) -> i32 {
    let mut code = 2;
    with_scratch(|| code = run_inner(id));
    code
}

fn run_inner(id: &str) -> i32 {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let cs = checks::get(id);
    if cs.is_empty() {
        eprintln!("no check for {id}");
        return 2;
    }
    let findings = match known(id) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("known_findings.json: {e}");
            return 2;
        }
    };
    // Known findings: each is replayed as it stands.
    let mut known_lines = vec![];
    for f in &findings {
        let Some(c) = cs.iter().find(|c| c.name() == f.check) else { continue };
        match c.replay(&f.case) {
            Ok(o) => match o.fail {
                Some(x) if x.kind == f.kind => known_lines.push(format!("KNOWN-FINDING: property={id} {}", f.what)),
                Some(x) => {
                    return violation(id, &tier, seed, t0, Replay { property: id.into(), check: f.check.clone(), kind: x.kind, msg: x.msg, case: f.case.clone() }, &[]);
                }
                None => {}
            },
            Err(e) => {
                eprintln!("replaying a known finding: {e}");
                return 2;
            }
        }
    }
    // Cases that failed before a repair, and other saved cases.
    let mut corpus: Vec<PathBuf> = std::fs::read_dir(verif().join("corpus").join(id)).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    corpus.sort();
    let mut saved = Report { check: "saved".into(), rule: "saved cases replayed as they stand".into(), ..Default::default() };
    for p in corpus {
        let r: Replay = match std::fs::read(&p).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("{}: {e}", p.display());
                return 2;
            }
        };
        let Some(c) = cs.iter().find(|c| c.name() == r.check) else {
            eprintln!("{}: no check {}", p.display(), r.check);
            return 2;
        };
        match c.replay(&r.case) {
            Ok(o) => {
                saved.evaluations += 1;
                if let Some(x) = o.fail {
                    return violation(id, &tier, seed, t0, Replay { kind: x.kind, msg: x.msg, ..r }, &[saved]);
                }
            }
            Err(e) => {
                eprintln!("{}: {e}", p.display());
                return 2;
            }
        }
    }
    let n: u32 = env_u64("PV_WORKERS", 8) as u32;
    let exe = std::env::current_exe().unwrap();
    let only = std::env::var("PV_ONLY").unwrap_or_else(|_| "-".into());
    let kids: Vec<_> = (0..n)
        .map(|i| {
            let mut c = Command::new(&exe);
            c.args(["worker", id, &only, &i.to_string(), &n.to_string()]).stdout(Stdio::piped());
            let mut k = c.spawn().expect("spawn worker");
            let mut out = k.stdout.take().unwrap();
            let t = std::thread::spawn(move || {
                let mut s = String::new();
                use std::io::Read;
                let _ = out.read_to_string(&mut s);
                s
            });
            (k, t)
        })
        .collect();
    let mut reports: Vec<Report> = if saved.evaluations > 0 { vec![saved] } else { vec![] };
    let mut errors = vec![];
    for (mut k, t) in kids {
        let s = t.join().unwrap();
        let st = k.wait().unwrap();
        match serde_json::from_str::<Vec<Report>>(&s) {
            Ok(r) => reports.extend(r),
            Err(e) => errors.push(format!("worker ended with {st}: {e}")),
        }
    }
    for r in &reports {
        if let Some(e) = &r.error {
            errors.push(e.clone());
        }
    }
    for l in &known_lines {
        println!("{l}");
    }
    // The smallest failing case is reported.
    let mut v: Vec<&Replay> = reports.iter().filter_map(|r| r.violation.as_ref()).collect();
    v.sort_by_key(|r| r.case.to_string().len());
    if let Some(r) = v.first() {
        for e in &errors {
            eprintln!("{e}");
        }
        return violation(id, &tier, seed, t0, (*r).clone(), &reports);
    }
    evidence(id, &tier, seed, t0, &reports, 0);
    if !errors.is_empty() {
        for e in errors {
            eprintln!("ERROR {id}: {e}");
        }
        return 2;
    }
    println!("OK {id}: held on {} cases in {:.1}s", reports.iter().map(|r| r.evaluations).sum::<u64>(), t0.elapsed().as_secs_f64());
    0
}

fn violation(id: &str, tier: &str, seed: u64, t0: Instant, r: Replay, reports: &[Report]) -> i32 {
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-replay.json"));
    let _ = std::fs::write(&p, serde_json::to_vec_pretty(&r).unwrap());
    evidence(id, tier, seed, t0, reports, 1);
    println!("{} ({}): {}", r.kind, r.check, r.msg);
    println!("case: {}", r.case);
    println!("VIOLATION property={id} replay={}", p.display());
    1
}

fn evidence(id: &str, tier: &str, seed: u64, t0: Instant, reports: &[Report], violations: u64) {
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut per: BTreeMap<String, serde_json::Value> = BTreeMap::new();
    let names: BTreeSet<String> = reports.iter().map(|r| r.check.clone()).collect();
    let mut all: u64 = 0;
    let mut evals: u64 = 0;
    let mut samples = vec![];
    let mut rules = vec![];
    for n in names {
        let rs: Vec<&Report> = reports.iter().filter(|r| r.check == n).collect();
        let d: HashSet<u64> = rs.iter().flat_map(|r| r.distinct.iter().copied()).collect();
        let e: u64 = rs.iter().map(|r| r.evaluations).sum();
        let mut stats = BTreeMap::new();
        let mut hits = BTreeMap::new();
        for r in &rs {
            for (k, v) in &r.stats {
                *stats.entry(k.clone()).or_insert(0u64) += v;
            }
            for (k, v) in &r.hits {
                *hits.entry(k.clone()).or_insert(0u64) += v;
            }
        }
        all += d.len() as u64;
        evals += e;
        samples.extend(rs.iter().flat_map(|r| r.samples.iter().cloned()).take(2).map(|s| serde_json::json!({"check": n, "case": s})));
        rules.push(format!("{n}: {}", rs[0].rule));
        per.insert(n, serde_json::json!({"evaluations": e, "distinct_nontrivial": d.len(), "events": stats, "cases_with_event": hits}));
    }
    let blocks: HashSet<u32> = reports.iter().flat_map(|r| r.blocks.iter().copied()).collect();
    let ev = serde_json::json!({
        "property": id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": checks::level(id),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": all,
            "rule": rules.join("; "),
            "samples": samples,
            "checks": per,
            "basic_blocks_of_the_library_reached": blocks.len(),
            "basic_blocks_of_the_library": reports.iter().map(|r| r.all_blocks).max(),
        },
        "assumptions": checks::assumptions(id),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap());
}
