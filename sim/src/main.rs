//! Deterministic simulation of the gvas library. See /verif/DESIGN.md.

mod alloc;
mod checks;
mod ctx;
mod driver;
mod enc;
mod glue;
mod model;
mod rt;
mod sched;
mod simio;

use driver::*;
use std::path::{Path, PathBuf};
use std::time::Duration;

fn usage() -> i32 {
    eprintln!("usage: gvas-sim check <property> <quick|thorough> | replay <file> | determinism <property> <runs> | list");
    2
}

fn main() {
    rt::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    rt::fix_addresses();
    let code = match a.as_slice() {
        ["worker", prop, tier, seed, start, end, out] => worker(WorkerArgs {
            prop: prop.to_string(),
            thorough: *tier == "thorough",
            seed: seed.parse().unwrap_or(1),
            start: start.parse().unwrap_or(0),
            end: end.parse().unwrap_or(0),
            stride: 1,
            out: PathBuf::from(out),
        }),
        ["exec", mode, file] => exec_case(Path::new(file), *mode == "trace"),
        ["check", prop, tier] => check(prop, *tier == "thorough"),
        ["replay", file] => replay(Path::new(file)),
        ["determinism", prop, runs] => determinism(prop, runs.parse().unwrap_or(1000)),
        ["list"] => {
            for c in checks::ALL {
                println!("{} {}", c.id, c.quick_runs);
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("GVAS_SIM_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn workers() -> usize {
    std::env::var("GVAS_SIM_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16))
}

fn known_findings(root: &Path, prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix(&format!("finding: property={prop} scenario="))?;
            let (s, d) = r.split_once(' ')?;
            Some((s.to_string(), d.to_string()))
        })
        .collect()
}

fn check(prop: &str, thorough: bool) -> i32 {
    let check = checks::find(prop);
    let root = root();
    let env = Env::new(&root, prop);
    let scale: u64 = std::env::var("GVAS_SIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
    let runs = std::env::var("GVAS_SIM_RUNS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(check.quick_runs * if thorough { 25 } else { 1 } * scale / 100);
    let o = Opts {
        thorough,
        seed: seed(),
        runs,
        batch: check.batch,
        workers: workers(),
        cap: Duration::from_secs(if thorough { 2700 } else { 240 }),
        only_profile: None,
        keep_digests: false,
    };
    println!("{prop}: seed {} tier {} runs {runs} workers {}", o.seed, if thorough { "thorough" } else { "quick" }, o.workers);

    // Fixed scenarios of recorded findings.
    let listed = known_findings(&root, prop);
    let mut known = Vec::new();
    let mut fixed_violation = None;
    for s in check.scenarios {
        if let Err(v) = (s.run)() {
            if let Some((_, d)) = listed.iter().find(|l| l.0 == s.name) {
                println!("KNOWN-FINDING: property={prop} scenario={} {d}", s.name);
                known.push(format!("{}: {}", s.name, v.detail));
            } else {
                fixed_violation = Some((s.name, v));
            }
        }
    }
    let out = explore(&env, check, &o);
    if let Some(e) = &out.harness_error
        && out.found.is_none()
    {
        eprintln!("HARNESS-ERROR: {e}");
        return 2;
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((name, v)) = fixed_violation {
        let dir = root.join("evidence/replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-scenario-{name}.txt"));
        let _ = std::fs::write(&path, format!("property {prop}\nscenario {name}\nclass {}\ndetail {}\n", v.class, v.detail));
        println!("{}: {}", v.class, v.detail);
        println!("VIOLATION property={prop} replay={}", path.display());
        violations += 1;
        code = 1;
    }
    if let Some(f) = &out.found {
        match report(&env, check, &o, f) {
            Ok(r) => {
                println!("run {} ({}): {}", f.index, PROFILES[f.profile], r.class);
                println!("  {}", r.detail);
                println!("  minimised with {} candidate runs", r.tried);
                println!("VIOLATION property={prop} replay={}", r.path.display());
                violations += 1;
                code = 1;
            }
            Err(e) => {
                eprintln!("HARNESS-ERROR: {e}");
                if code == 0 {
                    code = 2;
                }
            }
        }
    }
    evidence(&env, check, &o, &out, violations, &known, "");
    println!(
        "{prop}: {} runs, {} distinct, {} comparisons, {} stream calls, {:.1} s (slowest run {:.1} s: {}), faults fired: {}",
        out.stats.runs,
        out.distinct,
        out.stats.evals,
        out.stats.io_steps,
        out.wall,
        out.slowest.0.as_secs_f32(),
        out.slowest.1 as i64,
        out.stats.faults.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
    );
    println!("{prop}: probes: {}", out.stats.probes.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "));
    code
}

fn replay(file: &Path) -> i32 {
    let text = std::fs::read_to_string(file).unwrap_or_default();
    if let (Some(p), Some(s)) = (
        text.lines().find_map(|l| l.strip_prefix("property ")),
        text.lines().find_map(|l| l.strip_prefix("scenario ")),
    ) {
        let c = checks::find(p);
        for sc in c.scenarios {
            if sc.name == s {
                return match (sc.run)() {
                    Ok(()) => 0,
                    Err(v) => {
                        println!("{}: {}", v.class, v.detail);
                        println!("VIOLATION property={p} replay={}", file.display());
                        1
                    }
                };
            }
        }
        return 2;
    }
    let Some(rf) = parse_case(&text) else {
        eprintln!("HARNESS-ERROR: cannot read {}", file.display());
        return 2;
    };
    let env = Env::new(&root(), "replay");
    let (v, _, trace) = exec_child(&env, &rf.case, "replay", true);
    for t in trace {
        println!("{t}");
    }
    match v {
        Verdict::Held => {
            println!("held");
            0
        }
        Verdict::Violated { class, detail, digest } => {
            println!("{class}: {detail}");
            let same = rf.class.as_deref() == Some(&class) && rf.digest == Some(digest);
            println!("{}", if same { "exactly as recorded" } else { "differs from the recorded failure" });
            println!("VIOLATION property={} replay={}", rf.case.prop, file.display());
            1
        }
        Verdict::Harness(e) => {
            eprintln!("HARNESS-ERROR: {e}");
            2
        }
    }
}

/// Runs the same indices under different batch sizes and worker counts and
/// compares every run digest.
fn determinism(prop: &str, runs: u64) -> i32 {
    let check = checks::find(prop);
    let env = Env::new(&root(), "det");
    let mut maps = Vec::new();
    for (batch, workers, profile) in [(runs.div_ceil(40).max(1), 8, 0), (runs.div_ceil(7).max(1), 3, 0), (runs, 1, 0), (runs.div_ceil(16).max(1), 16, 1)] {
        let o = Opts {
            thorough: false,
            seed: seed(),
            runs,
            batch,
            workers,
            cap: Duration::from_secs(3600),
            only_profile: Some(profile),
            keep_digests: true,
        };
        let out = explore(&env, check, &o);
        if let Some(e) = out.harness_error {
            eprintln!("HARNESS-ERROR: {e}");
            return 2;
        }
        maps.push(((batch, workers, profile), out.digests));
    }
    let mut bad = 0;
    for (cfg, m) in &maps[1..] {
        let mut diff: Vec<u64> = maps[0].1.iter().filter(|(k, v)| m.get(k) != Some(v)).map(|(k, _)| *k).collect();
        diff.sort();
        println!("{prop} seed {}: {:?} vs {cfg:?}: {} runs, {} differ {:?}", seed(), maps[0].0, m.len(), diff.len(), &diff[..diff.len().min(8)]);
        if cfg.2 == 0 {
            bad += diff.len();
        }
    }
    if bad == 0 { 0 } else { 1 }
}
