//! Batches of runs in worker processes, attribution of process deaths,
//! confirmation, minimisation, replay files and evidence.

use crate::checks::{self, Check};
use crate::ctx::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const STACK: usize = 8 << 20;

/// Seconds to spend on making a failing run smaller.
fn patience() -> u64 {
    std::env::var("GVAS_SIM_MINIMISE").ok().and_then(|s| s.parse().ok()).unwrap_or(25)
}

const HANG: Duration = Duration::from_secs(60);

pub fn prop_hash(p: &str) -> u64 {
    let mut d = Digest::new();
    d.bytes(p.as_bytes());
    d.0
}
pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix(seed, prop_hash(prop)), index)
}

pub struct RunOut {
    pub ctx: Ctx,
    pub result: Result<(), Violation>,
}

/// One run in a fresh thread (fresh thread-local state, seeded hash keys).
pub fn run_one(check: &'static Check, rs: u64, replay: Option<Choices>, trace: bool, thorough: bool) -> RunOut {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            crate::rt::seed_thread(mix(rs, 0xA5A5));
            let mut ctx = Ctx::new(rs, replay, trace, thorough);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (check.run)(&mut ctx)));
            match r {
                Ok(result) => RunOut { ctx, result },
                Err(_) => {
                    eprintln!("HARNESS-ERROR: the simulator itself panicked: {}", crate::rt::last_panic());
                    std::process::exit(3)
                }
            }
        })
        .and_then(|h| h.join().map_err(|_| std::io::Error::other("join")))
        .unwrap_or_else(|e| {
            eprintln!("HARNESS-ERROR: {e}");
            std::process::exit(3)
        })
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

// ---------------------------------------------------------------------------
// worker side

pub struct WorkerArgs {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: u64,
    pub end: u64,
    pub stride: u64,
    pub out: PathBuf,
}

/// Runs a batch; results go to `<out>.res` and `<out>.dig`, the index being run
/// to `<out>.at` so that the parent knows it if this process dies.
pub fn worker(a: WorkerArgs) -> i32 {
    let check = checks::find(&a.prop);
    let at = fs::File::create(a.out.with_extension("at")).expect("status file");
    let mut st = Stats::default();
    let mut dig: Vec<u8> = Vec::new();
    let mut i = a.start;
    while i < a.end {
        at.write_at(&i.to_le_bytes(), 0).expect("status");
        let rs = run_seed(a.seed, &a.prop, i);
        let o = run_one(check, rs, None, false, a.thorough);
        st.add(&o.ctx, i, rs);
        dig.extend_from_slice(&i.to_le_bytes());
        dig.extend_from_slice(&o.ctx.digest.0.to_le_bytes());
        if let Err(v) = o.result {
            st.violation = Some((i, v));
            break;
        }
        i += a.stride;
    }
    fs::write(a.out.with_extension("dig"), dig).expect("digests");
    fs::write(a.out.with_extension("res"), st.to_text()).expect("results");
    0
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub io_steps: u64,
    pub evals: u64,
    pub faults: BTreeMap<String, u64>,
    pub fault_runs: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub faulted_runs: u64,
    pub samples: Vec<String>,
    pub violation: Option<(u64, Violation)>,
}

impl Stats {
    fn add(&mut self, c: &Ctx, index: u64, rs: u64) {
        self.runs += 1;
        self.io_steps += c.io_steps;
        self.evals += c.oracle_evals;
        for (k, v) in &c.faults {
            *self.faults.entry(k.to_string()).or_default() += v;
            *self.fault_runs.entry(k.to_string()).or_default() += 1;
        }
        if !c.faults.is_empty() {
            self.faulted_runs += 1;
        }
        for (k, v) in &c.probes {
            *self.probes.entry(k.to_string()).or_default() += v;
        }
        if self.samples.len() < 3 {
            let f: Vec<String> = c.faults.iter().map(|(k, v)| format!("{k} x{v}")).collect();
            self.samples.push(format!(
                "run {index} seed {rs:#018x}: {} stream calls, {} comparisons, faults [{}], digest {:016x}",
                c.io_steps,
                c.oracle_evals,
                f.join(", "),
                c.digest.0
            ));
        }
    }
    fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "runs {}\nio {}\nevals {}\nfaulted {}", self.runs, self.io_steps, self.evals, self.faulted_runs);
        for (k, v) in &self.faults {
            let _ = writeln!(s, "fault {k} {v} {}", self.fault_runs.get(k).unwrap_or(&0));
        }
        for (k, v) in &self.probes {
            let _ = writeln!(s, "probe {k} {v}");
        }
        for x in &self.samples {
            let _ = writeln!(s, "sample {}", esc(x));
        }
        if let Some((i, v)) = &self.violation {
            let _ = writeln!(s, "violation {i}\t{}\t{}", esc(&v.class), esc(&v.detail));
        }
        s.push_str("done\n");
        s
    }
    fn absorb_text(&mut self, t: &str) -> Option<(u64, Violation)> {
        let mut viol = None;
        for l in t.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            let n = || r.parse::<u64>().unwrap_or(0);
            match k {
                "runs" => self.runs += n(),
                "io" => self.io_steps += n(),
                "evals" => self.evals += n(),
                "faulted" => self.faulted_runs += n(),
                "fault" => {
                    let p: Vec<&str> = r.split(' ').collect();
                    *self.faults.entry(p[0].into()).or_default() += p[1].parse::<u64>().unwrap_or(0);
                    *self.fault_runs.entry(p[0].into()).or_default() += p[2].parse::<u64>().unwrap_or(0);
                }
                "probe" => {
                    let p: Vec<&str> = r.rsplitn(2, ' ').collect();
                    *self.probes.entry(p[1].into()).or_default() += p[0].parse::<u64>().unwrap_or(0);
                }
                "sample" => {
                    if self.samples.len() < 12 {
                        self.samples.push(unesc(r));
                    }
                }
                "violation" => {
                    let p: Vec<&str> = r.splitn(3, '\t').collect();
                    viol = Some((
                        p[0].parse().unwrap_or(0),
                        Violation { class: unesc(p[1]), detail: unesc(p[2]) },
                    ));
                }
                _ => {}
            }
        }
        viol
    }
}

// ---------------------------------------------------------------------------
// parent side

pub struct Env {
    pub root: PathBuf,
    pub work: PathBuf,
    pub bins: [PathBuf; 2],
}
pub const PROFILES: [&str; 2] = ["release", "checked"];

impl Env {
    pub fn new(root: &Path, tag: &str) -> Env {
        // <target directory>/<profile>/gvas-sim
        let exe = std::env::current_exe().expect("own path");
        let t = exe.parent().and_then(|p| p.parent()).expect("target directory").to_path_buf();
        let work = root.join("evidence/work").join(format!("{tag}-{}", std::process::id()));
        fs::create_dir_all(&work).expect("scratch directory");
        Env {
            root: root.to_path_buf(),
            work,
            bins: [t.join("release/gvas-sim"), t.join("checked/gvas-sim")],
        }
    }
}
impl Drop for Env {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.work);
    }
}

struct Job {
    child: Child,
    out: PathBuf,
    start: u64,
    end: u64,
    profile: usize,
    last_at: u64,
    since: Instant,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub index: u64,
    pub profile: usize,
    pub batch_start: u64,
    pub v: Violation,
    /// Seen by a comparison inside the run, not from the death of the process.
    pub observed: bool,
}

fn read_at(p: &Path) -> Option<u64> {
    let b = fs::read(p).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

pub struct Outcome {
    pub stats: Stats,
    pub distinct: usize,
    pub found: Option<Found>,
    pub harness_error: Option<String>,
    pub wall: f64,
    pub truncated: bool,
    pub per_profile: [u64; 2],
    pub digests: HashMap<u64, u64>,
    pub processes: u64,
    /// The longest time between two runs of a worker, and the run before.
    pub slowest: (Duration, u64),
}

pub struct Opts {
    pub thorough: bool,
    pub seed: u64,
    pub runs: u64,
    pub batch: u64,
    pub workers: usize,
    pub cap: Duration,
    pub only_profile: Option<usize>,
    pub keep_digests: bool,
}

fn death(status: &std::process::ExitStatus) -> Option<String> {
    if let Some(sig) = status.signal() {
        let name = match sig {
            6 => "SIGABRT",
            11 => "SIGSEGV",
            7 => "SIGBUS",
            4 => "SIGILL",
            8 => "SIGFPE",
            _ => return None,
        };
        return Some(format!("process died with {name}"));
    }
    if status.code() == Some(crate::rt::EXIT_DEADLOCK) {
        return Some("sessions deadlocked".into());
    }
    None
}

pub fn explore(env: &Env, check: &'static Check, o: &Opts) -> Outcome {
    let t0 = Instant::now();
    let mut stats = Stats::default();
    let mut digests: HashMap<u64, u64> = HashMap::new();
    let mut set: HashSet<u64> = HashSet::new();
    let mut jobs: Vec<Job> = Vec::new();
    let mut next = 0u64;
    let mut nb = 0usize;
    let mut found: Vec<Found> = Vec::new();
    let mut herr = None;
    let mut truncated = false;
    let mut per_profile = [0u64; 2];
    let mut processes = 0;
    // batches to redo after a process death or to finish: (start, end, profile)
    let spawn = |start: u64, end: u64, profile: usize, id: usize| -> Job {
        let out = env.work.join(format!("b{id}"));
        let child = Command::new(&env.bins[profile])
            .args(["worker", check.id, if o.thorough { "thorough" } else { "quick" }])
            .args([o.seed.to_string(), start.to_string(), end.to_string()])
            .arg(&out)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(fs::File::create(out.with_extension("err")).map(Stdio::from).unwrap_or(Stdio::null()))
            .spawn()
            .expect("start worker");
        Job { child, out, start, end, profile, last_at: u64::MAX, since: Instant::now() }
    };
    let mut slowest = (Duration::ZERO, 0);
    loop {
        while jobs.len() < o.workers && next < o.runs && found.is_empty() && herr.is_none() {
            if t0.elapsed() > o.cap {
                truncated = true;
                break;
            }
            let end = (next + o.batch).min(o.runs);
            let profile = o.only_profile.unwrap_or(nb % 2);
            jobs.push(spawn(next, end, profile, nb));
            processes += 1;
            nb += 1;
            next = end;
        }
        if jobs.is_empty() {
            break;
        }
        let mut i = 0;
        let mut progressed = false;
        while i < jobs.len() {
            let j = &mut jobs[i];
            match j.child.try_wait() {
                Ok(Some(status)) => {
                    progressed = true;
                    let j = jobs.swap_remove(i);
                    let res = fs::read_to_string(j.out.with_extension("res")).unwrap_or_default();
                    let complete = status.success() && res.ends_with("done\n");
                    if complete {
                        let before = stats.runs;
                        let v = stats.absorb_text(&res);
                        per_profile[j.profile] += stats.runs - before;
                        if let Some((index, v)) = v {
                            found.push(Found { index, profile: j.profile, batch_start: j.start, v, observed: true });
                        }
                        let dig = fs::read(j.out.with_extension("dig")).unwrap_or_default();
                        for c in dig.chunks_exact(16) {
                            let ix = u64::from_le_bytes(c[..8].try_into().unwrap_or_default());
                            let d = u64::from_le_bytes(c[8..].try_into().unwrap_or_default());
                            set.insert(d);
                            if o.keep_digests {
                                digests.insert(ix, d);
                            }
                        }
                    } else if let Some(what) = death(&status) {
                        let index = read_at(&j.out.with_extension("at")).unwrap_or(j.start);
                        let err = fs::read_to_string(j.out.with_extension("err")).unwrap_or_default();
                        found.push(Found {
                            index,
                            profile: j.profile,
                            batch_start: j.start,
                            v: Violation { class: what, detail: clip(err.trim(), 300) },
                            observed: false,
                        });
                    } else {
                        let err = fs::read_to_string(j.out.with_extension("err")).unwrap_or_default();
                        herr = Some(format!("worker {}..{} ended with {status}: {}", j.start, j.end, clip(err.trim(), 500)));
                    }
                    for e in ["res", "dig", "at", "err"] {
                        let _ = fs::remove_file(j.out.with_extension(e));
                    }
                    continue;
                }
                Ok(None) => {
                    let at = read_at(&j.out.with_extension("at")).unwrap_or(u64::MAX - 1);
                    if at != j.last_at {
                        if j.since.elapsed() > slowest.0 {
                            slowest = (j.since.elapsed(), j.last_at);
                        }
                        j.last_at = at;
                        j.since = Instant::now();
                    } else if j.since.elapsed() > HANG {
                        let _ = j.child.kill();
                        let _ = j.child.wait();
                        found.push(Found {
                            index: at,
                            profile: j.profile,
                            batch_start: j.start,
                            v: Violation { class: "run does not end".into(), detail: format!("no progress for {HANG:?}") },
                            observed: false,
                        });
                        jobs.swap_remove(i);
                        continue;
                    }
                }
                Err(e) => herr = Some(e.to_string()),
            }
            i += 1;
        }
        if !progressed {
            std::thread::sleep(Duration::from_millis(3));
        }
    }
    found.sort_by_key(|f| f.index);
    let wall = t0.elapsed().as_secs_f64();
    Outcome {
        distinct: set.len(),
        stats,
        found: found.into_iter().next(),
        harness_error: herr,
        wall,
        truncated,
        per_profile,
        digests,
        processes,
        slowest,
    }
}

// ---------------------------------------------------------------------------
// one run in its own process

#[derive(Clone, Debug)]
pub struct Case {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub index: u64,
    pub profile: usize,
    /// Runs executed before this one in the same process.
    pub prefix: (u64, u64),
    pub choices: Option<Choices>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Held,
    Violated { class: String, detail: String, digest: u64 },
    Harness(String),
}

impl Verdict {
    fn class(&self) -> Option<&str> {
        match self {
            Verdict::Violated { class, .. } => Some(class),
            _ => None,
        }
    }
}

fn choices_text(c: &Choices) -> String {
    let mut s = String::new();
    for (i, v) in c.iter().enumerate() {
        let _ = write!(s, "choices {}", STREAM_NAMES[i]);
        for x in v {
            let _ = write!(s, " {x}");
        }
        s.push('\n');
    }
    s
}

fn case_text(c: &Case) -> String {
    let mut s = format!(
        "property {}\ntier {}\nseed {}\nindex {}\nprofile {}\nprefix {} {}\n",
        c.prop,
        if c.thorough { "thorough" } else { "quick" },
        c.seed,
        c.index,
        PROFILES[c.profile],
        c.prefix.0,
        c.prefix.1
    );
    if let Some(ch) = &c.choices {
        s.push_str(&choices_text(ch));
    }
    s
}

pub struct ReplayFile {
    pub case: Case,
    pub class: Option<String>,
    pub digest: Option<u64>,
}

pub fn parse_case(t: &str) -> Option<ReplayFile> {
    let mut c = Case { prop: String::new(), thorough: false, seed: 1, index: 0, profile: 0, prefix: (0, 0), choices: None };
    let (mut class, mut digest) = (None, None);
    for l in t.lines() {
        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => c.prop = r.into(),
            "tier" => c.thorough = r == "thorough",
            "seed" => c.seed = r.parse().ok()?,
            "index" => c.index = r.parse().ok()?,
            "profile" => c.profile = PROFILES.iter().position(|p| *p == r)?,
            "prefix" => {
                let (a, b) = r.split_once(' ')?;
                c.prefix = (a.parse().ok()?, b.parse().ok()?);
            }
            "class" => class = Some(unesc(r)),
            "digest" => digest = u64::from_str_radix(r, 16).ok(),
            "choices" => {
                let mut it = r.split(' ').filter(|s| !s.is_empty());
                let n = STREAM_NAMES.iter().position(|s| Some(*s) == it.clone().next())?;
                it.next();
                let v: Vec<u32> = it.map(|x| x.parse().unwrap_or(0)).collect();
                c.choices.get_or_insert_with(Default::default)[n] = v;
            }
            "trace" => break,
            _ => {}
        }
    }
    if c.prop.is_empty() { None } else { Some(ReplayFile { case: c, class, digest }) }
}

/// Child process entry: executes a case file and prints the verdict.
pub fn exec_case(file: &Path, trace: bool) -> i32 {
    let Some(rf) = fs::read_to_string(file).ok().and_then(|t| parse_case(&t)) else {
        eprintln!("HARNESS-ERROR: cannot read {}", file.display());
        return 3;
    };
    let c = rf.case;
    let check = checks::find(&c.prop);
    for i in c.prefix.0..c.prefix.1 {
        let _ = run_one(check, run_seed(c.seed, &c.prop, i), None, false, c.thorough);
    }
    if let Ok(p) = std::env::var("GVAS_SIM_RECORD")
        && let Ok(f) = fs::File::create(p)
    {
        let _ = RECORD.set(f);
    }
    let o = run_one(check, run_seed(c.seed, &c.prop, c.index), c.choices, trace, c.thorough);
    let mut out = std::io::stdout().lock();
    let _ = writeln!(out, "{}", choices_text(&o.ctx.recorded()).trim_end());
    match &o.result {
        Ok(()) => {
            let _ = writeln!(out, "held");
        }
        Err(v) => {
            let _ = writeln!(out, "violated {}\t{}\t{:016x}", esc(&v.class), esc(&v.detail), o.ctx.digest.0);
        }
    }
    if trace {
        for t in &o.ctx.trace {
            let _ = writeln!(out, "trace {}", esc(t));
        }
    }
    0
}

pub fn exec_child(env: &Env, c: &Case, tag: &str, trace: bool) -> (Verdict, Option<Choices>, Vec<String>) {
    let f = env.work.join(format!("case-{tag}"));
    if fs::write(&f, case_text(c)).is_err() {
        return (Verdict::Harness("cannot write case".into()), None, vec![]);
    }
    let child = Command::new(&env.bins[c.profile])
        .args(["exec", if trace { "trace" } else { "plain" }])
        .arg(&f)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn();
    let Ok(mut child) = child else {
        return (Verdict::Harness("cannot start".into()), None, vec![]);
    };
    let mut so = child.stdout.take().expect("piped");
    let mut se = child.stderr.take().expect("piped");
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut so, &mut s);
        s
    });
    let he = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut se, &mut s);
        s
    });
    let t0 = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {
                if t0.elapsed() > HANG {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_micros(300));
            }
            Err(_) => break None,
        }
    };
    let out = h.join().unwrap_or_default();
    let err = he.join().unwrap_or_default();
    let _ = fs::remove_file(&f);
    let Some(status) = status else {
        return (Verdict::Violated { class: "run does not end".into(), detail: format!("no progress for {HANG:?}"), digest: 0 }, None, vec![]);
    };
    if let Some(what) = death(&status) {
        return (Verdict::Violated { class: what, detail: clip(err.trim(), 300), digest: 0 }, None, vec![]);
    }
    if !status.success() {
        return (Verdict::Harness(format!("{status}: {err}")), None, vec![]);
    }
    let mut ch: Choices = Default::default();
    let mut verdict = Verdict::Harness("no verdict".into());
    let mut trace = Vec::new();
    for l in out.lines() {
        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "choices" => {
                let mut it = r.split(' ');
                let n = it.next().and_then(|n| STREAM_NAMES.iter().position(|s| *s == n)).unwrap_or(0);
                ch[n] = it.filter_map(|x| x.parse().ok()).collect();
            }
            "held" => verdict = Verdict::Held,
            "violated" => {
                let p: Vec<&str> = r.splitn(3, '\t').collect();
                verdict = Verdict::Violated {
                    class: unesc(p[0]),
                    detail: unesc(p[1]),
                    digest: u64::from_str_radix(p[2], 16).unwrap_or(0),
                };
            }
            "trace" => trace.push(unesc(r)),
            _ => {}
        }
    }
    (verdict, Some(ch), trace)
}

/// The choices a run draws up to the point where it dies, regenerated from the
/// generator: deaths cannot report them, so the case is kept as seed and index.
fn confirm(env: &Env, c: &mut Case, want: &str, batch_start: u64) -> Option<(Verdict, Option<Choices>)> {
    let (v, ch, _) = exec_child(env, c, "confirm", false);
    if v.class() == Some(want) {
        return Some((v, ch));
    }
    // State left behind by earlier runs of the same process may matter.
    let full = (batch_start, c.index);
    if full.0 < full.1 {
        c.prefix = full;
        let (v, ch, _) = exec_child(env, c, "confirm", false);
        if v.class() == Some(want) {
            // shortest suffix of the prefix, by bisection
            let (mut lo, mut hi) = (full.0, full.1);
            while lo < hi {
                let mid = lo + (hi - lo).div_ceil(2);
                c.prefix = (mid, full.1);
                let (v2, _, _) = exec_child(env, c, "confirm", false);
                if v2.class() == Some(want) {
                    lo = mid;
                } else {
                    hi = mid - 1;
                }
            }
            c.prefix = (lo, full.1);
            let (v3, ch3, _) = exec_child(env, c, "confirm", false);
            if v3.class() == Some(want) {
                return Some((v3, ch3));
            }
            c.prefix = full;
            return Some((v, ch));
        }
    }
    None
}

fn minimise(env: &Env, base: &Case, start: Choices, want: &str, budget: usize, cap: Duration) -> (Choices, usize) {
    let t0 = Instant::now();
    let mut best = start;
    let mut tried = 0usize;
    let workers = 8usize;
    // Evaluates candidates in parallel, returns the first (in order) that still fails.
    let eval = |cands: &[Choices], tried: &mut usize| -> Option<Choices> {
        for group in cands.chunks(workers) {
            if *tried >= budget || t0.elapsed() > cap {
                return None;
            }
            *tried += group.len();
            let res: Vec<(bool, Option<Choices>)> = std::thread::scope(|s| {
                let hs: Vec<_> = group
                    .iter()
                    .enumerate()
                    .map(|(i, c)| {
                        let mut case = base.clone();
                        case.choices = Some(c.clone());
                        let tag = format!("min{i}");
                        s.spawn(move || {
                            let (v, ch, _) = exec_child(env, &case, &tag, false);
                            (v.class() == Some(want), ch)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or((false, None))).collect()
            });
            if let Some(i) = res.iter().position(|r| r.0) {
                // The recorded choices of the failing run are canonical, but only
                // take them if they are not longer.
                let c = &group[i];
                if let Some(r) = &res[i].1 {
                    let len = |c: &Choices| c.iter().map(|v| v.len()).sum::<usize>();
                    if len(r) <= len(c) {
                        return Some(r.clone());
                    }
                }
                return Some(c.clone());
            }
        }
        None
    };
    let strip = |c: &mut Choices| {
        for v in c.iter_mut() {
            while v.last() == Some(&0) {
                v.pop();
            }
        }
    };
    strip(&mut best);
    loop {
        let before = best.clone();
        // 1. truncate streams
        for s in 0..NSTREAMS {
            let mut keep = 0;
            loop {
                let n = best[s].len();
                if n == 0 {
                    break;
                }
                let mut cands = Vec::new();
                for k in [0, n / 4, n / 2, n * 3 / 4, n - 1] {
                    if k >= keep && k < n {
                        let mut c = best.clone();
                        c[s].truncate(k);
                        cands.push(c);
                    }
                }
                match eval(&cands, &mut tried) {
                    Some(mut c) => {
                        strip(&mut c);
                        if c[s].len() >= n {
                            break;
                        }
                        best = c;
                        keep = 0;
                    }
                    None => break,
                }
            }
        }
        // 2. delete chunks
        for s in 0..NSTREAMS {
            let mut size = (best[s].len() / 2).max(1);
            while size >= 1 && !best[s].is_empty() {
                let mut at = 0;
                while at < best[s].len() {
                    let mut cands = Vec::new();
                    let mut ats = Vec::new();
                    let mut a = at;
                    while a < best[s].len() && cands.len() < workers {
                        let mut c = best.clone();
                        let e = (a + size).min(c[s].len());
                        c[s].drain(a..e);
                        cands.push(c);
                        ats.push(a);
                        a += size;
                    }
                    match eval(&cands, &mut tried) {
                        Some(mut c) => {
                            strip(&mut c);
                            let shorter = c.iter().map(|v| v.len()).sum::<usize>() < best.iter().map(|v| v.len()).sum::<usize>();
                            if !shorter {
                                at = a;
                            } else {
                                best = c;
                            }
                        }
                        None => at = a,
                    }
                    if tried >= budget || t0.elapsed() > cap {
                        return (best, tried);
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        // 3. smaller values
        for s in 0..NSTREAMS {
            let mut i = 0;
            while i < best[s].len() {
                let v = best[s][i];
                if v > 0 {
                    let mut cands = Vec::new();
                    for nv in [0, v / 2, v - 1] {
                        if nv < v {
                            let mut c = best.clone();
                            c[s][i] = nv;
                            cands.push(c);
                        }
                    }
                    cands.dedup();
                    if let Some(c) = eval(&cands, &mut tried) {
                        let smaller = {
                            let key = |c: &Choices| (c.iter().map(|v| v.len()).sum::<usize>(), c.iter().flatten().map(|x| *x as u64).sum::<u64>());
                            key(&c) < key(&best)
                        };
                        if smaller {
                            best = c;
                            strip(&mut best);
                            continue;
                        }
                    }
                }
                if tried >= budget || t0.elapsed() > cap {
                    return (best, tried);
                }
                i += 1;
            }
        }
        if best == before || tried >= budget || t0.elapsed() > cap {
            return (best, tried);
        }
    }
}

pub struct Reported {
    pub path: PathBuf,
    pub class: String,
    pub detail: String,
    pub tried: usize,
}

/// Confirms a violation in a fresh process, minimises it and writes the replay file.
pub fn report(env: &Env, check: &'static Check, o: &Opts, f: &Found) -> Result<Reported, String> {
    let mut c = Case {
        prop: check.id.into(),
        thorough: o.thorough,
        seed: o.seed,
        index: f.index,
        profile: f.profile,
        prefix: (0, 0),
        choices: None,
    };
    let Some((v, ch)) = confirm(env, &mut c, &f.v.class, f.batch_start) else {
        if !f.observed {
            return Err(format!("run {} ({}) did not fail again: {} / {}", f.index, PROFILES[f.profile], f.v.class, f.v.detail));
        }
        // The code under test depends on something outside the simulation, such as
        // an address. What was seen is a violation all the same.
        c.prefix = (f.batch_start, f.index);
        return write_replay(env, check, o, f, &c, (f.v.class.clone(), format!("{} (did not fail again in a fresh process)", f.v.detail), 0), vec![], 0);
    };
    let want = f.v.class.clone();
    let mut tried = 0;
    // A run that died cannot print its choices; have it record them to a file.
    let start = match ch {
        Some(c) => Some(c),
        None => dying_choices(env, &c),
    };
    let hang = want == "run does not end";
    if let Some(s) = start
        && !hang
    {
        let mut with = c.clone();
        with.choices = Some(s.clone());
        let (v2, _, _) = exec_child(env, &with, "confirm", false);
        if v2.class() == Some(&want) {
            let (m, n) = minimise(env, &c, s, &want, 700, Duration::from_secs(patience()));
            tried = n;
            c.choices = Some(m);
        }
    }
    let (v1, _, trace) = exec_child(env, &c, "final", true);
    let (v2, _, _) = exec_child(env, &c, "final", true);
    let exact = v1 == v2 || matches!((&v1, &v2), (Verdict::Violated { digest: 0, class: a, .. }, Verdict::Violated { digest: 0, class: b, .. }) if a == b);
    let (class, mut detail, digest) = match (v1, v2, v) {
        (Verdict::Violated { class, detail, digest }, _, _) => (class, detail, digest),
        (_, Verdict::Violated { class, detail, digest }, _) => (class, detail, digest),
        (_, _, Verdict::Violated { class, detail, digest }) => (class, detail, digest),
        _ => return Err("lost the violation".into()),
    };
    if !exact {
        detail.push_str(" (does not fail in the same way every time)");
    }
    write_replay(env, check, o, f, &c, (class, detail, digest), trace, tried)
}

#[allow(clippy::too_many_arguments)]
fn write_replay(
    env: &Env,
    check: &'static Check,
    o: &Opts,
    f: &Found,
    c: &Case,
    (class, detail, digest): (String, String, u64),
    trace: Vec<String>,
    tried: usize,
) -> Result<Reported, String> {
    let dir = env.root.join("evidence/replay");
    fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = dir.join(format!("{}-{}-{}.txt", check.id, o.seed, f.index));
    let mut s = case_text(c);
    let _ = writeln!(s, "class {}\ndetail {}\ndigest {digest:016x}\ntrace", esc(&class), esc(&detail));
    for t in trace {
        let _ = writeln!(s, "{t}");
    }
    fs::write(&path, s).map_err(|e| e.to_string())?;
    Ok(Reported { path, class, detail, tried })
}

/// Re-runs a dying case with the choices written through to a file as they are drawn.
fn dying_choices(env: &Env, c: &Case) -> Option<Choices> {
    let f = env.work.join("case-dying");
    let rec = env.work.join("case-dying.rec");
    fs::write(&f, case_text(c)).ok()?;
    let _ = fs::remove_file(&rec);
    let mut child = Command::new(&env.bins[c.profile])
        .arg("exec")
        .arg("plain")
        .arg(&f)
        .env("GVAS_SIM_RECORD", &rec)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(_)) => break,
            Ok(None) if t0.elapsed() > HANG => {
                let _ = child.kill();
                let _ = child.wait();
                break;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(1)),
            Err(_) => return None,
        }
    }
    let b = fs::read(&rec).ok()?;
    let mut ch: Choices = Default::default();
    for r in b.chunks_exact(5) {
        ch[(r[0] as usize).min(NSTREAMS - 1)].push(u32::from_le_bytes(r[1..5].try_into().ok()?));
    }
    Some(ch)
}

// ---------------------------------------------------------------------------
// evidence

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn evidence(env: &Env, check: &'static Check, o: &Opts, out: &Outcome, violations: u64, known: &[String], extra: &str) {
    let st = &out.stats;
    let per_h = if out.wall > 0.0 { (st.runs as f64 / out.wall * 3600.0) as u64 } else { 0 };
    let samples: Vec<String> = st.samples.iter().take(8).map(|s| js(s)).collect();
    let known: Vec<String> = known.iter().map(|s| js(s)).collect();
    let text = format!(
        r#"{{
 "property": {},
 "tier": {},
 "seed": {},
 "level": "exploration",
 "wall_s": {:.2},
 "violations": {},
 "assumptions": [
  "the stream obeys the contracts of Read, Write and Seek (no more bytes reported than transferred, at most three interruptions in a row)",
  "the compression library, byte-order helpers and standard library run as real code and are trusted by the reference side only where stated in DESIGN.md",
  "runs are sampled from the seed; a clean batch is evidence, not proof"
 ],
 "coverage": {{
  "evaluations": {},
  "distinct_nontrivial": {},
  "rule": {},
  "samples": [{}],
  "runs": {},
  "runs_per_hour": {},
  "seeds_per_hour": {},
  "simulated_stream_calls": {},
  "simulated_time": {},
  "runs_with_faults": {},
  "faults_fired": {},
  "runs_in_which_fault_fired": {},
  "probes": {},
  "runs_by_build_profile": {{"release": {}, "debug-assertions+overflow-checks": {}}},
  "worker_processes": {},
  "stopped_by_time_cap": {},
  "known_findings_seen": [{}],
  "real_components": {},
  "stubbed_components": {}{}
 }}
}}
"#,
        js(check.id),
        js(if o.thorough { "thorough" } else { "quick" }),
        o.seed,
        out.wall,
        violations,
        st.evals,
        out.distinct,
        js("one per distinct run digest; the digest covers every stream call with its position, size and result, every byte written, every scheduling decision and every outcome of the code under test"),
        samples.join(", "),
        st.runs,
        per_h,
        per_h,
        st.io_steps,
        js(&format!("{} simulated stream calls; the library has no timers, so a stream call is the unit of simulated time", st.io_steps)),
        st.faulted_runs,
        jmap(&st.faults),
        jmap(&st.fault_runs),
        jmap(&st.probes),
        out.per_profile[0],
        out.per_profile[1],
        out.processes,
        out.truncated,
        known.join(", "),
        js(check.real),
        js(check.stub),
        extra
    );
    let p = env.root.join("evidence").join(format!("{}.json", check.id));
    fs::write(&p, text).expect("write evidence");
}
