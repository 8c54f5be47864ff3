//! C10: sessions are isolated from each other and from earlier failures.

use super::items::*;
use super::*;
use crate::checks::common::*;
use crate::enc::wrap;
use crate::glue;
use crate::rt::{Out, fresh, guard, seed_thread};
use crate::sched::Sched;
use crate::simio::*;
use gvas::GvasFile;
use std::collections::HashMap;
use std::io::ErrorKind;
use std::sync::Arc;

pub const CHECK: Check = Check {
    id: "C10",
    run,
    quick_runs: 140_000,
    batch: 7500,
    scenarios: &[],
    real: "gvas (all of src/), flate2/miniz_oxide, byteorder, indexmap, standard library: real code in real threads, built from /repo's working tree",
    stub: "the stream (simulated file), the thread scheduler (one thread runs at a time; switches at stream calls, allocations and waits on locks), hash seeds",
};

type Hm = HashMap<String, String>;

struct Subject {
    item: Item,
    /// The document as callers share it.
    file: Option<GvasFile>,
    hints: Hm,
    partial: Hm,
    plain: Vec<u8>,
    stored: Vec<u8>,
    broken: Vec<u8>,
}

#[derive(Clone)]
enum Op {
    Load { bytes: usize, partial: bool },
    Save { disk: Vec<u8>, start: u64 },
}

#[derive(Clone)]
struct Step {
    on: usize,
    op: Op,
    plan: Plan,
    clean: bool,
    /// How often the operation is performed; the last time counts.
    times: usize,
}

struct Result1 {
    text: String,
    model_ok: Option<bool>,
    data: Vec<u8>,
    pos: u64,
    calls: u64,
}

fn text<T>(r: Out<Result<T, gvas::error::Error>>, ok: impl FnOnce(T) -> String) -> String {
    match r {
        Out::Ret(Ok(v)) => ok(v),
        Out::Ret(Err(e)) => format!("{e:?} / {e}"),
        Out::Panic(p) => format!("panic {p}"),
        Out::Limit => "does not end".into(),
        Out::Injected => "unwound".into(),
    }
}

/// One operation, possibly many times over; everything that can be observed of
/// the last time.
fn perform(subjects: &[Subject], s: &Step) -> Result1 {
    for _ in 1..s.times {
        perform_once(subjects, s);
    }
    perform_once(subjects, s)
}

fn perform_once(subjects: &[Subject], s: &Step) -> Result1 {
    let sub = &subjects[s.on];
    match &s.op {
        Op::Load { bytes, partial } => {
            let data = if *bytes == 0 { sub.stored.clone() } else { sub.broken.clone() };
            let hints = if *partial { &sub.partial } else { &sub.hints };
            let mut f = SimFile::new(data, s.plan.clone());
            let mut stack = sub.item.path();
            let r = guard(|| sub.item.read_raw(&mut f, hints, &mut stack));
            let mut model_ok = None;
            let t = text(r, |raw| {
                let got = raw.project();
                if s.clean {
                    model_ok = Some(got == sub.item.expected());
                }
                format!("{got:?}")
            });
            Result1 { text: format!("{t} {stack:?}"), model_ok, data: Vec::new(), pos: f.pos, calls: f.calls }
        }
        Op::Save { disk, start } => {
            let mut f = SimFile::new(disk.clone(), s.plan.clone()).at(*start);
            let r = guard(|| match &sub.file {
                Some(g) => g.write(&mut f).map(|_| None),
                None => sub.item.write(&mut f),
            });
            let cont = sub.item.container();
            let model_ok = match &r {
                Out::Ret(Ok(_)) => {
                    let (from, to) = (*start as usize, f.pos as usize);
                    let stored = if from == to { Some(&[][..]) } else { f.data.get(from..to) };
                    Some(stored.is_some_and(|b| check_container(b, &sub.plain, cont).is_ok()))
                }
                // A compressor may pass an interruption on.
                Out::Ret(Err(e)) => Some(f.eintrs > 0 && cont.compressed() && io_kind(e) == Some(ErrorKind::Interrupted)),
                _ => None,
            };
            let t = text(r, |n| format!("saved {n:?}"));
            Result1 { text: t, model_ok, data: f.data, pos: f.pos, calls: f.calls }
        }
    }
}

fn subject(c: &mut Ctx) -> Subject {
    let item = Item::draw(c, Want { file: 5, parts: 4, prims: 1 });
    let lv = (c.choose(OP, 10) as u32, 6);
    let enc = item.encoded(None);
    let stored = wrap(&enc.plain, item.container(), lv);
    let broken = damaged(c, &enc, item.container(), lv);
    let hints = item.hints();
    let mut keys: Vec<&String> = hints.keys().collect();
    keys.sort();
    let mut partial = hints.clone();
    for k in keys {
        if c.choose(OP, 2) == 1 {
            partial.remove(k);
        }
    }
    let file = match &item {
        Item::File { doc, .. } => Some(glue::build(doc)),
        _ => None,
    };
    Subject { item, file, hints, partial, plain: enc.plain, stored, broken }
}

fn step(c: &mut Ctx, subjects: &[Subject]) -> Step {
    let on = c.choose(OP, subjects.len());
    let sub = &subjects[on];
    let mut plan = if c.choose(FAULT, 3) == 0 { Plan::clean() } else { Plan::benign(c) };
    plan.max_calls = 100_000 + 64 * (sub.stored.len() + sub.broken.len()) as u64;
    let what = c.weighted(OP, &[5, 4, 3, 1]);
    let op = match what {
        0 => Op::Load { bytes: 0, partial: false },
        1 => {
            let disk = old_content(c, 200);
            let start = start_offset(c, disk.len());
            Op::Save { disk, start }
        }
        2 => Op::Load { bytes: 1, partial: false },
        _ => Op::Load { bytes: 0, partial: true },
    };
    let mut s = Step { on, op, plan, clean: what < 2, times: 1 };
    if c.chance(FAULT, 1, 4) {
        let n = perform(subjects, &s).calls;
        let start = match &s.op {
            Op::Save { start, .. } => *start,
            _ => 0,
        };
        place_failures(c, &mut s.plan, n, start, start + sub.stored.len() as u64);
        s.clean = false;
    }
    // A caller that keeps trying: what little each attempt leaves behind adds up.
    if sub.stored.len().max(sub.broken.len()) < 4096 && c.chance(OP, 1, 40) {
        s.times = c.pick(OP, &[4usize, 40, 400]);
    }
    s
}

fn gap(c: &mut Ctx, class: usize) -> u64 {
    match class {
        0 => 1 + c.choose(SCHED, 4) as u64,
        1 => 1 + c.choose(SCHED, 32) as u64,
        2 => 1 + c.choose(SCHED, 256) as u64,
        _ => 1 + c.choose(SCHED, 4096) as u64,
    }
}

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let ns = 1 + c.weighted(OP, &[5, 3, 1]);
    let subjects: Vec<Subject> = (0..ns).map(|_| subject(c)).collect();
    let n = 2 + c.weighted(OP, &[6, 3, 1]);
    let sessions: Vec<Vec<Step>> = (0..n)
        .map(|_| {
            let k = 1 + c.weighted(OP, &[4, 3, 1]);
            (0..k).map(|_| step(c, &subjects)).collect()
        })
        .collect();
    let class = c.weighted(SCHED, &[4, 3, 2, 1]);
    let switches = c.choose(SCHED, [120, 80, 40, 20][class]);
    let plan: Vec<(u64, usize)> = (0..switches)
        .map(|_| {
            let mixed = if c.chance(SCHED, 1, 5) { c.choose(SCHED, 4) } else { class };
            (gap(c, mixed), c.choose(SCHED, n))
        })
        .collect();
    let first = c.choose(SCHED, n);
    let solo_first = c.choose(SCHED, 2) == 0;
    let seeds: Vec<u64> = (0..n + 1).map(|_| c.choose(SCHED, 1 << 16) as u64).collect();

    let subjects = Arc::new(subjects);
    let sessions = Arc::new(sessions);
    let solo = || -> Vec<Vec<Result1>> {
        let (subjects, sessions) = (subjects.clone(), sessions.clone());
        fresh(seeds[n], move || sessions.iter().map(|s| s.iter().map(|s| perform(&subjects, s)).collect()).collect())
    };
    let mut alone = if solo_first { Some(solo()) } else { None };

    let sched = Sched::new(n, plan, first);
    let mut handles = Vec::new();
    for id in 0..n {
        let (subjects, sessions, sched, seed) = (subjects.clone(), sessions.clone(), sched.clone(), seeds[id]);
        let h = std::thread::Builder::new().stack_size(crate::driver::STACK).spawn(move || {
            seed_thread(seed);
            sched.enter(id);
            let r: Vec<Result1> = sessions[id].iter().map(|s| perform(&subjects, s)).collect();
            sched.leave(id);
            r
        });
        match h {
            Ok(h) => handles.push(h),
            Err(e) => {
                eprintln!("HARNESS-ERROR: {e}");
                std::process::exit(3);
            }
        }
    }
    let together: Vec<Vec<Result1>> = handles
        .into_iter()
        .map(|h| {
            h.join().unwrap_or_else(|_| {
                eprintln!("HARNESS-ERROR: a session thread died");
                std::process::exit(3)
            })
        })
        .collect();
    let sum = sched.summary();
    c.digest.add(sum.digest);
    c.digest.add(sum.points);
    c.fault_n("preemption", sum.switches);
    c.fault_n("lock_wait", sum.waits);
    let alone = alone.take().unwrap_or_else(solo);

    for id in 0..n {
        for (k, s) in sessions[id].iter().enumerate() {
            let (a, t) = (&alone[id][k], &together[id][k]);
            c.io_steps += t.calls;
            c.digest.bytes(&t.text.as_bytes()[..t.text.len().min(64)]);
            c.eval();
            let name = subjects[s.on].item.name();
            c.note(|| format!("session {id} step {k}: {} {name}: {}", if matches!(s.op, Op::Save { .. }) { "save" } else { "load" }, clip(&t.text, 80)));
            if t.text.starts_with("unwound") {
                c.probe("unwound session");
            }
            if !s.plan.events.is_empty() || s.plan.capacity.is_some() {
                c.fault("failing_stream");
            }
            if s.clean {
                if t.model_ok != Some(true) {
                    return violation("session gives a wrong result", format!("session {id} step {k}, {name}: {}", clip(&t.text, 200)));
                }
                if a.model_ok != Some(true) {
                    return violation("operation gives a wrong result", format!("session {id} step {k}, {name}: {}", clip(&a.text, 200)));
                }
            }
            if (&a.text, &a.data, a.pos) != (&t.text, &t.data, t.pos) {
                let what = if a.text != t.text {
                    let at = a.text.bytes().zip(t.text.bytes()).position(|(x, y)| x != y).unwrap_or(0).saturating_sub(40);
                    let cut = |s: &str| clip(&String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..]), 160);
                    format!("{} / {}", cut(&a.text), cut(&t.text))
                } else if a.data != t.data {
                    "other bytes stored".into()
                } else {
                    format!("position {} / {}", a.pos, t.pos)
                };
                return violation("session differs from the same one alone", format!("session {id} step {k}, {name}: {what}"));
            }
        }
    }
    for (i, s) in subjects.iter().enumerate() {
        if let (Some(f), Item::File { doc, .. }) = (&s.file, &s.item)
            && glue::project(f) != glue::project(&glue::build(doc))
        {
            return violation("shared document changed", format!("subject {i}"));
        }
        if s.hints != s.item.hints() {
            return violation("shared hints changed", format!("subject {i}"));
        }
    }
    if sum.switches > 0 {
        c.probe("interleaved");
    }
    Ok(())
}
