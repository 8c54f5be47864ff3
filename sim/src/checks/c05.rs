//! C05: a torn save is never mistaken for a different complete one.

use super::*;
use crate::checks::common::*;
use crate::enc::encode_doc;
use crate::glue;
use crate::rt::Out;
use crate::simio::*;

pub const CHECK: Check = Check { id: "C05", run, quick_runs: 600_000, batch: 4000, scenarios: &[], real: REAL, stub: STUB };

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let cont = container(c);
    let s = document(c, cont, false);
    let file = glue::build(&s.doc);
    let hints = hint_map(&s.hints);
    let want = glue::expected(&s.doc);
    let start = if c.chance(OP, 1, 6) { c.choose(OP, 200) as u64 } else { 0 };
    let base = if c.chance(FAULT, 1, 4) { Plan::clean() } else { Plan::benign(c) };
    let mut f = SimFile::new(vec![0x55; start as usize], base.clone()).at(start).logged();
    let r = save(&mut f, &file);
    f.settle(c, "save");
    if let Out::Panic(p) = r {
        return violation("panic while saving", p);
    }
    let log = f.log.take().unwrap_or_default();
    let calls = f.calls;
    let end = f.max_off;
    let bounds: Vec<usize> = if cont.compressed() {
        Vec::new()
    } else {
        let e = encode_doc(&s.doc, &s.hints, None);
        let shift = if cont == crate::model::Container::Plain { 0 } else { 12 };
        e.props.iter().flat_map(|p| [p.0 + shift, p.1 + shift]).chain(e.fields.iter().rev().take(6).map(|f| f.off + shift)).collect()
    };

    let rounds = 3 + c.choose(FAULT, 6);
    for _ in 0..rounds {
        let left: Vec<u8> = match c.weighted(FAULT, &[5, 5, 4]) {
            // the process dies between two system calls or inside one
            0 | 1 => {
                if log.is_empty() {
                    return Ok(());
                }
                let total: usize = log.iter().map(|w| w.data.len()).sum();
                let stop = if !bounds.is_empty() && c.chance(FAULT, 2, 3) {
                    let b = bounds[c.choose(FAULT, bounds.len())];
                    (b + c.choose(FAULT, 3)).saturating_sub(1).min(total)
                } else {
                    match c.weighted(FAULT, &[3, 2, 1]) {
                        0 => c.choose(FAULT, total + 1),
                        1 => total - c.choose(FAULT, total.min(24) + 1),
                        _ => c.choose(FAULT, total.min(24) + 1),
                    }
                };
                let mut d = vec![0x55; start as usize];
                let mut n = 0;
                for w in &log {
                    let k = w.data.len().min(stop - n);
                    let p = w.off as usize;
                    if d.len() < p + k {
                        d.resize(p + k, 0);
                    }
                    d[p..p + k].copy_from_slice(&w.data[..k]);
                    n += k;
                    if n >= stop {
                        break;
                    }
                }
                c.fault("crash_during_save");
                c.digest.add(stop as u64);
                // the size may reach the disk before the content does
                if c.chance(FAULT, 1, 4) {
                    let n = match c.choose(FAULT, 3) {
                        0 => total - stop,
                        1 => c.choose(FAULT, total - stop + 1),
                        _ => c.choose(FAULT, 5000),
                    };
                    d.resize(d.len() + n, 0);
                    c.fault("zeros_for_lost_tail");
                }
                d
            }
            // the save fails or unwinds half-way and the process ends after that
            _ => {
                let mut plan = base.clone();
                place_failures(c, &mut plan, calls, start, end);
                let mut f = SimFile::new(vec![0x55; start as usize], plan).at(start).traced(c);
                let r = save(&mut f, &file);
                f.settle(c, "save that fails");
                if let Out::Panic(p) = r {
                    return violation("panic while saving", p);
                }
                f.data
            }
        };
        let whole = left.len() as u64 >= end;
        let mut g = SimFile::new(left, Plan::clean()).at(start);
        g.plan.max_calls = 100_000 + 64 * g.data.len() as u64;
        let r = load(&mut g, cont, &hints);
        g.settle(c, "load after the crash");
        c.eval();
        match r {
            Out::Ret(Ok(d)) => {
                let d = glue::project(&d);
                if let Some(x) = glue::diff(&d, &want) {
                    return violation("torn save loads as another document", x);
                }
                c.probe(if whole { "complete content loaded" } else { "content without its last bytes loaded" });
            }
            Out::Ret(Err(_)) => c.probe("torn save rejected"),
            Out::Panic(p) => return violation("panic while loading a torn save", p),
            _ => return violation("load of a torn save does not end", String::new()),
        }
    }
    Ok(())
}
