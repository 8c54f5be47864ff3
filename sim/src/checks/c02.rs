//! C02: a storage failure is always reported, with its kind.

use super::items::*;
use super::*;
use crate::checks::common::*;
use crate::rt::{Out, guard};
use crate::simio::*;
use std::io::ErrorKind;

pub const CHECK: Check = Check { id: "C02", run, quick_runs: 1_800_000, batch: 6000, scenarios: &[], real: REAL, stub: STUB };

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let item = Item::draw(c, ANY);
    let writing = c.choose(OP, 2) == 1;
    let item = if writing { item.headless(c) } else { item };
    let alt = if !writing && c.chance(OP, 1, 3) { Some(Rng::new(c.choose(OP, 1 << 16) as u64)) } else { None };
    let lv = (c.choose(OP, 10) as u32, c.choose(OP, 10) as u32);
    let stored = if writing { Vec::new() } else { item.stored(alt, lv) };
    let old = if writing { old_content(c, 200) } else { Vec::new() };
    let start = if writing { start_offset(c, old.len()) } else { 0 };
    let base = Plan::benign(c);
    c.note(|| format!("{} {} of {} bytes", if writing { "write" } else { "read" }, item.name(), stored.len()));

    let make = |plan: Plan| {
        let f = SimFile::new(if writing { old.clone() } else { stored.clone() }, plan);
        f.at(start)
    };
    let op = |f: &mut SimFile| -> Out<Result<Option<Got>, gvas::error::Error>> {
        guard(|| if writing { item.write(f).map(|_| None) } else { item.read(f).map(Some) })
    };

    // Dry run with the same splitting, to learn how many calls there are.
    let mut dry = make(base.clone());
    let r = op(&mut dry);
    let calls = dry.calls;
    let eintr = dry.eintrs > 0;
    dry.settle(c, "dry run");
    c.eval();
    match r {
        Out::Ret(Ok(got)) => {
            if let Some(g) = got
                && g != item.expected()
            {
                return violation("wrong result without failure", format!("{}: {}", item.name(), crate::glue::clipd(&g)));
            }
        }
        Out::Ret(Err(e)) => {
            // An interruption at the very end of a compressed save may surface.
            if !(writing && eintr && item.container().compressed() && io_kind(&e) == Some(ErrorKind::Interrupted)) {
                return violation("healthy stream, but an error", format!("{}: {}", item.name(), err_text(&e)));
            }
            c.probe("interruption surfaced");
            return Ok(());
        }
        Out::Panic(p) => return violation("panic without failure", p),
        Out::Limit | Out::Injected => return violation("too many stream calls", item.name().into()),
    }
    if calls == 0 {
        return Ok(());
    }

    // Now the same operation with failures placed inside it.
    let rounds = 1 + c.choose(FAULT, 3);
    for _ in 0..rounds {
        let k = match c.weighted(FAULT, &[6, 2, 2]) {
            0 => c.choose(FAULT, calls.min(1 << 30) as usize) as u64,
            1 => c.choose(FAULT, calls.min(12) as usize) as u64,
            _ => calls - 1 - c.choose(FAULT, calls.min(12) as usize) as u64,
        };
        let kind = c.choose(FAULT, KINDS.len());
        let mode = c.weighted(FAULT, &[5, 3, 1]);
        let mut plan = base.clone();
        match mode {
            0 => plan.events.push((k, Ev::Err(kind))),
            1 => plan.events.push((k, Ev::Sticky(kind))),
            _ => {
                // full disk: a short write, then the failure
                if writing {
                    plan.capacity = Some(start + c.choose(FAULT, (dry.max_off.saturating_sub(start)).max(1) as usize) as u64);
                } else {
                    plan.events.push((k, Ev::Sticky(kind)));
                }
            }
        }
        let mut f = make(plan).traced(c);
        let r = op(&mut f);
        f.settle(c, "operation with failure");
        c.eval();
        let Some((at, opk, want)) = f.fired.first().copied() else {
            // Only possible if the failing call was not reached.
            match r {
                Out::Ret(Ok(_)) | Out::Ret(Err(_)) => continue,
                Out::Panic(p) => return violation("panic", p),
                _ => return violation("too many stream calls", item.name().into()),
            }
        };
        c.digest.add(at);
        let what = || {
            format!(
                "{} of {}: {opk:?} call {at} failed with {want:?}",
                if writing { "write" } else { "read" },
                item.name()
            )
        };
        match r {
            Out::Ret(Ok(_)) => return violation("failure not reported", what()),
            Out::Ret(Err(e)) => {
                let got = io_kind(&e);
                // With interruptions on a compressed stream the first error seen
                // may be the interruption.
                let ok = got == Some(want) || (f.eintrs > 0 && writing && item.container().compressed() && got == Some(ErrorKind::Interrupted));
                if !ok {
                    return violation("failure reported as something else", format!("{}, reported {}", what(), err_text(&e)));
                }
                c.probe("failure reported");
            }
            Out::Panic(p) => return violation("panic after a failure", format!("{}: {p}", what())),
            Out::Limit => return violation("too many stream calls", what()),
            Out::Injected => return violation("unexpected unwind", what()),
        }
    }
    Ok(())
}
