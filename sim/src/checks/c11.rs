//! C11: once faults stop, a retry completes in bounded steps with the clean result.

use super::items::*;
use super::*;
use crate::checks::common::*;
use crate::rt::{Out, guard};
use crate::simio::*;
use std::io::ErrorKind;

pub const CHECK: Check = Check { id: "C11", run, quick_runs: 1_200_000, batch: 5000, scenarios: &[], real: REAL, stub: STUB };

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let item = Item::draw(c, ANY);
    let writing = c.choose(OP, 2) == 1;
    let item = if writing { item.headless(c) } else { item };
    let lv = (c.choose(OP, 10) as u32, c.choose(OP, 10) as u32);
    let plain_len = item.plain(None).len() as u64;
    let stored = if writing { Vec::new() } else { item.stored(None, lv) };
    let mut disk = if writing { old_content(c, 300) } else { stored.clone() };
    let start = if writing { start_offset(c, disk.len()) } else { 0 };
    let op = |f: &mut SimFile| -> Out<Result<Option<Got>, gvas::error::Error>> {
        guard(|| if writing { item.write(f).map(|_| None) } else { item.read(f).map(Some) })
    };

    // What an undisturbed run does.
    let mut clean = SimFile::new(disk.clone(), Plan::clean()).at(start);
    let r = op(&mut clean);
    clean.settle(c, "undisturbed run");
    if !matches!(r, Out::Ret(Ok(_))) {
        return violation("undisturbed run fails", format!("{}: {}", item.name(), outcome(&r)));
    }
    let region = if writing { clean.data[(start as usize).min(clean.data.len())..].to_vec() } else { Vec::new() };
    let used = clean.max_off.saturating_sub(start).max(stored.len() as u64).max(plain_len);
    let bound = 200 + 20 * used;

    // A file that grows while it is read seems to end once and then goes on.
    if !writing && item.container().compressed() && stored.len() < 20_000 && c.chance(FAULT, 1, 3) {
        let chunk = 1 + c.choose(FAULT, 12);
        let n = 20 + stored.len() / chunk;
        for _ in 0..24 {
            let mut plan = Plan::clean();
            plan.chunk = Chunk::Fixed(chunk);
            plan.max_calls = 3 * bound + 1000;
            plan.events.push((c.choose(FAULT, n) as u64, Ev::Zero));
            let mut f = SimFile::new(disk.clone(), plan).traced(c);
            let r = op(&mut f);
            f.settle(c, "load of a growing file");
            c.eval();
            match &r {
                Out::Ret(Ok(Some(g))) if *g != item.expected() => {
                    return violation("growing file gives another result", format!("{}: {}", item.name(), crate::glue::clipd(g)));
                }
                Out::Panic(p) => return violation("panic", format!("{}: {p}", item.name())),
                Out::Limit => return violation("too many stream calls", format!("read {}", item.name())),
                _ => c.probe("growing file"),
            }
        }
    }

    let attempts = c.weighted(FAULT, &[3, 4, 2, 1]);
    for a in 0..=attempts {
        let last = a == attempts;
        let base = Plan::benign(c);
        let mut plan = base.clone();
        plan.max_calls = 3 * bound + 1000;
        if !last {
            let mut dry = SimFile::new(disk.clone(), base).at(start);
            let _ = op(&mut dry);
            let (n, end) = (dry.calls.max(1), dry.max_off);
            dry.settle(c, "dry run");
            if c.chance(FAULT, 1, 3) {
                let at = c.choose(FAULT, n as usize) as u64;
                plan.events.push((at, Ev::Stall));
            } else if !writing && c.chance(FAULT, 1, 4) {
                plan.eof_at = Some(c.choose(FAULT, stored.len() + 1) as u64);
            } else {
                place_failures(c, &mut plan, n, start, end);
            }
        }
        let mut f = SimFile::new(disk.clone(), plan).at(start).traced(c);
        let r = op(&mut f);
        f.settle(c, if last { "retry" } else { "attempt" });
        c.eval();
        if let Out::Panic(p) = &r {
            return violation("panic", format!("{}: {p}", item.name()));
        }
        if matches!(r, Out::Limit) || f.calls - f.eintrs > bound {
            return violation(
                "too many stream calls",
                format!("{} {}: {} calls for {used} bytes", if writing { "write" } else { "read" }, item.name(), f.calls),
            );
        }
        let surfaced = writing
            && item.container().compressed()
            && f.eintrs > 0
            && matches!(&r, Out::Ret(Err(e)) if io_kind(e) == Some(ErrorKind::Interrupted));
        if last && !surfaced {
            match &r {
                Out::Ret(Ok(got)) => {
                    if let Some(g) = got
                        && *g != item.expected()
                    {
                        return violation("retry gives another result", format!("{}: {}", item.name(), crate::glue::clipd(g)));
                    }
                    if writing {
                        let n = (clean.pos - start) as usize;
                        let s = start as usize;
                        let got = f.data.get(s..s + n).unwrap_or(&[]);
                        if got != &region[..n] {
                            return violation("retry stores other bytes", item.name().into());
                        }
                        if f.pos != clean.pos {
                            return violation("retry ends elsewhere", format!("{}: {} instead of {}", item.name(), f.pos, clean.pos));
                        }
                    }
                    if a > 0 {
                        c.probe("retry completed");
                    }
                }
                _ => return violation("retry on a healthy stream fails", format!("{}: {}", item.name(), outcome(&r))),
            }
        } else if last {
            c.probe("interruption surfaced");
        } else if f.failed() || f.panicked > 0 {
            c.probe("attempt disturbed");
        }
        if writing {
            disk = f.data;
        }
    }
    Ok(())
}

fn outcome<T>(r: &Out<Result<T, gvas::error::Error>>) -> String {
    match r {
        Out::Ret(Ok(_)) => "success".into(),
        Out::Ret(Err(e)) => err_text(e),
        Out::Panic(p) => format!("panic {p}"),
        Out::Limit => "call limit".into(),
        Out::Injected => "unwound".into(),
    }
}
