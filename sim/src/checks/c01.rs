//! C01: an acknowledged save reads back as the same document.

use super::*;
use crate::checks::common::*;
use crate::glue;
use crate::rt::{Out, fresh};
use crate::simio::*;

pub const CHECK: Check = Check { id: "C01", run, quick_runs: 650_000, batch: 6000, scenarios: &[], real: REAL, stub: STUB };

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let cont = container(c);
    let mut disk = old_content(c, 400);
    let start = start_offset(c, disk.len());
    let attempts = 1 + c.weighted(OP, &[4, 3, 2, 1]);
    let mut s = document(c, cont, false);
    for a in 0..attempts {
        if a > 0 && c.chance(OP, 1, 3) {
            // the application saves something else to the same place
            let cont = container(c);
            s = document(c, cont, false);
        }
        let file = glue::build(&s.doc);
        let base = if c.chance(FAULT, 1, 5) { Plan::clean() } else { Plan::benign(c) };
        let mut plan = base.clone();
        if c.chance(FAULT, 1, 2) {
            let mut dry = SimFile::new(disk.clone(), base).at(start);
            let _ = save(&mut dry, &file);
            let (n, end) = (dry.calls, dry.max_off);
            dry.settle(c, "dry run");
            place_failures(c, &mut plan, n, start, end);
        }
        let mut f = SimFile::new(disk, plan).at(start).traced(c);
        let r = save(&mut f, &file);
        f.settle(c, "save");
        disk = std::mem::take(&mut f.data);
        match r {
            Out::Ret(Ok(())) => {
                if f.failed() {
                    c.probe("acknowledged despite a fault");
                }
                if a > 0 {
                    c.probe("acknowledged after earlier attempts");
                }
                // Only what the destination holds survives; a fresh process reads it.
                let plan = Plan::benign(c);
                let hints = hint_map(&s.hints);
                let g = SimFile::new(disk.clone(), plan).at(start).traced(c);
                let cont = s.doc.container;
                let seed = c.choose(SCHED, 1 << 16) as u64;
                let (mut g, r) = fresh(seed, move || {
                    let mut g = g;
                    let r = load(&mut g, cont, &hints);
                    let r = match r {
                        Out::Ret(Ok(d)) => Out::Ret(Ok(glue::project(&d))),
                        Out::Ret(Err(e)) => Out::Ret(Err(err_text(&e))),
                        Out::Panic(p) => Out::Panic(p),
                        Out::Limit => Out::Limit,
                        Out::Injected => Out::Injected,
                    };
                    (g, r)
                });
                g.settle(c, "load");
                c.eval();
                match r {
                    Out::Ret(Ok(d)) => {
                        if let Some(x) = glue::diff(&d, &glue::expected(&s.doc)) {
                            return violation("acknowledged save reads back differently", x);
                        }
                    }
                    Out::Ret(Err(e)) => return violation("acknowledged save cannot be loaded", e),
                    Out::Panic(p) => return violation("panic while loading an acknowledged save", p),
                    _ => return violation("load does not end", String::new()),
                }
            }
            Out::Ret(Err(_)) => c.probe("attempt failed"),
            Out::Panic(p) => return violation("panic while saving", p),
            Out::Limit => return violation("save does not end", String::new()),
            Out::Injected => c.probe("attempt unwound"),
        }
    }
    Ok(())
}
