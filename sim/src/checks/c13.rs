//! C13: reading an item consumes exactly that item.

use super::items::*;
use super::*;
use crate::checks::common::*;
use crate::model::Container;
use crate::rt::{Out, guard};
use crate::simio::*;

pub const CHECK: Check = Check { id: "C13", run, quick_runs: 1_600_000, batch: 5000, scenarios: &[], real: REAL, stub: STUB };

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let n = 2 + c.choose(OP, 4);
    let mut items = Vec::new();
    for _ in 0..n {
        items.push(match c.weighted(OP, &[4, 5, 2]) {
            0 => Item::prim(c),
            1 => Item::part(c),
            _ => Item::file(c, Container::PlzNone),
        });
    }
    let lead = c.choose(OP, 20);
    let mut bytes = vec![0xAB; lead];
    let mut ends = Vec::new();
    for i in &items {
        let alt = if c.chance(OP, 1, 3) { Some(Rng::new(c.choose(OP, 1 << 16) as u64)) } else { None };
        bytes.extend_from_slice(&i.stored(alt, (6, 6)));
        ends.push(bytes.len() as u64);
    }
    // What follows is of no concern: nothing, or bytes that look like more.
    match c.choose(OP, 4) {
        0 => {}
        1 => bytes.extend_from_slice(&[0; 64]),
        2 => bytes.extend_from_slice(&[0xFF; 64]),
        _ => {
            let b = bytes[lead..].to_vec();
            bytes.extend_from_slice(&b);
        }
    }
    // Sometimes the stream ends exactly after an item and then goes on.
    let stop_at = if c.chance(FAULT, 1, 3) { Some(c.choose(FAULT, n)) } else { None };
    let plan = Plan::benign(c);
    let mut f = SimFile::new(bytes, plan).at(lead as u64).traced(c);
    for (i, item) in items.iter().enumerate() {
        f.plan.eof_at = if stop_at == Some(i) { Some(ends[i]) } else { None };
        let r = guard(|| item.read(&mut f));
        c.eval();
        let what = || format!("{} ({} of {n})", item.name(), i + 1);
        match r {
            Out::Ret(Ok(g)) => {
                if g != item.expected() {
                    return violation("item read back differently", format!("{}: {} instead of {}", what(), crate::glue::clipd(&g), crate::glue::clipd(&item.expected())));
                }
            }
            Out::Ret(Err(e)) => return violation("item not readable", format!("{}: {}", what(), err_text(&e))),
            Out::Panic(p) => return violation("panic", format!("{}: {p}", what())),
            _ => return violation("load does not end", what()),
        }
        if f.pos != ends[i] {
            return violation("wrong position after an item", format!("{}: {} instead of {}", what(), f.pos, ends[i]));
        }
    }
    f.settle(c, "shared stream");
    Ok(())
}
