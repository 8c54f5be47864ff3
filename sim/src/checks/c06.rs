//! C06: loading a damaged save returns, it never crashes.

use super::items::*;
use super::*;
use crate::alloc::measured;
use crate::checks::common::*;
use crate::enc::wrap;
use crate::model::{Container, Doc};
use crate::rt::{Out, guard};
use crate::simio::*;
use std::collections::HashMap;

pub const CHECK: Check = Check { id: "C06", run, quick_runs: 1_000_000, batch: 4000, scenarios: &[], real: REAL, stub: STUB };

/// A damaged item: the bytes, how they are read, and what they were.
pub struct Case {
    pub item: Item,
    pub bytes: Vec<u8>,
    pub hints: HashMap<String, String>,
    pub intact: bool,
}

pub fn case(c: &mut Ctx, want: Want) -> Case {
    let mut item = Item::draw(c, want);
    let alt = if c.chance(OP, 1, 6) { Some(Rng::new(c.choose(OP, 1 << 16) as u64)) } else { None };
    let lv = (c.choose(OP, 10) as u32, c.choose(OP, 10) as u32);
    let cont = item.container();
    let enc = item.encoded(alt);
    let intact = c.chance(FAULT, 1, 16);
    let bytes = if intact { wrap(&enc.plain, cont, lv) } else { damaged(c, &enc, cont, lv) };
    // Right hints, none, or some wrong ones.
    let mut hints = item.hints();
    match c.weighted(OP, &[8, 1, 2]) {
        0 => {}
        1 => hints.clear(),
        _ => {
            let mut keys: Vec<String> = hints.keys().cloned().collect();
            keys.sort();
            for k in keys {
                if c.choose(OP, 2) == 0 {
                    let t = c.pick(OP, &["Vector", "Custom", "Guid", "DateTime", "GameplayTagContainer", "LinearColor", ""]);
                    hints.insert(k, t.to_string());
                }
            }
        }
    }
    // Sometimes it is loaded as the other kind of save.
    if c.chance(OP, 1, 24)
        && let Item::File { doc, hints } = item
    {
        let doc = Doc { container: if doc.container == Container::Plain { Container::PlzZlib } else { Container::Plain }, ..doc };
        item = Item::File { doc, hints };
    }
    Case { item, bytes, hints, intact }
}

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let k = case(c, Want { file: 6, parts: 4, prims: 1 });
    let mut plan = if c.chance(FAULT, 1, 4) { Plan::benign(c) } else { Plan::clean() };
    plan.max_calls = 4000 + 64 * k.bytes.len() as u64;
    c.note(|| format!("load of {} from {} damaged bytes", k.item.name(), k.bytes.len()));
    c.digest.bytes(&k.bytes);
    let len = k.bytes.len();
    let mut f = SimFile::new(k.bytes, plan).traced(c);
    let mut stack = k.item.path();
    let (r, _) = measured(1 << 30, || {
        // The result is also dropped in here.
        guard(|| match k.item.read_raw(&mut f, &k.hints, &mut stack) {
            Ok(r) => {
                drop(r);
                true
            }
            Err(e) => {
                let _ = e.to_string();
                false
            }
        })
    });
    f.settle(c, "load");
    c.eval();
    match r {
        Out::Ret(true) => c.probe(if k.intact { "intact accepted" } else { "damaged but accepted" }),
        Out::Ret(false) => c.probe("rejected"),
        Out::Panic(p) => return violation("panic while loading", format!("{}: {p}", k.item.name())),
        Out::Limit => return violation("load does not end", format!("{}: more than {} stream calls for {len} bytes", k.item.name(), f.calls)),
        Out::Injected => return violation("unexpected unwind", k.item.name().into()),
    }
    Ok(())
}
