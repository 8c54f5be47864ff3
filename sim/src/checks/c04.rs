//! C04: a successful save stores exactly the format's bytes.

use super::items::*;
use super::*;
use crate::checks::common::*;
use crate::model::*;
use crate::rt::{Out, guard};
use crate::simio::*;
use std::io::ErrorKind;

pub const CHECK: Check = Check { id: "C04", run, quick_runs: 2_000_000, batch: 6000, scenarios: &[], real: REAL, stub: STUB };

/// Turns some element-type specific arrays and maps into the general
/// representation, which must store the same bytes.
fn decanon(p: &mut P, r: &mut Rng) {
    match p {
        P::Arr { special, .. } => {
            if r.below(2) == 0 {
                *special = false;
            }
        }
        P::Map { es, special, .. } => {
            *special = match (*special, r.below(3)) {
                (s, 0) => s,
                (2, 1) => 1,
                _ => 0,
            };
            for (k, v) in es {
                decanon(k, r);
                decanon(v, r);
            }
        }
        P::Set { els, .. } => els.iter_mut().for_each(|e| decanon(e, r)),
        P::ArrStruct { els, .. } => els.iter_mut().for_each(|e| decanon_sv(e, r)),
        P::Struct { v, .. } | P::SVal(v) => decanon_sv(v, r),
        _ => {}
    }
}
fn decanon_sv(v: &mut SV, r: &mut Rng) {
    if let SV::Custom(f) = v {
        for (_, ps) in f {
            ps.iter_mut().for_each(|p| decanon(p, r));
        }
    }
}

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let mut item = Item::draw(c, ANY);
    if c.chance(OP, 1, 4) {
        let mut r = Rng::new(c.choose(OP, 1 << 16) as u64);
        match &mut item {
            Item::File { doc, .. } => doc.props.iter_mut().for_each(|(_, p)| decanon(p, &mut r)),
            Item::Prop { p, .. } => decanon(p, &mut r),
            _ => {}
        }
    }
    let item = item.headless(c);
    let plain = item.plain(None);
    let cont = item.container();
    let old = old_content(c, plain.len());
    let start = start_offset(c, old.len());
    let mut plan = Plan::benign(c);
    let clean = c.chance(FAULT, 1, 8);
    if clean {
        plan = Plan::clean();
    }
    // A quarter of the runs fail on purpose: neighbours must survive that too.
    let fail = !clean && c.chance(FAULT, 1, 4);
    let mut total = plain.len() as u64 + 64;
    if fail {
        let mut dry = SimFile::new(old.clone(), plan.clone()).at(start);
        let _ = guard(|| item.write(&mut dry));
        let n = dry.calls.max(1) as usize;
        total = dry.max_off.saturating_sub(start);
        dry.settle(c, "dry run");
        match c.choose(FAULT, 3) {
            0 => plan.events.push((c.choose(FAULT, n) as u64, Ev::Err(c.choose(FAULT, KINDS.len())))),
            1 => plan.events.push((c.choose(FAULT, n) as u64, Ev::Sticky(c.choose(FAULT, KINDS.len())))),
            _ => plan.capacity = Some(start + c.choose(FAULT, total as usize + 1) as u64),
        }
    }
    c.note(|| format!("write {} ({} plain bytes) at {start} over {} old bytes, plan {plan:?}", item.name(), plain.len(), old.len()));
    let mut f = SimFile::new(old.clone(), plan).at(start).traced(c).logged();
    let r = guard(|| item.write(&mut f));
    f.settle(c, "save");
    c.eval();

    // Before the start nothing may change, whatever happened.
    let s = start as usize;
    let mut want_head = old.clone();
    want_head.resize(s.max(old.len()), 0);
    if f.data.len() < s.min(want_head.len()) && !f.data.is_empty() && f.data.len() != old.len() {
        return violation("destination truncated", format!("{} bytes left of {}", f.data.len(), old.len()));
    }
    let head = s.min(f.data.len());
    if f.data[..head] != want_head[..head] {
        return violation("bytes before the start changed", item.name().into());
    }
    if f.data.len() < old.len() {
        return violation("destination truncated", format!("{} bytes left of {}", f.data.len(), old.len()));
    }

    match r {
        Out::Ret(Ok(count)) => {
            if f.fired.iter().any(|x| x.2 != ErrorKind::Interrupted) {
                // C02 decides whether this is right; nothing more to compare.
                return Ok(());
            }
            let end = f.pos as usize;
            if end < s || (f.data.len() < end && end > s) {
                return violation("final position is wrong", format!("{}: start {s}, end {end}, length {}", item.name(), f.data.len()));
            }
            let stored = if end > s { f.data[s..end].to_vec() } else { Vec::new() };
            check_container(&stored, &plain, cont).map_err(|mut v| {
                v.detail = format!("{}: {}", item.name(), v.detail);
                v
            })?;
            if old.len() > end && f.data[end..] != old[end..] {
                return violation("bytes after the end changed", item.name().into());
            }
            if f.data.len() > end.max(old.len()) {
                return violation("more bytes stored than the position says", format!("{} > {}", f.data.len(), end));
            }
            if let Some(n) = count
                && n != stored.len()
            {
                return violation("returned count is wrong", format!("{}: returned {n}, stored {}", describe(&item), stored.len()));
            }
            if start > 0 {
                c.probe("saved at an offset");
            }
            if old.len() > end {
                c.probe("saved over longer content");
            }
            Ok(())
        }
        Out::Ret(Err(e)) => {
            let k = io_kind(&e);
            let interrupted = k == Some(ErrorKind::Interrupted) && f.eintrs > 0 && cont.compressed();
            if f.fired.is_empty() && !interrupted {
                return violation("save failed on a healthy destination", format!("{}: {}", item.name(), err_text(&e)));
            }
            c.probe("failed save");
            // Nothing beyond the region a successful save would have used.
            let limit = s + total as usize + if cont.compressed() { 1024 } else { 0 };
            if old.len() > limit && f.data[limit..] != old[limit..] {
                return violation("failed save changed bytes far after the end", item.name().into());
            }
            if f.data.len() > limit.max(old.len()) {
                return violation("failed save stored more than a successful one", format!("{} > {limit}", f.data.len()));
            }
            Ok(())
        }
        Out::Panic(p) => violation("panic", format!("{}: {p}", describe(&item))),
        Out::Limit | Out::Injected => violation("too many stream calls", item.name().into()),
    }
}

fn describe(i: &Item) -> String {
    match i {
        Item::Prop { p, .. } | Item::Body { p, .. } => format!("{} {}", i.name(), p.type_name()),
        _ => i.name().into(),
    }
}
