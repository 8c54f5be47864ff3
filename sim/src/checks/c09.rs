//! C09: hint discovery converges, and property paths survive failed reads.

use super::items::*;
use super::*;
use crate::checks::common::*;
use crate::enc::*;
use crate::model::*;
use crate::rt::{Out, guard};
use crate::simio::*;
use gvas::error::{DeserializeError, Error};
use std::collections::{HashMap, HashSet};

pub const CHECK: Check = Check { id: "C09", run, quick_runs: 700_000, batch: 4000, scenarios: &[], real: REAL, stub: STUB };

fn draw(c: &mut Ctx) -> Item {
    if c.choose(OP, 2) == 0 {
        let cont = container(c);
        let s = document(c, cont, true);
        return Item::File { doc: s.doc, hints: s.hints };
    }
    let body = c.chance(OP, 1, 3);
    // The caller may itself be deep in a document.
    let n = if c.chance(OP, 1, 8) { c.choose(OP, 60) } else { c.choose(OP, 4) };
    let path: Vec<String> = (0..n).map(|i| format!("p{i}")).collect();
    let (b, big) = budget(c);
    let mut g = Gen::new(c, b, big);
    g.want_hints = true;
    let hdr = g.header();
    if body {
        let p = g.bare_at(&path);
        let hints = std::mem::take(&mut g.hints);
        Item::Body { p, hdr, hints, path }
    } else {
        let p = g.prop_at(&path);
        let hints = std::mem::take(&mut g.hints);
        Item::Prop { p, hdr, hints, path }
    }
}

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let item = draw(c);
    let lv = (c.choose(OP, 10) as u32, 6);
    let enc = item.encoded(None);
    let stored = wrap(&enc.plain, item.container(), lv);
    // A property may lie anywhere in the caller's stream.
    let off = if matches!(item, Item::File { .. }) || c.choose(OP, 2) == 0 { 0 } else { c.choose(OP, 200) };
    let mut bytes = vec![0xEE; off];
    bytes.extend_from_slice(&stored);
    let truth = item.hints();
    let mut paths: Vec<&String> = truth.keys().collect();
    paths.sort();
    let distinct = enc.uses.iter().map(|u| &u.path).collect::<HashSet<_>>().len();

    let mut known: HashMap<String, String> = HashMap::new();
    if c.chance(OP, 1, 3) {
        for p in &paths {
            if c.choose(OP, 2) == 1 {
                known.insert((*p).clone(), truth[*p].clone());
            }
        }
    }
    let noise = c.choose(OP, 3);
    for i in 0..noise {
        // hints for paths that do not occur
        let p = match (i, paths.first()) {
            (0, Some(p)) => format!("{p}.Elsewhere"),
            (1, Some(p)) => format!("Elsewhere.{p}"),
            _ => "StructProperty.StructProperty".to_string(),
        };
        if !truth.contains_key(&p) {
            known.insert(p, "Guid".into());
        }
    }

    let context = item.path();
    let mut stack = context.clone();
    let mut reported = 0;
    loop {
        let disturbed = if c.chance(FAULT, 1, 3) { 1 + c.choose(FAULT, 2) } else { 0 };
        for _ in 0..disturbed {
            let mut data = bytes.clone();
            let base = Plan::benign(c);
            let mut plan = base.clone();
            if c.chance(FAULT, 1, 4) {
                let d = damaged(c, &enc, item.container(), lv);
                data.truncate(off);
                data.extend_from_slice(&d);
                plan.max_calls = 4000 + 64 * data.len() as u64;
                c.fault("damaged_storage");
            } else {
                let mut dry = SimFile::new(data.clone(), base).at(off as u64);
                let mut s = context.clone();
                let _ = guard(|| item.read_raw(&mut dry, &known, &mut s));
                let n = dry.calls.max(1);
                dry.settle(c, "dry run");
                match c.weighted(FAULT, &[2, 2, 1]) {
                    0 => plan.events.push((c.choose(FAULT, n as usize) as u64, Ev::Err(c.choose(FAULT, KINDS.len())))),
                    1 => plan.events.push((c.choose(FAULT, n as usize) as u64, Ev::Panic)),
                    _ => plan.eof_at = Some(off as u64 + c.choose(FAULT, stored.len() + 1) as u64),
                }
            }
            let mut f = SimFile::new(data, plan).at(off as u64).traced(c);
            let r = guard(|| item.read_raw(&mut f, &known, &mut stack));
            f.settle(c, "disturbed load");
            c.eval();
            let how = match r {
                Out::Ret(Ok(_)) => "success",
                Out::Ret(Err(_)) => "failure",
                Out::Injected => "unwinding",
                Out::Panic(_) => "panic",
                Out::Limit => "call limit",
            };
            if how == "unwinding" {
                c.probe("unwound");
            }
            if stack != context {
                return violation("path context changed", format!("{} after {how}: {stack:?} instead of {context:?}", item.name()));
            }
        }

        let missing = enc.uses.iter().find(|u| !known.contains_key(&u.path));
        let mut plan = Plan::benign(c);
        if matches!(item, Item::File { .. }) {
            plan.origin = 0;
        }
        let place = off as u64 + plan.origin;
        let mut f = SimFile::new(bytes.clone(), plan).at(off as u64).traced(c);
        let r = guard(|| item.read_raw(&mut f, &known, &mut stack));
        f.settle(c, "load");
        c.eval();
        if stack != context {
            return violation("path context changed", format!("{}: {stack:?} instead of {context:?}", item.name()));
        }
        match (r, missing) {
            (Out::Ret(Ok(raw)), None) => {
                let got = raw.project();
                if got != item.expected() {
                    return violation("wrong document", format!("{}: {}", item.name(), crate::glue::clipd(&got)));
                }
                break;
            }
            (Out::Ret(Ok(_)), Some(u)) => {
                return violation("missing hint not reported", format!("{} at {}", u.path, u.pos));
            }
            (Out::Ret(Err(Error::Deserialize(DeserializeError::MissingHint(_, path, pos)))), Some(u)) => {
                if *path != *u.path || pos != u.pos + place {
                    return violation("wrong place reported", format!("{path} at {pos} instead of {} at {}", u.path, u.pos + place));
                }
                reported += 1;
                c.probe("hint reported");
                c.digest.bytes(path.as_bytes());
                if reported > distinct {
                    return violation("discovery does not converge", format!("{reported} failures for {distinct} paths"));
                }
                known.insert(u.path.clone(), u.ty.clone());
                while c.chance(OP, 1, 6) {
                    // the caller guesses another one ahead
                    let p = paths[c.choose(OP, paths.len())];
                    known.insert(p.clone(), truth[p].clone());
                }
            }
            (Out::Ret(Err(e)), u) => {
                return violation("wrong failure", format!("{}: {} with missing {:?}", item.name(), err_text(&e), u.map(|u| &u.path)));
            }
            (Out::Panic(p), _) => return violation("panic", format!("{}: {p}", item.name())),
            (_, _) => return violation("load does not end", item.name().into()),
        }
    }
    if reported > 1 {
        c.probe("several hints discovered");
    }
    Ok(())
}
