//! C14: whatever a load accepts survives a save and a second load unchanged.

use super::c06;
use super::items::*;
use super::*;
use crate::checks::common::*;
use crate::enc::*;
use crate::glue;
use crate::model::*;
use crate::rt::{Out, guard};
use crate::simio::*;
use gvas::GvasFile;
use gvas::error::Error;
use gvas::properties::{PropertyOptions, PropertyTrait};
use std::collections::HashMap;

pub const CHECK: Check = Check {
    id: "C14",
    run,
    quick_runs: 800_000,
    batch: 5000,
    scenarios: &[Scenario { name: "static-array-at-top-level", run: top_level_static_array }],
    real: REAL,
    stub: STUB,
};

/// Writes what a read returned, as the same kind of item.
fn write_back(item: &Item, raw: &Raw, f: &mut SimFile) -> Result<(), Error> {
    let none = HashMap::new();
    let mut stack = item.path();
    let cv = match item {
        Item::Prop { hdr, .. } | Item::Body { hdr, .. } | Item::Text { hdr, .. } => versions(hdr),
        _ => Default::default(),
    };
    let mut o = PropertyOptions { hints: &none, properties_stack: &mut stack, custom_versions: &cv };
    match raw {
        Raw::File(g) => g.write(f)?,
        Raw::Hdr(h) => {
            h.write(f)?;
        }
        Raw::P(p) => {
            p.write(f, matches!(item, Item::Prop { .. }), &mut o)?;
        }
        Raw::T(t) => {
            t.write(f, &mut o)?;
        }
        Raw::Got(_) => {}
    }
    Ok(())
}

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let pristine = c.chance(OP, 1, 4);
    let (item, bytes, hints) = if pristine {
        let item = match c.choose(OP, 2) {
            0 => Item::part(c),
            _ => {
                let cont = [Container::Plain, Container::PlzNone][c.weighted(OP, &[3, 1])];
                Item::file(c, cont)
            }
        };
        let bytes = wrap(&item.plain(None), item.container(), (6, 6));
        let hints = item.hints();
        (item, bytes, hints)
    } else {
        let k = c06::case(c, Want { file: 5, parts: 5, prims: 0 });
        (k.item, k.bytes, k.hints)
    };
    let name = item.name();
    c.note(|| format!("load of {name} from {} bytes{}", bytes.len(), if pristine { "" } else { " with damage" }));
    let cycles = 1 + c.weighted(OP, &[3, 1]);
    let mut data = bytes.clone();
    let mut before: Option<Got> = None;
    for cycle in 0..=cycles {
        let mut plan = Plan::benign(c);
        plan.max_calls = 100_000 + 64 * data.len() as u64;
        let mut f = SimFile::new(data.clone(), plan).traced(c);
        let mut stack = item.path();
        let r = guard(|| item.read_raw(&mut f, &hints, &mut stack));
        f.settle(c, if cycle == 0 { "load" } else { "load again" });
        let raw = match r {
            Out::Ret(Ok(r)) => r,
            Out::Ret(Err(e)) if cycle > 0 => {
                return violation("saved document does not load", format!("{name}: {}", err_text(&e)));
            }
            Out::Ret(Err(e)) if pristine => return violation("undamaged item not accepted", format!("{name}: {}", err_text(&e))),
            Out::Panic(p) if cycle > 0 || pristine => return violation("panic while loading", format!("{name}: {p}")),
            // C06 decides about the first load
            _ => {
                c.probe("rejected");
                return Ok(());
            }
        };
        if cycle == 0 && !pristine {
            c.probe("damaged but accepted");
        }
        if cycle < cycles {
            let mut w = SimFile::new(Vec::new(), Plan::benign(c)).traced(c);
            let r = guard(|| write_back(&item, &raw, &mut w));
            let eintrs = w.eintrs;
            w.settle(c, "save");
            match r {
                Out::Ret(Ok(())) => {}
                Out::Ret(Err(e)) if eintrs > 0 && io_kind(&e) == Some(std::io::ErrorKind::Interrupted) => {
                    c.probe("interruption surfaced");
                    return Ok(());
                }
                Out::Ret(Err(e)) => return violation("loaded document does not save", format!("{name}: {}", err_text(&e))),
                Out::Panic(p) => return violation("panic while saving", format!("{name}: {p}")),
                _ => return violation("save does not end", name.into()),
            }
            if pristine && w.data != bytes {
                let at = w.data.iter().zip(&bytes).position(|(a, b)| a != b).unwrap_or(w.data.len().min(bytes.len()));
                return violation("bytes changed", format!("{name}: {} bytes instead of {}, first difference at {at}", w.data.len(), bytes.len()));
            }
            data = w.data;
        }
        let got = raw.project();
        c.eval();
        c.digest.bytes(format!("{got:?}").as_bytes());
        if let Some(b) = &before
            && *b != got
        {
            let (x, y) = (format!("{b:?}"), format!("{got:?}"));
            let at = x.bytes().zip(y.bytes()).position(|(a, b)| a != b).unwrap_or(0).saturating_sub(60);
            let cut = |s: &str| clip(&String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..]), 200);
            return violation("document changed", format!("{name}: {} became {}", cut(&x), cut(&y)));
        }
        before = Some(got);
    }
    Ok(())
}

/// A static array stores each of its elements as a property of the same name.
fn top_level_static_array() -> Result<(), Violation> {
    let hdr = Hdr { ue5: None, pfv: 522, eng: (4, 27, 0, 0, "++UE4".into()), cvf: 3, cvs: vec![], class: "/Script/Test".into() };
    let props = (0..3).map(|i| ("Slots".to_string(), P::Name { idx: i, v: Some(format!("slot{i}")) })).collect();
    let doc = Doc { container: Container::Plain, hdr, props };
    let enc = encode_doc(&doc, &Hints::new(), None);
    let mut f = SimFile::new(enc.plain.clone(), Plan::clean());
    let r = guard(|| GvasFile::read(&mut f, glue::game_version(Container::Plain)));
    let Out::Ret(Ok(g)) = r else {
        return Ok(());
    };
    let mut w = SimFile::new(Vec::new(), Plan::clean());
    match guard(|| g.write(&mut w)) {
        Out::Ret(Ok(())) if w.data == enc.plain => Ok(()),
        Out::Ret(Ok(())) => violation("elements of a static array at top level are lost", format!("{} bytes saved of {}", w.data.len(), enc.plain.len())),
        _ => violation("loaded document does not save", String::new()),
    }
}
