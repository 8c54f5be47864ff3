//! C15: JSON export and import preserve the document.

use super::items::{Item, Raw, Want};
use super::sites::{self, Site};
use super::*;
use crate::alloc::measured;
use crate::checks::common::*;
use crate::enc::*;
use crate::glue;
use crate::model::*;
use crate::rt::{Out, fresh, guard};
use crate::simio::*;
use gvas::GvasFile;
use std::io::BufReader;

pub const CHECK: Check = Check {
    id: "C15",
    run,
    quick_runs: 300_000,
    batch: 6000,
    scenarios: &[],
    real: "gvas (all of src/, with its serde feature), serde, serde_json, indexmap, flate2/miniz_oxide, standard library: real code, built from /repo's working tree",
    stub: STUB,
};

fn f32s(v: &mut u32) {
    if !f32::from_bits(*v).is_finite() {
        *v &= !(1 << 23);
    }
}
fn f64s(v: &mut u64) {
    if !f64::from_bits(*v).is_finite() {
        *v &= !(1 << 52);
    }
}

/// JSON has no numbers for infinities and the like.
fn finite(d: &mut Doc) {
    sites::doc(d, &mut |s| match s {
        Site::P(P::F32(v)) | Site::A(A::Float(v)) => f32s(v),
        Site::P(P::F64(v)) | Site::A(A::Double(v)) => f64s(v),
        Site::SV(SV::VecF(v) | SV::Vec2F(v) | SV::RotF(v) | SV::QuatF(v) | SV::Color(v)) => v.iter_mut().for_each(f32s),
        Site::SV(SV::VecD(v) | SV::Vec2D(v) | SV::RotD(v) | SV::QuatD(v)) => v.iter_mut().for_each(f64s),
        _ => {}
    });
}

/// A document as an application holds it: made by it, loaded, or loaded from
/// damaged storage. With the bytes it must be saved as, where they are known.
fn source(c: &mut Ctx) -> Option<(GvasFile, Option<Vec<u8>>)> {
    if c.chance(OP, 1, 4) {
        let k = c06::case(c, Want { file: 1, parts: 0, prims: 0 });
        let Item::File { .. } = k.item else { return None };
        let mut f = SimFile::new(k.bytes, Plan::benign(c));
        f.plan.max_calls = 100_000 + 64 * f.data.len() as u64;
        let mut stack = Vec::new();
        let r = guard(|| k.item.read_raw(&mut f, &k.hints, &mut stack));
        f.settle(c, "load of damaged bytes");
        let Out::Ret(Ok(Raw::File(g))) = r else { return None };
        let d = glue::project(&g);
        let mut e = d.clone();
        finite(&mut e);
        if d != e {
            c.probe("number without JSON form");
            return None;
        }
        c.probe("damaged but accepted");
        return Some((g, None));
    }
    let cont = [Container::Plain, Container::PlzNone, Container::PlzZlib][c.weighted(OP, &[4, 1, 1])];
    let mut s = document(c, cont, false);
    finite(&mut s.doc);
    let plain = encode_doc(&s.doc, &s.hints, None).plain;
    let built = glue::build(&s.doc);
    if glue::diff(&glue::project(&built), &glue::expected(&s.doc)).is_some() {
        // Two keys of a map became the same number.
        return None;
    }
    if c.choose(OP, 2) == 0 {
        return Some((built, Some(plain)));
    }
    let mut f = SimFile::new(wrap(&plain, cont, (1, 6)), Plan::benign(c));
    let r = load(&mut f, cont, &hint_map(&s.hints));
    f.settle(c, "load");
    match r {
        Out::Ret(Ok(g)) => Some((g, Some(plain))),
        // C03 decides about loads
        _ => None,
    }
}

/// Compact, indented, or as a value in memory that is then written.
fn export(layout: usize, g: &GvasFile, f: &mut SimFile) -> Result<(), serde_json::Error> {
    match layout {
        0 => serde_json::to_writer(f, g),
        1 => serde_json::to_writer_pretty(f, g),
        2 => {
            let v = serde_json::to_value(g)?;
            serde_json::to_writer(f, &v)
        }
        _ => {
            let t = serde_json::to_vec(g)?;
            std::io::Write::write_all(f, &t).map_err(serde_json::Error::io)
        }
    }
}

fn import(how: usize, f: &mut SimFile) -> Result<GvasFile, serde_json::Error> {
    match how {
        0 => serde_json::from_reader(f),
        1 => serde_json::from_reader(BufReader::with_capacity(512, f)),
        2 => {
            let v: serde_json::Value = serde_json::from_reader(BufReader::new(f))?;
            serde_json::from_value(v)
        }
        _ => {
            let mut t = Vec::new();
            std::io::Read::read_to_end(f, &mut t).map_err(serde_json::Error::io)?;
            serde_json::from_slice(&t)
        }
    }
}

/// Damage to the text: bits, bytes, blocks, and characters of other lengths.
fn spoil(c: &mut Ctx, t: &mut Vec<u8>) {
    let k = 1 + c.weighted(FAULT, &[6, 2, 1]);
    for _ in 0..k {
        if t.is_empty() {
            return;
        }
        let n = t.len();
        let at = c.choose(FAULT, n);
        match c.weighted(FAULT, &[2, 2, 3, 1, 2, 4]) {
            0 => {
                t[at] ^= 1 << c.choose(FAULT, 8);
                c.fault("flipped_bit");
            }
            1 => {
                t[at] = c.choose(FAULT, 256) as u8;
                c.fault("overwritten_byte");
            }
            2 => {
                // A digit or letter becomes another one.
                let from = t[at..].iter().position(|b| b.is_ascii_alphanumeric()).map(|i| at + i);
                if let Some(i) = from {
                    t[i] = b"0123456789abcdefzNone"[c.choose(FAULT, 21)];
                }
                c.fault("overwritten_character");
            }
            3 => {
                t.truncate(at);
                c.fault("truncated");
            }
            4 => {
                let e = (at + 1 + c.choose(FAULT, 40)).min(n);
                t.drain(at..e);
                c.fault("lost_block");
            }
            _ => {
                // Characters of several bytes in place of as many ASCII ones.
                let w = c.pick(FAULT, &["é", "日", "🙂"]).as_bytes();
                let from = t[at..].windows(w.len()).position(|x| x.iter().all(|b| b.is_ascii_alphanumeric())).map(|i| at + i);
                if let Some(i) = from {
                    t[i..i + w.len()].copy_from_slice(w);
                }
                c.fault("foreign_character");
            }
        }
    }
}

fn deep(e: &serde_json::Error) -> bool {
    e.to_string().contains("recursion limit")
}

fn saved(c: &mut Ctx, g: &GvasFile) -> Out<Result<Vec<u8>, String>> {
    let mut f = SimFile::new(Vec::new(), Plan::clean());
    let r = save(&mut f, g);
    f.settle(c, "save");
    match r {
        Out::Ret(Ok(())) => Out::Ret(Ok(f.data)),
        Out::Ret(Err(e)) => Out::Ret(Err(err_text(&e))),
        Out::Panic(p) => Out::Panic(p),
        Out::Limit => Out::Limit,
        Out::Injected => Out::Injected,
    }
}

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let Some((file, plain)) = source(c) else { return Ok(()) };
    let want = glue::project(&file);
    let layout = c.choose(OP, 4);
    let attempts = 1 + c.weighted(OP, &[4, 2, 1]);
    let mut text = None;
    for a in 0..attempts {
        let base = Plan::benign(c);
        let mut plan = base.clone();
        let last = a + 1 == attempts;
        let disturb = !last || c.chance(FAULT, 1, 8);
        if disturb {
            let mut dry = SimFile::new(Vec::new(), base);
            let _ = guard(|| export(layout, &file, &mut dry));
            let (n, end) = (dry.calls, dry.max_off);
            dry.settle(c, "dry run");
            place_failures(c, &mut plan, n, 0, end);
        }
        let mut f = SimFile::new(Vec::new(), plan).traced(c);
        let r = guard(|| export(layout, &file, &mut f));
        f.settle(c, "export");
        c.eval();
        match r {
            Out::Ret(Ok(())) if f.failed() => return violation("failed export reports success", format!("layout {layout}")),
            Out::Ret(Ok(())) => {}
            Out::Ret(Err(e)) if !f.failed() => return violation("export fails", e.to_string()),
            Out::Ret(Err(_)) => c.probe("export failed"),
            Out::Panic(p) => return violation("panic while exporting", p),
            Out::Limit => return violation("export does not end", String::new()),
            Out::Injected => c.probe("export unwound"),
        }
        let torn = f.failed() || f.panicked > 0;
        text = Some((f.data, torn));
    }
    let Some((mut text, torn)) = text else { return Ok(()) };
    let whole = text.len();
    let mut cut = torn;
    if !torn && c.chance(FAULT, 1, 6) {
        text.truncate(c.choose(FAULT, whole));
        c.fault("crash_during_export");
        cut = true;
    }
    let damaged = !cut && c.chance(FAULT, 1, 3);
    let intact = text.clone();
    if damaged {
        spoil(c, &mut text);
    }
    let damaged = damaged && text != intact;

    // Another process imports it.
    let how = c.choose(OP, 4);
    let base = Plan::benign(c);
    let mut plan = base.clone();
    plan.max_calls = 10_000 + 64 * text.len() as u64;
    if !damaged && c.chance(FAULT, 1, 6) {
        let mut dry = SimFile::new(text.clone(), base);
        let _ = guard(|| import(how, &mut dry).is_ok());
        let n = dry.calls.clamp(1, 1 << 30) as usize;
        dry.settle(c, "dry run");
        plan.events.push((c.choose(FAULT, n) as u64, Ev::Err(c.choose(FAULT, KINDS.len()))));
    }
    let f = SimFile::new(text, plan).traced(c);
    let seed = c.choose(SCHED, 1 << 16) as u64;
    let (mut f, r) = fresh(seed, move || {
        let mut f = f;
        let (r, _) = measured(1 << 30, || guard(|| import(how, &mut f)));
        (f, r)
    });
    f.settle(c, "import");
    c.eval();
    let at = || format!("layout {layout}, import {how}, {} of {whole} bytes", f.data.len());
    let got = match r {
        Out::Ret(Ok(g)) => g,
        Out::Ret(Err(e)) => {
            if !damaged && !cut && !f.failed() && !deep(&e) {
                return violation("exported document cannot be imported", format!("{}: {e}", at()));
            }
            c.probe("import rejected");
            return Ok(());
        }
        Out::Panic(p) => return violation("panic while importing", format!("{}: {p}", at())),
        _ => return violation("import does not end", at()),
    };
    if f.failed() && f.early_eof == 0 && !f.fired.is_empty() {
        return violation("failed import reports success", at());
    }
    let d = glue::project(&got);
    c.digest.bytes(format!("{d:?}").as_bytes());
    if damaged {
        c.probe("damaged text imported");
        return match saved(c, &got) {
            Out::Panic(p) => violation("panic while saving an imported document", format!("{}: {p}", at())),
            Out::Limit => violation("save does not end", at()),
            _ => Ok(()),
        };
    }
    if let Some(x) = glue::diff(&d, &want) {
        return violation(if cut { "torn export imported as another document" } else { "imported document differs" }, format!("{}: {x}", at()));
    }
    if got != file {
        return violation("imported document is not equal", at());
    }
    match (saved(c, &got), saved(c, &file)) {
        (Out::Ret(Ok(x)), Out::Ret(Ok(y))) => {
            if x != y {
                return violation("imported document saves differently", at());
            }
            if let Some(p) = plain
                && want.container == Container::Plain
            {
                same_bytes(&x, &p)?;
            }
            c.probe("same bytes saved");
        }
        (Out::Ret(Err(_)), Out::Ret(Err(_))) => {}
        _ => return violation("imported document saves differently", at()),
    }
    Ok(())
}
