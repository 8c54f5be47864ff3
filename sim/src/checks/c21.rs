//! C21: the work of a load or save stays in proportion to the document.

use super::items::*;
use super::*;
use crate::alloc::{measured, work_limit};
use crate::checks::common::*;
use crate::model::*;
use crate::rt::{Out, cpu, guard};
use crate::simio::*;

pub const CHECK: Check = Check { id: "C21", run, quick_runs: 300_000, batch: 4000, scenarios: &[], real: REAL, stub: STUB };

/// What one allocation costs beside its bytes.
pub const COUNT: u64 = 64;
const BASE: u64 = 4 << 20;
const PER_BYTE: u64 = 768;
const PER_LEVEL: u64 = 96;

/// Levels of nesting, and the length of the longest path of names.
fn shape_p(p: &P) -> (u64, u64) {
    let add = |(d, n): (u64, u64), by: usize| (d + 1, n + by as u64 + 20);
    let both = |a: (u64, u64), b: (u64, u64)| (a.0.max(b.0), a.1.max(b.1));
    match p {
        P::Text(t) => (1 + shape_t(t), 20),
        P::Arr { els, .. } | P::Set { els, .. } => add(els.iter().map(shape_p).fold((0, 0), both), 0),
        P::ArrStruct { field, els, .. } => add(els.iter().map(shape_sv).fold((0, 0), both), field.len()),
        P::Map { es, .. } => add(es.iter().map(|(k, v)| both(shape_p(k), shape_p(v))).fold((0, 0), both), 0),
        P::Struct { v, .. } | P::SVal(v) => add(shape_sv(v), 0),
        _ => (1, 20),
    }
}

fn shape_sv(v: &SV) -> (u64, u64) {
    let mut r = (1, 20);
    if let SV::Custom(fields) = v {
        for (n, ps) in fields {
            for p in ps {
                let (d, l) = shape_p(p);
                r = (r.0.max(d + 1), r.1.max(l + n.len() as u64 + 20));
            }
        }
    }
    r
}

fn shape_t(t: &T) -> u64 {
    let arg = |a: &A| if let A::Text(t) = a { 1 + shape_t(t) } else { 1 };
    1 + match &t.h {
        H::Named(t, a) | H::Argument(t, a) => shape_t(t).max(a.iter().map(|(_, a)| arg(a)).max().unwrap_or(0)),
        H::Ordered(t, a) => shape_t(t).max(a.iter().map(arg).max().unwrap_or(0)),
        H::Number(a, ..) | H::Percent(a, ..) | H::Currency(_, a, ..) => arg(a),
        H::Transform(t, _) => shape_t(t),
        _ => 0,
    }
}

fn shape(i: &Item) -> (u64, u64) {
    match i {
        Item::File { doc, .. } => {
            let mut r = (1, 0);
            for (n, p) in &doc.props {
                let (d, l) = shape_p(p);
                r = (r.0.max(d + 1), r.1.max(l + n.len() as u64 + 1));
            }
            r
        }
        Item::Prop { p, .. } | Item::Body { p, .. } => shape_p(p),
        Item::Text { t, .. } => (shape_t(t), 0),
        _ => (1, 0),
    }
}

fn run(c: &mut Ctx) -> Result<(), Violation> {
    c.long = c.chance(DOC, 1, 4);
    let item = Item::draw(c, ANY);
    let writing = c.choose(OP, 2) == 1;
    let lv = (c.choose(OP, 10) as u32, c.choose(OP, 10) as u32);
    let plain = item.plain(None).len() as u64;
    let bytes = if writing { old_content(c, 200) } else { item.stored(None, lv) };
    let start = if writing { start_offset(c, bytes.len()) } else { 0 };
    let hints = if c.chance(OP, 1, 6) { Default::default() } else { item.hints() };
    let base = Plan::benign(c);
    let mut plan = base.clone();
    if c.chance(FAULT, 1, 3) {
        let mut dry = SimFile::new(bytes.clone(), base).at(start);
        let _ = guard(|| if writing { item.write(&mut dry).is_ok() } else { item.read_raw(&mut dry, &hints, &mut item.path()).is_ok() });
        let (n, end) = (dry.calls.max(1), dry.max_off);
        dry.settle(c, "dry run");
        place_failures(c, &mut plan, n, start, end);
    }

    let n = plain + bytes.len() as u64 + start + item.table() * 24;
    let (depth, path) = shape(&item);
    let bound = BASE + n * (PER_BYTE + PER_LEVEL * depth + path);
    let word = if writing { "save" } else { "load" };
    c.note(|| format!("{word} of {}: {n} bytes, {depth} levels, paths of {path}, bound {bound}", item.name()));
    let op = || {
        let mut f = SimFile::new(bytes.clone(), plan.clone()).at(start);
        let before = cpu();
        work_limit(8 * bound + (1 << 30), COUNT);
        let (r, u) = measured(i64::MAX, || {
            guard(|| if writing { item.write(&mut f).is_ok() } else { item.read_raw(&mut f, &hints, &mut item.path()).is_ok() })
        });
        work_limit(u64::MAX, COUNT);
        (f, r, u, cpu() - before)
    };
    let (mut f, r, u, mut time) = op();
    f.settle(c, word);
    c.eval();
    let work = u.total + COUNT * u.count;
    c.digest.add(work);
    c.probe(match work * 64 / bound {
        0 => "under 1/64 of the bound",
        1..=3 => "1/64 to 1/16 of the bound",
        4..=15 => "1/16 to 1/4 of the bound",
        _ => "over 1/4 of the bound",
    });
    if depth > 12 {
        c.probe("deeply nested");
    }
    if n > 100_000 {
        c.probe("over 100 kB");
    }
    if work > bound {
        return violation(
            "work out of proportion",
            format!("{word} of {}: {} bytes in {} allocations for {n} bytes and {depth} levels", item.name(), u.total, u.count),
        );
    }
    // Time is not part of the simulation, so the limit is far out and must be
    // exceeded again and again.
    let patience = 200_000 + n * (8 + depth) / 10 + f.calls;
    for _ in 0..3 {
        if time > patience {
            time = time.min(op().3);
        }
    }
    if time > patience {
        return violation("takes too long", format!("{word} of {}: {} ms for {n} bytes and {depth} levels", item.name(), time / 1000));
    }
    if time > patience / 4 {
        c.probe("over 1/4 of the time allowed");
    }
    match r {
        Out::Ret(true) => c.probe("success"),
        Out::Ret(false) => c.probe("failure"),
        Out::Injected => c.probe("unwinding"),
        // Crashes are the subject of other properties.
        _ => c.probe("crashed"),
    }
    Ok(())
}
