//! C08: a save refused for its content leaves the destination untouched.

use super::sites::{self, Site};
use super::*;
use crate::checks::common::*;
use crate::glue;
use crate::model::*;
use crate::rt::Out;
use crate::simio::*;

pub const CHECK: Check = Check { id: "C08", run, quick_runs: 2_500_000, batch: 4000, scenarios: &[], real: REAL, stub: STUB };

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// A text kind this version has no place for.
    Culture,
    /// A number of the wrong width in a text.
    Width,
    /// A vector of the wrong precision.
    Precision,
    /// A name equal to the end marker.
    Marker,
    /// Text longer than a load accepts.
    Long,
    /// A struct's value where a property with a type of its own belongs.
    Bare,
}

fn bad_arg(c: &mut Ctx, f: Feat) -> A {
    match (f.fmt64, c.choose(OP, 2)) {
        (true, 0) => A::Int(7),
        (true, _) => A::UInt(7),
        (false, 0) => A::Int64(7),
        (false, _) => A::UInt64(7),
    }
}

fn bad_sv(c: &mut Ctx, f: Feat) -> (&'static str, SV) {
    match (f.lwc, c.choose(OP, 4)) {
        (true, 0) => ("Vector", SV::VecF(vec![0; 3])),
        (true, 1) => ("Vector2D", SV::Vec2F(vec![0; 2])),
        (true, 2) => ("Rotator", SV::RotF(vec![0; 3])),
        (true, _) => ("Quat", SV::QuatF(vec![0; 4])),
        (false, 0) => ("Vector", SV::VecD(vec![0; 3])),
        (false, 1) => ("Vector2D", SV::Vec2D(vec![0; 2])),
        (false, 2) => ("Rotator", SV::RotD(vec![0; 3])),
        (false, _) => ("Quat", SV::QuatD(vec![0; 4])),
    }
}

fn bad_text(c: &mut Ctx, k: Kind, f: Feat) -> T {
    let h = match k {
        Kind::Culture => H::None(if c.choose(OP, 2) == 0 { None } else { Some("lost".into()) }),
        _ => {
            let a = bad_arg(c, f);
            let t = Box::new(T { flags: 0, h: H::Empty });
            match c.choose(OP, 6) {
                0 => H::Number(Box::new(a), None, None),
                1 => H::Percent(Box::new(a), None, None),
                2 => H::Currency(None, Box::new(a), None, None),
                3 => H::Ordered(t, vec![A::Float(0), a]),
                4 => H::Named(t, vec![("n".into(), a)]),
                _ => H::Argument(t, vec![("n".into(), a)]),
            }
        }
    };
    T { flags: 0, h }
}

fn long(c: &mut Ctx) -> String {
    let n = [131_072usize, 131_073, 131_100, 200_000][c.choose(OP, 4)];
    match c.choose(OP, 4) {
        0 => "a".repeat(n),
        1 => {
            // few characters, many code units
            let mut s = "🙂".repeat(n / 2);
            if n % 2 == 1 {
                s.push('x');
            }
            s
        }
        2 => "é".repeat(n),
        _ => {
            let mut s = "b".repeat(n - 1);
            s.push('日');
            s
        }
    }
}

fn bare(c: &mut Ctx) -> P {
    P::SVal(match c.choose(OP, 4) {
        0 => SV::Custom(vec![]),
        1 => SV::Custom(vec![("n".into(), vec![P::I32(1)])]),
        2 => SV::DateTime(5),
        _ => SV::Guid([7; 16]),
    })
}

fn fits(k: Kind, s: &Site) -> bool {
    match (k, s) {
        (Kind::Culture, Site::T(_)) => true,
        (Kind::Width, Site::A(_) | Site::T(_)) => true,
        (Kind::Precision, Site::SV(_)) => true,
        (Kind::Marker, Site::Name(_)) => true,
        (Kind::Bare, Site::Field(_)) => true,
        (Kind::Long, Site::S(_) | Site::FS(_) | Site::Name(_)) => true,
        _ => false,
    }
}

/// Puts one such thing somewhere into the document.
fn spoil(c: &mut Ctx, d: &mut Doc, k: Kind) -> String {
    let f = d.hdr.feat();
    let mut n = 0;
    sites::doc(d, &mut |s| n += fits(k, &s) as usize);
    if n == 0 || c.chance(OP, 1, 8) {
        let (name, p) = match k {
            Kind::Culture | Kind::Width => ("spoiled".to_string(), P::Text(bad_text(c, k, f))),
            Kind::Precision => {
                let (ty, v) = bad_sv(c, f);
                ("spoiled".to_string(), P::Struct { ty: ty.into(), guid: [0; 16], v })
            }
            Kind::Marker => ("None".to_string(), P::Bool(true)),
            Kind::Long => ("spoiled".to_string(), P::Str(Some(long(c)))),
            Kind::Bare => ("spoiled".to_string(), bare(c)),
        };
        d.props.retain(|x| x.0 != name);
        let at = c.choose(OP, d.props.len() + 1);
        d.props.insert(at, (name, p));
        return format!("{k:?} in a property of its own");
    }
    let pick = c.choose(OP, n);
    let mut i = 0;
    let mut what = String::new();
    sites::doc(d, &mut |s| {
        if !fits(k, &s) {
            return;
        }
        i += 1;
        if i != pick + 1 {
            return;
        }
        match s {
            Site::T(t) => *t = bad_text(c, k, f),
            Site::A(a) => *a = bad_arg(c, f),
            Site::SV(v) => *v = bad_sv(c, f).1,
            Site::Name(n) if k == Kind::Marker => *n = "None".into(),
            Site::Name(s) | Site::S(s) => *s = long(c),
            Site::FS(s) => *s = Some(long(c)),
            Site::Field(p) => *p = bare(c),
            Site::P(_) => {}
        }
        what = format!("{k:?} at place {pick} of {n}");
    });
    what
}

/// A document that can not be stored, and what is wrong with it.
pub fn spoiled(c: &mut Ctx) -> (Doc, String) {
    let cont = container(c);
    let mut s = document(c, cont, false);
    let k = kind(c, &s.doc);
    let what = spoil(c, &mut s.doc, k);
    (s.doc, what)
}

fn kind(c: &mut Ctx, d: &Doc) -> Kind {
    match c.weighted(OP, &[4, 4, 4, 4, 1, 2]) {
        0 if !d.hdr.feat().culture => Kind::Culture,
        0 | 1 => Kind::Width,
        2 => Kind::Precision,
        3 => Kind::Marker,
        4 => Kind::Long,
        _ => Kind::Bare,
    }
}

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let cont = container(c);
    let mut s = document(c, cont, false);
    let k = kind(c, &s.doc);
    let what = spoil(c, &mut s.doc, k);
    let file = glue::build(&s.doc);
    c.note(|| format!("save of {cont:?} with {what}"));

    let start = if c.choose(OP, 2) == 0 { 0 } else { c.choose(OP, 300) as u64 };
    let before: Vec<u8> = (0..c.choose(OP, 400)).map(|i| i as u8 | 1).collect();
    let mut plan = if c.choose(FAULT, 2) == 0 { Plan::clean() } else { Plan::benign(c) };
    match c.weighted(FAULT, &[6, 1, 1]) {
        0 => {}
        1 => plan.capacity = Some(start),
        _ => {
            let kind = c.choose(FAULT, KINDS.len());
            let at = c.choose(FAULT, 4) as u64;
            plan.events.push((at, Ev::Sticky(kind)));
        }
    }
    let mut f = SimFile::new(before.clone(), plan).at(start).traced(c).logged();
    let r = save(&mut f, &file);
    let written = f.log.as_ref().map(|l| l.len()).unwrap_or(0);
    let pos = f.pos;
    let calls = f.calls;
    f.settle(c, "refused save");
    c.eval();
    c.probe(match k {
        Kind::Culture => "text kind",
        Kind::Width => "number width",
        Kind::Precision => "vector precision",
        Kind::Marker => "end marker as name",
        Kind::Long => "long text",
        Kind::Bare => "struct value without a type",
    });
    c.digest.add(calls);
    for x in [k as u64, cont as u64, start] {
        c.digest.add(x);
    }
    for b in what.bytes() {
        c.digest.add(b as u64);
    }
    match r {
        Out::Ret(Ok(())) => return violation("save of unstorable content succeeded", format!("{cont:?}, {what}")),
        Out::Ret(Err(e)) => {
            if written > 0 || f.data != before {
                return violation("destination changed by a refused save", format!("{cont:?}, {what}: {written} writes; {}", err_text(&e)));
            }
            if pos != start {
                return violation("position moved by a refused save", format!("{cont:?}, {what}: {start} to {pos}"));
            }
        }
        Out::Panic(p) => return violation("panic while saving", format!("{cont:?}, {what}: {p}")),
        _ => return violation("save does not end", what),
    }
    Ok(())
}
