//! C22: a damaged field is reported where it lies.

use super::items::*;
use super::*;
use crate::checks::common::*;
use crate::enc::*;
use crate::rt::{Out, guard};
use crate::simio::*;
use gvas::error::{DeserializeError as D, Error};

pub const CHECK: Check = Check { id: "C22", run, quick_runs: 1_500_000, batch: 6000, scenarios: &[], real: REAL, stub: STUB };

/// The position an error carries.
fn position(e: &D) -> Option<u64> {
    match e {
        D::InvalidValueSize(_, _, p) => Some(*p),
        D::InvalidString(_, p) => Some(*p),
        D::InvalidStringTerminator(_, p) => Some(*p),
        D::InvalidBoolean(_, p) => Some(*p),
        D::MissingHint(_, _, p) => Some(*p),
        D::MissingArgument(_, p) => Some(*p),
        D::InvalidProperty(_, p) => Some(*p),
        D::InvalidEnumValue(_, _, p) => Some(*p),
        D::InvalidArrayIndex(_, p) => Some(*p),
        D::InvalidTerminator(_, p) => Some(*p),
        D::FromUtf16Error(_, p) => Some(*p),
        D::FromUtf8Error(_, p) => Some(*p),
        _ => None,
    }
}

/// Damages a field so that no value of the format remains. Returns what was
/// done and the range in which it must be reported.
fn spoil(c: &mut Ctx, b: &mut [u8], fields: &[Field], i: usize) -> Option<(&'static str, usize, usize)> {
    let f = fields[i];
    let end = f.off + f.len;
    let byte = |c: &mut Ctx| 1 + c.choose(FAULT, 255) as u8;
    match f.kind {
        Fk::Sep => {
            b[f.off] = byte(c);
            Some(("separator", f.off, end))
        }
        Fk::Index => {
            b[f.off + c.choose(FAULT, 4)] = byte(c);
            Some(("array index", f.off, end))
        }
        Fk::Bool => {
            let at = c.choose(FAULT, f.len);
            b[f.off + at] = if at == 0 { 2 + c.choose(FAULT, 254) as u8 } else { byte(c) };
            Some(("boolean", f.off, end))
        }
        Fk::Enum => {
            b[f.off] = 64 + c.choose(FAULT, 128) as u8;
            Some(("enum value", f.off, end))
        }
        Fk::Len | Fk::SureCount => {
            // Found out when the content has been read, at the latest.
            let old = b[f.off..end].to_vec();
            match c.choose(FAULT, 3) {
                0 => b[f.off + c.choose(FAULT, f.len)] ^= byte(c),
                1 => b[f.off] = b[f.off].wrapping_add(1 + c.choose(FAULT, 4) as u8),
                _ => b[f.off] = b[f.off].wrapping_sub(1 + c.choose(FAULT, 4) as u8),
            }
            if b[f.off..end] == old {
                None
            } else if f.kind == Fk::Len {
                Some(("length", f.off, b.len()))
            } else {
                // reported for the value it belongs to, which may begin with flags
                Some(("count", f.off - 4, b.len()))
            }
        }
        Fk::Magic => {
            b[f.off + c.choose(FAULT, f.len)] ^= byte(c);
            Some(("magic number", f.off, end))
        }
        Fk::Version => {
            let v = if c.choose(FAULT, 4) == 0 { 0 } else { 0x10000 + c.choose(FAULT, 0x7FFF_0000) as u32 };
            b[f.off..end].copy_from_slice(&v.to_le_bytes());
            Some(("version", f.off, end))
        }
        Fk::StrLen => {
            let v = match c.choose(FAULT, 4) {
                0 => 131_073 + c.choose(FAULT, 1 << 20) as i32,
                1 => -131_073 - c.choose(FAULT, 1 << 20) as i32,
                2 => i32::MIN + c.choose(FAULT, 4) as i32,
                _ => i32::MAX - c.choose(FAULT, 4) as i32,
            };
            b[f.off..end].copy_from_slice(&v.to_le_bytes());
            Some(("string length", f.off, end))
        }
        Fk::StrBody | Fk::TypeName | Fk::FixedName | Fk::End => {
            let l = *fields.get(i.checked_sub(1)?)?;
            if l.kind != Fk::StrLen || l.off + 4 != f.off {
                return None;
            }
            let n = i32::from_le_bytes([b[l.off], b[l.off + 1], b[l.off + 2], b[l.off + 3]]);
            let unit = if n < 0 { 2 } else { 1 };
            if f.kind == Fk::FixedName && c.choose(FAULT, 2) == 0 {
                let at = f.off + unit * c.choose(FAULT, f.len / unit - 1);
                b[at] ^= 1 + c.choose(FAULT, 31) as u8;
                return Some(("fixed name", l.off, end));
            }
            if f.len <= unit || c.choose(FAULT, 2) == 0 {
                b[end - 1 - c.choose(FAULT, unit)] = byte(c);
                return Some(("string terminator", l.off, end));
            }
            // content that is no text, and stays none whatever stands next to it
            let at = f.off + unit * c.choose(FAULT, f.len / unit - 1);
            if unit == 1 {
                b[at] = 0xF8 | c.choose(FAULT, 8) as u8;
            } else {
                if at + 4 < end && (0xDC..=0xDF).contains(&b[at + 3]) {
                    return None;
                }
                b[at + 1] = 0xD8 | c.choose(FAULT, 4) as u8;
            }
            Some(("string content", l.off, end))
        }
        _ => None,
    }
}

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let item = Item::draw(c, Want { file: 5, parts: 5, prims: 2 });
    let alt = if c.chance(OP, 1, 4) { Some(Rng::new(c.choose(OP, 1 << 16) as u64)) } else { None };
    let lv = (c.choose(OP, 10) as u32, c.choose(OP, 10) as u32);
    let enc = item.encoded(alt);
    let cont = item.container();
    let mut plain = enc.plain;
    if enc.fields.is_empty() {
        return Ok(());
    }
    // Few kinds would be drawn rarely among many values.
    const RARE: &[Fk] = &[Fk::Sep, Fk::Index, Fk::Bool, Fk::Enum, Fk::Magic, Fk::Version, Fk::Len, Fk::SureCount, Fk::FixedName];
    let mut places: Vec<usize> = (0..enc.fields.len()).collect();
    if c.choose(FAULT, 2) == 0 {
        let k = c.pick(FAULT, RARE);
        let of: Vec<usize> = places.iter().copied().filter(|i| enc.fields[*i].kind == k).collect();
        if !of.is_empty() {
            places = of;
        }
    }
    let i = places[c.choose(FAULT, places.len())];
    let Some((what, from, to)) = spoil(c, &mut plain, &enc.fields, i) else {
        c.probe("field of another kind");
        return Ok(());
    };
    c.fault("invalid_field");
    // What follows some way behind does not matter.
    if c.chance(FAULT, 1, 3) && plain.len() > to + 512 {
        let at = to + 512 + c.choose(FAULT, plain.len() - to - 512);
        let mut r = Rng::new(c.choose(FAULT, 1 << 16) as u64);
        for b in &mut plain[at..] {
            if r.below(8) == 0 {
                *b = r.next() as u8;
            }
        }
        c.fault("overwritten_tail");
    }
    let stored = wrap(&plain, cont, lv);
    let shift = if !matches!(item, Item::File { .. }) && c.choose(OP, 2) == 1 { c.choose(OP, 300) } else { 0 };
    let mut bytes = vec![0xEE; shift];
    bytes.extend_from_slice(&stored);
    c.note(|| format!("load of {} with invalid {what} at {from}..{to}", item.name()));
    c.digest.bytes(what.as_bytes());

    let rounds = 1 + c.choose(FAULT, 2);
    for _ in 0..rounds {
        let mut plan = Plan::benign(c);
        plan.max_calls = 4000 + 64 * bytes.len() as u64;
        if matches!(item, Item::File { .. }) {
            plan.origin = 0;
        }
        let origin = plan.origin;
        let mut f = SimFile::new(bytes.clone(), plan).at(shift as u64).traced(c);
        let r = guard(|| item.read_raw(&mut f, &item.hints(), &mut item.path()));
        f.settle(c, "load");
        c.eval();
        let name = item.name();
        match r {
            Out::Ret(Ok(_)) => return violation("invalid field accepted", format!("{name}: {what} at {from}")),
            Out::Ret(Err(Error::Deserialize(e))) => match position(&e) {
                Some(p) => {
                    let (a, b) = ((from + shift) as u64 + origin, (to + shift) as u64 + origin);
                    if p < a || p > b {
                        return violation("reported elsewhere", format!("{name}: {what} at {a} to {b}, reported {e}"));
                    }
                    c.probe(what);
                }
                None if matches!(enc.fields[i].kind, Fk::Magic | Fk::Version) => c.probe(what),
                None => return violation("reported without a place", format!("{name}: {what} at {from}, reported {e}")),
            },
            // A wrong length may make the reader want more than there is.
            Out::Ret(Err(Error::Io(e))) if matches!(enc.fields[i].kind, Fk::Len | Fk::SureCount) && e.kind() == std::io::ErrorKind::UnexpectedEof => c.probe(what),
            Out::Ret(Err(e)) => return violation("reported as something else", format!("{name}: {what} at {from}, reported {}", err_text(&e))),
            Out::Panic(p) => return violation("panic", format!("{name}: {what} at {from}: {p}")),
            _ => return violation("load does not end", name.into()),
        }
    }
    Ok(())
}
