//! Pieces shared by the checks.

use crate::ctx::*;
use crate::enc::*;
use crate::glue;
use crate::model::*;
use crate::rt::{Out, guard};
use crate::simio::*;
use super::damage::*;
use gvas::GvasFile;
use gvas::error::Error;
use std::collections::HashMap;
use std::io::ErrorKind;

pub fn container(c: &mut Ctx) -> Container {
    [Container::Plain, Container::PlzNone, Container::PlzZlib, Container::PlzTwice][c.weighted(OP, &[4, 2, 2, 2])]
}

/// Size class of a document: mostly small, sometimes large.
pub fn budget(c: &mut Ctx) -> (i64, bool) {
    match c.weighted(DOC, &[40, 30, 12, 3]) {
        0 => (6, false),
        1 => (25, false),
        2 => (90, false),
        _ => (200, true),
    }
}

pub struct Sample {
    pub doc: Doc,
    pub hints: Hints,
}

pub fn document(c: &mut Ctx, container: Container, want_hints: bool) -> Sample {
    let (b, big) = budget(c);
    let mut g = Gen::new(c, b, big);
    g.want_hints = want_hints;
    let mut doc = g.doc(container);
    if b == 6 && g.c.chance(DOC, 1, 500) && doc.props.iter().all(|(n, _)| n != "Huge") {
        g.c.probe("more elements than sixteen bits count");
        let p = g.huge();
        doc.props.push(("Huge".into(), p));
    }
    let hints = std::mem::take(&mut g.hints);
    let mut s = Sample { doc, hints };
    if c.chance(DOC, 1, 40) {
        align(c, &mut s);
    }
    s
}

/// Fills a document up so that its size falls on or next to a multiple of a size
/// buffers commonly have.
fn align(c: &mut Ctx, s: &mut Sample) {
    const NAME: &str = "Filler";
    if s.doc.props.iter().any(|(n, _)| n == NAME) {
        return;
    }
    let block = c.pick(DOC, &[65536usize, 256, 1024, 4096, 8192, 16384, 32768, 131072]);
    let more = c.weighted(DOC, &[6, 2, 1]);
    let delta = c.choose(DOC, 17);
    let fill = c.choose(DOC, 4) as u8;
    let at = if c.choose(DOC, 2) == 0 { s.doc.props.len() } else { 0 };
    let filler = |raw| (NAME.to_string(), P::Unknown { ty: "FillerProperty".into(), raw });
    s.doc.props.insert(at, filler(Vec::new()));
    let len = encode_doc(&s.doc, &s.hints, None).plain.len();
    let want = (len + 8).next_multiple_of(block) + more * block + delta - 8;
    let mut r = Rng::new((len + delta) as u64);
    let raw = (len..want).map(|_| if fill == 0 { 0 } else { r.next() as u8 }).collect();
    s.doc.props[at] = filler(raw);
    c.probe("document fills whole blocks");
}

pub fn hint_map(h: &Hints) -> HashMap<String, String> {
    h.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn load(f: &mut SimFile, c: Container, hints: &HashMap<String, String>) -> Out<Result<GvasFile, Error>> {
    guard(|| GvasFile::read_with_hints(f, glue::game_version(c), hints))
}

pub fn save(f: &mut SimFile, g: &GvasFile) -> Out<Result<(), Error>> {
    guard(|| g.write(f))
}

pub fn io_kind(e: &Error) -> Option<ErrorKind> {
    match e {
        Error::Io(e) => Some(e.kind()),
        _ => None,
    }
}

pub fn err_text(e: &Error) -> String {
    clip(&format!("{e:?}"), 300)
}

/// Expected stored bytes of an acknowledged save, or how a compressed payload
/// must decode. Compares and reports.
pub fn check_container(bytes: &[u8], plain: &[u8], c: Container) -> Result<(), Violation> {
    if c == Container::Plain {
        return same_bytes(bytes, plain);
    }
    let bad = |what: String| violation("stored container is wrong", what);
    if bytes.len() < 12 {
        return bad(format!("only {} bytes", bytes.len()));
    }
    let word = |i: usize| u32::from_le_bytes([bytes[i], bytes[i + 1], bytes[i + 2], bytes[i + 3]]) as usize;
    if word(0) != plain.len() {
        return bad(format!("decompressed length {} instead of {}", word(0), plain.len()));
    }
    if &bytes[8..11] != b"PlZ" {
        return bad(format!("magic {:?}", &bytes[8..11]));
    }
    let (ty, payload) = (bytes[11], &bytes[12..]);
    match c {
        Container::PlzNone => {
            if ty != 0x30 {
                return bad(format!("compression type {ty:#x}"));
            }
            if word(4) != payload.len() {
                return violation("stored length is wrong", format!("compressed length {} for a payload of {}", word(4), payload.len()));
            }
            same_bytes(payload, plain)
        }
        Container::PlzZlib => {
            if ty != 0x31 {
                return bad(format!("compression type {ty:#x}"));
            }
            if word(4) != payload.len() {
                return violation("stored length is wrong", format!("compressed length {} for a payload of {}", word(4), payload.len()));
            }
            let (out, used) = match unzlib_strict(payload, plain.len() + 65536) {
                Ok(x) => x,
                Err(e) => return bad(format!("payload does not decode: {e}")),
            };
            if used != payload.len() {
                return bad(format!("{} bytes after the compressed stream", payload.len() - used));
            }
            same_bytes(&out, plain)
        }
        _ => {
            if ty != 0x32 {
                return bad(format!("compression type {ty:#x}"));
            }
            let (mid, used) = match unzlib_strict(payload, plain.len() * 2 + 65536) {
                Ok(x) => x,
                Err(e) => return bad(format!("outer stream does not decode: {e}")),
            };
            if used != payload.len() {
                return bad(format!("{} bytes after the compressed stream", payload.len() - used));
            }
            if word(4) != mid.len() {
                return violation(
                    "stored length is wrong",
                    format!("compressed length {} for a once-compressed length of {}", word(4), mid.len()),
                );
            }
            let (out, used) = match unzlib_strict(&mid, plain.len() + 65536) {
                Ok(x) => x,
                Err(e) => return bad(format!("inner stream does not decode: {e}")),
            };
            if used != mid.len() {
                return bad(format!("{} bytes after the inner stream", mid.len() - used));
            }
            same_bytes(&out, plain)
        }
    }
}

pub fn same_bytes(got: &[u8], want: &[u8]) -> Result<(), Violation> {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let win = |b: &[u8]| b[at.saturating_sub(8).min(b.len())..(at + 16).min(b.len())].to_vec();
    violation(
        "stored bytes differ",
        format!("length {} instead of {}, first difference at {at}: {:02x?} instead of {:02x?}", got.len(), want.len(), win(got), win(want)),
    )
}

/// Previous content of a destination.
pub fn old_content(c: &mut Ctx, around: usize) -> Vec<u8> {
    let n = match c.weighted(OP, &[4, 2, 2, 2]) {
        0 => 0,
        1 => c.choose(OP, 64),
        2 => c.choose(OP, around + 1),
        _ => around + c.choose(OP, 2000),
    };
    let mut r = Rng::new(c.choose(OP, 1 << 16) as u64 ^ 0x01D);
    let mode = c.choose(OP, 2);
    (0..n).map(|i| if mode == 0 { 0xC0 | (i as u8 & 0x1F) } else { r.next() as u8 }).collect()
}

/// Start offset within a destination that holds `len` bytes: at the beginning,
/// inside, at the end or beyond it.
pub fn start_offset(c: &mut Ctx, len: usize) -> u64 {
    match c.weighted(OP, &[5, 2, 2, 1]) {
        0 => 0,
        1 => c.choose(OP, len + 1) as u64,
        2 => len as u64,
        _ => (len + c.choose(OP, 300)) as u64,
    }
}

/// Adds failures to a plan, inside the operation: `calls` is how many stream
/// calls it makes undisturbed, `start..end` the region it writes.
pub fn place_failures(c: &mut Ctx, plan: &mut Plan, calls: u64, start: u64, end: u64) {
    let n = 1 + c.weighted(FAULT, &[4, 1]);
    let calls = calls.clamp(1, 1 << 30);
    for _ in 0..n {
        let k = match c.weighted(FAULT, &[6, 2, 3]) {
            0 => c.choose(FAULT, calls as usize) as u64,
            1 => c.choose(FAULT, calls.min(12) as usize) as u64,
            _ => calls - 1 - c.choose(FAULT, calls.min(12) as usize) as u64,
        };
        match c.weighted(FAULT, &[4, 4, 3, 2, 2]) {
            0 => plan.events.push((k, Ev::Err(c.choose(FAULT, KINDS.len())))),
            1 => plan.events.push((k, Ev::Sticky(c.choose(FAULT, KINDS.len())))),
            2 => plan.capacity = Some(start + c.choose(FAULT, end.saturating_sub(start) as usize + 1) as u64),
            3 => plan.events.push((k, Ev::Zero)),
            _ => plan.events.push((k, Ev::Panic)),
        }
    }
}

/// Stored bytes of an item after damage: to the content before it was put into
/// its container, to what is stored, or to both.
pub fn damaged(c: &mut Ctx, enc: &Encoded, cont: Container, lv: (u32, u32)) -> Vec<u8> {
    let mut t = Target::of(enc);
    if cont == Container::Plain {
        damage(c, &mut t);
        return t.bytes;
    }
    if cont == Container::PlzNone {
        let inside = c.choose(FAULT, 2) == 0;
        if inside {
            damage(c, &mut t);
        }
        t.bytes = wrap(&t.bytes, cont, lv);
        let mut t = t.shifted(12).with_container_fields();
        if !inside {
            damage(c, &mut t);
        }
        return t.bytes;
    }
    let mode = c.weighted(FAULT, &[5, 4, 1]);
    if mode != 1 {
        damage(c, &mut t);
    }
    let mut s = Target::raw(wrap(&t.bytes, cont, lv)).with_container_fields();
    if mode != 0 {
        damage(c, &mut s);
    }
    s.bytes
}
