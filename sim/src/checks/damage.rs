//! Damage to stored bytes: what a disk, a torn copy or a faulty medium does to a
//! save. Knows where the fields lie, so that damage also strikes the places that
//! steer the reader.

use crate::ctx::*;
use crate::enc::*;

#[derive(Clone)]
pub struct Target {
    pub bytes: Vec<u8>,
    pub fields: Vec<Field>,
    pub props: Vec<(usize, usize)>,
}

impl Target {
    pub fn of(e: &Encoded) -> Target {
        Target { bytes: e.plain.clone(), fields: e.fields.clone(), props: e.props.clone() }
    }
    pub fn raw(bytes: Vec<u8>) -> Target {
        Target { bytes, fields: Vec::new(), props: Vec::new() }
    }
    /// Container header in front, for the uncompressed container.
    pub fn shifted(mut self, by: usize) -> Target {
        for f in &mut self.fields {
            f.off += by;
        }
        for p in &mut self.props {
            *p = (p.0 + by, p.1 + by);
        }
        self
    }
    pub fn with_container_fields(mut self) -> Target {
        self.fields.push(Field { off: 0, len: 4, kind: Fk::Len });
        self.fields.push(Field { off: 4, len: 4, kind: Fk::Len });
        self.fields.push(Field { off: 8, len: 3, kind: Fk::Magic });
        self.fields.push(Field { off: 11, len: 1, kind: Fk::Enum });
        self
    }

    /// Replaces a range and keeps the field map of everything outside of it.
    fn splice(&mut self, at: usize, del: usize, ins: &[u8]) {
        let end = at + del;
        self.bytes.splice(at..end, ins.iter().copied());
        let mv = |o: usize| if o >= end { o - del + ins.len() } else { o };
        self.fields.retain(|f| f.off + f.len <= at || f.off >= end);
        for f in &mut self.fields {
            f.off = mv(f.off);
        }
        self.props.retain(|p| p.1 <= at || p.0 >= end || (p.0 <= at && p.1 >= end));
        for p in &mut self.props {
            *p = (mv(p.0), mv(p.1));
        }
    }
    fn put(&mut self, at: usize, b: &[u8]) {
        let n = b.len().min(self.bytes.len().saturating_sub(at));
        self.bytes[at..at + n].copy_from_slice(&b[..n]);
    }
    fn of_kind(&self, k: &[Fk]) -> Vec<Field> {
        self.fields.iter().filter(|f| k.contains(&f.kind)).copied().collect()
    }
}

fn word(b: &[u8], at: usize) -> u32 {
    let mut w = [0u8; 4];
    for (i, x) in w.iter_mut().enumerate() {
        *x = b.get(at + i).copied().unwrap_or(0);
    }
    u32::from_le_bytes(w)
}

/// Values of a length or count that steer a reader astray.
fn steer(c: &mut Ctx, old: u32, len: usize) -> u32 {
    let l = len as u32;
    match c.choose(FAULT, 30) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => u32::MAX,
        4 => u32::MAX - 1,
        5 => i32::MIN as u32,
        6 => i32::MAX as u32,
        7 => l,
        8 => l + 1,
        9 => l.wrapping_sub(1),
        10 => old.wrapping_add(1),
        11 => old.wrapping_sub(1),
        12 => old.wrapping_mul(2),
        13 => old.wrapping_neg(),
        14 => 131072,
        15 => 131073,
        16 => (-131072i32) as u32,
        17 => (-131073i32) as u32,
        18 => 1 << 24,
        19 => 1 << 28,
        20 => 1 << 30,
        21 => 3 << 30,
        22 => old ^ (1 << c.choose(FAULT, 32)),
        23 => 3,
        24 => 4,
        25 => 7,
        26 => 8,
        27 => old.wrapping_add(c.choose(FAULT, 16) as u32),
        28 => old.wrapping_sub(c.choose(FAULT, 16) as u32),
        _ => ((c.choose(FAULT, 1 << 16) as u32) << 16) | c.choose(FAULT, 1 << 16) as u32,
    }
}

const TYPES: &[&str] = &[
    "BoolProperty", "Int8Property", "ByteProperty", "Int16Property", "UInt16Property", "IntProperty", "UInt32Property",
    "Int64Property", "UInt64Property", "FloatProperty", "DoubleProperty", "EnumProperty", "StrProperty", "NameProperty",
    "ObjectProperty", "DelegateProperty", "MulticastInlineDelegateProperty", "MulticastSparseDelegateProperty",
    "FieldPathProperty", "TextProperty", "ArrayProperty", "SetProperty", "MapProperty", "StructProperty", "UnknownThing",
    "Vector", "Vector2D", "Rotator", "Quat", "DateTime", "Timespan", "LinearColor", "IntPoint", "Guid",
    "GameplayTagContainer", "Custom", "None", "",
];

fn narrow(s: &str) -> Vec<u8> {
    let mut v = ((s.len() + 1) as u32).to_le_bytes().to_vec();
    v.extend_from_slice(s.as_bytes());
    v.push(0);
    v
}

/// A block of the bytes: a field, a property or any range.
fn block(c: &mut Ctx, t: &Target) -> (usize, usize) {
    let n = t.bytes.len();
    match c.weighted(FAULT, &[3, 3, 2, 2]) {
        0 if !t.fields.is_empty() => {
            let f = t.fields[c.choose(FAULT, t.fields.len())];
            (f.off.min(n), (f.off + f.len).min(n))
        }
        1 if !t.props.is_empty() => {
            let p = t.props[c.choose(FAULT, t.props.len())];
            (p.0.min(n), p.1.min(n))
        }
        2 if !t.fields.is_empty() => {
            // several consecutive fields
            let i = c.choose(FAULT, t.fields.len());
            let k = 1 + c.choose(FAULT, 6);
            let a = t.fields[i].off.min(n);
            let l = t.fields[(i + k).min(t.fields.len() - 1)];
            (a, (l.off + l.len).min(n).max(a))
        }
        _ => {
            let a = c.choose(FAULT, n + 1);
            let k = c.pick(FAULT, &[1usize, 2, 4, 8, 16, 64, 512, 4096]);
            (a, (a + 1 + c.choose(FAULT, k)).min(n))
        }
    }
}

/// One damaging event.
pub fn strike(c: &mut Ctx, t: &mut Target) {
    let n = t.bytes.len();
    if n == 0 {
        return;
    }
    match c.weighted(FAULT, &[4, 4, 9, 4, 2, 3, 3, 4, 2, 3, 1, 2, 3]) {
        0 => {
            let at = c.choose(FAULT, n);
            t.bytes[at] ^= 1 << c.choose(FAULT, 8);
            c.fault("flipped_bit");
        }
        1 => {
            let at = c.choose(FAULT, n);
            t.bytes[at] = c.pick(FAULT, &[0u8, 1, 2, 3, 4, 0x7F, 0x80, 0xFE, 0xFF, 0x20, 0x41]);
            c.fault("overwritten_byte");
        }
        2 => {
            let fs = t.of_kind(&[Fk::Count, Fk::SureCount, Fk::Len, Fk::FreeLen, Fk::Index, Fk::FreeIndex, Fk::StrLen, Fk::Version]);
            let f = if fs.is_empty() {
                Field { off: c.choose(FAULT, n), len: 4, kind: Fk::Len }
            } else {
                fs[c.choose(FAULT, fs.len())]
            };
            let v = steer(c, word(&t.bytes, f.off), n);
            t.put(f.off, &v.to_le_bytes());
            if f.len >= 8 {
                // the upper half of a wide field
                let high = match c.choose(FAULT, 6) {
                    0 | 1 => None,
                    2 | 3 => Some(u32::MAX),
                    4 => Some(c.pick(FAULT, &[i32::MAX as u32, i32::MIN as u32])),
                    _ => Some(1 << c.choose(FAULT, 32)),
                };
                if let Some(h) = high {
                    t.put(f.off + 4, &h.to_le_bytes());
                }
            }
            c.fault("length_field");
        }
        3 => {
            let fs = t.of_kind(&[Fk::Enum, Fk::Bool, Fk::Sep, Fk::Flags]);
            if fs.is_empty() {
                return;
            }
            let f = fs[c.choose(FAULT, fs.len())];
            let v = match c.choose(FAULT, 3) {
                0 => c.choose(FAULT, 16) as u8,
                1 => 0xF0 | c.choose(FAULT, 16) as u8,
                _ => c.choose(FAULT, 256) as u8,
            };
            t.put(f.off, &[v]);
            c.fault("enum_field");
        }
        4 => {
            let (a, b) = block(c, t);
            t.bytes[a..b].fill(0);
            c.fault("zeroed_block");
        }
        5 => {
            let (a, b) = block(c, t);
            t.splice(a, b - a, &[]);
            c.fault("lost_block");
        }
        6 => {
            let (a, b) = block(c, t);
            let copy = t.bytes[a..b].to_vec();
            let k = 1 + c.choose(FAULT, 3);
            for _ in 0..k {
                t.splice(b, 0, &copy);
            }
            c.fault("duplicated_block");
        }
        7 => {
            // another type name, in place
            let fs: Vec<(Field, Field)> =
                t.fields.windows(2).filter(|w| matches!(w[1].kind, Fk::TypeName | Fk::FixedName) && w[0].off + 4 == w[1].off).map(|w| (w[0], w[1])).collect();
            if fs.is_empty() {
                return;
            }
            let (l, b) = fs[c.choose(FAULT, fs.len())];
            let s = c.pick(FAULT, TYPES);
            if b.off + b.len <= t.bytes.len() {
                t.splice(l.off, 4 + b.len, &narrow(s));
                c.fault("transplanted_block");
            }
        }
        8 => {
            let (a, b) = block(c, t);
            let (x, y) = block(c, t);
            let copy = t.bytes[a..b].to_vec();
            if c.choose(FAULT, 2) == 0 {
                t.put(x, &copy);
            } else {
                t.splice(x, y - x, &copy);
            }
            c.fault("transplanted_block");
        }
        9 => {
            let at = if t.fields.is_empty() || c.choose(FAULT, 3) == 0 {
                c.choose(FAULT, n)
            } else {
                let f = t.fields[c.choose(FAULT, t.fields.len())];
                (f.off + c.choose(FAULT, f.len + 1)).min(n)
            };
            t.splice(at, n - at, &[]);
            c.fault("truncated");
        }
        10 => {
            let k = 1 + c.choose(FAULT, 200);
            let mut r = Rng::new(c.choose(FAULT, 1 << 16) as u64);
            let g: Vec<u8> = (0..k).map(|_| r.next() as u8).collect();
            let at = t.bytes.len();
            t.splice(at, 0, &g);
            c.fault("garbage_appended");
        }
        11 => {
            let (a, b) = block(c, t);
            let (x, y) = block(c, t);
            if b <= x {
                let mut s = t.bytes[x..y].to_vec();
                s.extend_from_slice(&t.bytes[b..x]);
                s.extend_from_slice(&t.bytes[a..b]);
                t.splice(a, y - a, &s);
                c.fault("swapped_blocks");
            }
        }
        _ => {
            // the same opening fields over and over: runaway nesting
            if t.fields.is_empty() {
                return;
            }
            let i = c.choose(FAULT, t.fields.len());
            let texty: Vec<usize> = t.fields.windows(2).enumerate().filter(|(_, w)| w[0].kind == Fk::Flags && w[1].kind == Fk::Enum).map(|(i, _)| i).collect();
            let (a, unit) = if !texty.is_empty() && c.choose(FAULT, 2) == 0 {
                // a text whose history wraps a text, which wraps a text, …
                let a = t.fields[texty[c.choose(FAULT, texty.len())]].off;
                let e = c.pick(FAULT, &[10u8, 1, 2, 3, 10]);
                (a, vec![0, 0, 0, 0, e])
            } else if !t.props.is_empty() && c.choose(FAULT, 2) == 0 {
                let p = t.props[c.choose(FAULT, t.props.len())];
                let inner: Vec<usize> = t.fields.iter().filter(|f| f.off > p.0 && f.off <= p.1).map(|f| f.off).collect();
                if inner.is_empty() {
                    return;
                }
                let seps: Vec<usize> = t.fields.iter().filter(|f| f.off > p.0 && f.off < p.1 && f.kind == Fk::Sep).map(|f| f.off + 1).collect();
                let e = if !seps.is_empty() && c.choose(FAULT, 4) != 0 { seps[c.choose(FAULT, seps.len().min(2))] } else { inner[c.choose(FAULT, inner.len())] };
                (p.0, t.bytes[p.0.min(n)..e.min(n)].to_vec())
            } else {
                let a = t.fields[i].off.min(n);
                let l = t.fields[(i + c.choose(FAULT, 8)).min(t.fields.len() - 1)];
                (a, t.bytes[a..(l.off + l.len).min(n).max(a)].to_vec())
            };
            if unit.is_empty() || a > n {
                return;
            }
            let want = c.pick(FAULT, &[40usize, 200, 1000, 6000, 40_000, 200_000]);
            let k = want.min((2 << 20) / unit.len()).max(1);
            let big = unit.repeat(k);
            t.splice(a, 0, &big);
            c.fault("nested_block");
        }
    }
}

pub fn damage(c: &mut Ctx, t: &mut Target) {
    let n = 1 + c.weighted(FAULT, &[6, 3, 2, 1]);
    for _ in 0..n {
        if t.bytes.len() > 6 << 20 {
            break;
        }
        strike(c, t);
    }
}
