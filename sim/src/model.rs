//! The reference model: a plain tree describing a save, independent of the
//! library's types, and the generator that draws one from a choice stream.

use crate::ctx::{Ctx, DOC, Rng};
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Debug)]
pub enum ByteV {
    Byte(u8),
    Ns(String),
}

/// A property. Floats are kept as bits so that NaN and -0.0 compare exactly.
#[derive(Clone, PartialEq, Debug)]
pub enum P {
    Bool(bool),
    I8(i8),
    Byte { name: Option<String>, v: ByteV },
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    F32(u32),
    F64(u64),
    Enum { ty: Option<String>, v: String },
    Str(Option<String>),
    Name { idx: u32, v: Option<String> },
    Obj(String),
    Deleg(String, String),
    MInline(Vec<(String, String)>),
    MSparse(Vec<(String, String)>),
    FieldPath(Vec<String>, String),
    Text(T),
    /// `special`: held in the element-type specific representation.
    Arr { ty: String, els: Vec<P>, special: bool },
    ArrStruct { field: String, ty: String, guid: [u8; 16], els: Vec<SV> },
    Set { ty: String, flags: u32, els: Vec<P> },
    /// `special`: 0 general, 1 keyed by string, 2 keyed by string with plain values.
    Map { kt: String, vt: String, flags: u32, es: Vec<(P, P)>, special: u8 },
    Struct { ty: String, guid: [u8; 16], v: SV },
    /// A struct without header (element of a set or map).
    SVal(SV),
    Unknown { ty: String, raw: Vec<u8> },
    /// Something the projection does not know (a representation added later).
    Opaque(String),
}

#[derive(Clone, PartialEq, Debug)]
pub enum SV {
    VecF(Vec<u32>),
    VecD(Vec<u64>),
    Vec2F(Vec<u32>),
    Vec2D(Vec<u64>),
    RotF(Vec<u32>),
    RotD(Vec<u64>),
    QuatF(Vec<u32>),
    QuatD(Vec<u64>),
    DateTime(u64),
    Timespan(u64),
    Guid([u8; 16]),
    Color(Vec<u32>),
    IntPoint(i32, i32),
    Tags(Vec<String>),
    Custom(Vec<(String, Vec<P>)>),
    Opaque(String),
}

#[derive(Clone, PartialEq, Debug)]
pub struct T {
    pub flags: u32,
    pub h: H,
}

#[derive(Clone, PartialEq, Debug)]
pub struct NumOpt {
    pub sign: bool,
    pub group: bool,
    pub round: i8,
    pub digits: [i32; 4],
}

#[derive(Clone, PartialEq, Debug)]
pub enum H {
    Empty,
    None(Option<String>),
    Base(Option<String>, Option<String>, Option<String>),
    Named(Box<T>, Vec<(String, A)>),
    Ordered(Box<T>, Vec<A>),
    Argument(Box<T>, Vec<(String, A)>),
    Number(Box<A>, Option<NumOpt>, Option<String>),
    Percent(Box<A>, Option<NumOpt>, Option<String>),
    Currency(Option<String>, Box<A>, Option<NumOpt>, Option<String>),
    Date(u64, i8, String),
    Time(u64, i8, String, String),
    DateTime(u64, i8, i8, String, String),
    Transform(Box<T>, i8),
    Table(String, String),
    Opaque(String),
}

#[derive(Clone, PartialEq, Debug)]
pub enum A {
    Int(i32),
    UInt(u32),
    Float(u32),
    Double(u64),
    Text(T),
    Int64(i64),
    UInt64(u64),
    Opaque(String),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Hdr {
    pub pfv: u32,
    pub ue5: Option<u32>,
    pub eng: (u16, u16, u16, u32, String),
    pub cvf: u32,
    pub cvs: Vec<([u8; 16], u32)>,
    pub class: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Container {
    Plain,
    PlzNone,
    PlzZlib,
    PlzTwice,
}

impl Container {
    pub fn compressed(self) -> bool {
        matches!(self, Container::PlzZlib | Container::PlzTwice)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Doc {
    pub container: Container,
    pub hdr: Hdr,
    pub props: Vec<(String, P)>,
}

/// Feature switches a version table turns on. The numbers are the format's, not
/// read from the library.
#[derive(Clone, Copy, Debug)]
pub struct Feat {
    pub lwc: bool,
    pub fmt64: bool,
    pub culture: bool,
}

fn guid_u32(v: [u32; 4]) -> [u8; 16] {
    let mut g = [0u8; 16];
    for (i, w) in v.iter().enumerate() {
        g[i * 4..i * 4 + 4].copy_from_slice(&w.to_le_bytes());
    }
    g
}

pub fn guid_ue5_release() -> [u8; 16] {
    guid_u32([0xD89B5E42, 0x24BD4D46, 0x8412ACA8, 0xDF641779])
}
pub fn guid_editor() -> [u8; 16] {
    guid_u32([0xE4B068ED, 0xF49442E9, 0xA231DA0B, 0x2E46BB41])
}
pub const V_FMT64: u32 = 12;
pub const V_LWC: u32 = 28;
pub const V_CULTURE: u32 = 32;

impl Hdr {
    pub fn feat(&self) -> Feat {
        let get = |g: [u8; 16]| self.cvs.iter().find(|c| c.0 == g).map(|c| c.1).unwrap_or(0);
        let ue5 = get(guid_ue5_release());
        Feat { lwc: ue5 >= V_LWC, fmt64: ue5 >= V_FMT64, culture: get(guid_editor()) >= V_CULTURE }
    }
}

impl P {
    pub fn type_name(&self) -> &str {
        match self {
            P::Bool(_) => "BoolProperty",
            P::I8(_) => "Int8Property",
            P::Byte { .. } => "ByteProperty",
            P::I16(_) => "Int16Property",
            P::U16(_) => "UInt16Property",
            P::I32(_) => "IntProperty",
            P::U32(_) => "UInt32Property",
            P::I64(_) => "Int64Property",
            P::U64(_) => "UInt64Property",
            P::F32(_) => "FloatProperty",
            P::F64(_) => "DoubleProperty",
            P::Enum { .. } => "EnumProperty",
            P::Str(_) => "StrProperty",
            P::Name { .. } => "NameProperty",
            P::Obj(_) => "ObjectProperty",
            P::Deleg(..) => "DelegateProperty",
            P::MInline(_) => "MulticastInlineDelegateProperty",
            P::MSparse(_) => "MulticastSparseDelegateProperty",
            P::FieldPath(..) => "FieldPathProperty",
            P::Text(_) => "TextProperty",
            P::Arr { .. } | P::ArrStruct { .. } => "ArrayProperty",
            P::Set { .. } => "SetProperty",
            P::Map { .. } => "MapProperty",
            P::Struct { .. } | P::SVal(_) => "StructProperty",
            P::Unknown { ty, .. } => ty,
            P::Opaque(_) => "?",
        }
    }
}

/// Which representation the library uses for an array of this element type.
pub fn arr_special(ty: &str, els: &[P]) -> bool {
    match ty {
        "BoolProperty" | "EnumProperty" | "IntProperty" | "FloatProperty" | "NameProperty" | "StrProperty" => true,
        "ByteProperty" => els.iter().all(|e| matches!(e, P::Byte { v: ByteV::Byte(_), .. })),
        _ => false,
    }
}

pub fn map_special(kt: &str, vt: &str, flags: u32, es: &[(P, P)]) -> u8 {
    if flags != 0
        || !matches!(kt, "EnumProperty" | "NameProperty" | "StrProperty")
        || es.iter().any(|(k, _)| matches!(k, P::Name { v: None, .. } | P::Str(None)))
    {
        return 0;
    }
    match (kt, vt) {
        (_, "BoolProperty" | "IntProperty") | ("StrProperty", "StrProperty") => 2,
        _ => 1,
    }
}

// ---------------------------------------------------------------------------
// Generator

pub const ALL_KINDS: usize = 26;

pub struct Gen<'c> {
    pub c: &'c mut Ctx,
    pub budget: i64,
    /// path -> struct type, for structs stored without a header
    pub hints: BTreeMap<String, String>,
    pub feat: Feat,
    pub mask: u32,
    pub big: bool,
    pub want_hints: bool,
    path: Vec<String>,
    uniq: usize,
}

const WORDS: &[&str] = &[
    "a", "Health", "None", "Player", "x", "StructProperty", "Key", "Value", "/Game/Maps/L_01.L_01", "ETest::Two", "0",
    "Inventory", "IntProperty", "Some Text", "GVAS", "none", "NONE", "None ", " None", "None_0", "NoneProperty", "Vector", "Guid",
    "DateTime", "BoolProperty", "ByteProperty", "NameProperty", "EnumProperty", "StrProperty", "MapProperty", "ArrayProperty", "Byte",
    "Namespaced", "type", "type_name", "history", "guid", "value", "true", "null", "-1", "1e9", "\u{FEFF}", "\u{FEFF}a", " a ", "a\t", "A", "\r\n",
    "\\", "\"", "a.b", "Key.Value", ".", "::", "ETest::", "e\u{301}", "\u{e9}",
];
const BOUNDARY: &[usize] = &[1, 2, 3, 7, 8, 15, 16, 31, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 2047, 4095, 4096];
const BIGLEN: &[usize] = &[8191, 8192, 16384, 32767, 32768, 65535, 65536, 131070, 131071];
const CUSTOM_TYPES: &[&str] = &["CustomStruct", "Inv", "FSlot", "Transform", "vector", "Guid2", "", "Vector3"];
const UNKNOWN_TYPES: &[&str] = &["SoftObjectProperty", "InterfaceProperty", "WeakObjectProperty", "FooProperty", "intproperty", ""];

impl<'c> Gen<'c> {
    pub fn new(c: &'c mut Ctx, budget: i64, big: bool) -> Self {
        // Swarm: half of the runs use a random subset of the property kinds.
        let mask = if c.chance(DOC, 1, 2) {
            let m = (c.choose(DOC, 1 << 13) as u32) | ((c.choose(DOC, 1 << 13) as u32) << 13);
            if m == 0 { u32::MAX } else { m }
        } else {
            u32::MAX
        };
        Gen {
            c,
            budget,
            hints: BTreeMap::new(),
            feat: Feat { lwc: false, fmt64: false, culture: false },
            mask,
            big,
            want_hints: false,
            path: Vec::new(),
            uniq: 0,
        }
    }

    fn choose(&mut self, n: usize) -> usize {
        self.c.choose(DOC, n)
    }
    fn weighted(&mut self, w: &[u32]) -> usize {
        self.c.weighted(DOC, w)
    }

    pub fn u32(&mut self) -> u32 {
        match self.weighted(&[4, 4, 2, 2]) {
            0 => self.choose(4) as u32,
            1 => self.choose(1 << 16) as u32,
            2 => [u32::MAX, i32::MAX as u32, i32::MIN as u32, 0x8000, 0xFF, 0x100, u32::MAX - 1][self.choose(7)],
            _ => ((self.choose(1 << 16) as u32) << 16) | self.choose(1 << 16) as u32,
        }
    }
    pub fn u64(&mut self) -> u64 {
        let lo = self.u32() as u64;
        match self.weighted(&[3, 3, 1]) {
            0 => lo,
            1 => lo | ((self.u32() as u64) << 32),
            _ => [u64::MAX, i64::MAX as u64, i64::MIN as u64, 1 << 32, 1 << 52][self.choose(5)],
        }
    }
    pub fn f32(&mut self) -> u32 {
        match self.weighted(&[3, 3, 2]) {
            0 => (self.choose(1000) as f32 * 0.25 - 20.0).to_bits(),
            1 => self.u32(),
            _ => [0, 0x8000_0000, 0x7FC0_0000, 0x7F80_0000, 0xFF80_0000, 0x7FA0_0001, 0xFFFF_FFFF, 1][self.choose(8)],
        }
    }
    pub fn f64(&mut self) -> u64 {
        match self.weighted(&[3, 3, 2]) {
            0 => (self.choose(1000) as f64 * 0.25 - 20.0).to_bits(),
            1 => self.u64(),
            _ => [0, 1 << 63, 0x7FF8 << 48, 0x7FF0 << 48, 0xFFF0 << 48, 0x7FF4_0000_0000_0001, u64::MAX, 1][self.choose(8)],
        }
    }
    pub fn guid(&mut self) -> [u8; 16] {
        let mut g = [0u8; 16];
        match self.weighted(&[8, 12, 1]) {
            0 => {}
            2 => {
                // nearly zero
                let i = self.choose(16);
                g[i] = [1, 0x80, 0xFF][self.choose(3)];
            }
            _ => {
                let mut r = Rng::new(self.choose(1 << 20) as u64);
                g[..8].copy_from_slice(&r.next().to_le_bytes());
                g[8..].copy_from_slice(&r.next().to_le_bytes());
            }
        }
        g
    }

    pub fn len_boundary(&mut self) -> usize {
        if self.big && self.c.chance(DOC, 1, 4) {
            self.c.pick(DOC, BIGLEN)
        } else {
            self.c.pick(DOC, BOUNDARY)
        }
    }

    /// Filler text of a given number of characters.
    fn fill(&mut self, n: usize, set: &[char]) -> String {
        let mut r = Rng::new(self.choose(1 << 16) as u64 ^ 0xF111);
        (0..n).map(|_| set[r.below(set.len() as u64) as usize]).collect()
    }

    pub fn s(&mut self) -> String {
        const ASCII: &[char] = &['a', 'b', 'Z', '0', '_', ' ', '.', '/', '\u{7f}', '~', '\n', '-'];
        const LATIN: &[char] = &['é', 'ß', '\u{80}', 'ÿ', 'a', 'b', '¤'];
        const BMP: &[char] = &['日', '本', 'Ж', '\u{FFFD}', '\u{D7FF}', '\u{E000}', 'x', '\u{100}', '\u{2028}', '\u{FFFF}', '\u{FEFF}'];
        const ASTRAL: &[char] = &['🙂', '𝄞', 'a', '\u{10FFFF}', 'é'];
        match self.weighted(&[30, 12, 20, 8, 7, 6, 3, 4, 5, 3, 4]) {
            0 => WORDS[self.choose(WORDS.len())].to_string(),
            1 => String::new(),
            2 => {
                let n = self.choose(24);
                self.fill(n, ASCII)
            }
            3 => {
                let n = 1 + self.choose(12);
                self.fill(n, LATIN)
            }
            4 => {
                let n = 1 + self.choose(12);
                self.fill(n, BMP)
            }
            5 => {
                let n = 1 + self.choose(8);
                self.fill(n, ASTRAL)
            }
            6 => {
                let n = 1 + self.choose(5);
                self.fill(n, &['\0', 'a'])
            }
            7 => {
                let n = self.len_boundary();
                self.budget -= n as i64 / 64;
                self.fill(n, ASCII)
            }
            8 => {
                // a single character outside ASCII, somewhere
                let n = if self.choose(2) == 0 { self.choose(20) } else { self.len_boundary().min(8192) };
                self.budget -= n as i64 / 64;
                let at = match self.choose(3) {
                    0 => n,
                    1 => 0,
                    _ => self.choose(n + 1),
                };
                let odd = ['é', '\u{80}', '日', '🙂'][self.choose(4)];
                let (mut s, t) = (self.fill(at, ASCII), self.fill(n - at, ASCII));
                s.push(odd);
                s + &t
            }
            10 => {
                // any character at all, from one plane
                let n = 1 + self.choose(10);
                let top = [0x80, 0x100, 0x800, 0x10000, 0x110000][self.choose(5)];
                let mut r = Rng::new(self.choose(1 << 16) as u64 ^ 0xA11);
                (0..n).map(|_| char::from_u32(r.below(top) as u32).unwrap_or('?')).collect()
            }
            _ => {
                let n = self.len_boundary().min(131071);
                self.budget -= n as i64 / 32;
                self.fill(n, BMP)
            }
        }
    }
    pub fn fs(&mut self) -> Option<String> {
        if self.c.chance(DOC, 1, 8) { None } else { Some(self.s()) }
    }
    /// A property or field name: anything but the end marker, unique in `taken`.
    fn name(&mut self, taken: &dyn Fn(&str) -> bool) -> String {
        let mut n = self.s();
        while n == "None" || taken(&n) {
            self.uniq += 1;
            n = format!("{}_{}", if n.len() > 64 || n == "None" { "F" } else { &n }, self.uniq);
        }
        n
    }

    pub fn count(&mut self, cheap: bool) -> usize {
        if self.budget <= 0 {
            return self.choose(2);
        }
        let n = match self.weighted(&[20, 6, 3, 1]) {
            0 => self.choose(4),
            1 => self.choose(9),
            2 => self.choose(30),
            _ => {
                if cheap {
                    self.len_boundary().min(20000)
                } else {
                    self.choose(60)
                }
            }
        };
        self.budget -= if cheap { n as i64 / 16 } else { n as i64 };
        n
    }

    /// Now and then a number of elements that does not fit eight or sixteen bits.
    fn lots(&mut self, heavy: usize) -> Option<usize> {
        if self.c.long {
            if self.budget <= 0 || !self.c.chance(DOC, 1, 3) {
                return None;
            }
            self.budget -= 30;
            let n = self.c.pick(DOC, &[2000usize, 500, 1000, 3000, 5000, 2500, 20000, 60000]);
            return Some(n.min(1_500_000 / (heavy + 8)).max(1));
        }
        if self.budget <= 0 || !self.c.chance(DOC, 1, if self.big { 10 } else { 80 }) {
            return None;
        }
        let n = if self.big && self.choose(3) == 0 {
            self.c.pick(DOC, &[65535usize, 65536, 65537, 70000])
        } else {
            self.c.pick(DOC, &[127usize, 128, 255, 256, 257, 300])
        };
        self.budget -= 30 + n as i64 / 64;
        let most = 1_500_000 / (heavy + 8);
        Some(if n > most { 300.min(most.max(1)) } else { n })
    }

    /// Many elements made of a few drawn ones, so that the choices stay few.
    fn repeat<V: Clone>(&mut self, n: usize, base: &[V]) -> Vec<V> {
        let mut r = Rng::new(self.choose(1 << 16) as u64 ^ 0x4E9);
        (0..n).map(|_| base[r.below(base.len() as u64) as usize].clone()).collect()
    }

    pub fn header(&mut self) -> Hdr {
        let v3 = self.choose(2) == 1;
        let mut cvs: Vec<([u8; 16], u32)> = Vec::new();
        let n = self.choose(4);
        for _ in 0..n {
            let g = self.guid();
            if !cvs.iter().any(|c| c.0 == g) && g != guid_ue5_release() && g != guid_editor() {
                let v = self.u32();
                cvs.push((g, v));
            }
        }
        if self.c.chance(DOC, 3, 5) {
            let v = [V_LWC, 0, V_FMT64, V_FMT64 - 1, V_LWC - 1, V_LWC + 1, 60, u32::MAX][self.choose(8)];
            let at = self.choose(cvs.len() + 1);
            cvs.insert(at, (guid_ue5_release(), v));
        }
        if self.c.chance(DOC, 3, 5) {
            let v = [V_CULTURE, 0, V_CULTURE - 1, V_CULTURE + 1, 40][self.choose(5)];
            let at = self.choose(cvs.len() + 1);
            cvs.insert(at, (guid_editor(), v));
        }
        let long = if self.c.chance(DOC, 1, 40) { Some(200) } else { self.lots(12) };
        if let Some(n) = long {
            // a long table
            let mut r = Rng::new(self.choose(1 << 16) as u64 ^ 0xC05);
            for _ in 0..n {
                let mut g = [0u8; 16];
                g[..8].copy_from_slice(&r.next().to_le_bytes());
                g[8..].copy_from_slice(&r.next().to_le_bytes());
                cvs.push((g, r.next() as u32));
            }
        }
        let eng = if self.choose(2) == 0 {
            (self.u32() as u16, self.u32() as u16, self.u32() as u16)
        } else {
            (4 + self.choose(2) as u16, self.choose(29) as u16, self.choose(5) as u16)
        };
        let h = Hdr {
            pfv: 0x205 + self.choose(9) as u32,
            ue5: if v3 { Some(1000 + self.choose(10) as u32) } else { None },
            eng: (eng.0, eng.1, eng.2, self.u32(), self.s()),
            cvf: 3,
            cvs,
            class: self.s(),
        };
        self.feat = h.feat();
        h
    }

    pub fn doc(&mut self, container: Container) -> Doc {
        let hdr = self.header();
        let n = self.count(false);
        let mut props: Vec<(String, P)> = Vec::new();
        for _ in 0..n {
            let name = {
                let taken: Vec<String> = props.iter().map(|p| p.0.clone()).collect();
                self.name(&|s| taken.iter().any(|t| t == s))
            };
            self.path.push(name.clone());
            let p = self.prop(0);
            self.path.pop();
            props.push((name, p));
        }
        if let Some(n) = self.lots(60) {
            let base = self.small();
            props.extend(self.repeat(n, &base).into_iter().enumerate().map(|(i, p)| (format!("many{i}"), p)));
        }
        let more = if self.want_hints { 1 + self.choose(3) } else { 0 };
        for _ in 0..more {
            if self.hints.len() >= more {
                break;
            }
            let name = {
                let taken: Vec<String> = props.iter().map(|p| p.0.clone()).collect();
                self.name(&|s| taken.iter().any(|t| t == s))
            };
            self.path.push(name.clone());
            let p = if self.choose(2) == 0 { self.map(0) } else { self.set(0) };
            self.path.pop();
            props.push((name, p));
        }
        Doc { container, hdr, props }
    }

    /// A property called `name` at top level of a document with these features.
    pub fn at_top(&mut self, name: &str) -> P {
        self.path.push(name.into());
        let p = self.prop(0);
        self.path.pop();
        p
    }

    /// One collection with more elements than sixteen bits count, the same for
    /// every kind of collection there is.
    pub fn huge(&mut self) -> P {
        let n = self.c.pick(DOC, &[65536usize, 65535, 65537, 70000, 66000, 131072]);
        let k = self.choose(26);
        let s = |i: usize| format!("{i:x}");
        let arr = |ty: &str, els: Vec<P>| P::Arr { ty: ty.into(), special: arr_special(ty, &els), els };
        let map = |kt: &str, vt: &str, es: Vec<(P, P)>| P::Map { kt: kt.into(), vt: vt.into(), flags: 0, special: map_special(kt, vt, 0, &es), es };
        let strct = |ty: &str, v: SV| P::Struct { ty: ty.into(), guid: [0; 16], v };
        let text = |h: H| P::Text(T { flags: 0, h });
        let none = || Box::new(T { flags: 0, h: H::Empty });
        let arg = |i: usize| A::Float(i as u32 & 0xFF);
        match k {
            0 => arr("NameProperty", (0..n).map(|_| P::Name { idx: 0, v: None }).collect()),
            1 => arr("StrProperty", (0..n).map(|i| P::Str(if i % 3 == 0 { Some(String::new()) } else { None })).collect()),
            2 => arr("BoolProperty", (0..n).map(|i| P::Bool(i % 3 == 0)).collect()),
            3 => arr("ByteProperty", (0..n).map(|i| P::Byte { name: None, v: ByteV::Byte(i as u8) }).collect()),
            4 => arr("EnumProperty", (0..n).map(|_| P::Enum { ty: None, v: "E".into() }).collect()),
            5 => arr("IntProperty", (0..n).map(|i| P::I32(i as i32)).collect()),
            6 => arr("FloatProperty", (0..n).map(|i| P::F32(i as u32)).collect()),
            7 => arr("UInt16Property", (0..n).map(|i| P::U16(i as u16)).collect()),
            8 => arr("ObjectProperty", (0..n).map(|_| P::Obj("o".into())).collect()),
            9 => P::ArrStruct { field: "f".into(), ty: "IntPoint".into(), guid: [0; 16], els: (0..n).map(|i| SV::IntPoint(i as i32, -1)).collect() },
            10 => P::ArrStruct { field: "f".into(), ty: "Entry".into(), guid: [0; 16], els: vec![SV::Custom(vec![]); n] },
            11 => P::Set { ty: "IntProperty".into(), flags: 0, els: (0..n).map(|i| P::I32(i as i32)).collect() },
            12 => P::Set { ty: "StrProperty".into(), flags: 0, els: (0..n).map(|i| P::Str(Some(s(i)))).collect() },
            13 => map("StrProperty", "BoolProperty", (0..n).map(|i| (P::Str(Some(s(i))), P::Bool(i % 2 == 0))).collect()),
            14 => map("StrProperty", "IntProperty", (0..n).map(|i| (P::Str(Some(s(i))), P::I32(i as i32))).collect()),
            15 => map("StrProperty", "StrProperty", (0..n).map(|i| (P::Str(Some(s(i))), P::Str(None))).collect()),
            16 => map("NameProperty", "IntProperty", (0..n).map(|i| (P::Name { idx: 0, v: Some(s(i)) }, P::I32(i as i32))).collect()),
            17 => map("NameProperty", "BoolProperty", (0..n).map(|i| (P::Name { idx: 0, v: Some(s(i)) }, P::Bool(true))).collect()),
            18 => map("EnumProperty", "BoolProperty", (0..n).map(|i| (P::Enum { ty: None, v: s(i) }, P::Bool(true))).collect()),
            19 => map("EnumProperty", "IntProperty", (0..n).map(|i| (P::Enum { ty: None, v: s(i) }, P::I32(i as i32))).collect()),
            20 => {
                let kt = self.c.pick(DOC, &["StrProperty", "NameProperty", "EnumProperty", "IntProperty"]);
                let key = |i: usize| match kt {
                    "StrProperty" => P::Str(Some(s(i))),
                    "NameProperty" => P::Name { idx: 0, v: Some(s(i)) },
                    "EnumProperty" => P::Enum { ty: None, v: s(i) },
                    _ => P::I32(i as i32),
                };
                map(kt, "FloatProperty", (0..n).map(|i| (key(i), P::F32(i as u32))).collect())
            }
            21 => strct("GameplayTagContainer", SV::Tags((0..n).map(|i| if i % 2 == 0 { "t".into() } else { "u.v".into() }).collect())),
            22 => match self.choose(3) {
                0 => P::MInline(vec![("a".into(), "b".into()); n]),
                1 => P::MSparse(vec![("a".into(), "b".into()); n]),
                _ => P::FieldPath(vec!["a".into(); n], "b".into()),
            },
            23 => text(H::Ordered(none(), (0..n).map(arg).collect())),
            24 => {
                let v = (0..n).map(|i| (s(i), arg(i))).collect();
                text(if self.choose(2) == 0 { H::Named(none(), v) } else { H::Argument(none(), v) })
            }
            _ => {
                let v = if self.choose(2) == 0 {
                    vec![("f".to_string(), (0..n).map(|i| P::I8(i as i8)).collect())]
                } else {
                    (0..n).map(|i| (s(i), vec![P::I8(i as i8)])).collect()
                };
                strct("Entry", SV::Custom(v))
            }
        }
    }

    fn small(&mut self) -> Vec<P> {
        (0..3)
            .map(|_| {
                let k = [0, 1, 3, 5, 9, 11][self.choose(6)];
                match self.scalar(k, true) {
                    P::Enum { .. } => P::Enum { ty: Some("E".into()), v: "E::V".into() },
                    p => p,
                }
            })
            .collect()
    }

    /// Structs within structs, arrays of structs, sets of structs or maps to structs.
    fn chain(&mut self, left: usize, depth: usize) -> P {
        if left == 0 || self.path.len() > 90 {
            // Deep down there may be structs that need a hint.
            return match self.choose(if self.want_hints { 4 } else { 2 }) {
                0 => self.prop(9),
                1 => self.prop(5),
                2 => self.set(5),
                _ => self.map(5),
            };
        }
        let link = self.choose(if self.want_hints { 5 } else { 3 });
        let steps: &[&str] = match link {
            0 => &["ArrayProperty"],
            1 | 2 => &["StructProperty"],
            3 => &["SetProperty", "StructProperty"],
            _ => &["MapProperty", "Value", "StructProperty"],
        };
        let ty = "Link".to_string();
        let outside = self.path.len();
        self.path.extend(steps.iter().map(|s| s.to_string()));
        let path = self.path.join(".");
        if link >= 3 {
            // Elements of a static array share their path.
            match self.hints.get(&path) {
                Some(t) if BUILTIN.contains(&t.as_str()) => {
                    self.path.truncate(outside);
                    return self.prop(9);
                }
                Some(_) => {}
                None => {
                    self.hints.insert(path, ty.clone());
                }
            }
        }
        let name = if self.choose(2) == 0 { "Next".to_string() } else { self.name(&|_| false) };
        self.path.push(name.clone());
        let p = self.chain(left - 1, depth + 1);
        self.path.truncate(outside);
        let mut fields = vec![(name, vec![p])];
        if self.choose(3) == 0 && fields[0].0 != "after" {
            fields.push(("after".into(), vec![P::I32(depth as i32)]));
        }
        let v = SV::Custom(fields);
        match link {
            0 => P::ArrStruct { field: "links".into(), ty, guid: [0; 16], els: vec![v] },
            1 | 2 => P::Struct { ty, guid: [0; 16], v },
            3 => P::Set { ty: "StructProperty".into(), flags: 0, els: vec![P::SVal(v)] },
            _ => {
                let (kt, vt) = ("IntProperty".to_string(), "StructProperty".to_string());
                let es = vec![(P::I32(depth as i32), P::SVal(v))];
                let special = map_special(&kt, &vt, 0, &es);
                P::Map { kt, vt, flags: 0, es, special }
            }
        }
    }

    /// A single property as found at `path` with header.
    pub fn prop_at(&mut self, path: &[String]) -> P {
        self.path = path.to_vec();
        self.prop(0)
    }

    /// A single property as stored without header at `path`.
    pub fn bare_at(&mut self, path: &[String]) -> P {
        self.path = path.to_vec();
        match self.weighted(&[5, 1, 2]) {
            0 => {
                let k = self.choose(20);
                let sh = Shape { ns: false, unk: UNKNOWN_TYPES[self.choose(UNKNOWN_TYPES.len())].to_string(), unk_len: self.choose(40) };
                self.element(k, &sh)
            }
            1 => P::Text(self.text(0)),
            _ => self.hinted_struct(0),
        }
    }

    fn kind(&mut self, depth: usize) -> usize {
        for _ in 0..4 {
            let k = if self.budget <= 0 || depth > 5 {
                self.choose(20)
            } else {
                self.weighted(&[
                    2, 1, 3, 1, 1, 2, 1, 1, 1, 2, 1, 3, 4, 3, 2, 1, 1, 1, 2, 2, // scalars 0..19
                    5, 7, 4, 4, 6, 6, // text, array, array of struct, set, map, struct
                ])
            };
            if self.mask & (1 << k) != 0 {
                return k;
            }
        }
        5
    }

    pub fn prop(&mut self, depth: usize) -> P {
        self.budget -= 1;
        if depth == 0 && self.c.chance(DOC, 1, 150) {
            let n = 3 + self.choose(42);
            return self.chain(n, 0);
        }
        let k = self.kind(depth);
        match k {
            20 => P::Text(self.text(0)),
            21 => self.array(),
            22 => self.array_struct(depth),
            23 => self.set(depth),
            24 => self.map(depth),
            25 => {
                let ty = self.struct_type();
                let guid = self.guid();
                self.path.push("StructProperty".into());
                let v = self.sv(&ty, depth + 1);
                self.path.pop();
                P::Struct { ty, guid, v }
            }
            k => self.scalar(k, true),
        }
    }

    pub fn scalar(&mut self, k: usize, header: bool) -> P {
        match k {
            0 => P::Bool(self.choose(2) == 1),
            1 => P::I8(self.u32() as i8),
            2 => {
                let name = if header { Some(self.s()) } else { None };
                let v = if self.choose(2) == 0 { ByteV::Byte(self.u32() as u8) } else { ByteV::Ns(self.s()) };
                P::Byte { name, v }
            }
            3 => P::I16(self.u32() as i16),
            4 => P::U16(self.u32() as u16),
            5 => P::I32(self.u32() as i32),
            6 => P::U32(self.u32()),
            7 => P::I64(self.u64() as i64),
            8 => P::U64(self.u64()),
            9 => P::F32(self.f32()),
            10 => P::F64(self.f64()),
            11 => P::Enum { ty: if header { Some(self.s()) } else { None }, v: self.s() },
            12 => P::Str(self.fs()),
            13 => {
                let idx = if header && self.c.chance(DOC, 1, 4) { self.u32() } else { 0 };
                P::Name { idx, v: self.fs() }
            }
            14 => P::Obj(self.s()),
            15 => P::Deleg(self.s(), self.s()),
            16 => P::MInline(self.pairs()),
            17 => P::MSparse(self.pairs()),
            18 => {
                let v = self.strings(4);
                P::FieldPath(v, self.s())
            }
            _ => {
                let ty = UNKNOWN_TYPES[self.choose(UNKNOWN_TYPES.len())].to_string();
                let n = if self.c.chance(DOC, 1, 10) { self.len_boundary() } else { self.choose(20) };
                self.budget -= n as i64 / 64;
                P::Unknown { ty, raw: self.blob(n) }
            }
        }
    }

    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        let mode = self.choose(3);
        let mut r = Rng::new(self.choose(1 << 16) as u64 ^ 0xB10B);
        (0..n)
            .map(|i| match mode {
                0 => r.next() as u8,
                1 => (i / 7) as u8,
                _ => 0,
            })
            .collect()
    }

    fn strings(&mut self, most: usize) -> Vec<String> {
        if let Some(n) = self.lots(16) {
            let base = ["a".to_string(), "Node".into(), String::new(), "日".into()];
            return self.repeat(n, &base);
        }
        let n = self.choose(most);
        (0..n).map(|_| self.s()).collect()
    }

    fn pairs(&mut self) -> Vec<(String, String)> {
        if let Some(n) = self.lots(30) {
            let base = [("a".to_string(), "On".to_string()), ("Owner".into(), String::new())];
            return self.repeat(n, &base);
        }
        let n = self.choose(4);
        (0..n).map(|_| (self.s(), self.s())).collect()
    }

    /// An element stored without header. `k` is a scalar kind, 20 is text.
    fn element(&mut self, k: usize, shape: &Shape) -> P {
        match k {
            2 => match shape.ns {
                true => P::Byte { name: None, v: ByteV::Ns(self.s()) },
                false => P::Byte { name: None, v: ByteV::Byte(self.u32() as u8) },
            },
            19 => P::Unknown { ty: shape.unk.clone(), raw: self.blob(shape.unk_len) },
            20 => P::Text(self.text(1)),
            k => self.scalar(k, false),
        }
    }

    fn elem_kind(&mut self) -> usize {
        // kinds with a representation of their own more often
        self.weighted(&[4, 1, 5, 1, 1, 4, 1, 1, 1, 4, 1, 4, 4, 4, 2, 1, 1, 1, 1, 3, 2])
    }

    fn shape(&mut self, unk: bool) -> Shape {
        Shape {
            ns: self.choose(2) == 1,
            unk: if unk { UNKNOWN_TYPES[self.choose(UNKNOWN_TYPES.len())].to_string() } else { String::new() },
            unk_len: 1 + self.choose(9),
        }
    }

    fn elem_type(k: usize, sh: &Shape) -> String {
        match k {
            2 => "ByteProperty".into(),
            19 => sh.unk.clone(),
            20 => "TextProperty".into(),
            k => SCALAR_TYPES[k].into(),
        }
    }

    fn array(&mut self) -> P {
        let k = self.elem_kind();
        let sh = self.shape(k == 19);
        let many = self.lots(0);
        let n = match many {
            Some(n) => n,
            None => self.count(k != 20),
        };
        let big = n > 64;
        let els: Vec<P> = if big {
            // many elements: repeat a few drawn ones so that the choice stream stays short
            let base: Vec<P> = (0..5).map(|_| self.element(k, &sh)).collect();
            let mut r = Rng::new(self.choose(1 << 16) as u64);
            let heavy = base.iter().map(weight).max().unwrap_or(1);
            let n = n.min((1_000_000 / heavy).max(3));
            (0..n).map(|_| base[r.below(5) as usize].clone()).collect()
        } else {
            (0..n).map(|_| self.element(k, &sh)).collect()
        };
        let ty = Self::elem_type(k, &sh);
        let special = arr_special(&ty, &els);
        P::Arr { ty, els, special }
    }

    fn array_struct(&mut self, depth: usize) -> P {
        let ty = self.struct_type();
        let n = self.count(false).min(12);
        let field = self.s();
        let guid = self.guid();
        self.path.push("ArrayProperty".into());
        let els = match self.lots(100) {
            Some(n) => {
                let base: Vec<SV> = if ty == "GameplayTagContainer" || !BUILTIN.contains(&ty.as_str()) {
                    match ty.as_str() {
                        "GameplayTagContainer" => vec![SV::Tags(vec![]), SV::Tags(vec!["a.b".into()])],
                        _ => vec![SV::Custom(vec![]), SV::Custom(vec![("x".into(), vec![P::Bool(true)])])],
                    }
                } else {
                    (0..3).map(|_| self.sv(&ty, depth + 1)).collect()
                };
                self.repeat(n, &base)
            }
            None => (0..n).map(|_| self.sv(&ty, depth + 1)).collect(),
        };
        self.path.pop();
        P::ArrStruct { field, ty, guid, els }
    }

    fn hinted_type(&mut self) -> String {
        let path = self.path.join(".");
        if let Some(t) = self.hints.get(&path) {
            return t.clone();
        }
        let t = self.struct_type();
        self.hints.insert(path, t.clone());
        t
    }

    fn hinted_struct(&mut self, depth: usize) -> P {
        self.path.push("StructProperty".into());
        let ty = self.hinted_type();
        let v = self.sv(&ty, depth + 1);
        self.path.pop();
        P::SVal(v)
    }

    pub fn set(&mut self, depth: usize) -> P {
        let structs = if self.want_hints { self.c.chance(DOC, 2, 3) } else { self.c.chance(DOC, 1, 3) };
        let flags = if self.c.chance(DOC, 1, 5) { self.u32() } else { 0 };
        self.path.push("SetProperty".into());
        let p = if structs {
            let n = self.count(false).min(6);
            let els = (0..n).map(|_| self.hinted_struct(depth)).collect();
            P::Set { ty: "StructProperty".into(), flags, els }
        } else {
            let k = self.elem_kind();
            let sh = self.shape(k == 19);
            let n = self.count(k != 20).min(300);
            let els: Vec<P> = (0..n).map(|_| self.element(k, &sh)).collect();
            let els = match self.lots(els.iter().map(weight).max().unwrap_or(0)) {
                Some(n) if !els.is_empty() => self.repeat(n, &els),
                _ => els,
            };
            P::Set { ty: Self::elem_type(k, &sh), flags, els }
        };
        self.path.pop();
        p
    }

    pub fn map(&mut self, depth: usize) -> P {
        let flags = if self.c.chance(DOC, 1, 5) { self.u32() } else { 0 };
        let hintw = if self.want_hints { 8 } else { 2 };
        // 21 = struct
        let kk = match self.weighted(&[5, 5, 5, 3, hintw]) {
            0 => 12,
            1 => 13,
            2 => 11,
            3 => self.choose(19),
            _ => 21,
        };
        let vk = match self.weighted(&[3, 3, 3, 4, hintw]) {
            0 => 0,
            1 => 5,
            2 => 12,
            3 => {
                let k = self.choose(20);
                if k == 19 { 20 } else { k }
            }
            _ => 21,
        };
        let sh = Shape { ns: false, unk: String::new(), unk_len: 0 };
        let n = self.count(kk < 20 && vk < 20).min(200);
        let mut es: Vec<(P, P)> = Vec::new();
        let mut norms: Vec<P> = Vec::new();
        self.path.push("MapProperty".into());
        for _ in 0..n {
            self.path.push("Key".into());
            let k = if kk == 21 { self.hinted_struct(depth) } else { self.element(kk, &sh) };
            self.path.pop();
            self.path.push("Value".into());
            let v = if vk == 21 { self.hinted_struct(depth) } else { self.element(vk, &sh) };
            self.path.pop();
            let nk = norm_key(&k);
            if !norms.contains(&nk) {
                norms.push(nk);
                es.push((k, v));
            }
        }
        if kk < 20
            && vk < 20
            && let Some((_, v)) = es.first().cloned()
            && let Some(n) = self.lots(30 + weight(&v))
        {
            for i in 0..n {
                let s = format!("many{i}");
                let k = match kk {
                    5 => P::I32(i as i32 - 9),
                    8 => P::U64(i as u64 * 77),
                    11 => P::Enum { ty: None, v: s },
                    12 => P::Str(Some(s)),
                    13 => P::Name { idx: 0, v: Some(s) },
                    _ => break,
                };
                if !matches!(k, P::I32(_) | P::U64(_)) || !norms.contains(&norm_key(&k)) {
                    es.push((k, v.clone()));
                }
            }
        }
        self.path.pop();
        let ty = |k: usize| -> String { if k == 21 { "StructProperty".into() } else { Self::elem_type(k, &sh) } };
        let (kt, vt) = (ty(kk), ty(vk));
        let special = map_special(&kt, &vt, flags, &es);
        P::Map { kt, vt, flags, es, special }
    }

    pub fn struct_type(&mut self) -> String {
        match self.weighted(&[5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2]) {
            0 => CUSTOM_TYPES[self.choose(CUSTOM_TYPES.len())].to_string(),
            k => BUILTIN[k - 1].to_string(),
        }
    }

    fn f32s(&mut self, n: usize) -> Vec<u32> {
        (0..n).map(|_| self.f32()).collect()
    }
    fn f64s(&mut self, n: usize) -> Vec<u64> {
        (0..n).map(|_| self.f64()).collect()
    }

    /// A struct body; `self.path` already ends where the library's path would.
    pub fn sv(&mut self, ty: &str, depth: usize) -> SV {
        let d = self.feat.lwc;
        match ty {
            "Vector" if d => SV::VecD(self.f64s(3)),
            "Vector" => SV::VecF(self.f32s(3)),
            "Vector2D" if d => SV::Vec2D(self.f64s(2)),
            "Vector2D" => SV::Vec2F(self.f32s(2)),
            "Rotator" if d => SV::RotD(self.f64s(3)),
            "Rotator" => SV::RotF(self.f32s(3)),
            "Quat" if d => SV::QuatD(self.f64s(4)),
            "Quat" => SV::QuatF(self.f32s(4)),
            "DateTime" => SV::DateTime(self.u64()),
            "Timespan" => SV::Timespan(self.u64()),
            "LinearColor" => SV::Color(self.f32s(4)),
            "IntPoint" => SV::IntPoint(self.u32() as i32, self.u32() as i32),
            "Guid" => SV::Guid(self.guid()),
            "GameplayTagContainer" => {
                SV::Tags(self.strings(5))
            }
            _ => {
                let n = if depth > 6 { self.choose(2) } else { self.count(false).min(8) };
                let mut fields: Vec<(String, Vec<P>)> = Vec::new();
                for _ in 0..n {
                    let name = {
                        let taken: Vec<String> = fields.iter().map(|p| p.0.clone()).collect();
                        self.name(&|s| taken.iter().any(|t| t == s))
                    };
                    if self.c.chance(DOC, 1, 10) {
                        // a static array
                        let m = 1 + self.choose(3);
                        let vals = match self.choose(3) {
                            0 => (0..m).map(|i| P::Name { idx: i as u32, v: self.fs() }).collect(),
                            // of which only some elements are stored
                            1 => (0..m).map(|_| P::Name { idx: self.u32(), v: self.fs() }).collect(),
                            // or of anything else
                            _ => {
                                self.path.push(name.clone());
                                let v = (0..m).map(|_| self.prop(depth + 1)).collect();
                                self.path.pop();
                                v
                            }
                        };
                        fields.push((name, vals));
                    } else {
                        self.path.push(name.clone());
                        let p = self.prop(depth + 1);
                        self.path.pop();
                        fields.push((name, vec![p]));
                    }
                }
                if let Some(n) = self.lots(60) {
                    let base = self.small();
                    let vals = self.repeat(n, &base);
                    if self.choose(2) == 0 {
                        fields.push(("manyvalues".into(), vals));
                    } else {
                        fields.extend(vals.into_iter().enumerate().map(|(i, p)| (format!("many{i}"), vec![p])));
                    }
                }
                SV::Custom(fields)
            }
        }
    }

    /// Texts within texts.
    fn text_chain(&mut self, left: usize) -> T {
        if left == 0 {
            return self.text(9);
        }
        let t = Box::new(self.text_chain(left - 1));
        let h = match self.choose(5) {
            0 => H::Transform(t, 0),
            1 => H::Named(t, vec![]),
            2 => H::Ordered(Box::new(T { flags: 0, h: H::Empty }), vec![A::Text(*t)]),
            3 => H::Number(Box::new(A::Text(*t)), None, None),
            _ => H::Argument(t, vec![]),
        };
        T { flags: left as u32, h }
    }

    pub fn text(&mut self, depth: usize) -> T {
        if depth == 0 && self.c.chance(DOC, 1, 100) {
            let n = 3 + self.choose(55);
            return self.text_chain(n);
        }
        let flags = if self.c.chance(DOC, 1, 3) { self.u32() } else { 0 };
        T { flags, h: self.history(depth) }
    }

    pub fn history(&mut self, depth: usize) -> H {
        let k = if depth > 3 || self.budget <= 0 { self.choose(5) } else { self.choose(14) };
        self.budget -= 1;
        match k {
            0 => H::Empty,
            1 => {
                if self.feat.culture {
                    H::None(self.fs())
                } else {
                    H::Empty
                }
            }
            2 => H::Base(self.fs(), self.fs(), self.fs()),
            3 => H::Table(self.s(), self.s()),
            4 => H::Date(self.u64(), self.choose(5) as i8, self.s()),
            5 => H::Time(self.u64(), self.choose(5) as i8, self.s(), self.s()),
            6 => H::DateTime(self.u64(), self.choose(5) as i8, self.choose(5) as i8, self.s(), self.s()),
            7 => H::Transform(Box::new(self.text(depth + 1)), self.choose(2) as i8),
            8 => H::Number(Box::new(self.arg(depth + 1)), self.numopt(), self.fs()),
            9 => H::Percent(Box::new(self.arg(depth + 1)), self.numopt(), self.fs()),
            10 => H::Currency(self.fs(), Box::new(self.arg(depth + 1)), self.numopt(), self.fs()),
            11 => H::Named(Box::new(self.text(depth + 1)), self.named(depth)),
            12 => {
                let t = self.text(depth + 1);
                if let Some(n) = self.lots(12) {
                    let base: Vec<A> = (0..3).map(|_| self.arg(9)).collect();
                    return H::Ordered(Box::new(t), self.repeat(n, &base));
                }
                let n = self.choose(4);
                H::Ordered(Box::new(t), (0..n).map(|_| self.arg(depth + 1)).collect())
            }
            _ => H::Argument(Box::new(self.text(depth + 1)), self.named(depth)),
        }
    }

    fn named(&mut self, depth: usize) -> Vec<(String, A)> {
        let n = self.choose(4);
        let mut v: Vec<(String, A)> = Vec::new();
        for _ in 0..n {
            let mut k = self.s();
            while v.iter().any(|x| x.0 == k) {
                self.uniq += 1;
                k = format!("arg{}", self.uniq);
            }
            let a = self.arg(depth + 1);
            v.push((k, a));
        }
        if let Some(n) = self.lots(30) {
            let base: Vec<A> = (0..3).map(|_| self.arg(9)).collect();
            v.extend(self.repeat(n, &base).into_iter().enumerate().map(|(i, a)| (format!("many{i}"), a)));
        }
        v
    }

    pub fn numopt(&mut self) -> Option<NumOpt> {
        if self.choose(2) == 0 {
            return None;
        }
        Some(NumOpt {
            sign: self.choose(2) == 1,
            group: self.choose(2) == 1,
            round: self.choose(7) as i8,
            digits: [self.u32() as i32, self.u32() as i32, self.u32() as i32, self.u32() as i32],
        })
    }

    pub fn arg(&mut self, depth: usize) -> A {
        let n = if depth > 3 { 4 } else { 5 };
        match self.choose(n) {
            0 => {
                if self.feat.fmt64 {
                    A::Int64(self.u64() as i64)
                } else {
                    A::Int(self.u32() as i32)
                }
            }
            1 => {
                if self.feat.fmt64 {
                    A::UInt64(self.u64())
                } else {
                    A::UInt(self.u32())
                }
            }
            2 => A::Float(self.f32()),
            3 => A::Double(self.f64()),
            _ => A::Text(self.text(depth + 1)),
        }
    }
}

/// Rough stored size of a scalar.
fn weight(p: &P) -> usize {
    8 + match p {
        P::Str(Some(s)) | P::Name { v: Some(s), .. } | P::Enum { v: s, .. } | P::Obj(s) => s.len(),
        P::Byte { v: ByteV::Ns(s), .. } => s.len(),
        P::Deleg(a, b) => a.len() + b.len(),
        P::MInline(v) | P::MSparse(v) => v.iter().map(|x| x.0.len() + x.1.len()).sum(),
        P::FieldPath(v, o) => o.len() + v.iter().map(|x| x.len()).sum::<usize>(),
        P::Unknown { raw, .. } => raw.len(),
        P::Text(t) => format!("{t:?}").len(),
        _ => 0,
    }
}

struct Shape {
    ns: bool,
    unk: String,
    unk_len: usize,
}

const BUILTIN: &[&str] = &[
    "Vector", "Vector2D", "Rotator", "Quat", "DateTime", "Timespan", "LinearColor", "IntPoint", "Guid", "GameplayTagContainer",
];

const SCALAR_TYPES: &[&str] = &[
    "BoolProperty", "Int8Property", "ByteProperty", "Int16Property", "UInt16Property", "IntProperty", "UInt32Property",
    "Int64Property", "UInt64Property", "FloatProperty", "DoubleProperty", "EnumProperty", "StrProperty", "NameProperty",
    "ObjectProperty", "DelegateProperty", "MulticastInlineDelegateProperty", "MulticastSparseDelegateProperty",
    "FieldPathProperty",
];

/// Equality of map keys treats all NaNs alike, 0.0 like -0.0 and fields of a
/// struct as unordered.
pub fn norm_key(p: &P) -> P {
    fn n32(b: u32) -> u32 {
        let f = f32::from_bits(b);
        if f.is_nan() { 0x7FC0_0000 } else if f == 0.0 { 0 } else { b }
    }
    fn n64(b: u64) -> u64 {
        let f = f64::from_bits(b);
        if f.is_nan() { 0x7FF8 << 48 } else if f == 0.0 { 0 } else { b }
    }
    fn v32(v: &[u32]) -> Vec<u32> {
        v.iter().map(|x| n32(*x)).collect()
    }
    fn v64(v: &[u64]) -> Vec<u64> {
        v.iter().map(|x| n64(*x)).collect()
    }
    fn sv(s: &SV) -> SV {
        match s {
            SV::VecF(v) => SV::VecF(v32(v)),
            SV::VecD(v) => SV::VecD(v64(v)),
            SV::Vec2F(v) => SV::Vec2F(v32(v)),
            SV::Vec2D(v) => SV::Vec2D(v64(v)),
            SV::RotF(v) => SV::RotF(v32(v)),
            SV::RotD(v) => SV::RotD(v64(v)),
            SV::QuatF(v) => SV::QuatF(v32(v)),
            SV::QuatD(v) => SV::QuatD(v64(v)),
            SV::Color(v) => SV::Color(v32(v)),
            SV::Custom(f) => {
                let mut f: Vec<(String, Vec<P>)> =
                    f.iter().map(|(k, v)| (k.clone(), v.iter().map(norm_key).collect())).collect();
                f.sort_by(|a, b| a.0.cmp(&b.0));
                SV::Custom(f)
            }
            o => o.clone(),
        }
    }
    match p {
        P::F32(b) => P::F32(n32(*b)),
        P::F64(b) => P::F64(n64(*b)),
        P::SVal(s) => P::SVal(sv(s)),
        P::Struct { ty, guid, v } => P::Struct { ty: ty.clone(), guid: *guid, v: sv(v) },
        // Deep values are rare as keys; collapse anything else that holds floats.
        P::Text(_) | P::Arr { .. } | P::ArrStruct { .. } | P::Set { .. } | P::Map { .. } => P::Opaque(coarse(p)),
        o => o.clone(),
    }
}

/// A rough fingerprint that never distinguishes values the library regards as
/// equal: only the shape, no numbers.
fn coarse(p: &P) -> String {
    p.type_name().to_string()
}
