//! Reference encoder: writes the bytes the format prescribes for a model
//! document, written from the format description and not from the library. It
//! also records where every field lies, for damage and fault placement.

use crate::ctx::Rng;
use crate::model::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fk {
    Magic,
    Version,
    Count,
    /// A count that the length of the value it belongs to confirms.
    SureCount,
    Len,
    /// A length that nothing else in the format confirms.
    FreeLen,
    Index,
    /// An index that may have any value.
    FreeIndex,
    StrLen,
    StrBody,
    TypeName,
    /// A name that can only be this one.
    FixedName,
    Guid,
    Sep,
    Flags,
    Enum,
    Bool,
    Value,
    Raw,
    End,
}

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub off: usize,
    pub len: usize,
    pub kind: Fk,
}

#[derive(Clone, Debug)]
pub struct HintUse {
    pub path: String,
    pub pos: u64,
    pub ty: String,
}

pub struct Enc<'h> {
    pub buf: Vec<u8>,
    pub fields: Vec<Field>,
    pub uses: Vec<HintUse>,
    pub feat: Feat,
    /// Draws alternative, equally valid encodings of strings.
    pub alt: Option<Rng>,
    /// Struct types of header-less structs by path.
    hints: &'h std::collections::BTreeMap<String, String>,
    pub path: Vec<String>,
    /// Offsets at which a top-level or nested property starts.
    pub props: Vec<(usize, usize)>,
    /// The next count belongs directly to a value with a length.
    sure: bool,
}

impl<'h> Enc<'h> {
    pub fn new(feat: Feat, hints: &'h std::collections::BTreeMap<String, String>) -> Self {
        Enc { buf: Vec::new(), fields: Vec::new(), uses: Vec::new(), feat, alt: None, hints, path: Vec::new(), props: Vec::new(), sure: false }
    }

    fn put(&mut self, b: &[u8], kind: Fk) {
        self.fields.push(Field { off: self.buf.len(), len: b.len(), kind });
        self.buf.extend_from_slice(b);
    }
    pub fn u8(&mut self, v: u8, k: Fk) {
        self.put(&[v], k)
    }
    pub fn u16(&mut self, v: u16, k: Fk) {
        self.put(&v.to_le_bytes(), k)
    }
    pub fn u32(&mut self, v: u32, k: Fk) {
        self.put(&v.to_le_bytes(), k)
    }
    pub fn u64(&mut self, v: u64, k: Fk) {
        self.put(&v.to_le_bytes(), k)
    }
    pub fn b32(&mut self, v: bool) {
        self.u32(v as u32, Fk::Bool)
    }

    pub fn s(&mut self, s: &str) {
        self.sk(s, Fk::StrBody)
    }
    fn sk(&mut self, s: &str, k: Fk) {
        let alt = match &mut self.alt {
            Some(r) => r.below(4) == 0,
            None => false,
        };
        let units = s.encode_utf16().count();
        // ASCII text is stored narrow and other text wide; both may be stored
        // the other way round as long as the length limit allows it.
        let wide = if s.is_ascii() { alt } else { !alt || s.len() >= 131072 };
        if wide {
            self.u32((-(units as i32 + 1)) as u32, Fk::StrLen);
            let mut b: Vec<u8> = Vec::with_capacity(units * 2 + 2);
            for u in s.encode_utf16() {
                b.extend_from_slice(&u.to_le_bytes());
            }
            b.extend_from_slice(&[0, 0]);
            self.put(&b, k);
        } else {
            self.u32((s.len() as i32 + 1) as u32, Fk::StrLen);
            let mut b = s.as_bytes().to_vec();
            b.push(0);
            self.put(&b, k);
        }
    }
    pub fn fs(&mut self, s: &Option<String>) {
        match s {
            Some(s) => self.s(s),
            None => self.u32(0, Fk::StrLen),
        }
    }

    pub fn header(&mut self, h: &Hdr) {
        self.put(b"GVAS", Fk::Magic);
        self.u32(if h.ue5.is_some() { 3 } else { 2 }, Fk::Version);
        self.u32(h.pfv, Fk::Version);
        if let Some(v) = h.ue5 {
            self.u32(v, Fk::Version);
        }
        self.u16(h.eng.0, Fk::Value);
        self.u16(h.eng.1, Fk::Value);
        self.u16(h.eng.2, Fk::Value);
        self.u32(h.eng.3, Fk::Value);
        self.s(&h.eng.4);
        self.u32(h.cvf, Fk::Version);
        self.u32(h.cvs.len() as u32, Fk::Count);
        for (g, v) in &h.cvs {
            self.put(g, Fk::Guid);
            self.u32(*v, Fk::Value);
        }
        self.s(&h.class);
    }

    /// The plain (uncontained) bytes of a document.
    pub fn doc(&mut self, d: &Doc) {
        self.header(&d.hdr);
        for (name, p) in &d.props {
            let start = self.buf.len();
            self.s(name);
            self.path.push(name.clone());
            self.prop(p);
            self.path.pop();
            self.props.push((start, self.buf.len()));
        }
        self.sk("None", Fk::End);
        self.u32(0, Fk::End);
    }

    /// Type name, header and body.
    pub fn prop(&mut self, p: &P) {
        self.sk(p.type_name(), Fk::TypeName);
        self.prop_after_type(p);
    }

    pub fn prop_after_type(&mut self, p: &P) {
        self.path.push(p.type_name().to_string());
        match p {
            P::Bool(v) => {
                self.u64(0, Fk::Len);
                self.u8(*v as u8, Fk::Bool);
                self.u8(0, Fk::Sep);
            }
            _ => {
                let at = self.buf.len();
                let free = |p: &P| matches!(p, P::Byte { .. } | P::Unknown { .. });
                let free = match p {
                    P::Arr { els, .. } | P::Set { els, .. } => els.iter().any(free),
                    p => free(p),
                };
                self.u32(0, if free { Fk::FreeLen } else { Fk::Len });
                match p {
                    P::Name { idx, .. } => self.u32(*idx, Fk::FreeIndex),
                    _ => self.u32(0, Fk::Index),
                }
                match p {
                    P::Byte { name, .. } => self.fs(name),
                    P::Enum { ty, .. } => self.fs(ty),
                    P::Arr { ty, .. } | P::Set { ty, .. } => self.sk(ty, Fk::TypeName),
                    P::ArrStruct { .. } => self.sk("StructProperty", Fk::TypeName),
                    P::Map { kt, vt, .. } => {
                        self.sk(kt, Fk::TypeName);
                        self.sk(vt, Fk::TypeName);
                    }
                    P::Struct { ty, guid, .. } => {
                        self.sk(ty, Fk::TypeName);
                        self.put(guid, Fk::Guid);
                    }
                    _ => {}
                }
                self.u8(0, Fk::Sep);
                let start = self.buf.len();
                self.sure = !free;
                self.body(p);
                let n = (self.buf.len() - start) as u32;
                self.buf[at..at + 4].copy_from_slice(&n.to_le_bytes());
            }
        }
        self.path.pop();
    }

    fn pairs(&mut self, v: &[(String, String)], count: Fk) {
        self.u32(v.len() as u32, count);
        for (a, b) in v {
            self.s(a);
            self.s(b);
        }
    }

    pub fn body(&mut self, p: &P) {
        let count = if std::mem::take(&mut self.sure) { Fk::SureCount } else { Fk::Count };
        match p {
            P::Bool(v) => self.u8(*v as u8, Fk::Bool),
            P::I8(v) => self.u8(*v as u8, Fk::Value),
            P::Byte { v: ByteV::Byte(b), .. } => self.u8(*b, Fk::Value),
            P::Byte { v: ByteV::Ns(s), .. } => self.s(s),
            P::I16(v) => self.u16(*v as u16, Fk::Value),
            P::U16(v) => self.u16(*v, Fk::Value),
            P::I32(v) => self.u32(*v as u32, Fk::Value),
            P::U32(v) => self.u32(*v, Fk::Value),
            P::I64(v) => self.u64(*v as u64, Fk::Value),
            P::U64(v) => self.u64(*v, Fk::Value),
            P::F32(v) => self.u32(*v, Fk::Value),
            P::F64(v) => self.u64(*v, Fk::Value),
            P::Enum { v, .. } => self.s(v),
            P::Str(v) => self.fs(v),
            P::Name { v, .. } => self.fs(v),
            P::Obj(v) => self.s(v),
            P::Deleg(a, b) => {
                self.s(a);
                self.s(b);
            }
            P::MInline(v) | P::MSparse(v) => self.pairs(v, count),
            P::FieldPath(v, o) => {
                self.u32(v.len() as u32, count);
                for x in v {
                    self.s(x);
                }
                self.s(o);
            }
            P::Text(t) => self.text(t),
            P::Arr { els, .. } => {
                self.u32(els.len() as u32, count);
                for e in els {
                    self.elem(e);
                }
            }
            P::ArrStruct { field, ty, guid, els } => {
                self.u32(els.len() as u32, count);
                self.s(field);
                self.sk("StructProperty", Fk::FixedName);
                let at = self.buf.len();
                self.u64(0, Fk::Len);
                self.sk(ty, Fk::TypeName);
                self.put(guid, Fk::Guid);
                self.u8(0, Fk::Sep);
                let start = self.buf.len();
                for e in els {
                    self.sv(e);
                }
                let n = (self.buf.len() - start) as u64;
                self.buf[at..at + 8].copy_from_slice(&n.to_le_bytes());
            }
            P::Set { flags, els, .. } => {
                self.u32(*flags, Fk::Flags);
                self.u32(els.len() as u32, count);
                for e in els {
                    self.elem(e);
                }
            }
            P::Map { flags, es, .. } => {
                self.u32(*flags, Fk::Flags);
                self.u32(es.len() as u32, count);
                for (k, v) in es {
                    self.path.push("Key".into());
                    self.elem(k);
                    self.path.pop();
                    self.path.push("Value".into());
                    self.elem(v);
                    self.path.pop();
                }
            }
            P::Struct { v, .. } => self.sv(v),
            P::SVal(v) => self.sv(v),
            P::Unknown { raw, .. } => self.put(raw, Fk::Raw),
            P::Opaque(_) => {}
        }
    }

    pub fn elem(&mut self, p: &P) {
        if let P::SVal(_) = p {
            self.path.push("StructProperty".into());
            let path = self.path.join(".");
            let ty = self.hints.get(&path).cloned().unwrap_or_default();
            self.uses.push(HintUse { path, pos: self.buf.len() as u64, ty });
            self.body(p);
            self.path.pop();
        } else {
            self.body(p);
        }
    }

    fn f32s(&mut self, v: &[u32]) {
        for x in v {
            self.u32(*x, Fk::Value);
        }
    }
    fn f64s(&mut self, v: &[u64]) {
        for x in v {
            self.u64(*x, Fk::Value);
        }
    }

    pub fn sv(&mut self, v: &SV) {
        match v {
            SV::VecF(v) | SV::Vec2F(v) | SV::RotF(v) | SV::QuatF(v) | SV::Color(v) => self.f32s(v),
            SV::VecD(v) | SV::Vec2D(v) | SV::RotD(v) | SV::QuatD(v) => self.f64s(v),
            SV::DateTime(v) | SV::Timespan(v) => self.u64(*v, Fk::Value),
            SV::Guid(g) => self.put(g, Fk::Guid),
            SV::IntPoint(x, y) => {
                self.u32(*x as u32, Fk::Value);
                self.u32(*y as u32, Fk::Value);
            }
            SV::Tags(t) => {
                self.u32(t.len() as u32, Fk::Count);
                for x in t {
                    self.s(x);
                }
            }
            SV::Custom(fields) => {
                for (name, vals) in fields {
                    for v in vals {
                        let start = self.buf.len();
                        self.s(name);
                        self.path.push(name.clone());
                        self.prop(v);
                        self.path.pop();
                        self.props.push((start, self.buf.len()));
                    }
                }
                self.sk("None", Fk::End);
            }
            SV::Opaque(_) => {}
        }
    }

    pub fn text(&mut self, t: &T) {
        self.u32(t.flags, Fk::Flags);
        self.history(&t.h);
    }

    fn en(&mut self, v: i8) {
        self.u8(v as u8, Fk::Enum)
    }

    pub fn history(&mut self, h: &H) {
        match h {
            H::Empty => {
                self.en(-1);
                if self.feat.culture {
                    self.b32(false);
                }
            }
            H::None(s) => {
                self.en(-1);
                self.b32(true);
                self.fs(s);
            }
            H::Base(a, b, c) => {
                self.en(0);
                self.fs(a);
                self.fs(b);
                self.fs(c);
            }
            H::Named(t, a) | H::Argument(t, a) => {
                self.en(if matches!(h, H::Named(..)) { 1 } else { 3 });
                self.text(t);
                self.u32(a.len() as u32, Fk::Count);
                for (k, v) in a {
                    self.s(k);
                    self.arg(v);
                }
            }
            H::Ordered(t, a) => {
                self.en(2);
                self.text(t);
                self.u32(a.len() as u32, Fk::Count);
                for v in a {
                    self.arg(v);
                }
            }
            H::Number(a, o, c) | H::Percent(a, o, c) => {
                self.en(if matches!(h, H::Number(..)) { 4 } else { 5 });
                self.arg(a);
                self.opt(o);
                self.fs(c);
            }
            H::Currency(code, a, o, c) => {
                self.en(6);
                self.fs(code);
                self.arg(a);
                self.opt(o);
                self.fs(c);
            }
            H::Date(t, s, c) => {
                self.en(7);
                self.u64(*t, Fk::Value);
                self.en(*s);
                self.s(c);
            }
            H::Time(t, s, z, c) => {
                self.en(8);
                self.u64(*t, Fk::Value);
                self.en(*s);
                self.s(z);
                self.s(c);
            }
            H::DateTime(t, s1, s2, z, c) => {
                self.en(9);
                self.u64(*t, Fk::Value);
                self.en(*s1);
                self.en(*s2);
                self.s(z);
                self.s(c);
            }
            H::Transform(t, k) => {
                self.en(10);
                self.text(t);
                self.en(*k);
            }
            H::Table(a, b) => {
                self.en(11);
                self.s(a);
                self.s(b);
            }
            H::Opaque(_) => {}
        }
    }

    fn opt(&mut self, o: &Option<NumOpt>) {
        self.b32(o.is_some());
        if let Some(o) = o {
            self.numopt(o);
        }
    }
    pub fn numopt(&mut self, o: &NumOpt) {
        self.b32(o.sign);
        self.b32(o.group);
        self.en(o.round);
        for d in o.digits {
            self.u32(d as u32, Fk::Value);
        }
    }

    pub fn arg(&mut self, a: &A) {
        match a {
            A::Int(v) => {
                self.en(0);
                self.u32(*v as u32, Fk::Value);
            }
            A::Int64(v) => {
                self.en(0);
                self.u64(*v as u64, Fk::Value);
            }
            A::UInt(v) => {
                self.en(1);
                self.u32(*v, Fk::Value);
            }
            A::UInt64(v) => {
                self.en(1);
                self.u64(*v, Fk::Value);
            }
            A::Float(v) => {
                self.en(2);
                self.u32(*v, Fk::Value);
            }
            A::Double(v) => {
                self.en(3);
                self.u64(*v, Fk::Value);
            }
            A::Text(t) => {
                self.en(4);
                self.text(t);
            }
            A::Opaque(_) => {}
        }
    }
}

pub type Hints = std::collections::BTreeMap<String, String>;

pub struct Encoded {
    pub plain: Vec<u8>,
    pub fields: Vec<Field>,
    pub uses: Vec<HintUse>,
    pub props: Vec<(usize, usize)>,
}

pub fn encode_doc(d: &Doc, hints: &Hints, alt: Option<Rng>) -> Encoded {
    let mut e = Enc::new(d.hdr.feat(), hints);
    e.alt = alt;
    e.doc(d);
    Encoded { plain: e.buf, fields: e.fields, uses: e.uses, props: e.props }
}

pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut z = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    z.write_all(data).expect("in-memory compression");
    z.finish().expect("in-memory compression")
}

/// Strict decode: the whole input must be exactly one zlib stream with a valid
/// checksum. Returns the output and the number of input bytes used.
pub fn unzlib_strict(data: &[u8], limit: usize) -> Result<(Vec<u8>, usize), String> {
    let mut d = flate2::Decompress::new(true);
    let mut out = Vec::with_capacity(data.len() * 4 + 1024);
    loop {
        let before = (d.total_in(), d.total_out());
        let st = d
            .decompress_vec(&data[d.total_in() as usize..], &mut out, flate2::FlushDecompress::None)
            .map_err(|e| e.to_string())?;
        if st == flate2::Status::StreamEnd {
            return Ok((out, d.total_in() as usize));
        }
        if out.len() > limit {
            return Err("too large".into());
        }
        if out.len() == out.capacity() {
            out.reserve(out.len() + 1024);
        } else if (d.total_in(), d.total_out()) == before {
            return Err("truncated".into());
        }
    }
}

/// As much output as a lenient decoder could produce from damaged input.
pub fn unzlib_len(data: &[u8], limit: usize) -> Vec<u8> {
    let mut d = flate2::Decompress::new(true);
    let mut out = Vec::with_capacity(data.len() * 4 + 1024);
    loop {
        let before = (d.total_in(), d.total_out());
        let r = d.decompress_vec(&data[d.total_in() as usize..], &mut out, flate2::FlushDecompress::None);
        match r {
            Err(_) | Ok(flate2::Status::StreamEnd) => return out,
            _ => {}
        }
        if out.len() > limit {
            return out;
        }
        if out.len() == out.capacity() {
            out.reserve(out.len() + 1024);
        } else if (d.total_in(), d.total_out()) == before {
            return out;
        }
    }
}

/// Wraps plain bytes in a container. `lv` are the compression levels.
pub fn wrap(plain: &[u8], c: Container, lv: (u32, u32)) -> Vec<u8> {
    let (ty, payload, clen) = match c {
        Container::Plain => return plain.to_vec(),
        Container::PlzNone => (0x30u8, plain.to_vec(), plain.len()),
        Container::PlzZlib => {
            let z = zlib(plain, lv.0);
            let n = z.len();
            (0x31, z, n)
        }
        Container::PlzTwice => {
            let z = zlib(plain, lv.0);
            let n = z.len();
            (0x32, zlib(&z, lv.1), n)
        }
    };
    let mut out = Vec::with_capacity(payload.len() + 12);
    out.extend_from_slice(&(plain.len() as u32).to_le_bytes());
    out.extend_from_slice(&(clen as u32).to_le_bytes());
    out.extend_from_slice(b"PlZ");
    out.push(ty);
    out.extend_from_slice(&payload);
    out
}
