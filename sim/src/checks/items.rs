//! Everything the library can read from or write to a stream, behind one
//! interface: whole files, headers, properties with and without header, texts
//! and primitive values.

use super::common::*;
use crate::ctx::*;
use crate::enc::*;
use crate::glue;
use crate::model::*;
use crate::simio::SimFile;
use gvas::cursor_ext::{ReadExt, WriteExt};
use gvas::error::Error;
use gvas::game_version::PalworldCompressionType;
use gvas::properties::text_property::{DateTimeStyle, FText, NumberFormattingOptions, RoundingMode};
use gvas::properties::{Property, PropertyOptions, PropertyTrait};
use gvas::types::{Guid, map::HashableIndexMap};
use gvas::{GvasFile, GvasHeader};
use std::collections::HashMap;

pub enum Item {
    File { doc: Doc, hints: Hints },
    Header(Hdr),
    /// With type name and header.
    Prop { p: P, hdr: Hdr, hints: Hints, path: Vec<String> },
    /// Without header.
    Body { p: P, hdr: Hdr, hints: Hints, path: Vec<String> },
    Text { t: T, hdr: Hdr },
    NumOpt(NumOpt),
    Str(String),
    FStr(Option<String>),
    Guid([u8; 16]),
    Bool(bool),
    B32(bool),
    /// Which enum, and its value.
    Enum(u8, i8),
}

#[derive(PartialEq, Debug)]
pub enum Got {
    Doc(Doc),
    Hdr(Hdr),
    P(P),
    T(T),
    NumOpt(NumOpt),
    Str(String),
    FStr(Option<String>),
    Guid([u8; 16]),
    Bool(bool),
    Enum(i8),
}

/// What a read returns, as the library gives it.
pub enum Raw {
    File(GvasFile),
    Hdr(GvasHeader),
    P(Property),
    T(FText),
    Got(Got),
}

impl Raw {
    pub fn project(self) -> Got {
        match self {
            Raw::File(f) => Got::Doc(glue::project(&f)),
            Raw::Hdr(h) => Got::Hdr(glue::project_hdr(&h)),
            Raw::P(p) => Got::P(glue::project_p(&p)),
            Raw::T(t) => Got::T(glue::project_t(&t)),
            Raw::Got(g) => g,
        }
    }
}

pub fn versions(h: &Hdr) -> HashableIndexMap<Guid, u32> {
    let mut m = HashableIndexMap::new();
    for (g, v) in &h.cvs {
        m.0.insert(Guid(*g), *v);
    }
    m
}

/// Kinds of items a check wants.
#[derive(Clone, Copy)]
pub struct Want {
    pub file: u32,
    pub parts: u32,
    pub prims: u32,
}

pub const ANY: Want = Want { file: 4, parts: 4, prims: 2 };

impl Item {
    pub fn draw(c: &mut Ctx, want: Want) -> Item {
        match c.weighted(OP, &[want.prims, want.parts, want.file]) {
            0 => Self::prim(c),
            1 => Self::part(c),
            _ => {
                let cont = container(c);
                Self::file(c, cont)
            }
        }
    }

    pub fn file(c: &mut Ctx, cont: Container) -> Item {
        let s = document(c, cont, false);
        Item::File { doc: s.doc, hints: s.hints }
    }

    pub fn part(c: &mut Ctx) -> Item {
        let k = c.weighted(OP, &[3, 6, 3, 2]);
        let (b, big) = budget(c);
        let n = c.choose(OP, 3);
        let path: Vec<String> = (0..n).map(|i| format!("p{i}")).collect();
        let mut g = Gen::new(c, b, big);
        let hdr = g.header();
        match k {
            0 => Item::Header(hdr),
            1 => {
                let p = g.prop_at(&path);
                let hints = std::mem::take(&mut g.hints);
                Item::Prop { p, hdr, hints, path }
            }
            2 => {
                let p = g.bare_at(&path);
                let hints = std::mem::take(&mut g.hints);
                Item::Body { p, hdr, hints, path }
            }
            _ => Item::Text { t: g.text(0), hdr },
        }
    }

    /// For writing only: some properties lose their header. Bodies of collections
    /// can be written by themselves, straight to the caller's stream, but not read.
    pub fn headless(self, c: &mut Ctx) -> Item {
        match self {
            Item::Prop { p, hdr, hints, path }
                if matches!(p, P::Arr { .. } | P::ArrStruct { .. } | P::Set { .. } | P::Map { .. } | P::Struct { .. }) && c.choose(OP, 3) == 0 =>
            {
                c.probe("body of a collection written");
                Item::Body { p, hdr, hints, path }
            }
            item => item,
        }
    }

    pub fn prim(c: &mut Ctx) -> Item {
        let k = c.choose(OP, 7);
        let mut g = Gen::new(c, 20, true);
        match k {
            0 => Item::Str(g.s()),
            1 => Item::FStr(g.fs()),
            2 => Item::Guid(g.guid()),
            3 => Item::Bool(g.u32() & 1 == 1),
            4 => Item::B32(g.u32() & 1 == 1),
            5 => {
                let k = (g.u32() % 3) as u8;
                let v = g.u32();
                Item::Enum(
                    k,
                    match k {
                        0 => 0x30 + (v % 3) as i8,
                        1 => (v % 7) as i8,
                        _ => (v % 5) as i8,
                    },
                )
            }
            _ => loop {
                if let Some(o) = g.numopt() {
                    break Item::NumOpt(o);
                }
            },
        }
    }

    pub fn name(&self) -> &'static str {
        match self {
            Item::File { doc, .. } => match doc.container {
                Container::Plain => "file",
                Container::PlzNone => "framed file",
                Container::PlzZlib => "compressed file",
                Container::PlzTwice => "twice compressed file",
            },
            Item::Header(_) => "header",
            Item::Prop { .. } => "property",
            Item::Body { .. } => "property body",
            Item::Text { .. } => "text",
            Item::NumOpt(_) => "number format",
            Item::Str(_) => "string",
            Item::FStr(_) => "optional string",
            Item::Guid(_) => "guid",
            Item::Bool(_) => "bool",
            Item::B32(_) => "wide bool",
            Item::Enum(..) => "enum",
        }
    }

    pub fn container(&self) -> Container {
        match self {
            Item::File { doc, .. } => doc.container,
            _ => Container::Plain,
        }
    }

    /// Reference encoding without container. `alt` draws other valid encodings.
    pub fn encoded(&self, alt: Option<Rng>) -> Encoded {
        let none = Hints::new();
        let feat0 = Feat { lwc: false, fmt64: false, culture: false };
        let (hints, feat) = match self {
            Item::File { doc, hints } => (hints, doc.hdr.feat()),
            Item::Prop { hdr, hints, .. } | Item::Body { hdr, hints, .. } => (hints, hdr.feat()),
            Item::Text { hdr, .. } => (&none, hdr.feat()),
            _ => (&none, feat0),
        };
        let mut e = Enc::new(feat, hints);
        e.alt = alt;
        match self {
            Item::File { doc, .. } => e.doc(doc),
            Item::Header(h) => e.header(h),
            Item::Prop { p, path, .. } => {
                e.path = path.clone();
                e.prop(p);
                e.props.push((0, e.buf.len()));
            }
            Item::Body { p, path, .. } => {
                e.path = path.clone();
                e.elem(p);
            }
            Item::Text { t, .. } => e.text(t),
            Item::NumOpt(o) => e.numopt(o),
            Item::Str(s) => e.s(s),
            Item::FStr(s) => e.fs(s),
            Item::Guid(g) => e.buf.extend_from_slice(g),
            Item::Bool(b) => e.u8(*b as u8, Fk::Bool),
            Item::B32(b) => e.b32(*b),
            Item::Enum(_, v) => e.u8(*v as u8, Fk::Enum),
        }
        Encoded { plain: e.buf, fields: e.fields, uses: e.uses, props: e.props }
    }
    pub fn plain(&self, alt: Option<Rng>) -> Vec<u8> {
        self.encoded(alt).plain
    }

    /// Stored bytes including the container.
    pub fn stored(&self, alt: Option<Rng>, lv: (u32, u32)) -> Vec<u8> {
        wrap(&self.plain(alt), self.container(), lv)
    }

    pub fn expected(&self) -> Got {
        match self {
            Item::File { doc, .. } => Got::Doc(glue::expected(doc)),
            Item::Header(h) => Got::Hdr(h.clone()),
            Item::Prop { p, .. } | Item::Body { p, .. } => Got::P(glue::expected_p(p)),
            Item::Text { t, .. } => Got::T(t.clone()),
            Item::NumOpt(o) => Got::NumOpt(o.clone()),
            Item::Str(s) => Got::Str(s.clone()),
            Item::FStr(s) => Got::FStr(s.clone()),
            Item::Guid(g) => Got::Guid(*g),
            Item::Bool(b) | Item::B32(b) => Got::Bool(*b),
            Item::Enum(_, v) => Got::Enum(*v),
        }
    }

    /// Reads one such item. `stack` is the caller's path context.
    pub fn read_raw(&self, f: &mut SimFile, hints: &HashMap<String, String>, stack: &mut Vec<String>) -> Result<Raw, Error> {
        Ok(match self {
            Item::File { doc, .. } => Raw::File(GvasFile::read_with_hints(f, glue::game_version(doc.container), hints)?),
            Item::Header(_) => Raw::Hdr(GvasHeader::read(f)?),
            Item::Prop { hdr, .. } => {
                let cv = versions(hdr);
                let ty = f.read_string()?;
                let mut o = PropertyOptions { hints, properties_stack: stack, custom_versions: &cv };
                Raw::P(Property::new(f, &ty, true, &mut o, None)?)
            }
            Item::Body { p, hdr, .. } => {
                let cv = versions(hdr);
                let mut o = PropertyOptions { hints, properties_stack: stack, custom_versions: &cv };
                let suggested = match p {
                    P::Unknown { raw, .. } => Some(raw.len() as u32),
                    _ => None,
                };
                Raw::P(Property::new(f, p.type_name(), false, &mut o, suggested)?)
            }
            Item::Text { hdr, .. } => {
                let cv = versions(hdr);
                let o = PropertyOptions { hints, properties_stack: stack, custom_versions: &cv };
                Raw::T(FText::read(f, &o)?)
            }
            Item::NumOpt(_) => Raw::Got(Got::NumOpt(glue::project_opt(&NumberFormattingOptions::read(f)?))),
            Item::Str(_) => Raw::Got(Got::Str(f.read_string()?)),
            Item::FStr(_) => Raw::Got(Got::FStr(f.read_fstring()?)),
            Item::Guid(_) => Raw::Got(Got::Guid(f.read_guid()?.0)),
            Item::Bool(_) => Raw::Got(Got::Bool(f.read_bool()?)),
            Item::B32(_) => Raw::Got(Got::Bool(f.read_b32()?)),
            Item::Enum(0, _) => Raw::Got(Got::Enum(f.read_enum::<PalworldCompressionType>()?.into())),
            Item::Enum(1, _) => Raw::Got(Got::Enum(f.read_enum::<RoundingMode>()?.into())),
            Item::Enum(..) => Raw::Got(Got::Enum(f.read_enum::<DateTimeStyle>()?.into())),
        })
    }

    pub fn read_with(&self, f: &mut SimFile, hints: &HashMap<String, String>, stack: &mut Vec<String>) -> Result<Got, Error> {
        Ok(self.read_raw(f, hints, stack)?.project())
    }

    pub fn hints(&self) -> HashMap<String, String> {
        match self {
            Item::File { hints, .. } | Item::Prop { hints, .. } | Item::Body { hints, .. } => hint_map(hints),
            _ => HashMap::new(),
        }
    }
    /// Entries of the version table a caller passes in beside the stream.
    pub fn table(&self) -> u64 {
        match self {
            Item::Prop { hdr, .. } | Item::Body { hdr, .. } | Item::Text { hdr, .. } => hdr.cvs.len() as u64,
            _ => 0,
        }
    }
    pub fn path(&self) -> Vec<String> {
        match self {
            Item::Prop { path, .. } | Item::Body { path, .. } => path.clone(),
            _ => Vec::new(),
        }
    }

    pub fn read(&self, f: &mut SimFile) -> Result<Got, Error> {
        self.read_with(f, &self.hints(), &mut self.path())
    }

    /// Writes the item; the count is what the call returned, where it returns one.
    pub fn write(&self, f: &mut SimFile) -> Result<Option<usize>, Error> {
        let none = HashMap::new();
        let mut stack = self.path();
        Ok(match self {
            Item::File { doc, .. } => {
                glue::build(doc).write(f)?;
                None
            }
            Item::Header(h) => Some(glue::build_hdr(h).write(f)?),
            Item::Prop { p, hdr, .. } => {
                let cv = versions(hdr);
                let mut o = PropertyOptions { hints: &none, properties_stack: &mut stack, custom_versions: &cv };
                Some(glue::build_p(p).write(f, true, &mut o)?)
            }
            Item::Body { p, hdr, .. } => {
                let cv = versions(hdr);
                let mut o = PropertyOptions { hints: &none, properties_stack: &mut stack, custom_versions: &cv };
                Some(glue::build_p(p).write(f, false, &mut o)?)
            }
            Item::Text { t, hdr } => {
                let cv = versions(hdr);
                let mut o = PropertyOptions { hints: &none, properties_stack: &mut stack, custom_versions: &cv };
                Some(glue::build_t(t).write(f, &mut o)?)
            }
            Item::NumOpt(o) => Some(glue::build_opt(o).write(f)?),
            Item::Str(s) => Some(f.write_string(s)?),
            Item::FStr(s) => Some(f.write_fstring(s.as_deref())?),
            Item::Guid(g) => {
                f.write_guid(&Guid(*g))?;
                None
            }
            Item::Bool(b) => {
                f.write_bool(*b)?;
                None
            }
            Item::B32(b) => {
                f.write_b32(*b)?;
                None
            }
            Item::Enum(0, v) => {
                f.write_enum(match v {
                    0x30 => PalworldCompressionType::None,
                    0x31 => PalworldCompressionType::Zlib,
                    _ => PalworldCompressionType::ZlibTwice,
                })?;
                None
            }
            Item::Enum(1, v) => {
                f.write_enum(glue::rm(*v))?;
                None
            }
            Item::Enum(_, v) => {
                f.write_enum(glue::dts(*v))?;
                None
            }
        })
    }
}
