//! Visits every part of a document that can hold a value of its own.

use crate::model::*;

pub enum Site<'a> {
    T(&'a mut T),
    A(&'a mut A),
    SV(&'a mut SV),
    S(&'a mut String),
    FS(&'a mut Option<String>),
    /// The name of a top level property or of a struct field.
    Name(&'a mut String),
    P(&'a mut P),
    /// The value of a top level property or of a struct field.
    Field(&'a mut P),
}

type F<'f> = &'f mut dyn FnMut(Site);

pub fn doc(d: &mut Doc, f: F) {
    f(Site::S(&mut d.hdr.class));
    f(Site::S(&mut d.hdr.eng.4));
    for (n, p) in &mut d.props {
        f(Site::Name(n));
        f(Site::Field(p));
        prop(p, f);
    }
}

pub fn prop(p: &mut P, f: F) {
    f(Site::P(p));
    match p {
        P::Byte { name, v } => {
            if let Some(n) = name {
                f(Site::S(n));
            }
            if let ByteV::Ns(s) = v {
                f(Site::S(s));
            }
        }
        P::Enum { ty, v } => {
            if let Some(n) = ty {
                f(Site::S(n));
            }
            f(Site::S(v));
        }
        P::Str(v) | P::Name { v, .. } => f(Site::FS(v)),
        P::Obj(s) => f(Site::S(s)),
        P::Deleg(a, b) => {
            f(Site::S(a));
            f(Site::S(b));
        }
        P::MInline(v) | P::MSparse(v) => {
            for (a, b) in v {
                f(Site::S(a));
                f(Site::S(b));
            }
        }
        P::FieldPath(v, o) => {
            for s in v {
                f(Site::S(s));
            }
            f(Site::S(o));
        }
        P::Text(t) => text(t, f),
        P::Arr { els, .. } | P::Set { els, .. } => {
            for e in els {
                prop(e, f);
            }
        }
        P::ArrStruct { field, ty, els, .. } => {
            f(Site::S(field));
            f(Site::S(ty));
            for e in els {
                sv(e, f);
            }
        }
        P::Map { es, .. } => {
            for (k, v) in es {
                prop(k, f);
                prop(v, f);
            }
        }
        P::Struct { ty, v, .. } => {
            f(Site::S(ty));
            sv(v, f);
        }
        P::SVal(v) => sv(v, f),
        _ => {}
    }
}

pub fn sv(v: &mut SV, f: F) {
    f(Site::SV(v));
    match v {
        SV::Tags(t) => {
            for s in t {
                f(Site::S(s));
            }
        }
        SV::Custom(fields) => {
            for (n, v) in fields {
                if !v.is_empty() {
                    f(Site::Name(n));
                }
                for p in v {
                    f(Site::Field(p));
                    prop(p, f);
                }
            }
        }
        _ => {}
    }
}

pub fn text(t: &mut T, f: F) {
    f(Site::T(t));
    match &mut t.h {
        H::None(s) => f(Site::FS(s)),
        H::Base(a, b, c) => {
            for s in [a, b, c] {
                f(Site::FS(s));
            }
        }
        H::Named(t, a) | H::Argument(t, a) => {
            text(t, f);
            for (k, a) in a {
                f(Site::S(k));
                arg(a, f);
            }
        }
        H::Ordered(t, a) => {
            text(t, f);
            for a in a {
                arg(a, f);
            }
        }
        H::Number(a, _, s) | H::Percent(a, _, s) => {
            arg(a, f);
            f(Site::FS(s));
        }
        H::Currency(k, a, _, s) => {
            f(Site::FS(k));
            arg(a, f);
            f(Site::FS(s));
        }
        H::Date(_, _, s) => f(Site::S(s)),
        H::Time(_, _, a, b) | H::DateTime(_, _, _, a, b) | H::Table(a, b) => {
            f(Site::S(a));
            f(Site::S(b));
        }
        H::Transform(t, _) => text(t, f),
        H::Empty | H::Opaque(_) => {}
    }
}

pub fn arg(a: &mut A, f: F) {
    f(Site::A(a));
    if let A::Text(t) = a {
        text(t, f);
    }
}
