//! C19: what is saved is the document as last edited.
//!
//! A session holds documents that are loaded, built, copied and edited through
//! the accessors, constructors and maps a caller has. The same edits are made to
//! the model; every acknowledged save must store the bytes the reference encoder
//! gives for the model at that moment, and every reload must give that document.

use super::*;
use crate::checks::common::*;
use crate::enc::{Hints, encode_doc, wrap};
use crate::glue::{self, build_sv, build_t};
use crate::model::*;
use crate::rt::{Out, fresh, guard};
use crate::simio::*;
use gvas::engine_version::FEngineVersion;
use gvas::game_version::{DeserializedGameVersion, PalworldCompressionType};
use gvas::properties::{
    Property, array_property::ArrayProperty, delegate_property::*, enum_property::EnumProperty, field_path_property::*,
    int_property::*, map_property::MapProperty, name_property::NameProperty, object_property::ObjectProperty,
    set_property::SetProperty, str_property::StrProperty, struct_property::*, struct_types::*, text_property::{FText, TextProperty},
    unknown_property::UnknownProperty,
};
use gvas::types::{Guid, map::HashableIndexMap};
use gvas::{GvasFile, GvasHeader};
use ordered_float::OrderedFloat;

pub const CHECK: Check = Check { id: "C19", run, quick_runs: 400_000, batch: 4000, scenarios: &[], real: REAL, stub: STUB };

struct Session {
    doc: Doc,
    file: GvasFile,
    hints: Hints,
}

/// A value made with the library's constructors and conversions.
fn make(p: &P) -> Property {
    let f = |b: &u32| f32::from_bits(*b);
    let d = |b: &u64| f64::from_bits(*b);
    let deleg = |a: &String, b: &String| Delegate::new(a.clone(), b.clone());
    let delegs = |v: &Vec<(String, String)>| MulticastScriptDelegate::new(v.iter().map(|(a, b)| deleg(a, b)).collect());
    let all = |v: &Vec<P>| v.iter().map(make).collect::<Vec<Property>>();
    match p {
        P::Bool(v) => BoolProperty::new(*v).into(),
        P::I8(v) => Int8Property::new(*v).into(),
        P::Byte { name, v: ByteV::Byte(b) } => ByteProperty::new_byte(name.clone(), *b).into(),
        P::Byte { name, v: ByteV::Ns(s) } => ByteProperty::new_namespaced(name.clone(), s.clone()).into(),
        P::I16(v) => Int16Property::new(*v).into(),
        P::U16(v) => UInt16Property::new(*v).into(),
        P::I32(v) => IntProperty::new(*v).into(),
        P::U32(v) => UInt32Property::new(*v).into(),
        P::I64(v) => Int64Property::new(*v).into(),
        P::U64(v) => UInt64Property::new(*v).into(),
        P::F32(v) => FloatProperty::new(f(v)).into(),
        P::F64(v) => DoubleProperty::new(d(v)).into(),
        P::Enum { ty, v } => EnumProperty::new(ty.clone(), v.clone()).into(),
        P::Str(Some(v)) => StrProperty::from(v.as_str()).into(),
        P::Str(None) => StrProperty::new(None).into(),
        P::Name { idx: 0, v: Some(v) } => NameProperty::from(v.as_str()).into(),
        P::Name { idx: 0, v } => NameProperty::from(v.clone()).into(),
        P::Obj(v) => ObjectProperty::from(v.as_str()).into(),
        P::Deleg(a, b) => DelegateProperty::new(deleg(a, b)).into(),
        P::MInline(v) => MulticastInlineDelegateProperty::new(delegs(v)).into(),
        P::MSparse(v) => MulticastSparseDelegateProperty::new(delegs(v)).into(),
        P::FieldPath(v, o) => FieldPathProperty::new(FieldPath::new(v.clone(), o.clone())).into(),
        P::Text(t) => TextProperty::new(make_t(t)).into(),
        P::Arr { ty, els, .. } => match ArrayProperty::new(ty.clone(), None, all(els)) {
            Ok(a) => a.into(),
            Err(_) => glue::build_p(p),
        },
        P::ArrStruct { field, ty, guid, els } => {
            let info = (field.clone(), ty.clone(), Guid::from(u128::from_le_bytes(*guid)));
            match ArrayProperty::new("StructProperty".into(), Some(info), els.iter().map(|v| make_sv(v).into()).collect()) {
                Ok(a) => a.into(),
                Err(_) => glue::build_p(p),
            }
        }
        P::Set { ty, flags, els } => SetProperty::new(ty.clone(), *flags, all(els)).into(),
        P::Map { kt, vt, flags, es, .. } => {
            let mut m = HashableIndexMap::with_capacity(es.len());
            for (k, v) in es {
                m.insert(make(k), make(v));
            }
            MapProperty::new(kt.clone(), vt.clone(), *flags, m).into()
        }
        P::Struct { ty, guid, v } => StructProperty::new(make_guid(guid), ty.clone(), make_sv(v)).into(),
        P::SVal(v) => make_sv(v).into(),
        P::Unknown { ty, raw } => UnknownProperty::new(ty.clone(), raw.clone()).into(),
        P::Name { .. } | P::Opaque(_) => glue::build_p(p),
    }
}

fn make_sv(v: &SV) -> StructPropertyValue {
    let f = |b: &u32| f32::from_bits(*b);
    let d = |b: &u64| f64::from_bits(*b);
    match v {
        SV::VecF(v) => VectorF::new(f(&v[0]), f(&v[1]), f(&v[2])).into(),
        SV::VecD(v) => VectorD::new(d(&v[0]), d(&v[1]), d(&v[2])).into(),
        SV::Vec2F(v) => Vector2F::new(f(&v[0]), f(&v[1])).into(),
        SV::Vec2D(v) => Vector2D::new(d(&v[0]), d(&v[1])).into(),
        SV::RotF(v) => RotatorF::new(f(&v[0]), f(&v[1]), f(&v[2])).into(),
        SV::RotD(v) => RotatorD::new(d(&v[0]), d(&v[1]), d(&v[2])).into(),
        SV::QuatF(v) => QuatF::new(f(&v[0]), f(&v[1]), f(&v[2]), f(&v[3])).into(),
        SV::QuatD(v) => QuatD::new(d(&v[0]), d(&v[1]), d(&v[2]), d(&v[3])).into(),
        SV::DateTime(t) => DateTime::new(*t).into(),
        SV::Timespan(t) => Timespan::new(*t).into(),
        SV::Color(v) => LinearColor::new(f(&v[0]), f(&v[1]), f(&v[2]), f(&v[3])).into(),
        SV::IntPoint(x, y) => IntPoint::new(*x, *y).into(),
        SV::Guid(g) => make_guid(g).into(),
        SV::Custom(fields) => {
            let mut m = HashableIndexMap::new();
            for (k, v) in fields {
                m.insert(k.clone(), v.iter().map(make).collect());
            }
            StructPropertyValue::CustomStruct(m)
        }
        other => build_sv(other),
    }
}

fn make_guid(g: &[u8; 16]) -> Guid {
    let w = |i: usize| u32::from_le_bytes([g[i], g[i + 1], g[i + 2], g[i + 3]]);
    Guid::from([w(0), w(4), w(8), w(12)])
}

fn make_t(t: &T) -> FText {
    match &t.h {
        H::Empty => FText::new_none(t.flags, None),
        H::None(s) => FText::new_none(t.flags, Some(s.clone())),
        H::Base(a, b, c) => FText::new_base(t.flags, a.clone(), b.clone(), c.clone()),
        _ => build_t(t),
    }
}

/// What the accessors show of a value.
fn shown(l: &Property) -> Vec<Property> {
    macro_rules! all {
        ($($get:ident),+) => {
            [$( l.$get().map(|x| Property::from(x.clone())) ),+].into_iter().flatten().collect()
        };
    }
    all!(
        get_array, get_enum, get_bool, get_byte, get_f64, get_f32, get_i16, get_i64, get_i8, get_int, get_u16, get_u32,
        get_u64, get_map, get_name, get_object_ref, get_delegate, get_multicast_inline_delegate,
        get_multicast_sparse_delegate, get_field_path, get_set, get_str, get_struct, get_text, get_unknown
    )
}

fn shown_sv(l: &StructPropertyValue) -> Vec<StructPropertyValue> {
    macro_rules! all {
        ($($get:ident),+) => {
            [$( l.$get().map(|x| StructPropertyValue::from(x.clone())) ),+, l.get_custom_struct().map(|m| StructPropertyValue::CustomStruct(m.clone()))]
                .into_iter()
                .flatten()
                .collect()
        };
    }
    all!(
        get_vector_f, get_vector_d, get_rotator_f, get_rotator_d, get_quat_f, get_quat_d, get_date_time, get_int_point,
        get_guid
    )
}

/// The accessors show the value and nothing else.
fn look(p: &P, l: &Property) -> Result<(), Violation> {
    let settle = |l: &Property| {
        let mut p = glue::project_p(l);
        settle_p(&mut p);
        p
    };
    let mut want = glue::expected_p(p);
    settle_p(&mut want);
    let all = shown(l);
    let n = usize::from(!matches!(p, P::SVal(_)));
    if all.len() != n || all.iter().any(|x| settle(x) != want) {
        return violation("accessor shows another value", format!("{} values for {}: {}", all.len(), glue::clipd(p), glue::clipd(&all)));
    }
    let (P::Struct { v, .. } | P::SVal(v)) = p else { return Ok(()) };
    let value = match l {
        Property::StructProperty(s) => &s.value,
        Property::StructPropertyValue(v) => v,
        _ => return Ok(()),
    };
    let n = match v {
        SV::Vec2F(_) | SV::Vec2D(_) | SV::Timespan(_) | SV::Color(_) | SV::Tags(_) => 0,
        _ => 1,
    };
    let mut want = glue::project_sv(&build_sv(v));
    settle_sv(&mut want);
    let all = shown_sv(value);
    let differs = all.iter().any(|x| {
        let mut x = glue::project_sv(x);
        settle_sv(&mut x);
        x != want
    });
    if all.len() != n || differs {
        return violation("accessor shows another value", format!("{} values for {}: {}", all.len(), glue::clipd(v), glue::clipd(&all)));
    }
    if let (SV::Custom(fields), Some(m)) = (v, value.get_custom_struct()) {
        for (name, ps) in fields {
            let Some(ls) = m.get(name) else { return missing("field by name") };
            ps.iter().zip(ls).try_for_each(|(p, l)| look(p, l))?;
        }
    }
    Ok(())
}

/// Which representation a load gives is a matter of the content alone.
fn settle_p(p: &mut P) {
    match p {
        P::Arr { ty, els, special } => {
            els.iter_mut().for_each(settle_p);
            *special = arr_special(ty, els);
        }
        P::Set { els, .. } => els.iter_mut().for_each(settle_p),
        P::Map { kt, vt, flags, es, special } => {
            for (k, v) in es.iter_mut() {
                settle_p(k);
                settle_p(v);
            }
            *special = map_special(kt, vt, *flags, es);
        }
        P::ArrStruct { els, .. } => els.iter_mut().for_each(settle_sv),
        P::Struct { v, .. } | P::SVal(v) => settle_sv(v),
        _ => {}
    }
}
fn settle_sv(v: &mut SV) {
    if let SV::Custom(fields) = v {
        fields.iter_mut().for_each(|f| f.1.iter_mut().for_each(settle_p));
    }
}
fn settled(d: &Doc) -> Doc {
    let mut d = d.clone();
    d.props.iter_mut().for_each(|p| settle_p(&mut p.1));
    d
}

fn missing<T>(what: &str) -> Result<T, Violation> {
    Err(Violation { class: "accessor gives nothing".into(), detail: what.into() })
}

/// Gives a scalar another value through its accessor.
fn set(new: &P, l: &mut Property) -> Result<(), Violation> {
    macro_rules! put {
        ($get:ident, $get_mut:ident, $($field:ident = $v:expr),+) => {{
            match l.$get_mut() {
                Some(x) => { $( x.$field = $v; )+ }
                None => return missing(stringify!($get_mut)),
            }
            if l.$get().is_none() {
                return missing(stringify!($get));
            }
        }};
    }
    match new {
        P::Bool(v) => put!(get_bool, get_bool_mut, value = *v),
        P::I8(v) => put!(get_i8, get_i8_mut, value = *v),
        P::Byte { name, v } => put!(
            get_byte,
            get_byte_mut,
            name = name.clone(),
            value = match v {
                ByteV::Byte(b) => BytePropertyValue::Byte(*b),
                ByteV::Ns(s) => BytePropertyValue::Namespaced(s.clone()),
            }
        ),
        P::I16(v) => put!(get_i16, get_i16_mut, value = *v),
        P::U16(v) => put!(get_u16, get_u16_mut, value = *v),
        P::I32(v) => put!(get_int, get_int_mut, value = *v),
        P::U32(v) => put!(get_u32, get_u32_mut, value = *v),
        P::I64(v) => put!(get_i64, get_i64_mut, value = *v),
        P::U64(v) => put!(get_u64, get_u64_mut, value = *v),
        P::F32(v) => put!(get_f32, get_f32_mut, value = OrderedFloat(f32::from_bits(*v))),
        P::F64(v) => put!(get_f64, get_f64_mut, value = OrderedFloat(f64::from_bits(*v))),
        P::Enum { ty, v } => put!(get_enum, get_enum_mut, enum_type = ty.clone(), value = v.clone()),
        P::Str(v) => put!(get_str, get_str_mut, value = v.clone()),
        P::Name { idx, v } => put!(get_name, get_name_mut, array_index = *idx, value = v.clone()),
        P::Obj(v) => put!(get_object_ref, get_object_ref_mut, value = v.clone()),
        P::Deleg(a, b) => put!(get_delegate, get_delegate_mut, value = Delegate::new(a.clone(), b.clone())),
        P::MInline(v) => {
            put!(get_multicast_inline_delegate, get_multicast_inline_delegate_mut, value = delegates(v))
        }
        P::MSparse(v) => {
            put!(get_multicast_sparse_delegate, get_multicast_sparse_delegate_mut, value = delegates(v))
        }
        P::FieldPath(v, o) => put!(get_field_path, get_field_path_mut, value = FieldPath::new(v.clone(), o.clone())),
        P::Text(t) => put!(get_text, get_text_mut, value = make_t(t)),
        P::Unknown { .. } => {
            match l.get_unknown_mut() {
                Some(_) => *l = make(new),
                None => return missing("get_unknown_mut"),
            };
        }
        other => *l = make(other),
    }
    Ok(())
}

fn delegates(v: &[(String, String)]) -> MulticastScriptDelegate {
    MulticastScriptDelegate::new(v.iter().map(|(a, b)| Delegate::new(a.clone(), b.clone())).collect())
}

fn kind(p: &P) -> Option<usize> {
    Some(match p {
        P::Bool(_) => 0,
        P::I8(_) => 1,
        P::Byte { .. } => 2,
        P::I16(_) => 3,
        P::U16(_) => 4,
        P::I32(_) => 5,
        P::U32(_) => 6,
        P::I64(_) => 7,
        P::U64(_) => 8,
        P::F32(_) => 9,
        P::F64(_) => 10,
        P::Enum { .. } => 11,
        P::Str(_) => 12,
        P::Name { .. } => 13,
        P::Obj(_) => 14,
        P::Deleg(..) => 15,
        P::MInline(_) => 16,
        P::MSparse(_) => 17,
        P::FieldPath(..) => 18,
        P::Unknown { .. } => 19,
        _ => return None,
    })
}

enum ListOp {
    Push(usize),
    Remove(usize),
    Swap(usize, usize),
    Clear,
}

fn list_op(c: &mut Ctx, n: usize) -> Option<ListOp> {
    if n == 0 {
        return None;
    }
    Some(match c.weighted(OP, &[4, 4, 3, 1]) {
        0 => ListOp::Push(c.choose(OP, n)),
        1 => ListOp::Remove(c.choose(OP, n)),
        2 => ListOp::Swap(c.choose(OP, n), c.choose(OP, n)),
        _ => ListOp::Clear,
    })
}

fn list<V: Clone>(v: &mut Vec<V>, op: &ListOp) -> bool {
    match op {
        ListOp::Push(i) if *i < v.len() => v.push(v[*i].clone()),
        ListOp::Remove(i) if *i < v.len() => {
            v.remove(*i);
        }
        ListOp::Swap(i, j) if *i.max(j) < v.len() => v.swap(*i, *j),
        ListOp::Clear => v.clear(),
        _ => return false,
    }
    true
}

fn entries<K: std::hash::Hash + Eq, V: std::hash::Hash>(m: &mut HashableIndexMap<K, V>, op: &ListOp) -> bool {
    match op {
        ListOp::Remove(i) if *i < m.len() => {
            m.shift_remove_index(*i);
        }
        ListOp::Swap(i, j) if *i.max(j) < m.len() => m.swap_indices(*i, *j),
        ListOp::Clear => m.clear(),
        _ => return false,
    }
    true
}

fn short(done: bool) -> Result<(), Violation> {
    if done { Ok(()) } else { violation("fewer elements than were put in", String::new()) }
}

/// One edit of a property that has a header of its own.
#[allow(unreachable_patterns)]
fn edit(c: &mut Ctx, f: Feat, p: &mut P, l: &mut Property) -> Result<(), Violation> {
    let mut g = Gen::new(c, 4, false);
    g.feat = f;
    let new = match (&p, kind(p)) {
        (_, Some(k)) => Some(g.scalar(k, true)),
        (P::Text(_), _) => Some(P::Text(g.text(0))),
        _ => None,
    };
    if let Some(new) = new {
        set(&new, l)?;
        *p = new;
        return Ok(());
    }
    match p {
        P::Struct { guid, v, .. } => {
            let Some(s) = l.get_struct_mut() else { return missing("get_struct_mut") };
            if c.chance(OP, 1, 6) {
                *guid = [c.choose(OP, 256) as u8; 16];
                s.guid = Guid::from_u8(*guid);
                return Ok(());
            }
            edit_sv(c, f, v, &mut s.value)
        }
        P::ArrStruct { els, .. } => {
            let Some(a) = l.get_array_mut() else { return missing("get_array_mut") };
            let ArrayProperty::Structs { structs, .. } = a else {
                return violation("another representation", "array of structs".into());
            };
            if !els.is_empty() && c.choose(OP, 2) == 0 {
                let i = c.choose(OP, els.len());
                let Some(x) = structs.get_mut(i) else { return short(false) };
                return edit_sv(c, f, &mut els[i], x);
            }
            match list_op(c, els.len()) {
                Some(op) => {
                    list(els, &op);
                    short(list(structs, &op))
                }
                None => Ok(()),
            }
        }
        P::Arr { els, .. } => {
            let Some(a) = l.get_array_mut() else { return missing("get_array_mut") };
            let Some(op) = list_op(c, els.len()) else { return Ok(()) };
            list(els, &op);
            short(match a {
                ArrayProperty::Bools { bools } => list(bools, &op),
                ArrayProperty::Bytes { bytes } => list(bytes, &op),
                ArrayProperty::Enums { enums } => list(enums, &op),
                ArrayProperty::Floats { floats } => list(floats, &op),
                ArrayProperty::Ints { ints } => list(ints, &op),
                ArrayProperty::Names { names } => list(names, &op),
                ArrayProperty::Strings { strings } => list(strings, &op),
                ArrayProperty::Structs { structs, .. } => list(structs, &op),
                ArrayProperty::Properties { properties, .. } => list(properties, &op),
                _ => {
                    *l = make(p);
                    true
                }
            })
        }
        P::Set { els, flags, .. } => {
            let Some(s) = l.get_set_mut() else { return missing("get_set_mut") };
            if c.chance(OP, 1, 4) {
                *flags = c.choose(OP, 5) as u32;
                s.allocation_flags = *flags;
                return Ok(());
            }
            let Some(op) = list_op(c, els.len()) else { return Ok(()) };
            list(els, &op);
            short(list(&mut s.properties, &op))
        }
        P::Map { es, .. } => {
            let Some(m) = l.get_map_mut() else { return missing("get_map_mut") };
            let Some(op) = list_op(c, es.len()) else { return Ok(()) };
            if let ListOp::Push(i) = op {
                // another value for an entry
                let k = match &es[i].1 {
                    P::Enum { .. } | P::Byte { .. } | P::Name { .. } | P::Unknown { .. } => None,
                    v => kind(v),
                };
                let Some(k) = k else { return Ok(()) };
                let mut g = Gen::new(c, 4, false);
                g.feat = f;
                let new = g.scalar(k, false);
                let old = std::mem::replace(&mut es[i].1, new);
                let new = &es[i].1;
                let put = |x: Option<(&String, &mut Property)>| match x {
                    Some((_, v)) => set(new, v),
                    None => short(false),
                };
                match (m, new) {
                    (MapProperty::Properties { value, .. }, _) => match value.get_index_mut(i) {
                        Some((_, v)) => set(new, v)?,
                        None => return short(false),
                    },
                    (
                        MapProperty::EnumProperty { enum_props: m, .. }
                        | MapProperty::NameProperty { name_props: m, .. }
                        | MapProperty::StrProperty { str_props: m, .. },
                        _,
                    ) => put(m.get_index_mut(i))?,
                    (
                        MapProperty::EnumBool { enum_bools: m } | MapProperty::NameBool { name_bools: m } | MapProperty::StrBool { str_bools: m },
                        P::Bool(b),
                    ) => m[i] = *b,
                    (
                        MapProperty::EnumInt { enum_ints: m } | MapProperty::NameInt { name_ints: m } | MapProperty::StrInt { str_ints: m },
                        P::I32(b),
                    ) => m[i] = *b,
                    (MapProperty::StrStr { str_strs: m }, P::Str(b)) => m[i] = b.clone(),
                    _ => es[i].1 = old,
                }
                return Ok(());
            }
            list(es, &op);
            short(match m {
                MapProperty::EnumBool { enum_bools: m } => entries(m, &op),
                MapProperty::EnumInt { enum_ints: m } => entries(m, &op),
                MapProperty::EnumProperty { enum_props: m, .. } => entries(m, &op),
                MapProperty::NameBool { name_bools: m } => entries(m, &op),
                MapProperty::NameInt { name_ints: m } => entries(m, &op),
                MapProperty::NameProperty { name_props: m, .. } => entries(m, &op),
                MapProperty::StrBool { str_bools: m } => entries(m, &op),
                MapProperty::StrInt { str_ints: m } => entries(m, &op),
                MapProperty::StrProperty { str_props: m, .. } => entries(m, &op),
                MapProperty::StrStr { str_strs: m } => entries(m, &op),
                MapProperty::Properties { value: m, .. } => entries(m, &op),
                _ => {
                    *l = make(p);
                    true
                }
            })
        }
        _ => Ok(()),
    }
}

fn edit_sv(c: &mut Ctx, f: Feat, v: &mut SV, l: &mut StructPropertyValue) -> Result<(), Violation> {
    macro_rules! part {
        ($get:ident, $get_mut:ident, $v:expr, $draw:ident, $wrap:expr, $($field:ident),+) => {{
            let i = c.choose(OP, $v.len());
            let new = Gen::new(c, 4, false).$draw();
            $v[i] = new;
            let Some(x) = l.$get_mut() else { return missing(stringify!($get_mut)) };
            let fields = [$( &mut x.$field ),+];
            *fields[i] = OrderedFloat($wrap(new));
            if l.$get().is_none() {
                return missing(stringify!($get));
            }
            Ok(())
        }};
    }
    match v {
        SV::VecF(v) => part!(get_vector_f, get_vector_f_mut, v, f32, f32::from_bits, x, y, z),
        SV::VecD(v) => part!(get_vector_d, get_vector_d_mut, v, f64, f64::from_bits, x, y, z),
        SV::RotF(v) => part!(get_rotator_f, get_rotator_f_mut, v, f32, f32::from_bits, pitch, yaw, roll),
        SV::RotD(v) => part!(get_rotator_d, get_rotator_d_mut, v, f64, f64::from_bits, pitch, yaw, roll),
        SV::QuatF(v) => part!(get_quat_f, get_quat_f_mut, v, f32, f32::from_bits, x, y, z, w),
        SV::QuatD(v) => part!(get_quat_d, get_quat_d_mut, v, f64, f64::from_bits, x, y, z, w),
        SV::DateTime(t) => {
            *t = Gen::new(c, 4, false).u64();
            let Some(x) = l.get_date_time_mut() else { return missing("get_date_time_mut") };
            x.ticks = *t;
            if l.get_date_time().is_some() { Ok(()) } else { missing("get_date_time") }
        }
        SV::IntPoint(x, y) => {
            let mut g = Gen::new(c, 4, false);
            (*x, *y) = (g.u32() as i32, g.u32() as i32);
            let Some(p) = l.get_int_point_mut() else { return missing("get_int_point_mut") };
            (p.x, p.y) = (*x, *y);
            if l.get_int_point().is_some() { Ok(()) } else { missing("get_int_point") }
        }
        SV::Guid(g) => {
            *g = [c.choose(OP, 256) as u8; 16];
            let Some(x) = l.get_guid_mut() else { return missing("get_guid_mut") };
            *x = Guid::from_u8(*g);
            if l.get_guid().is_some() { Ok(()) } else { missing("get_guid") }
        }
        SV::Tags(t) => {
            let StructPropertyValue::GameplayTagContainer(x) = l else {
                return violation("another representation", "tags".into());
            };
            match list_op(c, t.len()) {
                Some(op) => {
                    list(t, &op);
                    short(list(x, &op))
                }
                None => {
                    t.push("New.Tag".into());
                    x.push("New.Tag".into());
                    Ok(())
                }
            }
        }
        SV::Custom(fields) => {
            let Some(m) = l.get_custom_struct_mut() else { return missing("get_custom_struct_mut") };
            if m.len() != fields.len() {
                return short(false);
            }
            let n = fields.len();
            match c.weighted(OP, &[8, 3, 2, 2, 2]) {
                0 if n > 0 => {
                    let i = c.choose(OP, n);
                    if fields[i].1.is_empty() {
                        return Ok(());
                    }
                    let j = c.choose(OP, fields[i].1.len());
                    match m.get_mut(&fields[i].0).and_then(|v| v.get_mut(j)) {
                        Some(x) => edit(c, f, &mut fields[i].1[j], x)?,
                        None => return short(false),
                    }
                }
                2 if n > 0 => {
                    let i = c.choose(OP, n);
                    let (name, _) = fields.remove(i);
                    return short(m.shift_remove(&name).is_some());
                }
                3 if n > 1 => {
                    let (i, j) = (c.choose(OP, n), c.choose(OP, n));
                    let x = fields.remove(i);
                    fields.insert(j, x);
                    m.move_index(i, j);
                }
                4 if n > 0 => {
                    // another element of a static array
                    let i = c.choose(OP, n);
                    if let Some(x) = fields[i].1.last().cloned() {
                        let new = make(&x);
                        fields[i].1.push(x);
                        match m.get_mut(&fields[i].0) {
                            Some(v) => v.push(new),
                            None => return short(false),
                        }
                    }
                }
                _ => {
                    let mut g = Gen::new(c, 4, false);
                    g.feat = f;
                    let k = g.c.choose(OP, 20);
                    let p = g.scalar(k, true);
                    let name = format!("added{}", c.choose(OP, 1000));
                    if !fields.iter().any(|f| f.0 == name) {
                        m.insert(name.clone(), vec![make(&p)]);
                        fields.push((name, vec![p]));
                    }
                }
            }
            Ok(())
        }
        other => {
            *l = make_sv(other);
            Ok(())
        }
    }
}

#[allow(unreachable_patterns)]
fn edit_header(c: &mut Ctx, h: &mut Hdr, l: &mut GvasHeader) {
    let (engine_version, custom_versions, save_game_class_name) = match l {
        GvasHeader::Version2 { engine_version, custom_versions, save_game_class_name, .. }
        | GvasHeader::Version3 { engine_version, custom_versions, save_game_class_name, .. } => {
            (engine_version, custom_versions, save_game_class_name)
        }
        _ => return,
    };
    match c.choose(OP, 4) {
        0 => {
            h.class = Gen::new(c, 4, false).s();
            *save_game_class_name = h.class.clone();
        }
        1 => {
            let mut g = Gen::new(c, 4, false);
            h.eng = (g.u32() as u16, g.u32() as u16, g.u32() as u16, g.u32(), g.s());
            *engine_version = FEngineVersion::new(h.eng.0, h.eng.1, h.eng.2, h.eng.3, h.eng.4.clone());
        }
        2 => {
            let g = [0xA0 | c.choose(OP, 4) as u8; 16];
            let v = Gen::new(c, 4, false).u32();
            match h.cvs.iter_mut().find(|x| x.0 == g) {
                Some(x) => x.1 = v,
                None => h.cvs.push((g, v)),
            }
            custom_versions.insert(Guid::from_u8(g), v);
        }
        _ => {
            let i = c.choose(OP, h.cvs.len().max(1));
            if let Some((g, _)) = h.cvs.get(i).copied()
                && g != guid_ue5_release()
                && g != guid_editor()
            {
                h.cvs.remove(i);
                custom_versions.shift_remove(&Guid::from_u8(g));
            }
        }
    }
}

fn edit_doc(c: &mut Ctx, s: &mut Session) -> Result<(), Violation> {
    let f = s.doc.hdr.feat();
    let n = s.doc.props.len();
    match c.weighted(OP, &[12, 3, 2, 2, 2, 1]) {
        0 if n > 0 => {
            let i = c.choose(OP, n);
            let (name, p) = &mut s.doc.props[i];
            match s.file.properties.get_mut(name) {
                Some(l) => edit(c, f, p, l)?,
                None => return missing("property by name"),
            }
        }
        2 if n > 0 => {
            let (name, _) = s.doc.props.remove(c.choose(OP, n));
            if s.file.properties.shift_remove(&name).is_none() {
                return missing("property by name");
            }
        }
        3 if n > 1 => {
            let (i, j) = (c.choose(OP, n), c.choose(OP, n));
            s.doc.props.swap(i, j);
            s.file.properties.swap_indices(i, j);
        }
        4 => edit_header(c, &mut s.doc.hdr, &mut s.file.header),
        5 => {
            s.doc.container = container(c);
            s.file.deserialized_game_version = match s.doc.container {
                Container::Plain => DeserializedGameVersion::Default,
                Container::PlzNone => DeserializedGameVersion::Palworld(PalworldCompressionType::None),
                Container::PlzZlib => DeserializedGameVersion::Palworld(PalworldCompressionType::Zlib),
                Container::PlzTwice => DeserializedGameVersion::Palworld(PalworldCompressionType::ZlibTwice),
            };
        }
        _ => {
            let name = format!("new{}", c.choose(OP, 100));
            let mut g = Gen::new(c, 12, false);
            g.feat = f;
            let mut p = g.at_top(&name);
            settle_p(&mut p);
            let more = std::mem::take(&mut g.hints);
            // the new value takes the place of an old one of that name
            s.hints.retain(|k, _| !k.split('.').next().is_some_and(|x| x == name));
            s.hints.extend(more);
            s.file.properties.insert(name.clone(), make(&p));
            match s.doc.props.iter_mut().find(|x| x.0 == name) {
                Some(x) => x.1 = p,
                None => s.doc.props.push((name, p)),
            }
        }
    }
    Ok(())
}

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let cont = container(c);
    let s = document(c, cont, false);
    let file = if c.choose(OP, 2) == 0 {
        glue::build(&s.doc)
    } else {
        let stored = wrap(&encode_doc(&s.doc, &s.hints, None).plain, cont, (6, 6));
        let mut f = SimFile::new(stored, Plan::benign(c));
        let r = load(&mut f, cont, &hint_map(&s.hints));
        f.settle(c, "first load");
        match r {
            Out::Ret(Ok(d)) => d,
            other => return violation("document cannot be loaded", outcome(&other)),
        }
    };
    let mut all = vec![Session { doc: settled(&s.doc), file, hints: s.hints }];
    // what a slot holds, when that is certain
    let mut slots: Vec<(Vec<u8>, Option<(Doc, Hints)>)> = vec![(Vec::new(), None), (Vec::new(), None)];
    let steps = 3 + c.choose(OP, 10);
    for step in 0..steps {
        let i = c.choose(OP, all.len());
        let last = step + 1 == steps;
        match if last { 1 } else { c.weighted(OP, &[10, 6, 3, 1, 1]) } {
            0 => {
                let times = 1 + c.choose(OP, 4);
                for _ in 0..times {
                    edit_doc(c, &mut all[i])?;
                }
                c.probe("edited");
            }
            1 => {
                let s = &all[i];
                let slot = &mut slots[c.choose(OP, 2)];
                let base = if c.choose(FAULT, 2) == 0 { Plan::clean() } else { Plan::benign(c) };
                let mut plan = base.clone();
                if c.chance(FAULT, 1, 3) {
                    let mut dry = SimFile::new(Vec::new(), base);
                    let _ = save(&mut dry, &s.file);
                    let (n, end) = (dry.calls, dry.max_off);
                    dry.settle(c, "dry run");
                    place_failures(c, &mut plan, n, 0, end);
                }
                // the file is truncated when it is opened
                let mut f = SimFile::new(Vec::new(), plan).traced(c);
                let r = save(&mut f, &s.file);
                f.settle(c, "save");
                let bytes = std::mem::take(&mut f.data);
                c.eval();
                match r {
                    Out::Ret(Ok(())) => {
                        let doc = settled(&s.doc);
                        let e = encode_doc(&doc, &s.hints, None);
                        check_container(&bytes, &e.plain, doc.container)?;
                        *slot = (bytes, Some((doc, s.hints.clone())));
                        c.probe("saved");
                    }
                    Out::Ret(Err(e)) => {
                        // the compressor may pass an interruption on; the caller retries
                        if !f.failed() && io_kind(&e) != Some(std::io::ErrorKind::Interrupted) {
                            return violation("save of an edited document refused", err_text(&e));
                        }
                        *slot = (bytes, None);
                        c.probe("save failed");
                    }
                    Out::Injected => {
                        *slot = (bytes, None);
                        c.probe("save unwound");
                    }
                    Out::Panic(p) => return violation("panic while saving", p),
                    Out::Limit => return violation("save does not end", String::new()),
                }
            }
            2 => {
                let (bytes, what) = &slots[c.choose(OP, 2)];
                let Some((doc, hints)) = what.clone() else { continue };
                let h = hint_map(&hints);
                let g = SimFile::new(bytes.clone(), Plan::benign(c)).traced(c);
                let cont = doc.container;
                let seed = c.choose(SCHED, 1 << 16) as u64;
                let (mut g, r) = fresh(seed, move || {
                    let mut g = g;
                    let r = load(&mut g, cont, &h);
                    (g, r)
                });
                g.settle(c, "reload");
                c.eval();
                let file = match r {
                    Out::Ret(Ok(d)) => d,
                    other => return violation("edited document cannot be loaded", outcome(&other)),
                };
                if let Some(x) = glue::diff(&glue::project(&file), &glue::expected(&doc)) {
                    return violation("edited document reads back differently", x);
                }
                all[i] = Session { doc, file, hints };
                c.probe("reloaded");
            }
            3 => {
                let s = &all[i];
                let x = Session { doc: s.doc.clone(), file: s.file.clone(), hints: s.hints.clone() };
                if all.len() < 3 {
                    all.push(x);
                } else {
                    all[0] = x;
                }
                c.probe("copied");
            }
            _ => {
                // the document as a whole is what was put into it
                let s = &all[i];
                let r = guard(|| glue::project(&s.file));
                if let Out::Ret(d) = r
                    && let Some(x) = glue::diff(&settled(&d), &glue::expected(&settled(&s.doc)))
                {
                    return violation("edited document differs", x);
                }
                for (name, p) in &s.doc.props {
                    match s.file.properties.get(name) {
                        Some(l) => look(p, l)?,
                        None => return missing("property by name"),
                    }
                }
                let versions: Vec<_> = s.file.header.get_custom_versions().iter().map(|(g, v)| (g.to_u8(), *v)).collect();
                if versions != s.doc.hdr.cvs {
                    return violation("accessor shows another value", format!("custom versions {versions:?}"));
                }
                c.eval();
                c.probe("compared");
            }
        }
    }
    Ok(())
}

fn outcome<T>(r: &Out<Result<T, gvas::error::Error>>) -> String {
    match r {
        Out::Ret(Ok(_)) => "returned".into(),
        Out::Ret(Err(e)) => err_text(e),
        Out::Panic(p) => format!("panic {p}"),
        Out::Limit => "does not end".into(),
        Out::Injected => "unwound".into(),
    }
}
