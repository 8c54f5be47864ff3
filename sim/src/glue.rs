//! Between the model and the library's public types: `build` makes library
//! values out of model values with struct literals, `project` turns library
//! values into model values, bit for bit.

use crate::model::*;
use gvas::engine_version::FEngineVersion;
use gvas::game_version::{DeserializedGameVersion, GameVersion, PalworldCompressionType};
use gvas::properties::{
    Property,
    array_property::ArrayProperty,
    delegate_property::*,
    enum_property::EnumProperty,
    field_path_property::{FieldPath, FieldPathProperty},
    int_property::*,
    map_property::MapProperty,
    name_property::NameProperty,
    object_property::ObjectProperty,
    set_property::SetProperty,
    str_property::StrProperty,
    struct_property::{StructProperty, StructPropertyValue},
    struct_types::*,
    text_property::*,
    unknown_property::UnknownProperty,
};
use gvas::types::{Guid, map::HashableIndexMap};
use gvas::{GvasFile, GvasHeader};
use ordered_float::OrderedFloat;

fn f32b(b: &u32) -> f32 {
    f32::from_bits(*b)
}
fn f64b(b: &u64) -> f64 {
    f64::from_bits(*b)
}
fn hmap<K: std::hash::Hash + Eq, V: std::hash::Hash>(it: impl Iterator<Item = (K, V)>) -> HashableIndexMap<K, V> {
    let mut m = HashableIndexMap::new();
    for (k, v) in it {
        m.0.insert(k, v);
    }
    m
}

pub fn game_version(c: Container) -> GameVersion {
    match c {
        Container::Plain => GameVersion::Default,
        _ => GameVersion::Palworld,
    }
}

pub fn build_hdr(h: &Hdr) -> GvasHeader {
    let engine_version = FEngineVersion::new(h.eng.0, h.eng.1, h.eng.2, h.eng.3, h.eng.4.clone());
    let custom_versions = hmap(h.cvs.iter().map(|(g, v)| (Guid(*g), *v)));
    match h.ue5 {
        None => GvasHeader::Version2 {
            package_file_version: h.pfv,
            engine_version,
            custom_version_format: h.cvf,
            custom_versions,
            save_game_class_name: h.class.clone(),
        },
        Some(u) => GvasHeader::Version3 {
            package_file_version: h.pfv,
            package_file_version_ue5: u,
            engine_version,
            custom_version_format: h.cvf,
            custom_versions,
            save_game_class_name: h.class.clone(),
        },
    }
}

pub fn build(d: &Doc) -> GvasFile {
    GvasFile {
        deserialized_game_version: match d.container {
            Container::Plain => DeserializedGameVersion::Default,
            Container::PlzNone => DeserializedGameVersion::Palworld(PalworldCompressionType::None),
            Container::PlzZlib => DeserializedGameVersion::Palworld(PalworldCompressionType::Zlib),
            Container::PlzTwice => DeserializedGameVersion::Palworld(PalworldCompressionType::ZlibTwice),
        },
        header: build_hdr(&d.hdr),
        properties: hmap(d.props.iter().map(|(k, v)| (k.clone(), build_p(v)))),
    }
}

fn deleg(a: &str, b: &str) -> Delegate {
    Delegate { object: a.to_string(), function_name: b.to_string() }
}
fn delegs(v: &[(String, String)]) -> MulticastScriptDelegate {
    MulticastScriptDelegate { delegates: v.iter().map(|(a, b)| deleg(a, b)).collect() }
}

pub fn build_p(p: &P) -> Property {
    match p {
        P::Bool(v) => BoolProperty { value: *v }.into(),
        P::I8(v) => Int8Property { value: *v }.into(),
        P::Byte { name, v } => ByteProperty {
            name: name.clone(),
            value: match v {
                ByteV::Byte(b) => BytePropertyValue::Byte(*b),
                ByteV::Ns(s) => BytePropertyValue::Namespaced(s.clone()),
            },
        }
        .into(),
        P::I16(v) => Int16Property { value: *v }.into(),
        P::U16(v) => UInt16Property { value: *v }.into(),
        P::I32(v) => IntProperty { value: *v }.into(),
        P::U32(v) => UInt32Property { value: *v }.into(),
        P::I64(v) => Int64Property { value: *v }.into(),
        P::U64(v) => UInt64Property { value: *v }.into(),
        P::F32(v) => FloatProperty { value: OrderedFloat(f32b(v)) }.into(),
        P::F64(v) => DoubleProperty { value: OrderedFloat(f64b(v)) }.into(),
        P::Enum { ty, v } => EnumProperty { enum_type: ty.clone(), value: v.clone() }.into(),
        P::Str(v) => StrProperty { value: v.clone() }.into(),
        P::Name { idx, v } => NameProperty { array_index: *idx, value: v.clone() }.into(),
        P::Obj(v) => ObjectProperty { value: v.clone() }.into(),
        P::Deleg(a, b) => DelegateProperty { value: deleg(a, b) }.into(),
        P::MInline(v) => MulticastInlineDelegateProperty { value: delegs(v) }.into(),
        P::MSparse(v) => MulticastSparseDelegateProperty { value: delegs(v) }.into(),
        P::FieldPath(v, o) => FieldPathProperty { value: FieldPath { path: v.clone(), resolved_owner: o.clone() } }.into(),
        P::Text(t) => TextProperty { value: build_t(t) }.into(),
        P::Arr { ty, els, special } => build_arr(ty, els, *special).into(),
        P::ArrStruct { field, ty, guid, els } => ArrayProperty::Structs {
            field_name: field.clone(),
            type_name: ty.clone(),
            guid: Guid(*guid),
            structs: els.iter().map(build_sv).collect(),
        }
        .into(),
        P::Set { ty, flags, els } => {
            SetProperty { property_type: ty.clone(), allocation_flags: *flags, properties: els.iter().map(build_p).collect() }.into()
        }
        P::Map { kt, vt, flags, es, special } => build_map(kt, vt, *flags, es, *special).into(),
        P::Struct { ty, guid, v } => StructProperty { guid: Guid(*guid), type_name: ty.clone(), value: build_sv(v) }.into(),
        P::SVal(v) => build_sv(v).into(),
        P::Unknown { ty, raw } => UnknownProperty::new(ty.clone(), raw.clone()).into(),
        P::Opaque(s) => UnknownProperty::new(format!("opaque {s}"), vec![]).into(),
    }
}

fn build_arr(ty: &str, els: &[P], special: bool) -> ArrayProperty {
    let general = || ArrayProperty::Properties { property_type: ty.to_string(), properties: els.iter().map(build_p).collect() };
    if !special {
        return general();
    }
    match ty {
        "BoolProperty" => ArrayProperty::Bools { bools: els.iter().map(|e| matches!(e, P::Bool(true))).collect() },
        "ByteProperty" => ArrayProperty::Bytes {
            bytes: els.iter().map(|e| if let P::Byte { v: ByteV::Byte(b), .. } = e { *b } else { 0 }).collect(),
        },
        "EnumProperty" => ArrayProperty::Enums {
            enums: els.iter().map(|e| if let P::Enum { v, .. } = e { v.clone() } else { String::new() }).collect(),
        },
        "FloatProperty" => ArrayProperty::Floats {
            floats: els.iter().map(|e| if let P::F32(b) = e { OrderedFloat(f32b(b)) } else { OrderedFloat(0.0) }).collect(),
        },
        "IntProperty" => ArrayProperty::Ints { ints: els.iter().map(|e| if let P::I32(v) = e { *v } else { 0 }).collect() },
        "NameProperty" => ArrayProperty::Names {
            names: els.iter().map(|e| if let P::Name { v, .. } = e { v.clone() } else { None }).collect(),
        },
        "StrProperty" => {
            ArrayProperty::Strings { strings: els.iter().map(|e| if let P::Str(v) = e { v.clone() } else { None }).collect() }
        }
        _ => general(),
    }
}

fn key_str(k: &P) -> String {
    match k {
        P::Enum { v, .. } => v.clone(),
        P::Name { v, .. } => v.clone().unwrap_or_default(),
        P::Str(v) => v.clone().unwrap_or_default(),
        _ => String::new(),
    }
}

fn build_map(kt: &str, vt: &str, flags: u32, es: &[(P, P)], special: u8) -> MapProperty {
    let b = |v: &P| matches!(v, P::Bool(true));
    let i = |v: &P| if let P::I32(x) = v { *x } else { 0 };
    let st = |v: &P| if let P::Str(x) = v { x.clone() } else { None };
    let bools = || hmap(es.iter().map(|(k, v)| (key_str(k), b(v))));
    let ints = || hmap(es.iter().map(|(k, v)| (key_str(k), i(v))));
    let props = || hmap(es.iter().map(|(k, v)| (key_str(k), build_p(v))));
    let value_type = vt.to_string();
    match (special, kt, vt) {
        (2, "EnumProperty", "BoolProperty") => MapProperty::EnumBool { enum_bools: bools() },
        (2, "EnumProperty", "IntProperty") => MapProperty::EnumInt { enum_ints: ints() },
        (2, "NameProperty", "BoolProperty") => MapProperty::NameBool { name_bools: bools() },
        (2, "NameProperty", "IntProperty") => MapProperty::NameInt { name_ints: ints() },
        (2, "StrProperty", "BoolProperty") => MapProperty::StrBool { str_bools: bools() },
        (2, "StrProperty", "IntProperty") => MapProperty::StrInt { str_ints: ints() },
        (2, "StrProperty", "StrProperty") => {
            MapProperty::StrStr { str_strs: hmap(es.iter().map(|(k, v)| (key_str(k), st(v)))) }
        }
        (1 | 2, "EnumProperty", _) => MapProperty::EnumProperty { value_type, enum_props: props() },
        (1 | 2, "NameProperty", _) => MapProperty::NameProperty { value_type, name_props: props() },
        (1 | 2, "StrProperty", _) => MapProperty::StrProperty { value_type, str_props: props() },
        _ => MapProperty::Properties {
            key_type: kt.to_string(),
            value_type,
            allocation_flags: flags,
            value: hmap(es.iter().map(|(k, v)| (build_p(k), build_p(v)))),
        },
    }
}

pub fn build_sv(v: &SV) -> StructPropertyValue {
    use StructPropertyValue as S;
    match v {
        SV::VecF(v) => S::VectorF(VectorF::new(f32b(&v[0]), f32b(&v[1]), f32b(&v[2]))),
        SV::VecD(v) => S::VectorD(VectorD::new(f64b(&v[0]), f64b(&v[1]), f64b(&v[2]))),
        SV::Vec2F(v) => S::Vector2F(Vector2F::new(f32b(&v[0]), f32b(&v[1]))),
        SV::Vec2D(v) => S::Vector2D(Vector2D::new(f64b(&v[0]), f64b(&v[1]))),
        SV::RotF(v) => {
            S::RotatorF(RotatorF { pitch: OrderedFloat(f32b(&v[0])), yaw: OrderedFloat(f32b(&v[1])), roll: OrderedFloat(f32b(&v[2])) })
        }
        SV::RotD(v) => {
            S::RotatorD(RotatorD { pitch: OrderedFloat(f64b(&v[0])), yaw: OrderedFloat(f64b(&v[1])), roll: OrderedFloat(f64b(&v[2])) })
        }
        SV::QuatF(v) => S::QuatF(QuatF {
            x: OrderedFloat(f32b(&v[0])),
            y: OrderedFloat(f32b(&v[1])),
            z: OrderedFloat(f32b(&v[2])),
            w: OrderedFloat(f32b(&v[3])),
        }),
        SV::QuatD(v) => S::QuatD(QuatD {
            x: OrderedFloat(f64b(&v[0])),
            y: OrderedFloat(f64b(&v[1])),
            z: OrderedFloat(f64b(&v[2])),
            w: OrderedFloat(f64b(&v[3])),
        }),
        SV::DateTime(t) => S::DateTime(DateTime { ticks: *t }),
        SV::Timespan(t) => S::Timespan(Timespan { ticks: *t }),
        SV::Guid(g) => S::Guid(Guid(*g)),
        SV::Color(v) => S::LinearColor(LinearColor {
            r: OrderedFloat(f32b(&v[0])),
            g: OrderedFloat(f32b(&v[1])),
            b: OrderedFloat(f32b(&v[2])),
            a: OrderedFloat(f32b(&v[3])),
        }),
        SV::IntPoint(x, y) => S::IntPoint(IntPoint { x: *x, y: *y }),
        SV::Tags(t) => S::GameplayTagContainer(t.clone()),
        SV::Custom(f) => S::CustomStruct(hmap(f.iter().map(|(k, v)| (k.clone(), v.iter().map(build_p).collect::<Vec<_>>())))),
        SV::Opaque(_) => S::CustomStruct(HashableIndexMap::new()),
    }
}

pub fn dts(v: i8) -> DateTimeStyle {
    match v {
        0 => DateTimeStyle::Default,
        1 => DateTimeStyle::Short,
        2 => DateTimeStyle::Medium,
        3 => DateTimeStyle::Long,
        _ => DateTimeStyle::Full,
    }
}
pub fn rm(v: i8) -> RoundingMode {
    match v {
        0 => RoundingMode::HalfToEven,
        1 => RoundingMode::HalfFromZero,
        2 => RoundingMode::HalfToZero,
        3 => RoundingMode::FromZero,
        4 => RoundingMode::ToZero,
        5 => RoundingMode::ToNegativeInfinity,
        _ => RoundingMode::ToPositiveInfinity,
    }
}

pub fn build_opt(o: &NumOpt) -> NumberFormattingOptions {
    NumberFormattingOptions {
        always_include_sign: o.sign,
        use_grouping: o.group,
        rounding_mode: rm(o.round),
        minimum_integral_digits: o.digits[0],
        maximum_integral_digits: o.digits[1],
        minimum_fractional_digits: o.digits[2],
        maximum_fractional_digits: o.digits[3],
    }
}

pub fn build_t(t: &T) -> FText {
    FText { flags: t.flags, history: build_h(&t.h) }
}

pub fn build_h(h: &H) -> FTextHistory {
    use FTextHistory as F;
    let args = |a: &[(String, A)]| hmap(a.iter().map(|(k, v)| (k.clone(), build_a(v))));
    match h {
        H::Empty => F::Empty {},
        H::None(s) => F::None { culture_invariant_string: s.clone() },
        H::Base(a, b, c) => F::Base { namespace: a.clone(), key: b.clone(), source_string: c.clone() },
        H::Named(t, a) => F::NamedFormat { source_format: Box::new(build_t(t)), arguments: args(a) },
        H::Argument(t, a) => F::ArgumentFormat { source_format: Box::new(build_t(t)), arguments: args(a) },
        H::Ordered(t, a) => F::OrderedFormat { source_format: Box::new(build_t(t)), arguments: a.iter().map(build_a).collect() },
        H::Number(a, o, c) => F::AsNumber {
            source_value: Box::new(build_a(a)),
            format_options: o.as_ref().map(build_opt),
            target_culture: c.clone(),
        },
        H::Percent(a, o, c) => F::AsPercent {
            source_value: Box::new(build_a(a)),
            format_options: o.as_ref().map(build_opt),
            target_culture: c.clone(),
        },
        H::Currency(code, a, o, c) => F::AsCurrency {
            currency_code: code.clone(),
            source_value: Box::new(build_a(a)),
            format_options: o.as_ref().map(build_opt),
            target_culture: c.clone(),
        },
        H::Date(t, s, c) => F::AsDate { date_time: DateTime { ticks: *t }, date_style: dts(*s), target_culture: c.clone() },
        H::Time(t, s, z, c) => F::AsTime {
            source_date_time: DateTime { ticks: *t },
            time_style: dts(*s),
            time_zone: z.clone(),
            target_culture: c.clone(),
        },
        H::DateTime(t, s, s2, z, c) => F::AsDateTime {
            source_date_time: DateTime { ticks: *t },
            date_style: dts(*s),
            time_style: dts(*s2),
            time_zone: z.clone(),
            target_culture: c.clone(),
        },
        H::Transform(t, k) => F::Transform {
            source_text: Box::new(build_t(t)),
            transform_type: if *k == 0 { TransformType::ToLower } else { TransformType::ToUpper },
        },
        H::Table(a, b) => F::StringTableEntry { table_id: a.clone(), key: b.clone() },
        H::Opaque(_) => F::Empty {},
    }
}

pub fn build_a(a: &A) -> FormatArgumentValue {
    use FormatArgumentValue as F;
    match a {
        A::Int(v) => F::Int(*v),
        A::UInt(v) => F::UInt(*v),
        A::Float(v) => F::Float(OrderedFloat(f32b(v))),
        A::Double(v) => F::Double(OrderedFloat(f64b(v))),
        A::Text(t) => F::Text(build_t(t)),
        A::Int64(v) => F::Int64(*v),
        A::UInt64(v) => F::UInt64(*v),
        A::Opaque(_) => F::Int(0),
    }
}

// ---------------------------------------------------------------------------

pub fn project_hdr(h: &GvasHeader) -> Hdr {
    let eng = |e: &FEngineVersion| (e.major, e.minor, e.patch, e.change_list, e.branch.clone());
    let cvs = |m: &HashableIndexMap<Guid, u32>| m.0.iter().map(|(g, v)| (g.0, *v)).collect();
    match h {
        GvasHeader::Version2 { package_file_version, engine_version, custom_version_format, custom_versions, save_game_class_name } => {
            Hdr {
                pfv: *package_file_version,
                ue5: None,
                eng: eng(engine_version),
                cvf: *custom_version_format,
                cvs: cvs(custom_versions),
                class: save_game_class_name.clone(),
            }
        }
        GvasHeader::Version3 {
            package_file_version,
            package_file_version_ue5,
            engine_version,
            custom_version_format,
            custom_versions,
            save_game_class_name,
        } => Hdr {
            pfv: *package_file_version,
            ue5: Some(*package_file_version_ue5),
            eng: eng(engine_version),
            cvf: *custom_version_format,
            cvs: cvs(custom_versions),
            class: save_game_class_name.clone(),
        },
    }
}

#[allow(unreachable_patterns)]
pub fn project(f: &GvasFile) -> Doc {
    Doc {
        container: match f.deserialized_game_version {
            DeserializedGameVersion::Default => Container::Plain,
            DeserializedGameVersion::Palworld(PalworldCompressionType::None) => Container::PlzNone,
            DeserializedGameVersion::Palworld(PalworldCompressionType::Zlib) => Container::PlzZlib,
            DeserializedGameVersion::Palworld(PalworldCompressionType::ZlibTwice) => Container::PlzTwice,
        },
        hdr: project_hdr(&f.header),
        props: f.properties.0.iter().map(|(k, v)| (k.clone(), project_p(v))).collect(),
    }
}

fn pd(d: &Delegate) -> (String, String) {
    (d.object.clone(), d.function_name.clone())
}

#[allow(unreachable_patterns)]
pub fn project_p(p: &Property) -> P {
    match p {
        Property::BoolProperty(x) => P::Bool(x.value),
        Property::Int8Property(x) => P::I8(x.value),
        Property::ByteProperty(x) => P::Byte {
            name: x.name.clone(),
            v: match &x.value {
                BytePropertyValue::Byte(b) => ByteV::Byte(*b),
                BytePropertyValue::Namespaced(s) => ByteV::Ns(s.clone()),
            },
        },
        Property::Int16Property(x) => P::I16(x.value),
        Property::UInt16Property(x) => P::U16(x.value),
        Property::IntProperty(x) => P::I32(x.value),
        Property::UInt32Property(x) => P::U32(x.value),
        Property::Int64Property(x) => P::I64(x.value),
        Property::UInt64Property(x) => P::U64(x.value),
        Property::FloatProperty(x) => P::F32(x.value.0.to_bits()),
        Property::DoubleProperty(x) => P::F64(x.value.0.to_bits()),
        Property::EnumProperty(x) => P::Enum { ty: x.enum_type.clone(), v: x.value.clone() },
        Property::StrProperty(x) => P::Str(x.value.clone()),
        Property::NameProperty(x) => P::Name { idx: x.array_index, v: x.value.clone() },
        Property::ObjectProperty(x) => P::Obj(x.value.clone()),
        Property::DelegateProperty(x) => {
            let (a, b) = pd(&x.value);
            P::Deleg(a, b)
        }
        Property::MulticastInlineDelegateProperty(x) => P::MInline(x.value.delegates.iter().map(pd).collect()),
        Property::MulticastSparseDelegateProperty(x) => P::MSparse(x.value.delegates.iter().map(pd).collect()),
        Property::FieldPathProperty(x) => P::FieldPath(x.value.path.clone(), x.value.resolved_owner.clone()),
        Property::TextProperty(x) => P::Text(project_t(&x.value)),
        Property::ArrayProperty(a) => project_arr(a),
        Property::SetProperty(x) => P::Set {
            ty: x.property_type.clone(),
            flags: x.allocation_flags,
            els: x.properties.iter().map(project_p).collect(),
        },
        Property::MapProperty(m) => project_map(m),
        Property::StructProperty(x) => P::Struct { ty: x.type_name.clone(), guid: x.guid.0, v: project_sv(&x.value) },
        Property::StructPropertyValue(v) => P::SVal(project_sv(v)),
        other => P::Opaque(format!("{other:?}")),
    }
}

#[allow(unreachable_patterns)]
fn project_arr(a: &ArrayProperty) -> P {
    let sp = |ty: &str, els: Vec<P>| P::Arr { ty: ty.to_string(), els, special: true };
    match a {
        ArrayProperty::Bools { bools } => sp("BoolProperty", bools.iter().map(|b| P::Bool(*b)).collect()),
        ArrayProperty::Bytes { bytes } => {
            sp("ByteProperty", bytes.iter().map(|b| P::Byte { name: None, v: ByteV::Byte(*b) }).collect())
        }
        ArrayProperty::Enums { enums } => sp("EnumProperty", enums.iter().map(|e| P::Enum { ty: None, v: e.clone() }).collect()),
        ArrayProperty::Floats { floats } => sp("FloatProperty", floats.iter().map(|f| P::F32(f.0.to_bits())).collect()),
        ArrayProperty::Ints { ints } => sp("IntProperty", ints.iter().map(|i| P::I32(*i)).collect()),
        ArrayProperty::Names { names } => sp("NameProperty", names.iter().map(|n| P::Name { idx: 0, v: n.clone() }).collect()),
        ArrayProperty::Strings { strings } => sp("StrProperty", strings.iter().map(|s| P::Str(s.clone())).collect()),
        ArrayProperty::Structs { field_name, type_name, guid, structs } => P::ArrStruct {
            field: field_name.clone(),
            ty: type_name.clone(),
            guid: guid.0,
            els: structs.iter().map(project_sv).collect(),
        },
        ArrayProperty::Properties { property_type, properties } => {
            P::Arr { ty: property_type.clone(), els: properties.iter().map(project_p).collect(), special: false }
        }
        other => P::Opaque(format!("{other:?}")),
    }
}

#[allow(unreachable_patterns)]
fn project_map(m: &MapProperty) -> P {
    let ek = |k: &String| P::Enum { ty: None, v: k.clone() };
    let nk = |k: &String| P::Name { idx: 0, v: Some(k.clone()) };
    let sk = |k: &String| P::Str(Some(k.clone()));
    let mk = |kt: &str, vt: &str, es: Vec<(P, P)>, special: u8| P::Map { kt: kt.into(), vt: vt.into(), flags: 0, es, special };
    match m {
        MapProperty::EnumBool { enum_bools: m } => {
            mk("EnumProperty", "BoolProperty", m.0.iter().map(|(k, v)| (ek(k), P::Bool(*v))).collect(), 2)
        }
        MapProperty::EnumInt { enum_ints: m } => {
            mk("EnumProperty", "IntProperty", m.0.iter().map(|(k, v)| (ek(k), P::I32(*v))).collect(), 2)
        }
        MapProperty::EnumProperty { value_type, enum_props: m } => {
            mk("EnumProperty", value_type, m.0.iter().map(|(k, v)| (ek(k), project_p(v))).collect(), 1)
        }
        MapProperty::NameBool { name_bools: m } => {
            mk("NameProperty", "BoolProperty", m.0.iter().map(|(k, v)| (nk(k), P::Bool(*v))).collect(), 2)
        }
        MapProperty::NameInt { name_ints: m } => {
            mk("NameProperty", "IntProperty", m.0.iter().map(|(k, v)| (nk(k), P::I32(*v))).collect(), 2)
        }
        MapProperty::NameProperty { value_type, name_props: m } => {
            mk("NameProperty", value_type, m.0.iter().map(|(k, v)| (nk(k), project_p(v))).collect(), 1)
        }
        MapProperty::StrBool { str_bools: m } => {
            mk("StrProperty", "BoolProperty", m.0.iter().map(|(k, v)| (sk(k), P::Bool(*v))).collect(), 2)
        }
        MapProperty::StrInt { str_ints: m } => {
            mk("StrProperty", "IntProperty", m.0.iter().map(|(k, v)| (sk(k), P::I32(*v))).collect(), 2)
        }
        MapProperty::StrProperty { value_type, str_props: m } => {
            mk("StrProperty", value_type, m.0.iter().map(|(k, v)| (sk(k), project_p(v))).collect(), 1)
        }
        MapProperty::StrStr { str_strs: m } => {
            mk("StrProperty", "StrProperty", m.0.iter().map(|(k, v)| (sk(k), P::Str(v.clone()))).collect(), 2)
        }
        MapProperty::Properties { key_type, value_type, allocation_flags, value } => P::Map {
            kt: key_type.clone(),
            vt: value_type.clone(),
            flags: *allocation_flags,
            es: value.0.iter().map(|(k, v)| (project_p(k), project_p(v))).collect(),
            special: 0,
        },
        other => P::Opaque(format!("{other:?}")),
    }
}

#[allow(unreachable_patterns)]
pub fn project_sv(v: &StructPropertyValue) -> SV {
    use StructPropertyValue as S;
    fn a(v: &[OrderedFloat<f32>]) -> Vec<u32> {
        v.iter().map(|x| x.0.to_bits()).collect()
    }
    fn b(v: &[OrderedFloat<f64>]) -> Vec<u64> {
        v.iter().map(|x| x.0.to_bits()).collect()
    }
    match v {
        S::VectorF(v) => SV::VecF(a(&[v.x, v.y, v.z])),
        S::VectorD(v) => SV::VecD(b(&[v.x, v.y, v.z])),
        S::Vector2F(v) => SV::Vec2F(a(&[v.x, v.y])),
        S::Vector2D(v) => SV::Vec2D(b(&[v.x, v.y])),
        S::RotatorF(v) => SV::RotF(a(&[v.pitch, v.yaw, v.roll])),
        S::RotatorD(v) => SV::RotD(b(&[v.pitch, v.yaw, v.roll])),
        S::QuatF(v) => SV::QuatF(a(&[v.x, v.y, v.z, v.w])),
        S::QuatD(v) => SV::QuatD(b(&[v.x, v.y, v.z, v.w])),
        S::DateTime(t) => SV::DateTime(t.ticks),
        S::Timespan(t) => SV::Timespan(t.ticks),
        S::Guid(g) => SV::Guid(g.0),
        S::LinearColor(c) => SV::Color(a(&[c.r, c.g, c.b, c.a])),
        S::IntPoint(p) => SV::IntPoint(p.x, p.y),
        S::GameplayTagContainer(t) => SV::Tags(t.clone()),
        S::CustomStruct(m) => SV::Custom(m.0.iter().map(|(k, v)| (k.clone(), v.iter().map(project_p).collect())).collect()),
        other => SV::Opaque(format!("{other:?}")),
    }
}

pub fn project_t(t: &FText) -> T {
    T { flags: t.flags, h: project_h(&t.history) }
}

pub fn project_opt(o: &NumberFormattingOptions) -> NumOpt {
    NumOpt {
        sign: o.always_include_sign,
        group: o.use_grouping,
        round: match o.rounding_mode {
            RoundingMode::HalfToEven => 0,
            RoundingMode::HalfFromZero => 1,
            RoundingMode::HalfToZero => 2,
            RoundingMode::FromZero => 3,
            RoundingMode::ToZero => 4,
            RoundingMode::ToNegativeInfinity => 5,
            RoundingMode::ToPositiveInfinity => 6,
        },
        digits: [
            o.minimum_integral_digits,
            o.maximum_integral_digits,
            o.minimum_fractional_digits,
            o.maximum_fractional_digits,
        ],
    }
}

fn pst(s: &DateTimeStyle) -> i8 {
    match s {
        DateTimeStyle::Default => 0,
        DateTimeStyle::Short => 1,
        DateTimeStyle::Medium => 2,
        DateTimeStyle::Long => 3,
        DateTimeStyle::Full => 4,
    }
}

#[allow(unreachable_patterns)]
pub fn project_h(h: &FTextHistory) -> H {
    use FTextHistory as F;
    let args = |m: &HashableIndexMap<String, FormatArgumentValue>| m.0.iter().map(|(k, v)| (k.clone(), project_a(v))).collect();
    match h {
        F::Empty {} => H::Empty,
        F::None { culture_invariant_string } => H::None(culture_invariant_string.clone()),
        F::Base { namespace, key, source_string } => H::Base(namespace.clone(), key.clone(), source_string.clone()),
        F::NamedFormat { source_format, arguments } => H::Named(Box::new(project_t(source_format)), args(arguments)),
        F::OrderedFormat { source_format, arguments } => {
            H::Ordered(Box::new(project_t(source_format)), arguments.iter().map(project_a).collect())
        }
        F::ArgumentFormat { source_format, arguments } => H::Argument(Box::new(project_t(source_format)), args(arguments)),
        F::AsNumber { source_value, format_options, target_culture } => {
            H::Number(Box::new(project_a(source_value)), format_options.as_ref().map(project_opt), target_culture.clone())
        }
        F::AsPercent { source_value, format_options, target_culture } => {
            H::Percent(Box::new(project_a(source_value)), format_options.as_ref().map(project_opt), target_culture.clone())
        }
        F::AsCurrency { currency_code, source_value, format_options, target_culture } => H::Currency(
            currency_code.clone(),
            Box::new(project_a(source_value)),
            format_options.as_ref().map(project_opt),
            target_culture.clone(),
        ),
        F::AsDate { date_time, date_style, target_culture } => H::Date(date_time.ticks, pst(date_style), target_culture.clone()),
        F::AsTime { source_date_time, time_style, time_zone, target_culture } => {
            H::Time(source_date_time.ticks, pst(time_style), time_zone.clone(), target_culture.clone())
        }
        F::AsDateTime { source_date_time, date_style, time_style, time_zone, target_culture } => {
            H::DateTime(source_date_time.ticks, pst(date_style), pst(time_style), time_zone.clone(), target_culture.clone())
        }
        F::Transform { source_text, transform_type } => H::Transform(
            Box::new(project_t(source_text)),
            match transform_type {
                TransformType::ToLower => 0,
                TransformType::ToUpper => 1,
            },
        ),
        F::StringTableEntry { table_id, key } => H::Table(table_id.clone(), key.clone()),
        other => H::Opaque(format!("{other:?}")),
    }
}

#[allow(unreachable_patterns)]
pub fn project_a(a: &FormatArgumentValue) -> A {
    use FormatArgumentValue as F;
    match a {
        F::Int(v) => A::Int(*v),
        F::UInt(v) => A::UInt(*v),
        F::Float(v) => A::Float(v.0.to_bits()),
        F::Double(v) => A::Double(v.0.to_bits()),
        F::Text(t) => A::Text(project_t(t)),
        F::Int64(v) => A::Int64(*v),
        F::UInt64(v) => A::UInt64(*v),
        other => A::Opaque(format!("{other:?}")),
    }
}

/// What `project` is expected to give for a load of this model document.
pub fn expected(d: &Doc) -> Doc {
    project(&build(d))
}
pub fn expected_p(p: &P) -> P {
    project_p(&build_p(p))
}

/// First difference between two documents, for reports.
pub fn diff(a: &Doc, b: &Doc) -> Option<String> {
    if a == b {
        return None;
    }
    if a.container != b.container {
        return Some(format!("container {:?} != {:?}", a.container, b.container));
    }
    if a.hdr != b.hdr {
        return Some(format!("header {} != {}", clipd(&a.hdr), clipd(&b.hdr)));
    }
    if a.props.len() != b.props.len() {
        return Some(format!("{} properties != {} properties", a.props.len(), b.props.len()));
    }
    for (i, (x, y)) in a.props.iter().zip(&b.props).enumerate() {
        if x != y {
            return Some(format!("property {i}: {} != {}", clipd(x), clipd(y)));
        }
    }
    Some("documents differ".into())
}

pub fn clipd<T: std::fmt::Debug>(t: &T) -> String {
    crate::ctx::clip(&format!("{t:?}"), 400)
}
