//! C05: the derived and built-in implementations of ReflectMessage, and the conversions between the two worlds.
use crate::fv::*;
use crate::parse;
use prmon::dynconv::*;
use prmon::gen::{gen_files, GenCfg};
use prmon::props::{hex, show_files};
use prmon::rmsg::*;
use prmon::run::{guard, CaseResult, Ctx, Prop};
use prmon::schema::*;
use prmon::wire;
use prost::Message;
use prost_reflect::{Cardinality, DescriptorPool, DynamicMessage, Kind, MessageDescriptor, ReflectMessage};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

pub struct Entry {
    pub set: &'static str,
    pub global: bool,
    pub name: String,
    pub rust: &'static str,
    bytes: &'static [u8],
    desc: fn() -> MessageDescriptor,
    tags: fn() -> Fv,
    check: fn(&mut Ctx, &Entry, &RMsg, &RMsg) -> CaseResult,
}

pub trait Typed: ReflectMessage + Default + Clone + PartialEq + std::fmt::Debug + ToFv + 'static {}
impl<T: ReflectMessage + Default + Clone + PartialEq + std::fmt::Debug + ToFv + 'static> Typed for T {}

pub fn entry<T: Typed>(set: &'static str, bytes: &'static [u8], global: bool, name: String) -> Entry {
    Entry { set, global, name, bytes, rust: std::any::type_name::<T>(), desc: || T::default().descriptor(), tags: || T::default().fv(), check: check::<T> }
}

fn wkt() -> Vec<Entry> {
    let mut v = vec![];
    macro_rules! w { ($($t:ty => $n:literal),* $(,)?) => { $(v.push(entry::<$t>("wkt", &[], true, format!("google.protobuf.{}", $n)));)* } }
    use prost_types as p;
    w! {
        () => "Empty", bool => "BoolValue", f32 => "FloatValue", f64 => "DoubleValue", i32 => "Int32Value", i64 => "Int64Value", u32 => "UInt32Value", u64 => "UInt64Value",
        String => "StringValue", Vec<u8> => "BytesValue", prost::bytes::Bytes => "BytesValue",
        p::Any => "Any", p::Timestamp => "Timestamp", p::Duration => "Duration", p::FieldMask => "FieldMask", p::Struct => "Struct", p::ListValue => "ListValue", p::Value => "Value",
        p::FileDescriptorSet => "FileDescriptorSet", p::FileDescriptorProto => "FileDescriptorProto", p::DescriptorProto => "DescriptorProto",
        p::descriptor_proto::ExtensionRange => "DescriptorProto.ExtensionRange", p::descriptor_proto::ReservedRange => "DescriptorProto.ReservedRange",
        p::ExtensionRangeOptions => "ExtensionRangeOptions", p::FieldDescriptorProto => "FieldDescriptorProto", p::OneofDescriptorProto => "OneofDescriptorProto",
        p::EnumDescriptorProto => "EnumDescriptorProto", p::enum_descriptor_proto::EnumReservedRange => "EnumDescriptorProto.EnumReservedRange",
        p::EnumValueDescriptorProto => "EnumValueDescriptorProto", p::ServiceDescriptorProto => "ServiceDescriptorProto", p::MethodDescriptorProto => "MethodDescriptorProto",
        p::FileOptions => "FileOptions", p::MessageOptions => "MessageOptions", p::FieldOptions => "FieldOptions", p::OneofOptions => "OneofOptions", p::EnumOptions => "EnumOptions",
        p::EnumValueOptions => "EnumValueOptions", p::ServiceOptions => "ServiceOptions", p::MethodOptions => "MethodOptions", p::UninterpretedOption => "UninterpretedOption",
        p::uninterpreted_option::NamePart => "UninterpretedOption.NamePart", p::SourceCodeInfo => "SourceCodeInfo", p::source_code_info::Location => "SourceCodeInfo.Location",
        p::GeneratedCodeInfo => "GeneratedCodeInfo", p::generated_code_info::Annotation => "GeneratedCodeInfo.Annotation",
        p::compiler::Version => "compiler.Version", p::compiler::CodeGeneratorRequest => "compiler.CodeGeneratorRequest", p::compiler::CodeGeneratorResponse => "compiler.CodeGeneratorResponse",
        p::compiler::code_generator_response::File => "compiler.CodeGeneratorResponse.File", p::SourceContext => "SourceContext",
        p::Type => "Type", p::Field => "Field", p::Enum => "Enum", p::EnumValue => "EnumValue", p::Option => "Option", p::Api => "Api", p::Method => "Method", p::Mixin => "Mixin",
    }
    v
}

// the forms in which the attribute can be written
mod forms {
    use prost_reflect::{DescriptorPool, ReflectMessage};
    use std::sync::LazyLock;
    pub static POOL: LazyLock<DescriptorPool> = LazyLock::new(|| crate::pools::own().clone());
    macro_rules! form {
        ($($n:ident { $(#[$a:meta])* })*) => { $(
            #[derive(Clone, PartialEq, prost::Message, ReflectMessage)]
            $(#[$a])*
            pub struct $n {
                #[prost(sint64, tag = "8")]
                pub f_sint64: i64,
                #[prost(string, tag = "14")]
                pub f_string: String,
            }
            impl crate::fv::ToFv for $n {
                fn fv(&self) -> crate::fv::Fv { crate::fv::Fv::Msg(vec![(8, self.f_sint64.fv()), (14, self.f_string.fv())]) }
            }
        )* };
    }
    form! {
        A { #[prost_reflect(descriptor_pool = "crate::pools::own()", message_name = "gen5.hand.Scalars")] }
        B { #[prost_reflect(message_name = "gen5.hand.Scalars", descriptor_pool = "POOL")] }
        C { #[prost_reflect(message_name = "gen5.hand.Scalars")] #[prost_reflect(descriptor_pool = "self::POOL")] }
        D { #[prost_reflect(descriptor_pool = "{ let p: &DescriptorPool = &POOL; p.clone() }")] #[doc = "in between"] #[prost_reflect(message_name = "gen5.hand.Scalars")] }
        E { #[prost_reflect(file_descriptor_set_bytes = "crate::bytes::HAND", message_name = "gen5.hand.Scalars")] }
        F { #[prost_reflect(message_name = r"gen5.hand.Scalars",)] #[prost_reflect(file_descriptor_set_bytes = r#"&include_bytes!(concat!(env!("OUT_DIR"), "/hand/fds.bin"))[..]"#)] }
        G { #[prost_reflect(message_name = "gen5.hand.Scalars", descriptor_pool = "Vec::from([POOL.clone()])[0]")] }
    }
    // a name in another scope
    pub mod inner {
        #[derive(Clone, PartialEq, prost::Message, prost_reflect::ReflectMessage)]
        #[prost_reflect(descriptor_pool = "super::POOL", message_name = "gen5.hand.Recursive.Deep.Deep")]
        pub struct Other {
            #[prost(message, optional, boxed, tag = "1")]
            pub deep: Option<Box<Deep>>,
        }
        #[derive(Clone, PartialEq, prost::Message, prost_reflect::ReflectMessage)]
        #[prost_reflect(descriptor_pool = "super::super::forms::POOL", message_name = "gen5.hand.Recursive.Deep.Deep.Deep")]
        pub struct Deep {
            #[prost(message, optional, boxed, tag = "2")]
            pub deep: Option<Box<Deep>>,
        }
        impl crate::fv::ToFv for Other {
            fn fv(&self) -> crate::fv::Fv {
                crate::fv::Fv::Msg(vec![(1, self.deep.fv())])
            }
        }
        impl crate::fv::ToFv for Deep {
            fn fv(&self) -> crate::fv::Fv {
                crate::fv::Fv::Msg(vec![(2, self.deep.fv())])
            }
        }
    }
}

fn hand_derived() -> Vec<Entry> {
    let mut v = vec![];
    macro_rules! f { ($($t:ident $global:literal),*) => { $(v.push(entry::<forms::$t>(if $global { "hand" } else { "own" }, if $global { crate::bytes::HAND } else { crate::bytes::OWN }, $global, "gen5.hand.Scalars".into()));)* } }
    f!(A false, B false, C false, D false, E true, F true, G false);
    v.push(entry::<forms::inner::Other>("own", crate::bytes::OWN, false, "gen5.hand.Recursive.Deep.Deep".into()));
    v.push(entry::<forms::inner::Deep>("own", crate::bytes::OWN, false, "gen5.hand.Recursive.Deep.Deep.Deep".into()));
    v
}

fn entries() -> &'static Vec<Entry> {
    static E: OnceLock<Vec<Entry>> = OnceLock::new();
    E.get_or_init(|| {
        let mut v = wkt();
        v.extend(hand_derived());
        v.extend(crate::registry());
        v
    })
}

fn schema(e: &Entry) -> &'static RSchema {
    static S: OnceLock<HashMap<&'static str, RSchema>> = OnceLock::new();
    &S.get_or_init(|| {
        let mut m = HashMap::new();
        for e in entries() {
            m.entry(e.set).or_insert_with(|| {
                if e.set == "wkt" {
                    return RSchema::new(&prost_types::FileDescriptorSet::decode(&include_bytes!("../data/wkt.bin")[..]).unwrap().file);
                }
                RSchema::new(&prost_types::FileDescriptorSet::decode(e.bytes).unwrap().file)
            });
        }
        m
    })[e.set]
}

/// The fields which the Rust types of the well-known types have.
fn known(ty: &str) -> Option<&'static BTreeSet<u32>> {
    static S: OnceLock<HashMap<String, BTreeSet<u32>>> = OnceLock::new();
    S.get_or_init(|| {
        wkt()
            .iter()
            .filter_map(|e| match (e.tags)() {
                _ if e.name.ends_with(".Value") => None,
                Fv::Msg(v) => Some((e.name.clone(), v.iter().map(|x| x.0).collect())),
                _ => None,
            })
            .collect()
    })
    .get(ty)
}

/// Leaves out what prost does not represent, and fills in what is required.
fn adapt(r: &mut prmon::rng::Rng, s: &RSchema, m: &mut RMsg, only: Option<&BTreeSet<u32>>) {
    if let Some(k) = only.or(known(&m.ty)) {
        m.fields.retain(|n, _| k.contains(n));
    }
    let negzero = |v: &RVal| matches!(v, RVal::F32(0x8000_0000)) || matches!(v, RVal::F64(0x8000_0000_0000_0000));
    let d = s.msg(&m.ty);
    for f in d.fields.values() {
        if f.card == Card::Req && !m.fields.contains_key(&f.number) && only.is_none_or(|k| k.contains(&f.number)) {
            let v = ValGen::new(r, s, ValCfg { exts: false, budget: 5, max_depth: 1, ..Default::default() }).elem(&f.kind, 1);
            m.fields.insert(f.number, v);
        }
        // prost does not tell the zeros apart where the default value is left out
        if f.singular() && !f.presence && m.fields.get(&f.number).is_some_and(negzero) {
            m.fields.remove(&f.number);
        }
        if f.is_map {
            if let Some(RVal::Map(x)) = m.fields.get_mut(&f.number) {
                for v in x.values_mut() {
                    match v {
                        RVal::F32(b) if *b == 1 << 31 => *b = 0,
                        RVal::F64(b) if *b == 1 << 63 => *b = 0,
                        _ => {}
                    }
                }
            }
        }
    }
    for v in m.fields.values_mut() {
        v.for_msgs_mut(&mut |x| {
            // the root of a hand-written type restricts the rest as well
            adapt(r, s, x, if only.is_some() && x.ty.contains(".Deep") { known_deep(&x.ty) } else { None })
        });
    }
}

fn known_deep(_ty: &str) -> Option<&'static BTreeSet<u32>> {
    static S: OnceLock<BTreeSet<u32>> = OnceLock::new();
    Some(S.get_or_init(|| BTreeSet::from([2])))
}

fn canon(v: &Fv) -> String {
    match v {
        Fv::F64(x) => format!("d{:x}", x.to_bits()),
        Fv::F32(x) => format!("f{:x}", x.to_bits()),
        Fv::Some(x) => format!("Some({})", canon(x)),
        Fv::Msg(l) => format!("{{{}}}", l.iter().map(|(n, x)| format!("{n}:{}", canon(x))).collect::<Vec<_>>().join(",")),
        Fv::List(l) => format!("[{}]", l.iter().map(canon).collect::<Vec<_>>().join(",")),
        Fv::Map(l) => {
            let mut k: Vec<String> = l.iter().map(|(k, x)| format!("{}=>{}", canon(k), canon(x))).collect();
            k.sort();
            format!("<{}>", k.join(","))
        }
        v => format!("{v:?}"),
    }
}

/// What a struct holds for a value of a single field.
fn same(s: &RSchema, f: &Fv, v: &RVal) -> Result<(), String> {
    let ok = match (f, v) {
        (Fv::F64(a), RVal::F64(b)) => a.to_bits() == *b,
        (Fv::F32(a), RVal::F32(b)) => a.to_bits() == *b,
        (Fv::I32(a), RVal::I32(b) | RVal::Enum(b)) => a == b,
        (Fv::I64(a), RVal::I64(b)) => a == b,
        (Fv::U32(a), RVal::U32(b)) => a == b,
        (Fv::U64(a), RVal::U64(b)) => a == b,
        (Fv::Bool(a), RVal::Bool(b)) => a == b,
        (Fv::Str(a), RVal::Str(b)) => a == b,
        (Fv::Bytes(a), RVal::Bytes(b)) => a == b,
        (Fv::Msg(_), RVal::Msg(m)) => return same_msg(s, f, m),
        // a wrapper
        (x, RVal::Msg(m)) => {
            let d = s.msg(&m.ty);
            if d.fields.len() != 1 || !m.ty.starts_with("google.protobuf.") || !m.ty.ends_with("Value") {
                return Err(format!("{x:?} for a {}", m.ty));
            }
            let v = m.fields.get(&1).cloned().unwrap_or_else(|| zero_of(s, &d.fields[&1].kind));
            return same(s, x, &v);
        }
        (Fv::List(a), RVal::List(b)) => {
            if a.len() != b.len() {
                return Err(format!("{} elements for {}", a.len(), b.len()));
            }
            for (x, y) in a.iter().zip(b) {
                same(s, x, y)?;
            }
            true
        }
        (Fv::Map(a), RVal::Map(b)) => {
            if a.len() != b.len() {
                return Err(format!("{} entries for {}", a.len(), b.len()));
            }
            for (k, x) in a {
                let k = match k {
                    Fv::Bool(x) => RKey::Bool(*x),
                    Fv::I32(x) => RKey::I32(*x),
                    Fv::I64(x) => RKey::I64(*x),
                    Fv::U32(x) => RKey::U32(*x),
                    Fv::U64(x) => RKey::U64(*x),
                    Fv::Str(x) => RKey::Str(x.clone()),
                    k => return Err(format!("key {k:?}")),
                };
                same(s, x, b.get(&k).ok_or(format!("no entry for {k:?}"))?)?;
            }
            true
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{f:?} for {v:?}"))
    }
}

fn same_msg(s: &RSchema, f: &Fv, m: &RMsg) -> Result<(), String> {
    let Fv::Msg(fields) = f else { return same(s, f, &RVal::Msg(m.clone())) };
    let d = s.msg(&m.ty);
    let mut seen = 0;
    for (n, x) in fields {
        let rf = d.fields.get(n).ok_or(format!("{} has no field {n}", m.ty))?;
        let want = m.fields.get(n);
        seen += want.is_some() as usize;
        match (x, want) {
            (Fv::Unset, None) => Ok(()),
            (Fv::Unset, Some(v)) => Err(format!("unset for {v:?}")),
            (Fv::Some(x), Some(v)) => same(s, x, v),
            (Fv::Some(x), None) => Err(format!("{x:?} for an absent field")),
            (x, Some(v)) => same(s, x, v),
            (x, None) if rf.is_map => same(s, x, &RVal::Map(BTreeMap::new())),
            (x, None) if rf.is_list() => same(s, x, &RVal::List(vec![])),
            (x, None) => same(s, x, &zero_of(s, &rf.kind)),
        }
        .map_err(|e| format!("{}: {e}", rf.full_name))?;
    }
    if seen != m.fields.len() {
        return Err(format!("{}: fields {:?} are not all in the struct", m.ty, m.fields.keys()));
    }
    Ok(())
}

fn kind_of(k: &Kind) -> RKind {
    use RKind::*;
    match k {
        Kind::Double => Double,
        Kind::Float => Float,
        Kind::Int32 => Int32,
        Kind::Int64 => Int64,
        Kind::Uint32 => Uint32,
        Kind::Uint64 => Uint64,
        Kind::Sint32 => Sint32,
        Kind::Sint64 => Sint64,
        Kind::Fixed32 => Fixed32,
        Kind::Fixed64 => Fixed64,
        Kind::Sfixed32 => Sfixed32,
        Kind::Sfixed64 => Sfixed64,
        Kind::Bool => Bool,
        Kind::String => Str,
        Kind::Bytes => Bytes,
        Kind::Message(m) => Msg(m.full_name().into()),
        Kind::Enum(e) => Enum(e.full_name().into()),
    }
}

/// The descriptor is the one of the schema the type was generated from.
fn definition(e: &Entry, s: &RSchema, d: &MessageDescriptor) -> CaseResult {
    if d.full_name() != e.name {
        return Err(format!("the descriptor is that of {}", d.full_name()));
    }
    let want = s.msg(&e.name);
    if d.parent_file().name() != s.files[want.file].name() {
        return Err(format!("the descriptor is from {}", d.parent_file().name()));
    }
    for f in want.fields.values() {
        if known(&e.name).is_some_and(|k| !k.contains(&f.number)) {
            continue;
        }
        let g = d.get_field(f.number).ok_or(format!("no field {} in the descriptor", f.number))?;
        let card = match g.cardinality() {
            Cardinality::Optional => Card::Opt,
            Cardinality::Required => Card::Req,
            Cardinality::Repeated => Card::Rep,
        };
        let kind = match &f.kind {
            RKind::Group(n) => RKind::Msg(n.clone()),
            k => k.clone(),
        };
        if g.name() != f.name || g.json_name() != f.json_name || card != f.card || g.is_group() != f.is_group() || g.is_map() != f.is_map || format!("{:?}", kind_of(&g.kind())) != format!("{kind:?}") {
            return Err(format!("field {g:?} differs from {f:?}"));
        }
    }
    if !e.name.starts_with("google.protobuf.") && d.fields().len() != want.fields.len() {
        return Err(format!("{} fields for {}", d.fields().len(), want.fields.len()));
    }
    Ok(())
}

fn check<T: Typed>(ctx: &mut Ctx, e: &Entry, m: &RMsg, m2: &RMsg) -> CaseResult {
    let s = schema(e);
    let bytes = wire::encode(s, m);
    let t = T::decode(&bytes[..]).map_err(|x| format!("HARNESS: prost rejects the reference encoding: {x}"))?;
    let c = canon(&t.fv());
    let tr = |r: Result<(), String>, what: &str| r.map_err(|x| format!("{what}: {x}"));

    // descriptors
    let d = t.descriptor();
    definition(e, s, &d)?;
    let boxed: Box<dyn ReflectMessage> = Box::new(t.clone());
    if Box::new(t.clone()).descriptor() != d || boxed.descriptor().full_name() != e.name || (e.desc)() != d {
        return Err("descriptor() differs between calls".into());
    }
    if !e.global {
        let p = own_pool(e.set);
        if d.parent_pool() != &p {
            return Err("the descriptor is from another pool than the one named in the attribute".into());
        }
    } else if DescriptorPool::global().get_message_by_name(&e.name) != Some(d.clone()) {
        return Err("the descriptor is not in the global pool".into());
    }

    // typed to dynamic
    tr(same_msg(s, &t.fv(), m), "HARNESS: fields of the struct")?;
    let y = t.transcode_to_dynamic();
    if y.descriptor() != d {
        return Err("transcode_to_dynamic: another descriptor".into());
    }
    let ry = from_dyn(&y)?;
    if let Some(x) = diff(m, &ry, EXACT) {
        return Err(format!("transcode_to_dynamic: expected vs got: {x}"));
    }
    tr(same_msg(s, &t.fv(), &ry), "fields of the struct and the dynamic message")?;
    let mut y1 = DynamicMessage::new(d.clone());
    y1.transcode_from(&t).map_err(|x| format!("transcode_from: {x}"))?;
    if let Some(x) = diff(m, &from_dyn(&y1)?, EXACT) {
        return Err(format!("transcode_from: expected vs got: {x}"));
    }
    ctx.count("to_dynamic", 1);

    // and back
    let back = |y: &DynamicMessage, what: &str| -> CaseResult {
        let u: T = y.transcode_to().map_err(|x| format!("{what}: {x}"))?;
        let cu = canon(&u.fv());
        if cu != c {
            return Err(format!("{what}: {cu} for {c}"));
        }
        Ok(())
    };
    back(&y, "transcode_to_dynamic, transcode_to")?;
    let built = to_dyn(s, d.parent_pool(), m);
    back(&built, "fields set one by one, transcode_to")?;
    let decoded = DynamicMessage::decode(d.clone(), &bytes[..]).map_err(|x| format!("decode: {x}"))?;
    back(&decoded, "decode, transcode_to")?;
    ctx.count("to_typed", 1);

    // the bytes of one are read by the other
    let tb = t.encode_to_vec();
    let yb = y.encode_to_vec();
    for (b, what) in [(&tb, "bytes of the typed message"), (&yb, "bytes of the dynamic message")] {
        let w = wire::decode(s, &m.ty, b).map_err(|x| format!("{what} are not valid: {x:?}"))?;
        if let Some(x) = diff(m, &w, EXACT) {
            return Err(format!("{what}: expected vs got: {x}"));
        }
        let u = T::decode(&b[..]).map_err(|x| format!("{what}: {x}"))?;
        if canon(&u.fv()) != c {
            return Err(format!("{what}: decoded as {} for {c}", canon(&u.fv())));
        }
        let z = DynamicMessage::decode(d.clone(), &b[..]).map_err(|x| format!("{what}: {x}"))?;
        if let Some(x) = diff(m, &from_dyn(&z)?, EXACT) {
            return Err(format!("{what}, dynamic: expected vs got: {x}"));
        }
    }
    if t.encoded_len() != tb.len() || y.encoded_len() != yb.len() {
        return Err("encoded_len".into());
    }

    // onto a message which already has content
    let e2 = wire::encode(s, m2);
    let mut want = wire::decode(s, &m.ty, &e2).map_err(|x| format!("HARNESS: {x:?}"))?;
    wire::merge(s, &mut want, &tb).map_err(|x| format!("HARNESS: {x:?}"))?;
    let mut z = to_dyn(s, d.parent_pool(), m2);
    z.transcode_from(&t).map_err(|x| format!("transcode_from onto content: {x}"))?;
    want.sort_unknown();
    if let Some(x) = diff(&want, &from_dyn(&z)?, EXACT) {
        return Err(format!("transcode_from onto content: expected vs got: {x}"));
    }
    let mut t2 = T::decode(&e2[..]).map_err(|x| format!("HARNESS: {x}"))?;
    t2.merge(&tb[..]).map_err(|x| format!("HARNESS: {x}"))?;
    let z2: T = z.transcode_to().map_err(|x| format!("transcode_to of merged: {x}"))?;
    if canon(&z2.fv()) != canon(&t2.fv()) {
        return Err(format!("transcode_from onto content: typed {} for {}", canon(&z2.fv()), canon(&t2.fv())));
    }

    // other types: whatever the bytes say
    other::<prost_types::Timestamp>(ctx, s, &d, &y, m)?;
    other::<prost_types::Any>(ctx, s, &d, &y, m)?;
    other::<prost_types::Value>(ctx, s, &d, &y, m)?;
    other::<prost_types::DescriptorProto>(ctx, s, &d, &y, m)?;
    other::<i64>(ctx, s, &d, &y, m)?;
    other::<()>(ctx, s, &d, &y, m)?;
    Ok(())
}

fn other<U: Typed>(ctx: &mut Ctx, s: &RSchema, d: &MessageDescriptor, y: &DynamicMessage, m: &RMsg) -> CaseResult {
    let what = std::any::type_name::<U>();
    let b = y.encode_to_vec();
    match (y.transcode_to::<U>(), U::decode(&b[..])) {
        (Ok(a), Ok(b)) => {
            if canon(&a.fv()) != canon(&b.fv()) {
                return Err(format!("transcode_to::<{what}> differs from decoding the bytes"));
            }
            ctx.count("unrelated_ok", 1);
            let mut z = y.clone();
            let eb = a.encode_to_vec();
            let mut want = m.clone();
            let w = wire::merge(s, &mut want, &eb);
            match (z.transcode_from(&a), w) {
                (Ok(()), Ok(())) => {
                    want.sort_unknown();
                    if let Some(x) = diff(&want, &from_dyn(&z)?, EXACT) {
                        return Err(format!("transcode_from {what}: expected vs got: {x}"));
                    }
                }
                (Err(_), Err(_)) => ctx.count("unrelated_rejected", 1),
                (a, b) => return Err(format!("transcode_from {what} into {}: {a:?}, but the reference decoder {b:?}", d.full_name())),
            }
        }
        (Err(_), Err(_)) => ctx.count("unrelated_rejected", 1),
        (a, b) => return Err(format!("transcode_to::<{what}>: {:?}, but decoding the bytes {:?}", a.is_ok(), b.is_ok())),
    }
    Ok(())
}

fn own_pool(set: &str) -> DescriptorPool {
    for e in entries() {
        if e.set == set {
            return crate::pool_of(set).clone();
        }
    }
    unreachable!()
}

pub static C05: Prop = Prop {
    id: "C05",
    quick: 4000,
    thorough: 400_000,
    rule: "random message of every derived type (hand-written, configured in different ways, random schemas) and of every type with a built-in implementation, read field by field in the struct, the dynamic message, and both encodings; random schemas through the builder; distinct by type and the set of fields present",
    case: c05,
    directed: Some(directed),
    extra: None,
    need: &["to_dynamic", "to_typed", "unrelated_ok", "unrelated_rejected", "builder_runs", "builder_structs", "clashing_names", "raced"],
    level: "exploration",
};

/// The first use of every type, from several threads.
fn race(ctx: &mut Ctx) -> CaseResult {
    static DONE: OnceLock<Result<u64, String>> = OnceLock::new();
    let mut first = false;
    let r = DONE.get_or_init(|| {
        first = true;
        let bar = std::sync::Barrier::new(6);
        let got: Vec<Result<u64, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..6usize)
                .map(|k| {
                    let bar = &bar;
                    sc.spawn(move || {
                        bar.wait();
                        let es = entries();
                        let mut n = 0;
                        for i in 0..es.len() {
                            let e = &es[(i * 7 + k * 31 + k) % es.len()];
                            let d = guard(e.desc).map_err(|x| format!("{}: {x}", e.rust))?;
                            if d.full_name() != e.name {
                                return Err(format!("{}: descriptor of {}", e.rust, d.full_name()));
                            }
                            n += 1;
                        }
                        Ok(n)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut n = 0;
        for g in got {
            n += g?;
        }
        Ok(n)
    });
    if first {
        ctx.count("raced", *r.as_ref().unwrap_or(&0));
    }
    r.clone().map(|_| ())
}

fn directed(ctx: &mut Ctx) -> CaseResult {
    race(ctx)?;
    let f = include_str!(concat!(env!("OUT_DIR"), "/failed.txt"));
    if !f.is_empty() {
        return Err(format!("prost-reflect-build failed: {f}"));
    }
    ctx.count("types", entries().len() as u64);
    // every type once without any content and once with everything
    for e in entries() {
        let s = schema(e);
        for fill in [0, 100] {
            let m = model(ctx, e, s, fill);
            (e.check)(ctx, e, &m, &m).map_err(|x| format!("{} ({}): {x}", e.rust, e.set))?;
        }
    }
    // every message of the schemas has got a type
    let mut by_set: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
    for e in entries() {
        by_set.entry(e.set).or_default().insert(&e.name);
    }
    for e in entries() {
        if e.set == "wkt" || e.set == "hand2" {
            continue;
        }
        for (n, d) in &schema(e).msgs {
            if !d.map_entry && !n.starts_with("google.protobuf.") && !by_set[e.set].contains(n.as_str()) {
                return Err(format!("HARNESS: {n} of {} has no type", e.set));
            }
        }
    }
    Ok(())
}

fn model(ctx: &mut Ctx, e: &Entry, s: &RSchema, fill: u32) -> RMsg {
    let vc = ValCfg { exts: false, unknown: false, fill, wkt_valid: ctx.r.pct(60), budget: 60, ..Default::default() };
    let mut m = gen_msg(&mut ctx.r, s, &e.name, vc);
    if fill == 0 {
        m.fields.clear();
    }
    let only: Option<BTreeSet<u32>> = if e.rust.contains("::forms::") {
        match (e.tags)() {
            Fv::Msg(v) => Some(v.iter().map(|x| x.0).collect()),
            _ => None,
        }
    } else {
        None
    };
    adapt(&mut ctx.r, s, &mut m, only.as_ref());
    m
}

fn c05(ctx: &mut Ctx, _i: u64) -> CaseResult {
    race(ctx)?;
    if ctx.r.pct(4) {
        return builder(ctx);
    }
    let es = entries();
    for _ in 0..4 {
        let e = ctx.r.pick(es);
        let s = schema(e);
        let fill = *ctx.r.pick(&[15, 40, 60, 90]);
        let m = model(ctx, e, s, fill);
        let m2 = model(ctx, e, s, 50);
        let mut f = e.rust.as_bytes().to_vec();
        f.extend(m.fields.keys().flat_map(|k| k.to_le_bytes()));
        ctx.feature(&f);
        ctx.count(&format!("set:{}", e.set), 1);
        ctx.sample(|| format!("{}: {}", e.rust, hex(&wire::encode(s, &m))));
        let r = guard(std::panic::AssertUnwindSafe(|| (e.check)(ctx, e, &m, &m2))).and_then(|r| r);
        r.map_err(|x| format!("{} ({}): {x}; bytes {}; onto {}", e.rust, e.set, hex(&wire::encode(s, &m)), hex(&wire::encode(s, &m2))))?;
    }
    Ok(())
}

/// Adds the same files once more, in a package of which the names end in those of the originals.
fn clash(files: &mut Vec<prost_types::FileDescriptorProto>) {
    fn msg(m: &mut prost_types::DescriptorProto) {
        for f in m.field.iter_mut().chain(&mut m.extension) {
            fix(&mut f.type_name);
            fix(&mut f.extendee);
        }
        m.nested_type.iter_mut().for_each(msg);
    }
    fn fix(n: &mut Option<String>) {
        if let Some(n) = n {
            if !n.starts_with(".google.protobuf.") {
                *n = format!(".zz{n}");
            }
        }
    }
    for mut f in files.clone() {
        if f.name().starts_with("google/") {
            continue;
        }
        f.name = Some(format!("zz/{}", f.name()));
        f.package = Some(if f.package().is_empty() { "zz".into() } else { format!("zz.{}", f.package()) });
        f.dependency.iter_mut().filter(|d| !d.starts_with("google/")).for_each(|d| *d = format!("zz/{d}"));
        f.message_type.iter_mut().for_each(msg);
        for e in &mut f.extension {
            fix(&mut e.type_name);
            fix(&mut e.extendee);
        }
        for m in f.service.iter_mut().flat_map(|s| &mut s.method) {
            fix(&mut m.input_type);
            fix(&mut m.output_type);
        }
        files.push(f);
    }
}

/// Generated code differs from that of prost-build by the attributes, which name the message and the pool.
fn builder(ctx: &mut Ctx) -> CaseResult {
    let cfg = GenCfg { max_files: 3, max_msgs: 4, max_fields: 4, wkt: ctx.r.bool(), cpp: true, weird_json: false, services: ctx.r.bool(), ..Default::default() };
    let mut files = gen_files(&mut ctx.r, cfg);
    let clashing = ctx.r.pct(40);
    if clashing {
        clash(&mut files);
        ctx.count("clashing_names", 1);
    }
    let names: Vec<String> = files.iter().map(|f| f.name().to_string()).collect();
    let set = prost_types::FileDescriptorSet { file: files };
    let tmp = std::env::temp_dir().join(format!("prmon5-{}-{}", std::process::id(), ctx.case));
    let (plain, out) = (tmp.join("plain"), tmp.join("out"));
    std::fs::create_dir_all(&plain).unwrap();
    std::fs::create_dir_all(&out).unwrap();
    let fds = tmp.join("fds.bin");
    std::fs::write(&fds, set.encode_to_vec()).unwrap();
    let style = ctx.r.below(3);
    let pool = *ctx.r.pick(&["crate::POOL", "crate::pool()", "super::super::a::b::POOL_X"]);
    let by_bytes = ctx.r.bool();
    let config = |dir: &std::path::Path| {
        let mut c = prost_build::Config::new();
        c.out_dir(dir).include_file("mod.rs").enable_type_names().skip_protoc_run();
        match style {
            0 => {}
            1 => {
                c.btree_map(["."]).bytes(["."]).message_attribute(".", "#[derive(::other::Thing)]");
            }
            _ => {
                c.type_attribute(".", "#[other(prost_reflect = \"x\")]");
            }
        }
        c
    };
    let r = (|| -> CaseResult {
        let p = guard(|| config(&plain).file_descriptor_set_path(&fds).compile_protos(&names, &["."]));
        if !matches!(p, Ok(Ok(()))) {
            ctx.count("not_for_prost", 1);
            return Ok(());
        }
        let mut b = prost_reflect_build::Builder::new();
        b.file_descriptor_set_path(&fds);
        if by_bytes {
            b.file_descriptor_set_bytes(pool);
        } else {
            b.descriptor_pool(pool);
        }
        let by_hand = ctx.r.bool();
        let r = guard(|| {
            if by_hand {
                let mut c = config(&out);
                b.configure(&mut c, &names, &["."])?;
                c.compile_protos(&names, &["."])
            } else {
                b.compile_protos_with_config(config(&out), &names, &["."])
            }
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("the builder fails where prost-build does not: {e}")),
            Err(e) => return Err(format!("the builder panics: {e}")),
        }
        ctx.count("builder_runs", 1);
        let mut seen = vec![];
        for f in std::fs::read_dir(&plain).unwrap() {
            let n = f.unwrap().file_name();
            let a = std::fs::read_to_string(plain.join(&n)).unwrap();
            let b = std::fs::read_to_string(out.join(&n)).map_err(|_| format!("{n:?} was not written"))?;
            seen.push(n);
            // attributes of ours, wherever they are put
            let keep = |l: &&str| !l.trim().is_empty() && !(l.trim().starts_with("#[derive(::prost_reflect::ReflectMessage)]") || l.trim().starts_with("#[prost_reflect("));
            let (a, b): (Vec<&str>, Vec<&str>) = (a.lines().filter(keep).collect(), b.lines().filter(keep).collect());
            if let Some(k) = (0..a.len().max(b.len())).find(|&k| a.get(k) != b.get(k)) {
                return Err(format!("generated code differs in {:?}: {:?} for {:?}", seen.last(), b.get(k), a.get(k)));
            }
        }
        let t = parse::walk(&out, "x");
        let names: HashMap<&str, &str> = t.names.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        let mut covered = BTreeSet::new();
        for s in &t.structs {
            let want = names.get(s.path.as_str()).ok_or(format!("HARNESS: no name for {}", s.path))?;
            if s.derives != 1 {
                return Err(format!("{want} ({}) derives ReflectMessage {} times", s.path, s.derives));
            }
            let (mut name, mut pools) = (vec![], vec![]);
            for (k, v) in args(&s.args)? {
                match k.as_str() {
                    "message_name" => name.push(v),
                    _ => pools.push((k, v)),
                }
            }
            // where there are more, the last one counts
            if name.last().map(|x| x.as_str()) != Some(want) {
                return Err(format!("{want} ({}) has the message names {name:?}", s.path));
            }
            let key = if by_bytes { "file_descriptor_set_bytes" } else { "descriptor_pool" };
            if pools.is_empty() || pools.iter().any(|p| p.0 != key || p.1 != pool) {
                return Err(format!("{want} ({}) has the pools {pools:?}", s.path));
            }
            covered.insert(want.to_string());
            ctx.count("builder_structs", 1);
        }
        let s = RSchema::new(&set.file);
        for (n, d) in &s.msgs {
            if !d.map_entry && !n.starts_with("google.protobuf.") && !covered.contains(n) {
                return Err(format!("HARNESS: {n} was not generated"));
            }
        }
        Ok(())
    })();
    std::fs::remove_dir_all(&tmp).ok();
    r.map_err(|e| format!("{e}; {}", show_files(&set.file)))
}

fn args(list: &[String]) -> Result<Vec<(String, String)>, String> {
    use syn::parse::Parser;
    let mut out = vec![];
    for a in list {
        let p = syn::punctuated::Punctuated::<syn::MetaNameValue, syn::Token![,]>::parse_terminated.parse_str(a).map_err(|e| format!("attribute {a:?}: {e}"))?;
        for nv in p {
            let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(v), .. }) = &nv.value else { return Err(format!("attribute {a:?}")) };
            out.push((nv.path.get_ident().map(|i| i.to_string()).unwrap_or_default(), v.value()));
        }
    }
    Ok(out)
}
