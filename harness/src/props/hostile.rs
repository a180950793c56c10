//! C26: hostile descriptors never crash the library.
use crate::descsnap::*;
use crate::dynconv::from_dyn;
use crate::gen::*;
use crate::props::*;
use crate::rmsg::*;
use crate::rng::Rng;
use crate::run::*;
use crate::schema::*;
use crate::wire;
use prost::Message;
use prost_reflect::{Cardinality, DescriptorPool, DynamicMessage, Kind, MapKey, MessageDescriptor, ReflectMessage, SerializeOptions, Value};
use prost_types::*;
use std::collections::{BTreeMap, HashMap};
use std::option::Option;
use std::sync::OnceLock;

type R = Result<(), String>;
const SET: &str = "google.protobuf.FileDescriptorSet";

fn desc_schema() -> &'static RSchema {
    static S: OnceLock<RSchema> = OnceLock::new();
    S.get_or_init(|| RSchema::new(&[wkt_file("google/protobuf/descriptor.proto")]))
}

/// Sub-messages with their paths: (field, index).
fn nodes(m: &RMsg, path: &mut Vec<(u32, usize)>, out: &mut Vec<(Vec<(u32, usize)>, String)>) {
    out.push((path.clone(), m.ty.clone()));
    for (n, v) in &m.fields {
        match v {
            RVal::Msg(x) => {
                path.push((*n, usize::MAX));
                nodes(x, path, out);
                path.pop();
            }
            RVal::List(l) => {
                for (i, v) in l.iter().enumerate() {
                    if let RVal::Msg(x) = v {
                        path.push((*n, i));
                        nodes(x, path, out);
                        path.pop();
                    }
                }
            }
            _ => (),
        }
    }
}

fn node<'a>(m: &'a mut RMsg, path: &[(u32, usize)]) -> &'a mut RMsg {
    let mut m = m;
    for (n, i) in path {
        m = match m.fields.get_mut(n).unwrap() {
            RVal::Msg(x) => x,
            RVal::List(l) => match &mut l[*i] {
                RVal::Msg(x) => x,
                _ => panic!(),
            },
            _ => panic!(),
        };
    }
    m
}

struct Pools {
    strings: Vec<String>,
    ints: Vec<i32>,
}

fn gather(m: &RMsg, p: &mut Pools) {
    for v in m.fields.values() {
        let vs: Vec<&RVal> = match v {
            RVal::List(l) => l.iter().collect(),
            v => vec![v],
        };
        for v in vs {
            match v {
                RVal::Str(s) => p.strings.push(s.clone()),
                RVal::I32(s) => p.ints.push(*s),
                RVal::Msg(m) => gather(m, p),
                _ => (),
            }
        }
    }
}

fn hostile_str(r: &mut Rng, p: &Pools) -> String {
    match r.below(12) {
        0 => r
            .pick(&["", ".", "..", ".a", "a.", "a..b", " ", "a b", "\u{0}", "é", "proto2", "proto3", "editions", "google/protobuf/descriptor.proto", "1", "true", "inf", "nan", "\\", "\\x", "\\777", "99999999999999999999999999"])
            .to_string(),
        1 => r
            .pick(&[
                ".google.protobuf.FileOptions",
                ".google.protobuf.FieldOptions",
                ".google.protobuf.MessageOptions",
                ".google.protobuf.Any",
                "google.protobuf",
                "Any",
                "key",
                "value",
            ])
            .to_string(),
        2 => {
            let a = r.pick(&p.strings).clone();
            let b = r.pick(&p.strings).clone();
            format!("{a}.{}", b.trim_start_matches('.'))
        }
        3 => format!(".{}", r.pick(&p.strings).trim_start_matches('.')),
        4 => r.pick(&p.strings).rsplit('.').next().unwrap_or("").to_string(),
        5 => "x".repeat(300),
        _ => r.pick(&p.strings).clone(),
    }
}

fn hostile_int(r: &mut Rng, p: &Pools) -> i32 {
    match r.below(3) {
        0 => *r.pick(&[0, -1, 1, 2, 3, 5, i32::MIN, i32::MAX, (1 << 29) - 1, 1 << 29, 19_000, 19_999, 1 << 30, 100]),
        1 if !p.ints.is_empty() => *r.pick(&p.ints),
        _ => r.range(-3, 30) as i32,
    }
}

/// One change anywhere in a descriptor set.
fn mutate(set: &mut RMsg, r: &mut Rng, p: &Pools) -> String {
    let s = desc_schema();
    let mut all = vec![];
    nodes(set, &mut vec![], &mut all);
    // the kinds of nodes evenly, then one of them
    let mut kinds: Vec<&String> = all.iter().map(|x| &x.1).collect();
    kinds.sort();
    kinds.dedup();
    let kind = r.pick(&kinds).to_string();
    let of: Vec<&(Vec<(u32, usize)>, String)> = all.iter().filter(|x| x.1 == kind).collect();
    let (path, _) = (*r.pick(&of)).clone();
    let short = kind.rsplit('.').next().unwrap().to_string();
    let d = s.msg(&kind);
    if r.pct(30) {
        return targeted(set, r, p, &all);
    }
    match r.below(7) {
        // without a field
        0 => {
            let m = node(set, &path);
            let ks: Vec<u32> = m.fields.keys().copied().collect();
            if !ks.is_empty() {
                let k = *r.pick(&ks);
                m.fields.remove(&k);
                return format!("{short}.{} dropped", d.fields[&k].name);
            }
        }
        // an element more or less
        1 | 2 => {
            let m = node(set, &path);
            let ks: Vec<u32> = m.fields.iter().filter(|(_, v)| matches!(v, RVal::List(l) if !l.is_empty())).map(|x| *x.0).collect();
            if !ks.is_empty() {
                let k = *r.pick(&ks);
                let Some(RVal::List(l)) = m.fields.get_mut(&k) else { panic!() };
                let i = r.below(l.len());
                let w = match r.below(3) {
                    0 => {
                        l.remove(i);
                        "removed"
                    }
                    1 => {
                        let v = l[i].clone();
                        l.push(v);
                        "repeated"
                    }
                    _ => {
                        let j = r.below(l.len());
                        l.swap(i, j);
                        "swapped"
                    }
                };
                return format!("{short}.{} element {w}", d.fields[&k].name);
            }
        }
        // another one of the same type
        3 => {
            let (other, _) = (*r.pick(&of)).clone();
            let x = node(set, &other).clone();
            if path != other && !path.is_empty() {
                // (not a tree inside itself many times over)
                if x.size() < 400 {
                    *node(set, &path) = x;
                    return format!("{short} replaced by another");
                }
            }
        }
        // any field with any value
        4 => {
            let fs: Vec<&RField> = d.fields.values().collect();
            let f = (*r.pick(&fs)).clone();
            let cfg = ValCfg { nan: false, max_depth: 2, max_len: 2, budget: 12, ..Default::default() };
            if let Some(mut v) = ValGen::new(r, s, cfg).field(&f, 0) {
                // with names that exist
                fix(&mut v, r, p);
                node(set, &path).fields.insert(f.number, v);
                return format!("{short}.{} random", f.name);
            }
        }
        // a scalar changed
        _ => {
            let fs: Vec<&RField> = d.fields.values().filter(|f| f.kind.msg().is_none()).collect();
            if !fs.is_empty() {
                let m = node(set, &path);
                let have: Vec<&RField> = fs.iter().filter(|f| m.fields.contains_key(&f.number)).copied().collect();
                let any = have.is_empty() || r.pct(30);
                let f = (*r.pick(if any { &fs } else { &have })).clone();
                let v = match &f.kind {
                    RKind::Str => RVal::Str(hostile_str(r, p)),
                    RKind::Int32 => RVal::I32(hostile_int(r, p)),
                    RKind::Bool => RVal::Bool(r.bool()),
                    RKind::Enum(_) => RVal::Enum(r.range(-1, 20) as i32),
                    k => {
                        let cfg = ValCfg { nan: false, ..Default::default() };
                        ValGen::new(r, s, cfg).scalar(k)
                    }
                };
                let v = if f.card == Card::Rep {
                    match m.fields.get_mut(&f.number) {
                        Some(RVal::List(l)) if !l.is_empty() => {
                            let i = r.below(l.len());
                            l[i] = v;
                            RVal::List(l.clone())
                        }
                        _ => RVal::List(vec![v]),
                    }
                } else {
                    v
                };
                m.fields.insert(f.number, v);
                return format!("{short}.{}", f.name);
            }
        }
    }
    "nothing".into()
}

fn fix(v: &mut RVal, r: &mut Rng, p: &Pools) {
    match v {
        RVal::Str(s) => *s = hostile_str(r, p),
        RVal::I32(i) => *i = hostile_int(r, p),
        RVal::Enum(i) => *i = r.range(0, 18) as i32,
        RVal::List(l) => l.iter_mut().for_each(|v| fix(v, r, p)),
        RVal::Msg(m) => m.fields.values_mut().for_each(|v| fix(v, r, p)),
        _ => (),
    }
}

/// Changes that a check might let through.
fn targeted(set: &mut RMsg, r: &mut Rng, p: &Pools, all: &[(Vec<(u32, usize)>, String)]) -> String {
    let pick = |r: &mut Rng, k: &str| {
        let of: Vec<&(Vec<(u32, usize)>, String)> = all.iter().filter(|x| x.1 == format!("google.protobuf.{k}")).collect();
        (!of.is_empty()).then(|| (*r.pick(&of)).0.clone())
    };
    let opt = |m: &mut RMsg, n: u32, ty: &str, k: u32, v: RVal| {
        let o = m.fields.entry(n).or_insert_with(|| RVal::Msg(RMsg::new(&format!("google.protobuf.{ty}"))));
        let RVal::Msg(o) = o else { panic!() };
        o.fields.insert(k, v);
    };
    let what = r.below(18);
    match what {
        // any message a map entry, or no entry
        0..=2 => {
            if let Some(x) = pick(r, "DescriptorProto") {
                let on = r.pct(80);
                opt(node(set, &x), 7, "MessageOptions", 7, RVal::Bool(on));
                return format!("map_entry {on}");
            }
        }
        // message sets
        3 => {
            if let Some(x) = pick(r, "DescriptorProto") {
                opt(node(set, &x), 7, "MessageOptions", 1, RVal::Bool(true));
                return "message_set_wire_format".into();
            }
        }
        4 => {
            if let Some(x) = pick(r, "FieldDescriptorProto") {
                let m = node(set, &x);
                m.fields.insert(17, RVal::Bool(true));
                if r.bool() {
                    m.fields.insert(9, RVal::I32(r.below(3) as i32));
                }
                return "proto3_optional".into();
            }
        }
        5 => {
            if let Some(x) = pick(r, "FieldDescriptorProto") {
                node(set, &x).fields.insert(9, RVal::I32(hostile_int(r, p)));
                return "oneof_index".into();
            }
        }
        6 => {
            if let Some(x) = pick(r, "FieldDescriptorProto") {
                node(set, &x).fields.insert(4, RVal::Enum(r.range(1, 3) as i32));
                return "label".into();
            }
        }
        7 | 8 => {
            if let Some(x) = pick(r, "FieldDescriptorProto") {
                let t = r.range(1, 18) as i32;
                let m = node(set, &x);
                m.fields.insert(5, RVal::Enum(t));
                if t != 10 && t != 11 && t != 14 && r.pct(90) {
                    m.fields.remove(&6);
                } else if !m.fields.contains_key(&6) {
                    m.fields.insert(6, RVal::Str(hostile_str(r, p)));
                }
                return "type".into();
            }
        }
        9 => {
            if let Some(x) = pick(r, "FieldDescriptorProto") {
                let d = r
                    .pick(&["", "0", "-0", "1e400", "-1", "0x10", "inf", "-inf", "nan", "true", "\\", "\\xzz", "\\400", "'", "18446744073709551616", "1.5", "\u{fffd}", "\\u12"])
                    .to_string();
                node(set, &x).fields.insert(7, RVal::Str(d));
                return "default_value".into();
            }
        }
        10 => {
            if let Some(x) = pick(r, "FieldDescriptorProto") {
                let m = node(set, &x);
                if m.fields.remove(&2).is_none() {
                    m.fields.insert(2, RVal::Str(hostile_str(r, p)));
                }
                return "extendee".into();
            }
        }
        11 => {
            if let Some(x) = pick(r, "FieldDescriptorProto") {
                opt(node(set, &x), 8, "FieldOptions", 2, RVal::Bool(r.bool()));
                return "packed".into();
            }
        }
        // a field of another message
        12 => {
            if let (Some(x), Some(y)) = (pick(r, "DescriptorProto"), pick(r, "FieldDescriptorProto")) {
                let f = node(set, &y).clone();
                let m = node(set, &x);
                match m.fields.entry(2).or_insert_with(|| RVal::List(vec![])) {
                    RVal::List(l) => l.push(RVal::Msg(f)),
                    _ => panic!(),
                }
                return "field of another message".into();
            }
        }
        // every file of another syntax
        13 => {
            if let Some(x) = pick(r, "FileDescriptorProto") {
                let p3 = r.bool();
                let m = node(set, &x);
                if p3 {
                    m.fields.insert(12, RVal::Str("proto3".into()));
                } else {
                    m.fields.remove(&12);
                }
                return "syntax".into();
            }
        }
        // source locations
        14..=16 => {
            if let Some(x) = pick(r, "FileDescriptorProto") {
                let mut l = RMsg::new("google.protobuf.SourceCodeInfo.Location");
                let path: Vec<RVal> = (0..r.below(6)).map(|_| RVal::I32(hostile_int(r, p))).collect();
                let span: Vec<RVal> = (0..r.below(6)).map(|_| RVal::I32(hostile_int(r, p))).collect();
                if !path.is_empty() {
                    l.fields.insert(1, RVal::List(path));
                }
                if !span.is_empty() {
                    l.fields.insert(2, RVal::List(span));
                }
                let mut i = RMsg::new("google.protobuf.SourceCodeInfo");
                let mut ls = vec![RVal::Msg(l)];
                if r.pct(80) {
                    // locations, mostly of plausible shape, for everything an error may point at
                    let wild = r.bool();
                    let odd = r.pct(40);
                    for (q, _) in all.iter().filter(|q| q.0.starts_with(&x)) {
                        let q: Vec<i32> = q[x.len()..].iter().flat_map(|(n, i)| if *i == usize::MAX { vec![*n as i32] } else { vec![*n as i32, *i as i32] }).collect();
                        for t in 0..=12 {
                            let mut path = q.clone();
                            if t > 0 {
                                path.push(t);
                            }
                            let n = if odd { r.below(6) } else { *r.pick(&[3, 4, 4]) };
                            let span: Vec<i32> = (0..n).map(|_| if wild && r.pct(30) { hostile_int(r, p) } else { r.below(4) as i32 }).collect();
                            let mut l = RMsg::new("google.protobuf.SourceCodeInfo.Location");
                            if !path.is_empty() {
                                l.fields.insert(1, RVal::List(path.into_iter().map(RVal::I32).collect()));
                            }
                            l.fields.insert(2, RVal::List(span.into_iter().map(RVal::I32).collect()));
                            ls.push(RVal::Msg(l));
                        }
                    }
                }
                i.fields.insert(1, RVal::List(ls));
                node(set, &x).fields.insert(9, RVal::Msg(i));
                return "location".into();
            }
        }
        // an import of anything
        _ => {
            if let Some(x) = pick(r, "FileDescriptorProto") {
                let m = node(set, &x);
                let RVal::List(l) = m.fields.entry(3).or_insert_with(|| RVal::List(vec![])) else { panic!() };
                l.push(RVal::Str(hostile_str(r, p)));
                return "dependency".into();
            }
        }
    }
    "nothing".into()
}

/// A file which defines its own `google.protobuf.*Options`, with other types for the known fields,
/// and options in the other files which are set by name.
fn fake_options(r: &mut Rng, files: &mut Vec<FileDescriptorProto>) {
    const KNOWN: &[(&str, &[(&str, i32)])] = &[
        ("FileOptions", &[("java_package", 1), ("optimize_for", 9), ("deprecated", 23), ("uninterpreted_option", 999), ("java_multiple_files", 10)]),
        ("MessageOptions", &[("map_entry", 7), ("deprecated", 3), ("message_set_wire_format", 1), ("uninterpreted_option", 999)]),
        ("FieldOptions", &[("packed", 2), ("ctype", 1), ("deprecated", 3), ("lazy", 5), ("uninterpreted_option", 999)]),
        ("OneofOptions", &[("uninterpreted_option", 999), ("x", 5)]),
        ("EnumOptions", &[("allow_alias", 2), ("deprecated", 3), ("uninterpreted_option", 999)]),
        ("EnumValueOptions", &[("deprecated", 1), ("uninterpreted_option", 999)]),
        ("ServiceOptions", &[("deprecated", 33), ("uninterpreted_option", 999)]),
        ("MethodOptions", &[("deprecated", 33), ("idempotency_level", 34), ("uninterpreted_option", 999)]),
        ("ExtensionRangeOptions", &[("uninterpreted_option", 999), ("x", 5)]),
    ];
    const TYPES: [(i32, &str); 9] = [(9, ""), (12, ""), (8, ""), (5, ""), (1, ""), (11, ".google.protobuf.Inner"), (10, ".google.protobuf.Inner"), (14, ".google.protobuf.Pick"), (4, "")];
    let mut messages = vec![DescriptorProto {
        name: Some("Inner".into()),
        field: vec![
            FieldDescriptorProto { name: Some("a".into()), number: Some(1), label: Some(1), r#type: Some(9), ..Default::default() },
            FieldDescriptorProto { name: Some("b".into()), number: Some(2), label: Some(1), r#type: Some(5), ..Default::default() },
        ],
        ..Default::default()
    }];
    let mut options: BTreeMap<&str, Vec<UninterpretedOption>> = BTreeMap::new();
    for (name, fields) in KNOWN {
        let mut m = DescriptorProto { name: Some(name.to_string()), ..Default::default() };
        let mut os = vec![];
        for (f, n) in *fields {
            if r.pct(80) {
                let (ty, tn) = *r.pick(&TYPES);
                let rep = r.pct(15);
                m.field.push(FieldDescriptorProto {
                    name: Some(f.to_string()),
                    number: Some(*n),
                    label: Some(if rep { 3 } else { 1 }),
                    r#type: Some(ty),
                    type_name: (!tn.is_empty()).then(|| tn.to_string()),
                    ..Default::default()
                });
                if r.pct(60) {
                    let mut parts = vec![f.to_string()];
                    let mut o = UninterpretedOption::default();
                    let mut ty = ty;
                    if (10..=11).contains(&ty) && r.bool() {
                        parts.push("a".into());
                        ty = 9;
                    }
                    match ty {
                        9 | 12 => o.string_value = Some(r.pick(&[&b"x"[..], b"", b"\xff\xfe", b"\x08\x01"]).to_vec()),
                        8 => o.identifier_value = Some("true".into()),
                        1 => o.double_value = Some(1.5),
                        14 => o.identifier_value = Some("TWO".into()),
                        10 | 11 => o.aggregate_value = Some("a: 'q' b: 3".into()),
                        _ => o.positive_int_value = Some(r.below(3) as u64 * 1000),
                    }
                    o.name = parts.into_iter().map(|p| uninterpreted_option::NamePart { name_part: p, is_extension: false }).collect();
                    os.push(o);
                }
            }
        }
        if r.pct(90) {
            messages.push(m);
            options.insert(name, os);
        }
    }
    let take = |k: &str| options.get(k).cloned().unwrap_or_default();
    for f in files.iter_mut() {
        if r.pct(70) {
            f.options.get_or_insert_with(Default::default).uninterpreted_option.extend(take("FileOptions"));
        }
        for m in &mut f.message_type {
            if r.pct(70) {
                m.options.get_or_insert_with(Default::default).uninterpreted_option.extend(take("MessageOptions"));
            }
            for x in &mut m.field {
                if r.pct(50) {
                    x.options.get_or_insert_with(Default::default).uninterpreted_option.extend(take("FieldOptions"));
                }
            }
            for x in &mut m.oneof_decl {
                x.options.get_or_insert_with(Default::default).uninterpreted_option.extend(take("OneofOptions"));
            }
            for x in &mut m.extension_range {
                x.options.get_or_insert_with(Default::default).uninterpreted_option.extend(take("ExtensionRangeOptions"));
            }
        }
        for x in &mut f.extension {
            if r.pct(50) {
                x.options.get_or_insert_with(Default::default).uninterpreted_option.extend(take("FieldOptions"));
            }
        }
        for e in &mut f.enum_type {
            if r.pct(60) {
                e.options.get_or_insert_with(Default::default).uninterpreted_option.extend(take("EnumOptions"));
            }
            for v in &mut e.value {
                if r.pct(60) {
                    v.options.get_or_insert_with(Default::default).uninterpreted_option.extend(take("EnumValueOptions"));
                }
            }
        }
        for s in &mut f.service {
            if r.pct(60) {
                s.options.get_or_insert_with(Default::default).uninterpreted_option.extend(take("ServiceOptions"));
            }
            for m in &mut s.method {
                if r.pct(60) {
                    m.options.get_or_insert_with(Default::default).uninterpreted_option.extend(take("MethodOptions"));
                }
            }
        }
    }
    files.insert(
        0,
        FileDescriptorProto {
            name: Some("google/protobuf/descriptor.proto".into()),
            package: Some("google.protobuf".into()),
            message_type: messages,
            enum_type: vec![EnumDescriptorProto {
                name: Some("Pick".into()),
                value: vec![
                    EnumValueDescriptorProto { name: Some("ONE".into()), number: Some(1), ..Default::default() },
                    EnumValueDescriptorProto { name: Some("TWO".into()), number: Some(70000), ..Default::default() },
                ],
                ..Default::default()
            }],
            ..Default::default()
        },
    );
}

/// An encoded set with a few changes.
pub(crate) fn mutated(r: &mut Rng, b: &[u8], n: usize, told: &mut Vec<String>) -> Vec<u8> {
    let mut m = wire::decode(desc_schema(), SET, b).unwrap();
    let mut p = Pools { strings: vec!["x".into()], ints: vec![] };
    gather(&m, &mut p);
    for _ in 0..n {
        told.push(mutate(&mut m, r, &p));
    }
    wire::encode(desc_schema(), &m)
}

fn hostile_bytes(ctx: &mut Ctx) -> (Vec<u8>, String) {
    let cfg = GenCfg {
        wkt: ctx.r.pct(30),
        services: ctx.r.pct(50),
        max_files: 1 + ctx.r.below(3),
        max_msgs: 1 + ctx.r.below(3),
        max_fields: 1 + ctx.r.below(6),
        ..Default::default()
    };
    let mut files = gen_files(&mut ctx.r, cfg);
    if ctx.r.pct(15) && !files.iter().any(|f| f.name() == "google/protobuf/descriptor.proto") {
        files.insert(0, wkt_file("google/protobuf/descriptor.proto"));
    }
    let fake = ctx.r.pct(8) && !files.iter().any(|f| f.package() == "google.protobuf");
    if fake {
        fake_options(&mut ctx.r, &mut files);
    }
    if ctx.r.pct(20) {
        for f in &mut files {
            if !f.name().starts_with("google/") {
                crate::scope::for_refs(f, &mut |_, t, _| {
                    // relative names
                    if let Some(x) = t.as_ref().and_then(|t| t.strip_prefix('.')) {
                        *t = Some(x.to_string());
                    }
                });
            }
        }
    }
    let mut told = vec![];
    let faulty = ctx.r.pct(12);
    if faulty {
        // a definition with one fault, and a location of any shape for each element
        let kind = *ctx.r.pick(crate::faults::KINDS);
        let own: Vec<bool> = files.iter().map(|f| !f.name().starts_with("google/")).collect();
        if crate::faults::inject(&mut ctx.r, &mut files, kind, &|i| own.get(i).copied().unwrap_or(true)).is_some() {
            for i in 0..files.len() {
                let mut info = SourceCodeInfo::default();
                for path in super::errors::paths(&files, i) {
                    let n = ctx.r.below(7);
                    let wild = ctx.r.pct(20);
                    let span = (0..n).map(|_| if wild { ctx.r.u32() as i32 } else { ctx.r.below(6) as i32 }).collect();
                    info.location.push(source_code_info::Location { path, span, ..Default::default() });
                }
                files[i].source_code_info = Some(info);
            }
            told.push(format!("fault {kind}"));
            ctx.count("faults with locations of any shape", 1);
        }
    }
    let mut b = FileDescriptorSet { file: files }.encode_to_vec();
    if fake {
        told.push("fake options".into());
    }
    if ctx.r.pct(if fake || faulty { 30 } else { 92 }) {
        let mut m = wire::decode(desc_schema(), SET, &b).unwrap();
        let mut p = Pools { strings: vec!["x".into()], ints: vec![] };
        gather(&m, &mut p);
        for _ in 0..1 + ctx.r.below(*ctx.r.clone().pick(&[1, 1, 2, 4, 8])) {
            told.push(mutate(&mut m, &mut ctx.r, &p));
        }
        b = wire::encode(desc_schema(), &m);
    }
    if ctx.r.pct(12) || told.is_empty() {
        for _ in 0..1 + ctx.r.below(4) {
            if b.is_empty() {
                break;
            }
            let k = ctx.r.below(b.len());
            match ctx.r.below(4) {
                0 => {
                    b.remove(k);
                }
                1 => b.insert(k, ctx.r.u32() as u8),
                2 => b.truncate(k),
                _ => b[k] = ctx.r.u32() as u8,
            }
        }
        told.push("bytes".into());
    }
    (b, told.join(", "))
}

fn c26(ctx: &mut Ctx, _: u64) -> R {
    let (b, told) = hostile_bytes(ctx);
    let tell = |e: String| format!("{e}\nchanges: {told}\nset hex={}", hexall(&b));
    let way = ctx.r.below(4);
    let twice = ctx.r.bool();
    let seed = ctx.r.u64();
    let res = guard(|| -> Result<Option<DescriptorPool>, String> {
        let mut pool = DescriptorPool::new();
        let r = match way {
            0 => match DescriptorPool::decode(&b[..]) {
                Ok(p) => {
                    pool = p;
                    Ok(())
                }
                Err(e) => Err(e),
            },
            1 => pool.decode_file_descriptor_set(&b[..]),
            2 => match FileDescriptorSet::decode(&b[..]) {
                Ok(s) => {
                    if twice {
                        pool.add_file_descriptor_set(s)
                    } else {
                        pool.add_file_descriptor_protos(s.file)
                    }
                }
                Err(_) => return Ok(None),
            },
            _ => match wire::decode(desc_schema(), SET, &b) {
                Ok(m) => {
                    let mut r = Ok(());
                    if let Some(RVal::List(l)) = m.fields.get(&1) {
                        for f in l {
                            let RVal::Msg(f) = f else { panic!() };
                            r = pool.decode_file_descriptor_proto(&wire::encode(desc_schema(), f)[..]);
                            if r.is_err() {
                                break;
                            }
                        }
                    }
                    r
                }
                Err(_) => return Ok(None),
            },
        };
        match r {
            Ok(()) => Ok(Some(pool)),
            Err(e) => {
                let _ = format!("{e} {e:?} {:?} {:?} {:?} {:?} {:?}", e.file(), e.line(), e.column(), e.path(), std::error::Error::source(&e).map(|x| x.to_string()));
                let e = e.with_source_code(if twice { "syntax = \"proto3\";\nmessage X {}\n" } else { "message \u{e9}\r\nX {\n\n\n}\n      \n" });
                let _ = format!("{e} {e:?}");
                // what was there before is still usable
                let _ = snapshot(&pool, &[]);
                let _ = pool.encode_to_vec();
                if pool.add_file_descriptor_proto(FileDescriptorProto { name: Some("later.proto".into()), package: Some("later.pkg".into()), ..Default::default() }).is_err() {
                    return Err("a pool that rejected a set takes nothing more".into());
                }
                Ok(None)
            }
        }
    });
    let pool = match res {
        Err(e) => return Err(tell(format!("building: {e}"))),
        Ok(Err(e)) => return Err(tell(e)),
        Ok(Ok(None)) => {
            ctx.count("rejected", 1);
            ctx.feature(format!("- {told}").as_bytes());
            return Ok(());
        }
        Ok(Ok(Some(p))) => p,
    };
    ctx.count("accepted", 1);
    ctx.feature(format!("+ {told}").as_bytes());
    let mut r = Rng::new(seed);
    let mut n = BTreeMap::new();
    let mut step = "";
    let res = guard(|| walk(&pool, &mut r, &mut n, &mut step));
    for (k, v) in n {
        ctx.count(k, v);
    }
    match res {
        Err(e) => Err(tell(format!("{step}: {e}"))),
        Ok(Err(e)) => Err(tell(format!("{step}: {e}"))),
        Ok(Ok(())) => Ok(()),
    }
}

type N = BTreeMap<&'static str, u64>;

fn walk(pool: &DescriptorPool, r: &mut Rng, n: &mut N, step: &mut &'static str) -> R {
    *step = "descriptors";
    let probes: Vec<String> = vec!["".into(), ".".into(), "x".into(), "google.protobuf.Any".into()];
    let s = snapshot(pool, &probes);
    *n.entry("descriptors walked").or_default() += s.len() as u64;
    *step = "debug text";
    let _ = format!("{pool:?}").len();
    for f in pool.files() {
        let _ = format!("{f:?}").len();
    }
    *step = "encoding";
    let b = pool.encode_to_vec();
    *step = "rebuilding";
    // options by name stay in the encoding if the pool's own options messages lack field 999
    let own_options = pool.get_message_by_name("google.protobuf.Inner").is_some();
    match DescriptorPool::decode(&b[..]) {
        Ok(_) if own_options => (),
        Ok(p) => {
            let t = snapshot(&p, &probes);
            if let Some(d) = snap_diff(&strip(s), &strip(t)) {
                return Err(format!("the pool rebuilt from its encoding differs: {d}"));
            }
        }
        Err(_) if own_options => (),
        Err(e) => return Err(format!("its own encoding was rejected: {e:?}")),
    }
    let msgs: Vec<MessageDescriptor> = pool.all_messages().collect();
    for (i, m) in msgs.iter().enumerate() {
        if i >= 25 {
            break;
        }
        use_message(m, r, n, step)?;
    }
    Ok(())
}

/// Snapshots without encoded bytes: the entries of maps have no order.
fn strip(mut s: Snap) -> Snap {
    for v in s.values_mut() {
        if let (Some(a), Some(b)) = (v.find(" enc "), v.find(" raw ")) {
            v.replace_range(a..b, "");
        }
    }
    s
}

/// A value of a kind, through descriptors alone.
fn value(k: &Kind, r: &mut Rng, depth: usize) -> Value {
    match k {
        Kind::Double => Value::F64(f64::from_bits(r.u64())),
        Kind::Float => Value::F32(f32::from_bits(r.u32())),
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => Value::I32(gen_i32(r)),
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => Value::I64(gen_i64(r)),
        Kind::Uint32 | Kind::Fixed32 => Value::U32(gen_u32(r)),
        Kind::Uint64 | Kind::Fixed64 => Value::U64(gen_u64(r)),
        Kind::Bool => Value::Bool(r.bool()),
        Kind::String => Value::String(gen_str(r)),
        Kind::Bytes => Value::Bytes(gen_bytes(r).into()),
        Kind::Enum(e) => {
            let v: Vec<i32> = e.values().map(|v| v.number()).collect();
            Value::EnumNumber(if r.pct(20) || v.is_empty() { gen_i32(r) } else { *r.pick(&v) })
        }
        Kind::Message(m) => Value::Message(message(m, r, depth + 1)),
    }
}

fn message(m: &MessageDescriptor, r: &mut Rng, depth: usize) -> DynamicMessage {
    let mut out = DynamicMessage::new(m.clone());
    if depth > 3 {
        return out;
    }
    for f in m.fields() {
        if r.pct(if depth == 0 { 30 } else { 70 }) {
            continue;
        }
        let v = if f.is_map() {
            let k = f.kind();
            let e = k.as_message().unwrap();
            let (kf, vf) = (e.map_entry_key_field(), e.map_entry_value_field());
            let mut h = HashMap::new();
            for _ in 0..r.below(3) {
                if let Some(k) = value(&kf.kind(), r, depth + 1).into_map_key() {
                    h.insert(k, value(&vf.kind(), r, depth + 1));
                }
            }
            Value::Map(h)
        } else if f.is_list() {
            Value::List((0..r.below(3)).map(|_| value(&f.kind(), r, depth + 1)).collect())
        } else {
            value(&f.kind(), r, depth)
        };
        if v.is_valid_for_field(&f) {
            out.set_field(&f, v);
        }
    }
    for e in m.extensions() {
        if r.pct(50) {
            let v = if e.is_list() { Value::List(vec![value(&e.kind(), r, depth + 1)]) } else { value(&e.kind(), r, depth) };
            if v.is_valid_for_extension(&e) {
                out.set_extension(&e, v);
            }
        }
    }
    out
}

fn all_values() -> Vec<Value> {
    let mut m = HashMap::new();
    m.insert(MapKey::I32(1), Value::I32(1));
    let mut s = HashMap::new();
    s.insert(MapKey::String("k".into()), Value::String("v".into()));
    vec![
        Value::Bool(true),
        Value::I32(5),
        Value::U64(5),
        Value::F32(1.0),
        Value::String("x".into()),
        Value::Bytes(vec![1].into()),
        Value::EnumNumber(1),
        Value::List(vec![]),
        Value::List(vec![Value::I32(1)]),
        Value::Map(HashMap::new()),
        Value::Map(m),
        Value::Map(s),
    ]
}

fn use_message(d: &MessageDescriptor, r: &mut Rng, n: &mut N, step: &mut &'static str) -> R {
    *n.entry("message types used").or_default() += 1;
    let mut x = DynamicMessage::new(d.clone());
    *step = "fields of an empty message";
    for f in d.fields() {
        let _ = (x.has_field(&f), format!("{:?}", x.get_field(&f)));
        let dv = Value::default_value_for_field(&f);
        let _ = (dv.is_valid_for_field(&f), dv.is_default_for_field(&f), Value::default_value(&f.kind()));
        let _ = x.get_field_mut(&f).clone();
        let _ = x.has_field(&f);
        if r.bool() {
            x.clear_field(&f);
        }
        for v in all_values() {
            let mut y = DynamicMessage::new(d.clone());
            let valid = v.is_valid_for_field(&f);
            let w = v.clone();
            if y.try_set_field(&f, w).is_ok() != valid {
                return Err(format!("is_valid_for_field and try_set_field disagree on {} and {v:?}", f.full_name()));
            }
            let _ = y.encode_to_vec();
        }
        *n.entry("fields used").or_default() += 1;
    }
    for e in d.extensions() {
        let _ = (x.has_extension(&e), x.get_extension(&e));
        let _ = x.get_extension_mut(&e).clone();
        if r.bool() {
            x.clear_extension(&e);
        }
    }
    let _ = from_dyn(&x);
    for k in 0..2 {
        *step = "setting fields";
        let m = if k == 0 { x.clone() } else { message(d, r, 0) };
        *step = "encoding a message";
        let b = m.encode_to_vec();
        if b.len() != m.encoded_len() {
            return Err(format!("{}: encoded_len {} of {} bytes", d.full_name(), m.encoded_len(), b.len()));
        }
        *step = "decoding a message";
        let y = DynamicMessage::decode(d.clone(), &b[..]).map_err(|e| format!("{}: own encoding rejected: {e} {}", d.full_name(), hexall(&b)))?;
        let _ = y.encode_to_vec();
        *step = "comparing messages";
        let _ = (m == y, format!("{m:?}").len(), from_dyn(&y).is_ok());
        *step = "JSON";
        for skip in [true, false] {
            let o = SerializeOptions::new().skip_default_fields(skip).use_proto_field_name(skip);
            if let Ok(v) = m.serialize_with_options(serde_json::value::Serializer, &o) {
                let _ = DynamicMessage::deserialize(d.clone(), v);
                *n.entry("JSON round trips").or_default() += 1;
            }
        }
        *step = "text";
        let t = m.to_text_format();
        let _ = DynamicMessage::parse_text_format(d.clone(), &t);
        for o in crate::text::all_topts() {
            if r.pct(10) {
                let t = m.to_text_format_with_options(&super::text::lib_topts(o));
                let _ = DynamicMessage::parse_text_format(d.clone(), &t);
            }
        }
        *step = "transcoding";
        let mut z = DynamicMessage::new(d.clone());
        let _ = z.transcode_from(&m);
        let _ = m.transcode_to::<FileOptions>();
        *step = "taking fields";
        let mut z = m.clone();
        for f in d.fields() {
            let _ = z.take_field(&f);
        }
        let _ = z.take_extensions().count();
        let _ = m.clone().fields().count();
        let _ = (m.descriptor() == *d, m.unknown_fields().count());
    }
    // input without regard for the types
    *step = "decoding anything";
    let mut nums: Vec<u32> = d.fields().map(|f| f.number()).chain(d.extensions().map(|e| e.number())).collect();
    nums.extend([1, 2]);
    for _ in 0..6 {
        let mut b = vec![];
        for _ in 0..1 + r.below(4) {
            let k = *r.pick(&nums);
            put_any(&mut b, r, k, &nums, 0);
        }
        if let Ok(m) = DynamicMessage::decode(d.clone(), &b[..]) {
            let b2 = m.encode_to_vec();
            if let Err(e) = DynamicMessage::decode(d.clone(), &b2[..]) {
                return Err(format!("{}: own encoding rejected: {e} {} {}", d.full_name(), hexall(&b), hexall(&b2)));
            }
            let _ = m.to_text_format();
            let _ = m.serialize_with_options(serde_json::value::Serializer, &SerializeOptions::new());
            *n.entry("decoded").or_default() += 1;
        }
        let mut m = x.clone();
        let _ = m.merge(&b[..]);
    }
    *step = "reading any JSON";
    let mut names: Vec<String> = d.fields().map(|f| f.json_name().to_string()).chain(d.extensions().map(|e| e.json_name().to_string())).collect();
    names.extend(["@type".into(), "value".into(), "key".into()]);
    let vals = ["null", "1", "\"\"", "\"1\"", "{}", "[]", "[1]", "[null]", "{\"1\":1}", "{\"a\":{}}", "{\"true\":\"x\"}", "true", "[{}]", "-1.5", "\"AAAA\""];
    for _ in 0..8 {
        let j = format!("{{{:?}:{},{:?}:{}}}", r.pick(&names), r.pick(&vals), r.pick(&names), r.pick(&vals));
        let mut de = serde_json::Deserializer::from_str(&j);
        if let Ok(m) = DynamicMessage::deserialize(d.clone(), &mut de) {
            let _ = m.encode_to_vec();
            *n.entry("read from JSON").or_default() += 1;
        }
        let v = *r.pick(&vals);
        let mut de = serde_json::Deserializer::from_str(v);
        let _ = DynamicMessage::deserialize(d.clone(), &mut de).map(|m| m.encode_to_vec());
    }
    *step = "reading any text";
    let mut names: Vec<String> = d.fields().map(|f| f.name().to_string()).chain(d.extensions().map(|e| format!("[{}]", e.full_name()))).collect();
    names.extend(d.fields().filter(|f| f.is_group()).filter_map(|f| f.kind().as_message().map(|m| m.name().to_string())));
    names.extend(["[type.googleapis.com/google.protobuf.Any]".into(), format!("[a.b/{}]", d.full_name())]);
    let vals = [": 1", ": ''", " {}", ": {}", ": []", ": [1, 2]", " { key: 1 value: 2 }", " { key: 'x' }", ": true", " { value {} }", ": X", ": -1", ": [{}, {}]"];
    for _ in 0..8 {
        let t = format!("{}{} {}{}", r.pick(&names), r.pick(&vals), r.pick(&names), r.pick(&vals));
        if let Ok(m) = DynamicMessage::parse_text_format(d.clone(), &t) {
            let _ = (m.encode_to_vec(), m.to_text_format());
            *n.entry("read from text").or_default() += 1;
        }
    }
    let _ = Cardinality::Optional;
    Ok(())
}

fn put_any(b: &mut Vec<u8>, r: &mut Rng, k: u32, nums: &[u32], depth: usize) {
    if k == 0 {
        return;
    }
    match r.below(if depth > 3 { 3 } else { 5 }) {
        0 => {
            wire::put_tag(b, k, 0);
            wire::put_varint(b, gen_u64(r));
        }
        1 => {
            wire::put_tag(b, k, 5);
            b.extend(r.u32().to_le_bytes());
        }
        2 => {
            wire::put_tag(b, k, 1);
            b.extend(r.u64().to_le_bytes());
        }
        3 => {
            let mut c = vec![];
            match r.below(3) {
                0 => c = gen_str(r).into_bytes(),
                1 => (0..r.below(3)).for_each(|_| wire::put_varint(&mut c, gen_u64(r))),
                _ => {
                    for k in [1, 2] {
                        if r.pct(70) {
                            put_any(&mut c, r, k, nums, depth + 1);
                        }
                    }
                    if r.bool() {
                        let k = *r.pick(nums);
                        put_any(&mut c, r, k, nums, depth + 1);
                    }
                }
            }
            wire::put_tag(b, k, 2);
            wire::put_varint(b, c.len() as u64);
            b.extend(c);
        }
        _ => {
            wire::put_tag(b, k, 3);
            let j = *r.pick(nums);
            put_any(b, r, j, nums, depth + 1);
            wire::put_tag(b, k, 4);
        }
    }
}

pub static PROPS: &[Prop] = &[Prop {
    id: "C26",
    quick: 60_000,
    thorough: 1_000_000,
    rule: "case i: a valid descriptor set changed at 1-8 places (any field, element, name, number, type, or byte) drawn from hash(seed, id, i); accepted pools walked and their messages used; distinct by (verdict, changes)",
    case: c26,
    directed: None,
    extra: None,
    need: &["accepted", "rejected", "faults with locations of any shape", "descriptors walked", "message types used", "fields used", "JSON round trips", "decoded", "read from JSON", "read from text"],
    level: "exploration",
}];
