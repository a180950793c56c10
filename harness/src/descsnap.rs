//! Observation of descriptor pools: a check against the reference schema, and a canonical snapshot.
use crate::dynconv::val_from;
use crate::rmsg::{default_of, RVal};
use crate::schema::*;
use prost_reflect::*;
use std::collections::{BTreeMap, BTreeSet};

type R = Result<(), String>;

macro_rules! eq {
    ($w:expr, $got:expr, $want:expr) => {{
        match (&$got, &$want) {
            (g, w) => {
                if *g != *w {
                    return Err(format!("{}: reported {:?}, defined {:?}", $w, g, w));
                }
            }
        }
    }};
}
macro_rules! ok {
    ($w:expr, $c:expr) => {
        if !$c {
            return Err(format!("{}", $w));
        }
    };
}

pub fn kind_text(k: &Kind) -> String {
    match k {
        Kind::Message(m) => format!("message {}", m.full_name()),
        Kind::Enum(e) => format!("enum {}", e.full_name()),
        k => format!("{k:?}"),
    }
}

fn rkind_text(k: &RKind) -> String {
    use RKind::*;
    match k {
        Msg(m) | Group(m) => format!("message {m}"),
        Enum(m) => format!("enum {m}"),
        Double => "double".into(),
        Float => "float".into(),
        Int32 => "int32".into(),
        Int64 => "int64".into(),
        Uint32 => "uint32".into(),
        Uint64 => "uint64".into(),
        Sint32 => "sint32".into(),
        Sint64 => "sint64".into(),
        Fixed32 => "fixed32".into(),
        Fixed64 => "fixed64".into(),
        Sfixed32 => "sfixed32".into(),
        Sfixed64 => "sfixed64".into(),
        Bool => "bool".into(),
        Str => "string".into(),
        Bytes => "bytes".into(),
    }
}

pub fn rwire(k: &RKind) -> prost::encoding::WireType {
    use prost::encoding::WireType::*;
    match k.wire() {
        0 => Varint,
        1 => SixtyFourBit,
        2 => LengthDelimited,
        3 => StartGroup,
        _ => ThirtyTwoBit,
    }
}

fn same_value(a: &RVal, b: &RVal) -> bool {
    match (a, b) {
        (RVal::F64(x), RVal::F64(y)) => x == y || (f64::from_bits(*x).is_nan() && f64::from_bits(*y).is_nan()),
        (RVal::F32(x), RVal::F32(y)) => x == y || (f32::from_bits(*x).is_nan() && f32::from_bits(*y).is_nan()),
        _ => a == b,
    }
}

struct Attr {
    name: String,
    full_name: String,
    number: u32,
    json_name: String,
    kind: String,
    card: Cardinality,
    list: bool,
    map: bool,
    group: bool,
    packed: bool,
    presence: bool,
    default: Value,
}

fn check_attr(s: &RSchema, f: &RField, a: Attr) -> R {
    let w = format!("field {}", f.full_name);
    eq!(format!("{w} name"), a.name, f.name);
    eq!(format!("{w} full_name"), a.full_name, f.full_name);
    eq!(format!("{w} number"), a.number, f.number);
    eq!(format!("{w} json_name"), a.json_name, f.json_name);
    eq!(format!("{w} kind"), a.kind, rkind_text(&f.kind));
    let c = match f.card {
        Card::Opt => Cardinality::Optional,
        Card::Req => Cardinality::Required,
        Card::Rep => Cardinality::Repeated,
    };
    eq!(format!("{w} cardinality"), a.card, c);
    eq!(format!("{w} is_list"), a.list, f.is_list());
    eq!(format!("{w} is_map"), a.map, f.is_map);
    eq!(format!("{w} is_group"), a.group, f.is_group());
    eq!(format!("{w} is_packed"), a.packed, f.packed);
    eq!(format!("{w} supports_presence"), a.presence, f.presence);
    let d = val_from(&a.default)?;
    let want = default_of(s, f);
    ok!(format!("{w} default: reported {d:?}, defined {want:?}"), same_value(&d, &want));
    Ok(())
}

fn uniq(what: &str, names: &[String]) -> R {
    let set: BTreeSet<&String> = names.iter().collect();
    ok!(format!("{what}: {names:?} yields an element twice"), set.len() == names.len());
    Ok(())
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

/// The normal form the library documents: everything resolved, JSON names filled in.
pub fn normal_file(f: &prost_types::FileDescriptorProto) -> prost_types::FileDescriptorProto {
    let mut f = f.clone();
    crate::scope::for_fields(&mut f, &mut |x| {
        if x.json_name.is_none() {
            x.json_name = Some(default_json_name(x.name()));
        }
        // an unset label means optional
        if x.label.is_none() {
            x.label = Some(1);
        }
    });
    f
}

fn path_of(parts: &[&[i32]]) -> Vec<i32> {
    parts.concat()
}

/// Compare every element of the pool with the reference; `n` counts the elements seen.
pub fn check_pool(pool: &DescriptorPool, s: &RSchema, n: &mut u64) -> R {
    let files: Vec<String> = s.files.iter().map(|f| f.name().to_string()).collect();
    eq!("files()", sorted(pool.files().map(|f| f.name().to_string()).collect()), sorted(files.clone()));
    eq!("files().len()", pool.files().len(), files.len());
    eq!(
        "file_descriptor_protos()",
        sorted(pool.file_descriptor_protos().map(|f| f.name().to_string()).collect()),
        sorted(files.clone())
    );
    // whole-pool listings
    let all = |names: Vec<String>| sorted(names);
    eq!("all_messages()", all(pool.all_messages().map(|m| m.full_name().to_string()).collect()), all(s.msgs.keys().cloned().collect()));
    eq!("all_enums()", all(pool.all_enums().map(|m| m.full_name().to_string()).collect()), all(s.enums.keys().cloned().collect()));
    eq!(
        "all_extensions()",
        all(pool.all_extensions().map(|m| m.full_name().to_string()).collect()),
        all(s.exts.iter().map(|e| e.field.full_name.clone()).collect())
    );
    eq!("services()", all(pool.services().map(|m| m.full_name().to_string()).collect()), all(s.svcs.iter().map(|e| e.full_name.clone()).collect()));
    for (i, f) in pool.files().enumerate() {
        eq!(format!("index of file {}", f.name()), f.index(), i);
        ok!(format!("files() differs from FileDescriptor::new at {i}"), FileDescriptor::new(pool.clone(), i) == f);
    }

    for rf in &s.files {
        let w = format!("file {}", rf.name());
        let f = pool.get_file_by_name(rf.name()).ok_or(format!("{w} not found by name"))?;
        eq!(format!("{w} name"), f.name(), rf.name());
        eq!(format!("{w} package"), f.package_name(), rf.package());
        eq!(format!("{w} syntax"), f.syntax(), if rf.syntax() == "proto3" { Syntax::Proto3 } else { Syntax::Proto2 });
        eq!(format!("{w} dependencies"), f.dependencies().map(|d| d.name().to_string()).collect::<Vec<_>>(), rf.dependency);
        eq!(
            format!("{w} public dependencies"),
            f.public_dependencies().map(|d| d.name().to_string()).collect::<Vec<_>>(),
            rf.public_dependency.iter().map(|&i| rf.dependency[i as usize].clone()).collect::<Vec<_>>()
        );
        let names = |v: Vec<&str>| v.into_iter().map(|x| join(rf.package(), x)).collect::<Vec<_>>();
        eq!(format!("{w} messages"), f.messages().map(|m| m.full_name().to_string()).collect::<Vec<_>>(), names(rf.message_type.iter().map(|m| m.name()).collect()));
        eq!(format!("{w} enums"), f.enums().map(|m| m.full_name().to_string()).collect::<Vec<_>>(), names(rf.enum_type.iter().map(|m| m.name()).collect()));
        eq!(format!("{w} extensions"), f.extensions().map(|m| m.full_name().to_string()).collect::<Vec<_>>(), names(rf.extension.iter().map(|m| m.name()).collect()));
        eq!(format!("{w} services"), f.services().map(|m| m.full_name().to_string()).collect::<Vec<_>>(), names(rf.service.iter().map(|m| m.name()).collect()));
        ok!(format!("{w} is not in its own pool"), f.parent_pool() == pool);
        let mut got = f.file_descriptor_proto().clone();
        let want = normal_file(rf);
        got = normal_file(&got);
        if got != want {
            return Err(format!("{w}: raw descriptor differs: reported {got:?}, defined {want:?}"));
        }
        *n += 1;
    }

    for m in s.msgs.values() {
        let w = format!("message {}", m.full_name);
        let rf = &s.files[m.file];
        let d = pool.get_message_by_name(&m.full_name).ok_or(format!("{w} not found by name"))?;
        ok!(format!("{w}: lookup with a leading dot disagrees"), pool.get_message_by_name(&format!(".{}", m.full_name)).as_ref() == Some(&d));
        ok!(format!("{w}: listed handle differs"), pool.all_messages().filter(|x| *x == d).count() == 1);
        eq!(format!("{w} name"), d.name(), m.proto.name());
        eq!(format!("{w} full_name"), d.full_name(), m.full_name);
        eq!(format!("{w} package"), d.package_name(), rf.package());
        eq!(format!("{w} file"), d.parent_file().name(), rf.name());
        eq!(format!("{w} file proto"), d.parent_file_descriptor_proto().name(), rf.name());
        eq!(format!("{w} path"), d.path(), &m.path[..]);
        eq!(format!("{w} parent"), d.parent_message().map(|p| p.full_name().to_string()), m.parent);
        eq!(format!("{w} is_map_entry"), d.is_map_entry(), m.map_entry);
        eq!(format!("{w} raw name"), d.descriptor_proto().name(), m.proto.name());
        eq!(
            format!("{w} reserved_ranges"),
            d.reserved_ranges().map(|r| (r.start, r.end)).collect::<Vec<_>>(),
            m.proto.reserved_range.iter().map(|r| (r.start() as u32, r.end() as u32)).collect::<Vec<_>>()
        );
        eq!(format!("{w} reserved_names"), d.reserved_names().map(|x| x.to_string()).collect::<Vec<_>>(), m.proto.reserved_name);
        eq!(
            format!("{w} extension_ranges"),
            d.extension_ranges().map(|r| (r.start as i64, r.end as i64)).collect::<Vec<_>>(),
            m.ext_ranges
        );
        let child = |v: Vec<&str>| v.into_iter().map(|x| join(&m.full_name, x)).collect::<Vec<_>>();
        eq!(format!("{w} child_messages"), d.child_messages().map(|x| x.full_name().to_string()).collect::<Vec<_>>(), child(m.proto.nested_type.iter().map(|x| x.name()).collect()));
        eq!(format!("{w} child_enums"), d.child_enums().map(|x| x.full_name().to_string()).collect::<Vec<_>>(), child(m.proto.enum_type.iter().map(|x| x.name()).collect()));
        eq!(format!("{w} child_extensions"), d.child_extensions().map(|x| x.full_name().to_string()).collect::<Vec<_>>(), child(m.proto.extension.iter().map(|x| x.name()).collect()));
        if m.map_entry {
            eq!(format!("{w} map key"), d.map_entry_key_field().number(), 1);
            eq!(format!("{w} map value"), d.map_entry_value_field().number(), 2);
        }
        // fields
        eq!(format!("{w} fields().len()"), d.fields().len(), m.fields.len());
        let listed: Vec<String> = d.fields().map(|f| f.name().to_string()).collect();
        uniq(&format!("{w} fields()"), &listed)?;
        eq!(format!("{w} fields()"), sorted(listed), sorted(m.fields.values().map(|f| f.name.clone()).collect()));
        for (i, num) in m.order.iter().enumerate() {
            let f = &m.fields[num];
            let fw = format!("field {}", f.full_name);
            let x = d.get_field(*num).ok_or(format!("{fw} not found by number"))?;
            ok!(format!("{fw} not found by name"), d.get_field_by_name(&f.name).as_ref() == Some(&x));
            ok!(format!("{fw} not found by JSON name {:?}", f.json_name), d.get_field_by_json_name(&f.json_name).as_ref() == Some(&x));
            ok!(format!("{fw} not listed exactly once"), d.fields().filter(|y| *y == x).count() == 1);
            check_attr(s, f, Attr {
                name: x.name().into(),
                full_name: x.full_name().into(),
                number: x.number(),
                json_name: x.json_name().into(),
                kind: kind_text(&x.kind()),
                card: x.cardinality(),
                list: x.is_list(),
                map: x.is_map(),
                group: x.is_group(),
                packed: x.is_packed(),
                presence: x.supports_presence(),
                default: x.default_value(),
            })?;
            eq!(format!("{fw} is_required"), x.is_required(), f.card == Card::Req);
            eq!(format!("{fw} wire type"), wire_name(x.kind().wire_type()), wire_name(if f.is_group() { prost::encoding::WireType::LengthDelimited } else { rwire(&f.kind) }));
            eq!(format!("{fw} path"), x.path(), &path_of(&[&m.path, &[2, i as i32]])[..]);
            ok!(format!("{fw} parent"), x.parent_message() == &d);
            eq!(format!("{fw} file"), x.parent_file().name(), rf.name());
            ok!(format!("{fw} pool"), x.parent_pool() == pool);
            eq!(format!("{fw} raw"), x.field_descriptor_proto().name(), f.name);
            eq!(format!("{fw} raw number"), x.field_descriptor_proto().number(), f.number as i32);
            match (f.oneof, x.containing_oneof()) {
                (None, None) => {}
                (Some(o), Some(y)) => {
                    eq!(format!("{fw} containing_oneof"), y.name(), m.oneofs[o].name);
                    ok!(format!("{fw} not listed in its oneof"), y.fields().filter(|z| *z == x).count() == 1);
                }
                (a, b) => return Err(format!("{fw} containing_oneof: reported {b:?}, defined {a:?}")),
            }
            *n += 1;
        }
        // oneofs, in declaration order
        eq!(format!("{w} oneofs()"), d.oneofs().map(|o| o.name().to_string()).collect::<Vec<_>>(), m.oneofs.iter().map(|o| o.name.clone()).collect::<Vec<_>>());
        for (i, (o, ro)) in d.oneofs().zip(&m.oneofs).enumerate() {
            let ow = format!("oneof {}.{}", m.full_name, ro.name);
            eq!(format!("{ow} full name"), o.full_name(), join(&m.full_name, &ro.name));
            eq!(format!("{ow} path"), o.path(), &path_of(&[&m.path, &[8, i as i32]])[..]);
            let l: Vec<u32> = o.fields().map(|f| f.number()).collect();
            let mut a = l.clone();
            a.sort();
            let mut b = ro.fields.clone();
            b.sort();
            eq!(format!("{ow} fields"), a, b);
            eq!(format!("{ow} fields().len()"), o.fields().len(), ro.fields.len());
            eq!(format!("{ow} is_synthetic"), o.is_synthetic(), ro.synthetic);
            ok!(format!("{ow} parent"), o.parent_message() == &d);
            eq!(format!("{ow} file"), o.parent_file().name(), rf.name());
            eq!(format!("{ow} raw"), o.oneof_descriptor_proto().name(), ro.name);
            ok!(format!("{ow} pool"), o.parent_pool() == pool);
            *n += 1;
        }
        // extensions of this message, wherever declared
        let el: Vec<String> = d.extensions().map(|e| e.full_name().to_string()).collect();
        uniq(&format!("{w} extensions()"), &el)?;
        eq!(format!("{w} extensions()"), sorted(el), sorted(s.exts.iter().filter(|e| e.extendee == m.full_name).map(|e| e.field.full_name.clone()).collect()));
        *n += 1;
    }

    for e in &s.exts {
        let w = format!("extension {}", e.field.full_name);
        let d = pool.get_extension_by_name(&e.field.full_name).ok_or(format!("{w} not found by name"))?;
        let rf = &s.files[e.file];
        let m = pool.get_message_by_name(&e.extendee).ok_or(format!("{w}: extendee not found"))?;
        ok!(format!("{w}: lookup with a leading dot disagrees"), pool.get_extension_by_name(&format!(".{}", e.field.full_name)).as_ref() == Some(&d));
        ok!(format!("{w} listed once"), pool.all_extensions().filter(|x| *x == d).count() == 1);
        ok!(format!("{w} extends"), d.containing_message() == m);
        ok!(format!("{w} by number"), m.get_extension(e.field.number).as_ref() == Some(&d));
        ok!(format!("{w} by full name"), m.get_extension_by_full_name(&e.field.full_name).as_ref() == Some(&d));
        ok!(format!("{w} by JSON name"), m.get_extension_by_json_name(&format!("[{}]", e.field.full_name)).as_ref() == Some(&d));
        ok!(format!("{w} listed by its message"), m.extensions().filter(|x| *x == d).count() == 1);
        check_attr(s, &e.field, Attr {
            name: d.name().into(),
            full_name: d.full_name().into(),
            number: d.number(),
            json_name: d.json_name().into(),
            kind: kind_text(&d.kind()),
            card: d.cardinality(),
            list: d.is_list(),
            map: d.is_map(),
            group: d.is_group(),
            packed: d.is_packed(),
            presence: d.supports_presence(),
            default: d.default_value(),
        })?;
        eq!(format!("{w} path"), d.path(), &e.path[..]);
        eq!(format!("{w} package"), d.package_name(), rf.package());
        eq!(format!("{w} file"), d.parent_file().name(), rf.name());
        eq!(format!("{w} file proto"), d.parent_file_descriptor_proto().name(), rf.name());
        eq!(format!("{w} parent"), d.parent_message().map(|p| p.full_name().to_string()), e.parent);
        eq!(format!("{w} raw"), (d.field_descriptor_proto().name(), d.field_descriptor_proto().number()), (&e.field.name[..], e.field.number as i32));
        ok!(format!("{w} pool"), d.parent_pool() == pool);
        *n += 1;
    }

    for e in s.enums.values() {
        let w = format!("enum {}", e.full_name);
        let rf = &s.files[e.file];
        let d = pool.get_enum_by_name(&e.full_name).ok_or(format!("{w} not found by name"))?;
        ok!(format!("{w}: lookup with a leading dot disagrees"), pool.get_enum_by_name(&format!(".{}", e.full_name)).as_ref() == Some(&d));
        ok!(format!("{w} listed once"), pool.all_enums().filter(|x| *x == d).count() == 1);
        eq!(format!("{w} name"), d.name(), e.proto.name());
        eq!(format!("{w} full_name"), d.full_name(), e.full_name);
        eq!(format!("{w} package"), d.package_name(), rf.package());
        eq!(format!("{w} file"), d.parent_file().name(), rf.name());
        eq!(format!("{w} file proto"), d.parent_file_descriptor_proto().name(), rf.name());
        eq!(format!("{w} path"), d.path(), &e.path[..]);
        eq!(format!("{w} parent"), d.parent_message().map(|p| p.full_name().to_string()), e.parent);
        eq!(format!("{w} raw"), d.enum_descriptor_proto().name(), e.proto.name());
        eq!(format!("{w} default"), (d.default_value().name().to_string(), d.default_value().number()), e.values[0]);
        eq!(format!("{w} values().len()"), d.values().len(), e.values.len());
        let mut got: Vec<(String, i32)> = d.values().map(|v| (v.name().to_string(), v.number())).collect();
        let mut want = e.values.clone();
        got.sort();
        want.sort();
        eq!(format!("{w} values"), got, want);
        eq!(
            format!("{w} reserved_ranges"),
            d.reserved_ranges().map(|r| (*r.start(), *r.end())).collect::<Vec<_>>(),
            e.proto.reserved_range.iter().map(|r| (r.start(), r.end())).collect::<Vec<_>>()
        );
        eq!(format!("{w} reserved_names"), d.reserved_names().map(|x| x.to_string()).collect::<Vec<_>>(), e.proto.reserved_name);
        ok!(format!("{w} pool"), d.parent_pool() == pool);
        let scope = e.full_name.rsplit_once('.').map(|x| x.0).unwrap_or("");
        for (i, (vn, num)) in e.values.iter().enumerate() {
            let vw = format!("{w} value {vn}");
            let v = d.get_value_by_name(vn).ok_or(format!("{vw} not found by name"))?;
            eq!(vw, (v.name(), v.number()), (&vn[..], *num));
            // enum values are siblings of their enum
            eq!(format!("{vw} full name"), v.full_name(), join(scope, vn));
            eq!(format!("{vw} path"), v.path(), &path_of(&[&e.path, &[2, i as i32]])[..]);
            ok!(format!("{vw} parent"), v.parent_enum() == &d);
            eq!(format!("{vw} file"), v.parent_file().name(), rf.name());
            ok!(format!("{vw} listed once"), d.values().filter(|x| *x == v).count() == 1);
            eq!(format!("{vw} raw"), (v.enum_value_descriptor_proto().name(), v.enum_value_descriptor_proto().number()), (&vn[..], *num));
            ok!(format!("{vw} pool"), v.parent_pool() == pool);
            let by = d.get_value(*num).ok_or(format!("{vw} not found by number"))?;
            eq!(format!("{vw} by number"), by.number(), *num);
            *n += 1;
        }
        *n += 1;
    }

    for (i, d) in pool.services().enumerate() {
        eq!("service index", d.index(), i);
        ok!(format!("services() differs from ServiceDescriptor::new at {i}"), ServiceDescriptor::new(pool.clone(), i) == d);
    }
    for v in &s.svcs {
        let w = format!("service {}", v.full_name);
        let rf = &s.files[v.file];
        let d = pool.get_service_by_name(&v.full_name).ok_or(format!("{w} not found by name"))?;
        ok!(format!("{w}: lookup with a leading dot disagrees"), pool.get_service_by_name(&format!(".{}", v.full_name)).as_ref() == Some(&d));
        eq!(format!("{w} name"), d.name(), v.proto.name());
        eq!(format!("{w} full name"), d.full_name(), v.full_name);
        eq!(format!("{w} package"), d.package_name(), rf.package());
        eq!(format!("{w} path"), d.path(), &v.path[..]);
        eq!(format!("{w} file"), d.parent_file().name(), rf.name());
        eq!(format!("{w} file proto"), d.parent_file_descriptor_proto().name(), rf.name());
        eq!(format!("{w} raw"), d.service_descriptor_proto().name(), v.proto.name());
        ok!(format!("{w} pool"), d.parent_pool() == pool);
        eq!(format!("{w} methods"), d.methods().map(|m| m.name().to_string()).collect::<Vec<_>>(), v.proto.method.iter().map(|m| m.name().to_string()).collect::<Vec<_>>());
        eq!(format!("{w} methods().len()"), d.methods().len(), v.proto.method.len());
        for (i, (m, rm)) in d.methods().zip(&v.proto.method).enumerate() {
            let mw = format!("method {}.{}", v.full_name, rm.name());
            eq!(format!("{mw} index"), m.index(), i);
            ok!(format!("{mw} route"), MethodDescriptor::new(d.clone(), i) == m);
            eq!(format!("{mw} full name"), m.full_name(), join(&v.full_name, rm.name()));
            eq!(format!("{mw} path"), m.path(), &path_of(&[&v.path, &[2, i as i32]])[..]);
            eq!(format!("{mw} input"), m.input().full_name(), rm.input_type().trim_start_matches('.'));
            eq!(format!("{mw} output"), m.output().full_name(), rm.output_type().trim_start_matches('.'));
            eq!(format!("{mw} streaming"), (m.is_client_streaming(), m.is_server_streaming()), (rm.client_streaming(), rm.server_streaming()));
            eq!(format!("{mw} raw"), m.method_descriptor_proto().name(), rm.name());
            eq!(format!("{mw} file"), m.parent_file().name(), rf.name());
            ok!(format!("{mw} parent"), m.parent_service() == &d && m.parent_pool() == pool);
            *n += 1;
        }
        *n += 1;
    }
    Ok(())
}

fn wire_name(w: prost::encoding::WireType) -> String {
    format!("{w:?}")
}

/// Lookups of things that do not exist.
pub fn check_absent(r: &mut crate::rng::Rng, pool: &DescriptorPool, s: &RSchema, n: &mut u64) -> R {
    let t = crate::scope::Table::new(&s.files);
    let names: Vec<&String> = t.syms.keys().collect();
    for _ in 0..40 {
        let base = if names.is_empty() || r.pct(5) { "x".to_string() } else { (*r.pick(&names)).clone() };
        let name = match r.below(9) {
            0 => base,
            1 => format!("{base}."),
            2 => format!("{base}.x"),
            3 => base.to_uppercase(),
            4 => base.to_lowercase(),
            5 => base.rsplit('.').next().unwrap().to_string(),
            6 => format!("x.{base}"),
            7 => base.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or_default(),
            _ => base[..base.len() - 1].to_string(),
        };
        if name.starts_with('.') {
            continue;
        }
        eq!(format!("get_message_by_name({name:?})"), pool.get_message_by_name(&name).is_some(), s.msgs.contains_key(&name));
        eq!(format!("get_enum_by_name({name:?})"), pool.get_enum_by_name(&name).is_some(), s.enums.contains_key(&name));
        eq!(format!("get_extension_by_name({name:?})"), pool.get_extension_by_name(&name).is_some(), s.exts.iter().any(|e| e.field.full_name == name));
        eq!(format!("get_service_by_name({name:?})"), pool.get_service_by_name(&name).is_some(), s.svcs.iter().any(|e| e.full_name == name));
        eq!(format!("get_file_by_name({name:?})"), pool.get_file_by_name(&name).is_some(), s.files.iter().any(|f| f.name() == name));
        *n += 5;
    }
    for f in &s.files {
        for name in [format!("./{}", f.name()), f.name().to_uppercase(), f.name()[1..].to_string(), format!("{}x", f.name())] {
            eq!(format!("get_file_by_name({name:?})"), pool.get_file_by_name(&name).is_some(), s.files.iter().any(|f| f.name() == name));
            *n += 1;
        }
    }
    for m in s.msgs.values() {
        let d = pool.get_message_by_name(&m.full_name).unwrap();
        for _ in 0..6 {
            let num = match r.below(4) {
                0 => 0,
                1 => r.u32(),
                2 => r.below(40) as u32,
                _ => m.order.first().copied().unwrap_or(1).wrapping_add(1),
            };
            eq!(format!("{}.get_field({num})", m.full_name), d.get_field(num).is_some(), m.fields.contains_key(&num));
            eq!(format!("{}.get_extension({num})", m.full_name), d.get_extension(num).is_some(), s.ext_by_num.contains_key(&(m.full_name.clone(), num)));
            *n += 2;
        }
        for f in m.fields.values().take(5) {
            for name in [f.name.to_uppercase(), f.name.to_lowercase(), f.json_name.clone(), format!("{}_", f.name), f.full_name.clone(), f.number.to_string()] {
                eq!(format!("{}.get_field_by_name({name:?})", m.full_name), d.get_field_by_name(&name).is_some(), m.fields.values().any(|g| g.name == name));
                *n += 1;
            }
            for name in [f.name.clone(), f.json_name.to_uppercase(), format!("{} ", f.json_name), format!("[{}]", f.full_name)] {
                eq!(format!("{}.get_field_by_json_name({name:?})", m.full_name), d.get_field_by_json_name(&name).is_some(), m.fields.values().any(|g| g.json_name == name));
                *n += 1;
            }
        }
        for e in s.exts.iter().take(6) {
            let here = e.extendee == m.full_name;
            eq!(format!("{}.get_extension_by_full_name({})", m.full_name, e.field.full_name), d.get_extension_by_full_name(&e.field.full_name).is_some(), here);
            eq!(format!("{}.get_extension_by_json_name({})", m.full_name, e.field.full_name), d.get_extension_by_json_name(&format!("[{}]", e.field.full_name)).is_some(), here);
            ok!("extension found by its bare name as a JSON name", d.get_extension_by_json_name(&e.field.full_name).is_none());
            ok!("extension found by its bracketed name as a full name", d.get_extension_by_full_name(&format!("[{}]", e.field.full_name)).is_none());
            *n += 2;
        }
    }
    for e in s.enums.values() {
        let d = pool.get_enum_by_name(&e.full_name).unwrap();
        for _ in 0..6 {
            let num = match r.below(4) {
                0 => r.u32() as i32,
                1 => e.values[0].1.wrapping_add(1),
                2 => e.values[e.values.len() - 1].1.wrapping_sub(1),
                _ => r.range(-10, 30) as i32,
            };
            eq!(format!("{}.get_value({num})", e.full_name), d.get_value(num).is_some(), e.values.iter().any(|v| v.1 == num));
            *n += 1;
        }
        for v in &e.values {
            for name in [v.0.to_lowercase(), v.0.to_uppercase(), format!("{}.{}", e.full_name, v.0), format!("{}x", v.0), e.proto.name().to_string()] {
                eq!(format!("{}.get_value_by_name({name})", e.full_name), d.get_value_by_name(&name).is_some(), e.values.iter().any(|x| x.0 == name));
                *n += 1;
            }
        }
    }
    Ok(())
}

pub type Snap = BTreeMap<String, String>;

fn opt_text(o: DynamicMessage) -> String {
    crate::props::msg_canon(&o)
}

/// Everything observable about a pool, one entry per element, independent of the order files were added.
pub fn snapshot(pool: &DescriptorPool, probes: &[String]) -> Snap {
    let mut out = Snap::new();
    let mut put = |k: String, v: String| {
        if out.insert(k.clone(), v).is_some() {
            out.insert(format!("DUPLICATE {k}"), String::new());
        }
    };
    let join_names = |mut v: Vec<String>| {
        v.sort();
        v.join(",")
    };
    for f in pool.files() {
        put(
            format!("file {}", f.name()),
            format!(
                "{} {:?} deps {:?} pub {:?} m {:?} e {:?} x {:?} s {:?} opt {} enc {} raw {:?}",
                f.package_name(),
                f.syntax(),
                f.dependencies().map(|d| d.name().to_string()).collect::<Vec<_>>(),
                f.public_dependencies().map(|d| d.name().to_string()).collect::<Vec<_>>(),
                f.messages().map(|d| d.full_name().to_string()).collect::<Vec<_>>(),
                f.enums().map(|d| d.full_name().to_string()).collect::<Vec<_>>(),
                f.extensions().map(|d| d.full_name().to_string()).collect::<Vec<_>>(),
                f.services().map(|d| d.full_name().to_string()).collect::<Vec<_>>(),
                opt_text(f.options()),
                crate::props::hexall(&f.encode_to_vec()),
                f.file_descriptor_proto(),
            ),
        );
    }
    put("#files".into(), format!("{} {}", pool.files().len(), join_names(pool.files().map(|f| f.name().to_string()).collect())));
    put("#protos".into(), join_names(pool.file_descriptor_protos().map(|f| f.name().to_string()).collect()));
    put("#messages".into(), join_names(pool.all_messages().map(|f| f.full_name().to_string()).collect()));
    put("#enums".into(), join_names(pool.all_enums().map(|f| f.full_name().to_string()).collect()));
    put("#exts".into(), join_names(pool.all_extensions().map(|f| f.full_name().to_string()).collect()));
    put("#svcs".into(), join_names(pool.services().map(|f| f.full_name().to_string()).collect()));
    for m in pool.all_messages() {
        put(format!("message {}", m.full_name()), message_text(&m));
    }
    for e in pool.all_enums() {
        put(
            format!("enum {}", e.full_name()),
            format!(
                "{} {:?} {} values {:?} default {} res {:?} {:?} opt {}",
                e.parent_file().name(),
                e.path(),
                e.parent_message().map(|p| p.full_name().to_string()).unwrap_or_default(),
                e.values().map(|v| (v.full_name().to_string(), v.number(), v.path().to_vec(), opt_text(v.options()))).collect::<Vec<_>>(),
                e.default_value().name(),
                e.reserved_ranges().collect::<Vec<_>>(),
                e.reserved_names().collect::<Vec<_>>(),
                opt_text(e.options())
            ),
        );
    }
    for e in pool.all_extensions() {
        put(format!("extension {}", e.full_name()), ext_text(&e));
    }
    for v in pool.services() {
        put(
            format!("service {}", v.full_name()),
            format!(
                "{} {:?} opt {} {:?}",
                v.parent_file().name(),
                v.path(),
                opt_text(v.options()),
                v.methods()
                    .map(|m| (
                        m.full_name().to_string(),
                        m.input().full_name().to_string(),
                        m.output().full_name().to_string(),
                        m.is_client_streaming(),
                        m.is_server_streaming(),
                        m.path().to_vec(),
                        opt_text(m.options())
                    ))
                    .collect::<Vec<_>>()
            ),
        );
    }
    for p in probes {
        let what = format!(
            "{}{}{}{}{}",
            pool.get_message_by_name(p).map_or("-".into(), |m| format!("m:{}:{}", m.full_name(), m.parent_file().name())),
            pool.get_enum_by_name(p).map_or("-".into(), |m| format!("e:{}:{}", m.full_name(), m.parent_file().name())),
            pool.get_extension_by_name(p).map_or("-".into(), |m| format!("x:{}:{}", m.full_name(), m.parent_file().name())),
            pool.get_service_by_name(p).map_or("-".into(), |m| format!("s:{}:{}", m.full_name(), m.parent_file().name())),
            pool.get_file_by_name(p).map_or("-".into(), |m| format!("f:{}", m.name())),
        );
        put(format!("probe {p}"), what);
    }
    out
}

pub fn ext_text(e: &ExtensionDescriptor) -> String {
    format!(
        "{} {:?} {} extends {} #{} {} {} {:?} {} {} {} {} default {:?} opt {}",
        e.parent_file().name(),
        e.path(),
        e.parent_message().map(|p| p.full_name().to_string()).unwrap_or_default(),
        e.containing_message().full_name(),
        e.number(),
        e.json_name(),
        kind_text(&e.kind()),
        e.cardinality(),
        e.is_packed(),
        e.is_group(),
        e.supports_presence(),
        e.is_map(),
        val_from(&e.default_value()),
        opt_text(e.options())
    )
}

pub fn message_text(m: &MessageDescriptor) -> String {
    let mut fields: Vec<String> = m
        .fields()
        .map(|f| {
            format!(
                "{} #{} {} {} {:?} {} {} {} {} of {} default {:?} {:?} opt {}",
                f.full_name(),
                f.number(),
                f.json_name(),
                kind_text(&f.kind()),
                f.cardinality(),
                f.is_packed(),
                f.is_group(),
                f.supports_presence(),
                f.is_map(),
                f.containing_oneof().map(|o| o.name().to_string()).unwrap_or_default(),
                val_from(&f.default_value()),
                f.path(),
                opt_text(f.options())
            )
        })
        .collect();
    fields.sort();
    // every way to find an extension, also through the caches a lookup may leave behind
    let found = |x: Option<ExtensionDescriptor>| x.map(|x| x.full_name().to_string()).unwrap_or_else(|| "none".into());
    let mut exts: Vec<String> = m
        .extensions()
        .map(|e| {
            format!(
                "{}#{} by number {} by name {} by JSON name {}",
                e.full_name(),
                e.number(),
                found(m.get_extension(e.number())),
                found(m.get_extension_by_full_name(e.full_name())),
                found(m.get_extension_by_json_name(e.json_name()))
            )
        })
        .collect();
    exts.push(format!("absent {} {} {}", found(m.get_extension(0)), found(m.get_extension_by_full_name("no.such")), found(m.get_extension_by_json_name("[no.such]"))));
    exts.sort();
    format!(
        "{} {:?} {} map {} fields {:?} oneofs {:?} m {:?} e {:?} x {:?} exts {:?} res {:?} {:?} ranges {:?} opt {}",
        m.parent_file().name(),
        m.path(),
        m.parent_message().map(|p| p.full_name().to_string()).unwrap_or_default(),
        m.is_map_entry(),
        fields,
        m.oneofs()
            .map(|o| (
                o.full_name().to_string(),
                o.is_synthetic(),
                o.path().to_vec(),
                o.fields().map(|f| f.number()).collect::<BTreeSet<_>>(),
                opt_text(o.options())
            ))
            .collect::<Vec<_>>(),
        m.child_messages().map(|x| x.full_name().to_string()).collect::<Vec<_>>(),
        m.child_enums().map(|x| x.full_name().to_string()).collect::<Vec<_>>(),
        m.child_extensions().map(|x| x.full_name().to_string()).collect::<Vec<_>>(),
        exts,
        m.reserved_ranges().collect::<Vec<_>>(),
        m.reserved_names().collect::<Vec<_>>(),
        m.extension_ranges().collect::<Vec<_>>(),
        opt_text(m.options()),
    )
}

pub fn snap_diff(a: &Snap, b: &Snap) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("{k} is missing")),
            Some(w) if w != v => {
                let at = v.bytes().zip(w.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(40);
                let cut = |s: &str| s.chars().skip(at).take(260).collect::<String>();
                return Some(format!("{k}: …{} vs …{}", cut(v), cut(w)));
            }
            _ => {}
        }
    }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{k} is new"))
}
