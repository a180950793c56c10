//! C27: deeply nested input never exhausts the stack.
//!
//! Every case is a process of its own which reads one nested input on a thread with the default stack (2 MiB)
//! and uses what it read. The parent watches how the process ended.
use crate::gen::*;
use crate::props::*;
use crate::rng::Rng;
use crate::run::*;
use prost::Message;
use prost_reflect::text_format::FormatOptions;
use prost_reflect::{DescriptorPool, DeserializeOptions, DynamicMessage, ReflectMessage, SerializeOptions};
use prost_types::*;
use std::process::Command;

type R = Result<(), String>;
const STACK: usize = 2 << 20;

fn fld(name: &str, n: i32, label: i32, ty: i32, tn: &str) -> FieldDescriptorProto {
    FieldDescriptorProto { name: Some(name.into()), number: Some(n), label: Some(label), r#type: Some(ty), type_name: (!tn.is_empty()).then(|| tn.into()), ..Default::default() }
}

fn files() -> Vec<FileDescriptorProto> {
    let r = DescriptorProto {
        name: Some("R".into()),
        field: vec![
            fld("m", 1, 1, 11, ".deep.R"),
            fld("l", 2, 3, 11, ".deep.R"),
            fld("mm", 3, 3, 11, ".deep.R.MmEntry"),
            fld("g", 4, 1, 10, ".deep.R.G"),
            fld("s", 5, 1, 9, ""),
            fld("any", 6, 1, 11, ".google.protobuf.Any"),
            FieldDescriptorProto { oneof_index: Some(0), ..fld("o", 7, 1, 11, ".deep.R") },
            fld("st", 8, 1, 11, ".google.protobuf.Struct"),
            fld("lv", 9, 1, 11, ".google.protobuf.ListValue"),
            fld("v", 10, 1, 11, ".google.protobuf.Value"),
        ],
        nested_type: vec![
            DescriptorProto {
                name: Some("MmEntry".into()),
                field: vec![fld("key", 1, 1, 9, ""), fld("value", 2, 1, 11, ".deep.R")],
                options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }),
                ..Default::default()
            },
            DescriptorProto { name: Some("G".into()), field: vec![fld("g", 4, 1, 10, ".deep.R.G"), fld("m", 1, 1, 11, ".deep.R")], ..Default::default() },
        ],
        oneof_decl: vec![OneofDescriptorProto { name: Some("x".into()), ..Default::default() }],
        extension_range: vec![descriptor_proto::ExtensionRange { start: Some(100), end: Some(200), options: None }],
        ..Default::default()
    };
    let f = FileDescriptorProto {
        name: Some("deep.proto".into()),
        package: Some("deep".into()),
        dependency: vec!["google/protobuf/any.proto".into(), "google/protobuf/struct.proto".into(), "google/protobuf/descriptor.proto".into()],
        message_type: vec![r],
        extension: vec![
            FieldDescriptorProto { extendee: Some(".deep.R".into()), ..fld("ext", 100, 1, 11, ".deep.R") },
            FieldDescriptorProto { extendee: Some(".google.protobuf.FileOptions".into()), ..fld("opt", 50_000, 1, 11, ".deep.R") },
        ],
        ..Default::default()
    };
    vec![wkt_file("google/protobuf/any.proto"), wkt_file("google/protobuf/struct.proto"), wkt_file("google/protobuf/descriptor.proto"), f]
}

fn pool() -> DescriptorPool {
    DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: files() }).unwrap()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum L {
    Msg,
    Rep,
    Map,
    Group,
    One,
    Ext,
    Any,
    AnyLast,
    UnkGroup,
    UnkLen,
    List,
    Struct,
    Angle,
    Unknown,
}
use L::*;

/// How many levels of messages one of these is for the wire decoder.
fn weight(l: L) -> usize {
    match l {
        Map | List => 2,
        Struct => 3,
        Any | AnyLast | UnkLen => 0,
        _ => 1,
    }
}

/// How many levels the wire decoder sees: what is inside of bytes is not looked at.
fn wire_levels(all: &[L]) -> usize {
    let (mut n, mut unknown) = (0, false);
    for l in all {
        match l {
            UnkGroup | Unknown => {
                n += 1;
                unknown = true;
            }
            Group => n += 1,
            _ if unknown => break,
            UnkLen => break,
            Any | AnyLast => {
                n += 1;
                break;
            }
            l => n += weight(*l),
        }
    }
    n
}

fn varint(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    while n > 127 {
        v.push(n as u8 | 128);
        n >>= 7;
    }
    v.push(n as u8);
    v
}

/// The wire encoding, built from the inside.
fn wire(levels: &[L], r: &mut Rng) -> Vec<u8> {
    let mut pre: Vec<u8> = vec![];
    let mut post: Vec<u8> = vec![];
    let len = |pre: &mut Vec<u8>, post: &Vec<u8>, head: &[u8]| {
        let mut b = head.to_vec();
        b.extend(varint(pre.len() + post.len()));
        pre.extend(b.iter().rev());
    };
    for (i, l) in levels.iter().enumerate().rev() {
        let group_before = i > 0 && levels[i - 1] == Group;
        match l {
            Msg | Angle => len(&mut pre, &post, &[0x0a]),
            Rep => len(&mut pre, &post, &[0x12]),
            One => len(&mut pre, &post, &[0x3a]),
            Ext => len(&mut pre, &post, &[0xa2, 6]),
            Map => {
                len(&mut pre, &post, &[0x0a, 1, b'k', 0x12]);
                len(&mut pre, &post, &[0x1a]);
            }
            Any | AnyLast => {
                let mut h = vec![0x0a, 8];
                h.extend(b"t/deep.R");
                h.push(0x12);
                len(&mut pre, &post, &h);
                len(&mut pre, &post, &[0x32]);
            }
            Group => {
                pre.push(0x23);
                post.push(0x24);
            }
            UnkGroup | Unknown => {
                pre.extend([3, 0x93]);
                post.extend([0x94, 3]);
            }
            UnkLen => len(&mut pre, &post, &[0x9a, 3]),
            List => {
                len(&mut pre, &post, &[0x32]);
                len(&mut pre, &post, &[0x0a]);
            }
            Struct => {
                len(&mut pre, &post, &[0x2a]);
                len(&mut pre, &post, &[0x0a, 1, b'k', 0x12]);
                len(&mut pre, &post, &[0x0a]);
            }
        }
        if group_before && *l != Group && *l != Msg {
            // inside of a G only its own fields are known
            let _ = r.u32();
        }
    }
    pre.reverse();
    pre.extend(post);
    pre
}

fn json(levels: &[L]) -> String {
    let structs = levels.first().is_some_and(|l| matches!(l, List | Struct));
    let mut pre = String::new();
    let mut post: Vec<&str> = vec![];
    if !structs {
        pre.push('{');
        post.push("}");
    }
    for l in levels {
        let (a, b) = match l {
            Msg | Angle | Group | UnkGroup | UnkLen => ("\"m\":{", "}"),
            Rep => ("\"l\":[{", "}]"),
            Map => ("\"mm\":{\"k\":{", "}}"),
            One => ("\"o\":{", "}"),
            Ext => ("\"[deep.ext]\":{", "}"),
            Any => ("\"any\":{\"@type\":\"t/deep.R\",", "}"),
            AnyLast => ("\"any\":{", ",\"@type\":\"t/deep.R\"}"),
            Unknown => ("\"zzz\":{", "}"),
            List => ("[", "]"),
            Struct => ("{\"k\":", "}"),
        };
        pre.push_str(a);
        post.push(b);
    }
    pre.push_str(match levels.last() {
        Some(List | Struct) => "null",
        _ => "\"s\":\"x\"",
    });
    for p in post.iter().rev() {
        pre.push_str(p);
    }
    pre
}

fn text(levels: &[L]) -> String {
    let mut pre = String::new();
    let mut post: Vec<&str> = vec![];
    for l in levels {
        let (a, b) = match l {
            Msg | UnkGroup | UnkLen | Unknown => ("m{", "}"),
            Angle => ("m:<", ">"),
            Rep => ("l:[{", "}]"),
            Map => ("mm{key:\"k\" value{", "}}"),
            One => ("o{", "}"),
            Ext => ("[deep.ext]{", "}"),
            Group => ("G{m{", "}}"),
            Any => ("any{[t/deep.R]{", "}}"),
            AnyLast => ("any <[t/deep.R]:<", ">>"),
            List => ("values{list_value{", "}}"),
            Struct => ("fields{key:'k' value{struct_value{", "}}}"),
        };
        pre.push_str(a);
        post.push(b);
    }
    if !levels.last().is_some_and(|l| matches!(l, List | Struct)) {
        pre.push_str("s:'x'");
    }
    for p in post.iter().rev() {
        pre.push_str(p);
    }
    pre
}

/// (format, what is nested)
const KINDS: &[(&str, &[L])] = &[
    ("wire", &[Msg]),
    ("wire", &[Rep]),
    ("wire", &[Map]),
    ("wire", &[Group]),
    ("wire", &[One]),
    ("wire", &[Ext]),
    ("wire", &[UnkGroup]),
    ("wire", &[UnkLen]),
    ("wire", &[Any]),
    ("wire", &[List]),
    ("wire", &[Struct]),
    ("wire", &[Msg, UnkGroup]),
    ("wire", &[Msg, Any]),
    ("wire", &[Msg, Rep, Map, One, Ext]),
    ("wire", &[UnkLen, UnkGroup]),
    ("json", &[Msg]),
    ("json", &[Rep]),
    ("json", &[Map]),
    ("json", &[One]),
    ("json", &[Ext]),
    ("json", &[Any]),
    ("json", &[AnyLast]),
    ("json", &[List]),
    ("json", &[Struct]),
    ("json", &[List, Struct]),
    ("json", &[Unknown]),
    ("json", &[Msg, Any, Rep, AnyLast, Map]),
    ("text", &[Msg]),
    ("text", &[Angle]),
    ("text", &[Rep]),
    ("text", &[Map]),
    ("text", &[One]),
    ("text", &[Ext]),
    ("text", &[Group]),
    ("text", &[Any]),
    ("text", &[AnyLast]),
    ("text", &[List]),
    ("text", &[Struct]),
    ("text", &[Msg, Angle, Any, Rep, Map]),
    ("option", &[Msg]),
    ("option", &[Angle, Any]),
    ("optname", &[Msg]),
    ("optname", &[Rep, Msg]),
    ("junk", &[]),
    ("files", &[]),
    ("package", &[]),
    ("types", &[]),
];

const DEPTHS: &[usize] = &[1, 10, 33, 49, 50, 60, 90, 98, 99, 100, 101, 110, 127, 128, 129, 200, 400, 1_000, 3_000, 10_000, 100_000];

const JUNK: &[&str] = &["[", "{", "<", "m{", "m<", "m:", "l:[", "-", "\"a\" ", "'a'", "#\n", "\n", ",", ";", ":", "[deep.ext]", "[t/deep.R]{", "any{[t/deep.R]", "s:", "\\", "\"", "m{s:'x'", "}", "]", "s:-", ".", "a.", "[a.", "[a/", "mm{key", "1", "0x", "values", "\u{e9}", "/*", "//"];

/// What one nested input is read as, and whether it was read.
fn use_it(m: &DynamicMessage, levels: usize, any: bool) -> R {
    let b = m.encode_to_vec();
    if b.len() != m.encoded_len() {
        return Err("length".into());
    }
    if DynamicMessage::decode(m.descriptor(), &b[..]).is_err() && levels <= 100 {
        return Err("its own encoding was rejected".into());
    }
    let c = m.clone();
    if c != *m {
        return Err("a clone differs".into());
    }
    let d = format!("{m:?}").len();
    drop(c);
    let mut t = DynamicMessage::new(m.descriptor());
    let _ = t.transcode_from(m);
    let mut total = d;
    for o in 0..4 {
        let o = SerializeOptions::new().skip_default_fields(o & 1 == 0).use_proto_field_name(o & 2 == 0);
        let mut out = vec![];
        match m.serialize_with_options(&mut serde_json::Serializer::new(&mut out), &o) {
            Ok(()) => total += out.len(),
            Err(e) if any || levels > 100 => total += e.to_string().len(),
            Err(e) => return Err(format!("not written as JSON: {e}")),
        }
    }
    for o in 0..8 {
        let o = FormatOptions::new().pretty(o & 1 == 0).skip_unknown_fields(o & 2 == 0).expand_any(o & 4 == 0);
        let t = m.to_text_format_with_options(&o);
        total += t.len();
        let _ = DynamicMessage::parse_text_format(m.descriptor(), &t);
    }
    let t = m.to_text_format();
    if let Err(e) = DynamicMessage::parse_text_format(m.descriptor(), &t) {
        if !any && levels <= 100 {
            return Err(format!("its own text was rejected: {e}"));
        }
    }
    std::hint::black_box(total);
    Ok(())
}

fn of_kind(format: &str, levels: &[L], depth: usize, r: &mut Rng) -> Result<bool, String> {
    let p = pool();
    let root = match levels.first() {
        Some(List) => "google.protobuf.ListValue",
        Some(Struct) => "google.protobuf.Struct",
        _ => "deep.R",
    };
    let d = p.get_message_by_name(root).unwrap();
    let all: Vec<L> = (0..depth).map(|i| if r.pct(0) { Msg } else { levels.get(i % levels.len().max(1)).copied().unwrap_or(Msg) }).collect();
    nested(format, &p, d, &all, depth, r)
}

fn nested(format: &str, p: &DescriptorPool, d: prost_reflect::MessageDescriptor, all: &[L], depth: usize, r: &mut Rng) -> Result<bool, String> {
    let w: usize = all.iter().map(|l| weight(*l)).sum();
    let any = all.iter().any(|l| matches!(l, Any | AnyLast));
    match format {
        "wire" => {
            let w = wire_levels(all);
            let b = wire(all, r);
            // by all ways in
            let mut lb = varint(b.len());
            lb.extend(&b);
            let mut lm = DynamicMessage::new(d.clone());
            let ld = lm.merge_length_delimited(&lb[..]);
            let mut mg = DynamicMessage::new(d.clone());
            let mr = mg.merge(&b[..]);
            match DynamicMessage::decode(d, &b[..]) {
                Ok(m) => {
                    // a length-delimited message is one level
                    if mr.is_err() || mg != m || (w < 100 && (ld.is_err() || lm != m)) {
                        return Err("decode, merge and decode_length_delimited disagree".into());
                    }
                    // merging into itself goes as deep again
                    if mg.merge(&b[..]).is_err() {
                        return Err("merging once more was rejected".into());
                    }
                    use_it(&m, w, any)?;
                    Ok(true)
                }
                Err(e) if w <= 100 => Err(format!("{w} levels were rejected: {e}")),
                Err(e) => {
                    let _ = format!("{e} {e:?}");
                    if ld.is_ok() || mr.is_ok() {
                        return Err("decode, merge and decode_length_delimited disagree".into());
                    }
                    Ok(false)
                }
            }
        }
        "json" => {
            let t = json(all);
            let deny = !all.contains(&Unknown);
            let o = DeserializeOptions::new().deny_unknown_fields(deny);
            let a = DynamicMessage::deserialize_with_options(d.clone(), &mut serde_json::Deserializer::from_str(&t), &o);
            let b = DynamicMessage::deserialize_with_options(d.clone(), &mut serde_json::Deserializer::from_reader(t.as_bytes()), &o);
            if a.is_ok() != b.is_ok() {
                return Err("a string and a reader disagree".into());
            }
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) {
                let c = DynamicMessage::deserialize_with_options(d.clone(), v, &o);
                if c.is_ok() != a.is_ok() {
                    return Err("a string and a JSON value disagree".into());
                }
            }
            let seen: Vec<L> = all.iter().map(|l| if *l == Unknown { UnkLen } else { *l }).collect();
            let levels = wire_levels(&seen);
            // the limit of serde_json is 128 levels of objects and lists
            match a {
                Ok(m) => {
                    use_it(&m, levels, any)?;
                    Ok(true)
                }
                Err(e) if depth <= 60 && w <= 100 && !any => Err(format!("{depth} levels were rejected: {e}")),
                Err(_) => Ok(false),
            }
        }
        "text" => {
            let t = text(all);
            // a group is written with a message in it
            let w = w + all.iter().filter(|l| **l == Group).count();
            match DynamicMessage::parse_text_format(d, &t) {
                Ok(m) => {
                    use_it(&m, w, any)?;
                    Ok(true)
                }
                Err(e) => {
                    let s = format!("{e} {e:?}");
                    if depth <= 30 {
                        return Err(format!("{depth} levels were rejected: {s:.300}"));
                    }
                    Ok(false)
                }
            }
        }
        "option" | "optname" => {
            // the nesting is in the value of the option, or in its name
            let mut name = vec![uninterpreted_option::NamePart { name_part: "deep.opt".into(), is_extension: true }];
            let mut value = Some(text(all));
            let mut string = None;
            if format == "optname" {
                let part = |n: &str, is_extension| uninterpreted_option::NamePart { name_part: n.into(), is_extension };
                for l in all {
                    name.push(match l {
                        One => part("o", false),
                        Ext => part("deep.ext", true),
                        _ => part("m", false),
                    });
                }
                name.push(part("s", false));
                value = None;
                string = Some(b"x".to_vec());
            }
            let f = FileDescriptorProto {
                name: Some("user.proto".into()),
                dependency: vec!["deep.proto".into()],
                options: Some(FileOptions {
                    uninterpreted_option: vec![UninterpretedOption {
                        name,
                        aggregate_value: value,
                        string_value: string,
                        ..Default::default()
                    }],
                    ..Default::default()
                }),
                ..Default::default()
            };
            let mut q = p.clone();
            match q.add_file_descriptor_proto(f) {
                Ok(()) => {
                    let f = q.get_file_by_name("user.proto").unwrap();
                    let o = f.options();
                    use_it(&o, w + 1, true)?;
                    Ok(true)
                }
                Err(e) => {
                    let s = format!("{e} {e:?}");
                    if depth <= 30 {
                        return Err(format!("{depth} levels were rejected: {s:.300}"));
                    }
                    Ok(false)
                }
            }
        }
        "junk" => {
            let mut some = false;
            for j in JUNK {
                let t = j.repeat(depth);
                for (a, b) in [("", ""), ("s:", ""), ("m{", "}"), ("any{", "}"), ("l:[", "]")] {
                    let t = format!("{a}{t}{b}");
                    let got = DynamicMessage::parse_text_format(d.clone(), &t);
                    some |= got.is_ok();
                    if let Err(e) = got {
                        std::hint::black_box(format!("{e} {:.20}", format!("{e:?}")).len());
                    }
                    let _ = DynamicMessage::deserialize(d.clone(), &mut serde_json::Deserializer::from_str(&t));
                }
            }
            let _ = DynamicMessage::decode(d, &vec![0x0b; depth][..]);
            Ok(some)
        }
        // a chain of files each of which publicly imports the next
        "files" => {
            let n = depth.min(2_000);
            let files = (0..n)
                .map(|i| FileDescriptorProto {
                    name: Some(format!("f{i}")),
                    dependency: if i + 1 < n { vec![format!("f{}", i + 1)] } else { vec![] },
                    public_dependency: if i + 1 < n { vec![0] } else { vec![] },
                    message_type: vec![DescriptorProto { name: Some(format!("M{i}")), field: vec![fld("x", 1, 1, 11, &format!(".M{}", n - 1))], ..Default::default() }],
                    ..Default::default()
                })
                .collect();
            DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: files }).map(|_| true).map_err(|e| format!("{e:?}"))
        }
        "package" => {
            let n = depth.min(3_000);
            let f = FileDescriptorProto {
                name: Some("p".into()),
                package: Some(vec!["a"; n].join(".")),
                message_type: vec![DescriptorProto { name: Some("M".into()), field: vec![fld("x", 1, 1, 11, "M"), fld("y", 2, 1, 11, &format!(".{}.M", vec!["a"; n].join(".")))], ..Default::default() }],
                ..Default::default()
            };
            DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: vec![f] }).map(|_| true).map_err(|e| format!("{e:?}"))
        }
        // message types nested in message types
        "types" => {
            // the bytes in reverse
            let mut pre: Vec<u8> = vec![b'M', 1, 0x0a];
            for i in 0..depth {
                let mut b = vec![0x0a, 1, b'M'];
                b.push(if i + 1 == depth { 0x22 } else { 0x1a });
                b.extend(varint(pre.len()));
                pre.extend(b.iter().rev());
            }
            pre.reverse();
            let file = pre;
            let mut set = vec![0x0a];
            set.extend(varint(file.len()));
            set.extend(&file);
            let r = DescriptorPool::decode(&set[..]);
            if let Ok(p) = &r {
                let n = p.all_messages().map(|m| format!("{m:?}").len() + m.full_name().len()).sum::<usize>();
                std::hint::black_box(n + p.encode_to_vec().len());
            }
            if let Err(e) = &r {
                std::hint::black_box(format!("{e:?}").len());
            }
            Ok(r.is_ok())
        }
        _ => Err(format!("no kind {format}")),
    }
}

/// `prmon deep FORMAT KIND DEPTH SEED`: KIND is an index or `mix`.
pub fn child(a: &[String]) -> i32 {
    let (format, kind, depth, seed) = (a[0].clone(), a[1].clone(), a[2].parse::<usize>().unwrap(), a[3].parse::<u64>().unwrap());
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let mut r = Rng::new(seed);
        if kind == "mix" {
            let p = pool();
            let d = p.get_message_by_name("deep.R").unwrap();
            let set: Vec<L> = match &format[..] {
                "wire" => vec![Msg, Rep, Map, One, Ext, Any, UnkGroup, UnkLen],
                "json" => vec![Msg, Rep, Map, One, Ext, Any, AnyLast, Unknown],
                _ => vec![Msg, Rep, Map, One, Ext, Any, AnyLast, Angle, Group],
            };
            let set: Vec<L> = set.into_iter().filter(|_| r.pct(70)).chain([Msg]).collect();
            // runs of the same kind
            let mut all = vec![];
            while all.len() < depth {
                let l = *r.pick(&set);
                let n = 1 + r.below(*r.clone().pick(&[1, 2, 10, 100]));
                all.extend(vec![l; n]);
            }
            all.truncate(depth);
            return nested(&format, &p, d, &all, usize::MAX, &mut r);
        }
        of_kind(&format, KINDS[kind.parse::<usize>().unwrap()].1, depth, &mut r)
    });
    match h.unwrap().join() {
        Ok(Ok(x)) => {
            println!("{}", if x { "accepted" } else { "rejected" });
            0
        }
        Ok(Err(e)) => {
            println!("{e:.600}");
            1
        }
        Err(_) => {
            println!("panicked");
            1
        }
    }
}

fn one(ctx: &mut Ctx, format: &str, kind: &str, depth: usize, seed: u64, told: &str) -> R {
    let exe = std::env::current_exe().unwrap();
    let o = Command::new("timeout").arg("300").arg(exe).args(["deep", format, kind, &depth.to_string(), &seed.to_string()]).output().map_err(|e| format!("cannot start a process: {e}"))?;
    let out = String::from_utf8_lossy(&o.stdout).trim().to_string();
    ctx.count("processes", 1);
    match o.status.code() {
        Some(0) => {
            ctx.count(&format!("{format} {out}"), 1);
            if depth >= 1_000 {
                ctx.count("deeper than 1000 levels", 1);
            }
            ctx.feature(format!("{format} {told} {} {out}", if kind == "mix" { 0 } else { depth }).as_bytes());
            Ok(())
        }
        Some(124) => {
            ctx.count("timed out", 1);
            Ok(())
        }
        code => {
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            let err = err.trim().lines().last().unwrap_or("").to_string();
            Err(format!("{format} of {told}, {depth} deep: the process ended with {code:?} ({:?}): {out} {err}\nprmon deep {format} {kind} {depth} {seed}", o.status))
        }
    }
}

fn c27(ctx: &mut Ctx, i: u64) -> R {
    let n = (KINDS.len() * DEPTHS.len()) as u64;
    if i < n {
        let (k, d) = (i as usize % KINDS.len(), DEPTHS[i as usize / KINDS.len()]);
        let (f, l) = KINDS[k];
        return one(ctx, f, &k.to_string(), d, 0, &format!("{l:?}"));
    }
    let f = *ctx.r.pick(&["wire", "json", "text", "wire", "text", "option", "optname"]);
    let d = *ctx.r.pick(&[5, 30, 70, 100, 130, 300, 2_000, 20_000]);
    let d = d + ctx.r.below(d);
    let s = ctx.r.u64();
    one(ctx, f, "mix", d, s, &format!("mix {s}"))
}

pub static PROPS: &[Prop] = &[Prop {
    id: "C27",
    quick: 6_000,
    thorough: 200_000,
    rule: "first every kind of nesting (wire, JSON, text, option values, junk, files, types) at every depth of a fixed list up to 100000, then random mixtures; each in a process of its own on a 2 MiB stack; distinct by (kind, depth, outcome)",
    case: c27,
    directed: None,
    extra: None,
    need: &["wire accepted", "wire rejected", "json accepted", "json rejected", "text accepted", "text rejected", "option accepted", "option rejected", "optname accepted", "optname rejected", "deeper than 1000 levels"],
    level: "exploration",
}];
