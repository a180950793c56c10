//! C30: agreement with the protobuf C++ implementation, which runs behind a pipe (refimpl/server.cc).
use super::json::{lib_opts, ser};
use super::text::lib_topts;
use super::wirep::{feat, pick_type};
use super::*;
use crate::dynconv::*;
use crate::gen::*;
use crate::json::{all_opts, norm};
use crate::rmsg::*;
use crate::run::*;
use crate::schema::*;
use crate::text::{all_topts, TSpell};
use crate::wire;
use prost::Message;
use prost_reflect::*;
use prost_types::field_descriptor_proto::Type;
use prost_types::{DescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet};
use serde::de::DeserializeSeed;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};

type R = Result<(), String>;

thread_local! {
    static SERVER: RefCell<Option<Child>> = const { RefCell::new(None) };
}

/// One request; Err if the server cannot be run or died over it.
fn ask(op: u8, flags: u32, args: &[&[u8]]) -> Result<(u8, Vec<u8>), String> {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let path = root().join("harness/target/refpb");
            *s = Some(Command::new(&path).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("HARNESS: {}: {e}", path.display()))?);
        }
        let mut req = vec![op];
        req.extend(flags.to_le_bytes());
        req.extend((args.len() as u32).to_le_bytes());
        for a in args {
            req.extend((a.len() as u32).to_le_bytes());
            req.extend_from_slice(a);
        }
        let c = s.as_mut().unwrap();
        let r = (|| -> std::io::Result<(u8, Vec<u8>)> {
            let i = c.stdin.as_mut().unwrap();
            i.write_all(&req)?;
            i.flush()?;
            let o = c.stdout.as_mut().unwrap();
            let mut h = [0u8; 5];
            o.read_exact(&mut h)?;
            let mut b = vec![0; u32::from_le_bytes([h[1], h[2], h[3], h[4]]) as usize];
            o.read_exact(&mut b)?;
            Ok((h[0], b))
        })();
        r.map_err(|e| {
            if let Some(mut c) = s.take() {
                let _ = c.kill();
                let _ = c.wait();
            }
            format!("HARNESS: the reference implementation died: {e}")
        })
    })
}

/// Ok(Err(message)) if the reference rejects the set.
fn set_pool(set: &[u8]) -> Result<Result<(), String>, String> {
    let (st, out) = ask(b'S', 0, &[set])?;
    Ok(if st == 0 { Ok(()) } else { Err(String::from_utf8_lossy(&out).into_owned()) })
}

const BIN: u32 = 0;
const JSON: u32 = 1;
const TEXT: u32 = 2;

fn convert(from: u32, to: u32, opts: u32, ty: &str, data: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
    let (st, out) = ask(b'C', from | to << 2 | opts << 4, &[ty.as_bytes(), data])?;
    match st {
        0 => Ok(Ok(out)),
        1 => Ok(Err(String::from_utf8_lossy(&out).into_owned())),
        _ => Err(format!("HARNESS: {}", String::from_utf8_lossy(&out))),
    }
}

// ------------------------------------------------------------------ attributes

fn kind_num(f: &Kind, group: bool) -> i32 {
    match f {
        Kind::Double => 1,
        Kind::Float => 2,
        Kind::Int64 => 3,
        Kind::Uint64 => 4,
        Kind::Int32 => 5,
        Kind::Fixed64 => 6,
        Kind::Fixed32 => 7,
        Kind::Bool => 8,
        Kind::String => 9,
        Kind::Message(_) if group => 10,
        Kind::Message(_) => 11,
        Kind::Bytes => 12,
        Kind::Uint32 => 13,
        Kind::Enum(_) => 14,
        Kind::Sfixed32 => 15,
        Kind::Sfixed64 => 16,
        Kind::Sint32 => 17,
        Kind::Sint64 => 18,
    }
}

fn card(c: Cardinality) -> i32 {
    match c {
        Cardinality::Optional => 1,
        Cardinality::Required => 2,
        Cardinality::Repeated => 3,
    }
}

fn dash(s: Option<String>) -> String {
    s.unwrap_or_else(|| "-".into())
}

fn default_text(list: bool, k: &Kind, v: &Value) -> String {
    if list || matches!(k, Kind::Message(_)) {
        return "-".into();
    }
    match v {
        Value::Bool(b) => (*b as u8).to_string(),
        Value::I32(x) => x.to_string(),
        Value::I64(x) => x.to_string(),
        Value::U32(x) => x.to_string(),
        Value::U64(x) => x.to_string(),
        Value::F32(x) if x.is_nan() => "nan".into(),
        Value::F64(x) if x.is_nan() => "nan".into(),
        Value::F32(x) => format!("{:08x}", x.to_bits()),
        Value::F64(x) => format!("{:016x}", x.to_bits()),
        Value::String(s) => format!("x{}", hexall(s.as_bytes())),
        Value::Bytes(s) => format!("x{}", hexall(s)),
        Value::EnumNumber(n) => n.to_string(),
        v => format!("{v:?}"),
    }
}

fn type_name(k: &Kind) -> String {
    match k {
        Kind::Message(m) => m.full_name().into(),
        Kind::Enum(m) => m.full_name().into(),
        _ => "-".into(),
    }
}

/// The same lines the server writes, read from a pool of the library.
fn attributes(pool: &DescriptorPool) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for f in pool.files() {
        let mut l = format!("P\t{}\t{}\t{}", f.name(), f.package_name(), (f.syntax() == Syntax::Proto3) as u8);
        for d in f.dependencies() {
            l += &format!("\t{}", d.name());
        }
        l += "\t|";
        for d in f.public_dependencies() {
            l += &format!("\t{}", d.name());
        }
        out.insert(l);
    }
    for m in pool.all_messages() {
        out.insert(format!("M\t{}\t{}\t{}\t{}", m.full_name(), m.name(), dash(m.parent_message().map(|p| p.full_name().into())), m.is_map_entry() as u8));
        for f in m.fields() {
            let k = f.kind();
            out.insert(format!(
                "F\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t-\t{}\t{}",
                f.full_name(),
                f.number(),
                f.json_name(),
                kind_num(&k, f.is_group()),
                card(f.cardinality()),
                f.is_packed() as u8,
                f.supports_presence() as u8,
                f.is_map() as u8,
                dash(f.containing_oneof().map(|o| o.full_name().into())),
                f.containing_oneof().is_some_and(|o| !o.is_synthetic()) as u8,
                f.parent_message().full_name(),
                type_name(&k),
                default_text(f.cardinality() == Cardinality::Repeated, &k, &f.default_value())
            ));
        }
        for o in m.oneofs() {
            let mut l = format!("O\t{}\t{}", o.full_name(), o.is_synthetic() as u8);
            for f in o.fields() {
                l += &format!("\t{}", f.number());
            }
            out.insert(l);
        }
        for x in m.extension_ranges() {
            out.insert(format!("R\t{}\t{}\t{}", m.full_name(), x.start, x.end));
        }
        for x in m.reserved_ranges() {
            out.insert(format!("r\t{}\t{}\t{}", m.full_name(), x.start as i32, x.end as i32));
        }
        for x in m.extensions() {
            out.insert(format!("L\t{}\t{}\t{}", m.full_name(), x.number(), x.full_name()));
        }
    }
    for x in pool.all_extensions() {
        let k = x.kind();
        out.insert(format!(
            "X\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t-\t0\t{}\t{}\t{}\t{}",
            x.full_name(),
            x.number(),
            x.json_name(),
            kind_num(&k, x.is_group()),
            card(x.cardinality()),
            x.is_packed() as u8,
            x.supports_presence() as u8,
            x.is_map() as u8,
            x.containing_message().full_name(),
            dash(x.parent_message().map(|p| p.full_name().into())),
            type_name(&k),
            default_text(x.cardinality() == Cardinality::Repeated, &k, &x.default_value())
        ));
    }
    for e in pool.all_enums() {
        out.insert(format!("E\t{}\t{}\t{}", e.full_name(), dash(e.parent_message().map(|p| p.full_name().into())), e.name()));
        for v in e.values() {
            out.insert(format!("V\t{}\t{}\t{}", v.full_name(), v.number(), e.full_name()));
        }
        for x in e.reserved_ranges() {
            out.insert(format!("r\t{}\t{}\t{}", e.full_name(), x.start(), x.end()));
        }
    }
    for s in pool.services() {
        out.insert(format!("S\t{}", s.full_name()));
        for m in s.methods() {
            out.insert(format!(
                "D\t{}\t{}\t{}\t{}\t{}",
                m.full_name(),
                m.input().full_name(),
                m.output().full_name(),
                m.is_client_streaming() as u8,
                m.is_server_streaming() as u8
            ));
        }
    }
    out
}

fn set_diff(cpp: &BTreeSet<String>, lib: &BTreeSet<String>) -> Option<String> {
    let a: Vec<_> = cpp.difference(lib).take(3).collect();
    let b: Vec<_> = lib.difference(cpp).take(3).collect();
    (!a.is_empty() || !b.is_empty()).then(|| format!("only the reference: {a:?}; only the library: {b:?}"))
}

/// Compare everything both say about the definitions in the server's pool.
fn compare_attributes(pool: &DescriptorPool) -> Result<Result<usize, String>, String> {
    let (st, out) = ask(b'A', 0, &[])?;
    if st != 0 {
        return Err("HARNESS: no attributes".into());
    }
    let cpp: BTreeSet<String> = String::from_utf8_lossy(&out).lines().map(|l| l.to_string()).collect();
    let lib = attributes(pool);
    Ok(match set_diff(&cpp, &lib) {
        Some(d) => Err(d),
        None => Ok(cpp.len()),
    })
}

// ------------------------------------------------------------------ messages

fn gen(ctx: &mut Ctx, s: &RSchema, unknown: bool, json: bool) -> RMsg {
    let ty = pick_type(ctx, s);
    let budget = 8 + ctx.r.below(80);
    let m = gen_msg(
        &mut ctx.r,
        s,
        &ty,
        ValCfg { unknown, max_depth: 4, budget, unknown_enum: open(s), any_empty: false, one_prefix: true, exts: !json, plain_masks: true, any_skip: if json { &[".Empty", ".FieldMask", ".ListValue"] } else { &[] }, wkt_valid: true, ..Default::default() },
    );
    m
}

/// This version of the reference treats every enum as closed in the messages of a proto2 file.
fn open(s: &RSchema) -> bool {
    s.files.iter().all(|f| f.syntax() == "proto3")
}

const MSG: Cmp = Cmp { nan_loose: true, no_unknown: true, zero_loose: false };

fn dec(s: &RSchema, ty: &str, b: &[u8]) -> Result<RMsg, String> {
    wire::decode(s, ty, b).map_err(|e| format!("the reference's encoding cannot be read: {e:?}"))
}

fn same(s: &RSchema, a: &RMsg, b: &RMsg, c: Cmp) -> Option<String> {
    let (mut a, mut b) = (a.clone(), b.clone());
    norm(s, &mut a);
    norm(s, &mut b);
    diff(&a, &b, c)
}

fn binary(ctx: &mut Ctx, s: &RSchema, pool: &DescriptorPool) -> R {
    let m = gen(ctx, s, true, false);
    let d = desc(pool, &m.ty);
    let fail = |w: &str, e: String, b: &[u8]| Err(format!("{w}: {e}\n bytes {}\n message {m:?}\n{}", hexall(b), show_files(&s.files)));
    // what the library writes, read by the reference
    let b = to_dyn(s, pool, &m).encode_to_vec();
    match convert(BIN, BIN, 0, &m.ty, &b)? {
        Err(e) => return fail("the reference rejects the library's encoding", e, &b),
        Ok(c) => {
            let g = dec(s, &m.ty, &c)?;
            if let Some(e) = same(s, &m, &g, Cmp { nan_loose: true, ..EXACT }) {
                return fail("the library's encoding as the reference reads it", e, &b);
            }
            // and back
            match DynamicMessage::decode(d.clone(), &c[..]) {
                Err(e) => return fail("the library rejects the reference's encoding", e.to_string(), &c),
                Ok(x) => {
                    let g = from_dyn(&x)?;
                    if let Some(e) = same(s, &m, &g, Cmp { nan_loose: true, ..EXACT }) {
                        return fail("the reference's encoding as the library reads it", e, &c);
                    }
                }
            }
        }
    }
    ctx.count("binary messages exchanged", 1);
    // any other encoding: both read the same
    let recs = {
        let mut n = wire::Noise::new(&mut ctx.r, s);
        n.unknown_enum = open(s);
        n.records(&m)
    };
    let mut b: Vec<u8> = recs.concat();
    if ctx.r.pct(25) {
        // two encodings in a row are merged
        let m2 = gen_msg(&mut ctx.r, s, &m.ty, ValCfg { unknown_enum: open(s), any_empty: false, one_prefix: true, unknown: true, ..Default::default() });
        b.extend(wire::encode(s, &m2));
    }
    let broken = ctx.r.pct(20) && !b.is_empty();
    if broken {
        let k = ctx.r.below(b.len());
        match ctx.r.below(3) {
            0 => b.truncate(k),
            1 => b[k] ^= 1 << ctx.r.below(8),
            _ => b[k] = ctx.r.u32() as u8,
        }
    }
    let c = convert(BIN, BIN, 0, &m.ty, &b)?;
    let l = DynamicMessage::decode(d, &b[..]);
    match (c, l) {
        (Ok(c), Ok(l)) => {
            let mut g = dec(s, &m.ty, &c)?;
            let mut l = from_dyn(&l)?;
            if broken {
                // unknown enum values and mismatched wire types are kept in different places
                g.strip_unknown();
                l.strip_unknown();
                if has_closed(s, &l) || has_closed(s, &g) {
                    ctx.count("no verdict: values of closed enums", 1);
                    return Ok(());
                }
            }
            if let Some(e) = same(s, &g, &l, Cmp { nan_loose: true, no_unknown: broken, zero_loose: false }) {
                return fail("reference vs library reading of the same bytes", e, &b);
            }
            ctx.count(if broken { "damaged encodings read alike" } else { "other encodings read alike" }, 1);
        }
        (Err(e), Ok(_)) if !broken => return fail("HARNESS: the reference rejects a valid encoding", e, &b),
        (Ok(_), Err(e)) if !broken => return fail("the library rejects a valid encoding", e.to_string(), &b),
        (Err(_), Err(_)) => ctx.count("damaged encodings rejected by both", 1),
        (Err(_), Ok(_)) => ctx.count("damaged encodings rejected by the reference only", 1),
        (Ok(_), Err(e)) => {
            let e = e.to_string();
            ctx.count("damaged encodings rejected by the library only", 1);
            if !e.contains("wire type") && !e.contains("varint") && !e.contains("UTF-8") && !e.contains("utf-8") && !e.contains("tag") && !e.contains("key") {
                return fail("the reference accepts what the library rejects", e, &b);
            }
        }
    }
    Ok(())
}

/// A value of a proto2 enum somewhere.
fn has_closed(s: &RSchema, m: &RMsg) -> bool {
    !open(s) && m.fields.keys().any(|n| s.field_of(&m.ty, *n).is_some_and(|f| matches!(f.kind, RKind::Enum(_)) || f.kind.msg().is_some()))
}

fn text(ctx: &mut Ctx, s: &RSchema, pool: &DescriptorPool) -> R {
    let m = gen(ctx, s, false, false);
    let d = desc(pool, &m.ty);
    let x = to_dyn(s, pool, &m);
    let fail = |w: &str, e: String, t: &str| Err(format!("{w}: {e}\n text {t:?}\n message {m:?}\n{}", show_files(&s.files)));
    let mut o = *ctx.r.pick(&all_topts());
    o.skip_unknown = true;
    let t = x.to_text_format_with_options(&lib_topts(o));
    let spelled = {
        let mut sp = TSpell::new(&mut ctx.r, s);
        let c = sp.chunks(&m);
        sp.join(&c)
    };
    for (w, t, own) in [("the library's text", &t, true), ("a spelled document", &spelled, false)] {
        match convert(TEXT, BIN, 0, &m.ty, t.as_bytes())? {
            Err(e) if own => return fail(w, format!("rejected by the reference: {e}"), t),
            Err(_) => ctx.count("spellings the reference does not take", 1),
            Ok(c) => {
                let g = dec(s, &m.ty, &c)?;
                let mut want = m.clone();
                if o.skip_default || !own {
                    want = g.clone();
                    if own {
                        let l = from_dyn(&x)?;
                        want = l;
                    }
                }
                if own {
                    if let Some(e) = same(s, &want, &g, MSG) {
                        return fail(w, format!("as the reference reads it: {e}"), t);
                    }
                } else {
                    match DynamicMessage::parse_text_format(d.clone(), t) {
                        Err(e) => return fail(w, format!("the reference accepts it, the library does not: {e}"), t),
                        Ok(l) => {
                            if let Some(e) = same(s, &g, &from_dyn(&l)?, MSG) {
                                return fail(w, format!("reference vs library: {e}"), t);
                            }
                        }
                    }
                }
                ctx.count(if own { "text read by the reference" } else { "spelled documents read alike" }, 1);
            }
        }
    }
    let b = wire::encode(s, &m);
    for _ in 0..2 {
        let opts = ctx.r.below(32) as u32;
        match convert(BIN, TEXT, opts, &m.ty, &b)? {
            Err(e) => return Err(format!("HARNESS: the reference prints nothing: {e}")),
            Ok(t) => {
                let t = String::from_utf8(t).map_err(|_| "HARNESS: text is not UTF-8".to_string())?;
                match DynamicMessage::parse_text_format(d.clone(), &t) {
                    Err(e) => return fail("the reference's text", format!("rejected by the library: {e}"), &t),
                    Ok(l) => {
                        if let Some(e) = same(s, &m, &from_dyn(&l)?, MSG) {
                            return fail("the reference's text", format!("as the library reads it: {e}"), &t);
                        }
                    }
                }
                ctx.count("text of the reference read by the library", 1);
            }
        }
    }
    ctx.feature(&feat(s, &m));
    Ok(())
}

fn json(ctx: &mut Ctx, s: &RSchema, pool: &DescriptorPool) -> R {
    let m = gen(ctx, s, false, true);
    let nulls = s.msgs.values().any(|m| m.fields.values().any(|f| matches!(&f.kind, RKind::Enum(e) if e == "google.protobuf.NullValue")));
    let d = desc(pool, &m.ty);
    let x = to_dyn(s, pool, &m);
    let fail = |w: &str, e: String, t: &str| Err(format!("{w}: {e}\n JSON {t}\n message {m:?}\n{}", show_files(&s.files)));
    for _ in 0..2 {
        let o = *ctx.r.pick(&all_opts());
        let t = ser(&x, o)?;
        let _ = lib_opts(o);
        match convert(JSON, BIN, 0, &m.ty, t.as_bytes())? {
            // this version of the reference wants required fields in JSON
            Err(e) if e.contains("missing field") => ctx.count("no verdict: required fields", 1),
            Err(e) => return fail("the library's JSON is rejected by the reference", e, &t),
            Ok(c) => {
                let g = dec(s, &m.ty, &c)?;
                if o.skip_default {
                    if let Some(e) = same(s, &m, &g, MSG) {
                        return fail("the library's JSON as the reference reads it", e, &t);
                    }
                }
                ctx.count("JSON read by the reference", 1);
            }
        }
    }
    let b = wire::encode(s, &m);
    for _ in 0..2 {
        // (NullValue as a number is a form of the reference's own)
        let opts = ctx.r.below(16) as u32 & if nulls { !4 } else { !0 };
        match convert(BIN, JSON, opts, &m.ty, &b)? {
            Err(e) => return fail("HARNESS: the reference writes no JSON", e, ""),
            Ok(t) => {
                let t = String::from_utf8(t).map_err(|_| "HARNESS: JSON is not UTF-8".to_string())?;
                let mut de = serde_json::Deserializer::from_str(&t);
                match d.clone().deserialize(&mut de).and_then(|l| de.end().map(|_| l)) {
                    // a wrapper of the zero value inside an Any: the reference leaves "value" out
                    Err(e) if e.to_string().contains("expected 'value' field") => ctx.count("no verdict: Any of a zero wrapper", 1),
                    Err(e) => return fail("the reference's JSON is rejected by the library", e.to_string(), &t),
                    Ok(l) => {
                        let l = from_dyn(&l)?;
                        if opts & 2 == 0 {
                            if let Some(e) = same(s, &m, &l, MSG) {
                                return fail("the reference's JSON as the library reads it", e, &t);
                            }
                        }
                    }
                }
                ctx.count("JSON of the reference read by the library", 1);
            }
        }
    }
    ctx.feature(&feat(s, &m));
    Ok(())
}

fn files_bytes(f: &[FileDescriptorProto]) -> Vec<u8> {
    FileDescriptorSet { file: f.to_vec() }.encode_to_vec()
}

/// Options written by name: interpreted alike.
fn options(ctx: &mut Ctx) -> R {
    options::good(ctx, true, &mut |ctx, w, set, pool| {
        if let Err(e) = set_pool(set)? {
            ctx.count("option sets the reference rejects", 1);
            ctx.sample(|| format!("reference rejects: {e}"));
            return Ok(());
        }
        let (_, out) = ask(b'O', 0, &[])?;
        let mut cpp: BTreeMap<(String, String), RMsg> = BTreeMap::new();
        for l in String::from_utf8_lossy(&out).lines() {
            let p: Vec<&str> = l.split('\t').collect();
            let b: Vec<u8> = (0..p[2].len() / 2).map(|i| u8::from_str_radix(&p[2][2 * i..2 * i + 2], 16).unwrap()).collect();
            let ty = match p[0] {
                "file" => "FileOptions",
                "message" => "MessageOptions",
                "field" | "extension" => "FieldOptions",
                "oneof" => "OneofOptions",
                "enum" => "EnumOptions",
                "value" => "EnumValueOptions",
                "service" => "ServiceOptions",
                _ => "MethodOptions",
            };
            let name = match p[0] {
                // the library and descriptor sets have the value beside its enum
                "value" => {
                    let v: Vec<&str> = p[1].split('.').collect();
                    [&v[..v.len() - 2], &v[v.len() - 1..]].concat().join(".")
                }
                _ => p[1].to_string(),
            };
            let m = dec(&w.s, &format!("google.protobuf.{ty}"), &b)?;
            cpp.insert((ty.to_string(), name), m);
        }
        let names: BTreeMap<(String, Vec<i32>), String> =
            crate::faults::named(&w.files).into_iter().map(|(e, _)| ((w.files[e.file].name().to_string(), e.path), e.full)).collect();
        let mut n = 0;
        for (file, path, o) in options::all_options(pool) {
            let m = from_dyn(&o)?;
            let ty = m.ty.rsplit('.').next().unwrap().to_string();
            let name = if path.is_empty() {
                file.clone()
            } else {
                match names.get(&(file.clone(), path.clone())) {
                    Some(n) => n.clone(),
                    None => continue,
                }
            };
            let Some(g) = cpp.get(&(ty.clone(), name.clone())) else {
                return Err(format!("HARNESS: the reference has no {ty} for {name}"));
            };
            if let Some(e) = same(&w.s, g, &m, Cmp { nan_loose: true, ..EXACT }) {
                return Err(format!("options of {name} ({ty}), reference vs library: {e}"));
            }
            n += 1;
        }
        ctx.count("options interpreted alike", n);
        Ok(())
    })
}

/// References by name: resolved alike.
fn references(ctx: &mut Ctx) -> R {
    names::probe(ctx, &mut |ctx, files, pool, sure| {
        match (set_pool(&files_bytes(files))?, pool) {
            (Err(_), None) => ctx.count("references rejected by both", 1),
            (Ok(()), Some(p)) => match compare_attributes(p)? {
                Err(e) => return Err(format!("reference vs library: {e}")),
                Ok(n) => {
                    ctx.count("references resolved alike", 1);
                    ctx.count("attributes compared", n as u64);
                }
            },
            (a, b) if sure => return Err(format!("the reference: {a:?}, the library accepts: {}", b.is_some())),
            _ => ctx.count("no verdict: references with an unusable inner match", 1),
        }
        Ok(())
    })
}

/// Whether the library is right to reject what this version of the reference lets through.
fn lenient(e: &str, files: &[FileDescriptorProto]) -> bool {
    // extension numbers used twice are only logged ("before turning this into an error we need to fix all existing broken protos")
    if e.starts_with("field number '") && e.ends_with("' is already used") {
        return true;
    }
    // the same file twice in one set
    if e.contains("has already been added") {
        let mut seen = BTreeSet::new();
        return files.iter().any(|f| !seen.insert(f.name()));
    }
    // fields without a type
    if e.contains("default value") && any_field(files, &|f| f.r#type.map_or(true, |t| Type::try_from(t).is_err())) {
        return true;
    }
    // weak imports need not be there
    if e.starts_with("imported file '") && files.iter().any(|f| !f.weak_dependency.is_empty()) {
        return true;
    }
    if e == "unknown syntax ''" {
        return true;
    }
    // strtol and strtoul: a sign on unsigned numbers, numbers out of range
    if let Some(e) = e.strip_prefix("invalid default value '") {
        let Some((v, t)) = e.rsplit_once("' for type '") else { return false };
        let n: Option<i128> = v.parse().ok();
        let within = |lo: i128, hi: i128| match n {
            Some(n) => n < lo || n > hi || v.starts_with("-0"),
            None => true,
        };
        return match t.trim_end_matches('\'') {
            "int32" | "sint32" | "sfixed32" => within(i32::MIN.into(), i32::MAX.into()),
            "int64" | "sint64" | "sfixed64" => within(i64::MIN.into(), i64::MAX.into()),
            "uint32" | "fixed32" => within(0, u32::MAX.into()),
            "uint64" | "fixed64" => within(0, u64::MAX.into()),
            // strtod: hexadecimal
            "float" | "double" => v.contains(['x', 'X']),
            // malformed escapes are only logged (C19 says which ones are accepted)
            "bytes" => v.contains('\\'),
            _ => false,
        };
    }
    false
}

fn map_groups(files: &[FileDescriptorProto]) -> bool {
    any_field(files, &|f| f.r#type == Some(Type::Group as i32) && f.type_name().ends_with("Entry"))
}

fn any_field(files: &[FileDescriptorProto], is: &dyn Fn(&FieldDescriptorProto) -> bool) -> bool {
    fn any(m: &DescriptorProto, is: &dyn Fn(&FieldDescriptorProto) -> bool) -> bool {
        m.field.iter().chain(&m.extension).any(is) || m.nested_type.iter().any(|m| any(m, is))
    }
    files.iter().any(|f| f.extension.iter().any(is) || f.message_type.iter().any(|m| any(m, is)))
}

/// Changed definitions: what the reference accepts, the library accepts, and they say the same about it.
fn changed(ctx: &mut Ctx) -> R {
    let c = GenCfg {
        cpp: true,
        wkt: ctx.r.pct(20),
        services: ctx.r.pct(40),
        max_files: 1 + ctx.r.below(3),
        max_msgs: 1 + ctx.r.below(3),
        max_fields: 1 + ctx.r.below(6),
        ..Default::default()
    };
    let files = gen_files(&mut ctx.r, c);
    for _ in 0..12 {
        let mut fs = files.clone();
        let mut told = vec![];
        if ctx.r.bool() {
            let kind = *ctx.r.pick(crate::faults::KINDS);
            if crate::faults::inject(&mut ctx.r, &mut fs, kind, &|i| files.get(i).map_or(true, |f| !f.name().starts_with("google/"))).is_some() {
                told.push(format!("fault {kind}"));
            }
        }
        let mut b = files_bytes(&fs);
        if told.is_empty() || ctx.r.pct(20) {
            b = hostile::mutated(&mut ctx.r, &b, 1, &mut told);
        }
        let Ok(set) = FileDescriptorSet::decode(&b[..]) else { continue };
        let tell = |e: String| format!("{e}\nchanges: {}\n{}\nset hex={}", told.join(", "), show_files(&set.file), hexall(&b));
        let cpp = set_pool(&b)?;
        let mut lib = DescriptorPool::new();
        let got = lib.decode_file_descriptor_set(&b[..]);
        match (cpp, got) {
            (Ok(()), Ok(())) => {
                if told.iter().any(|t| ["map_entry", "MessageOptions", "DescriptorProto.options", "FieldDescriptorProto.type"].iter().any(|x| t.contains(x))) || map_groups(&set.file) {
                    // a field without a type and a type name may be anything (test option_resolution24);
                    // the flag alone does not make a map entry for the library, nor the type message a map for the reference
                    continue;
                }
                if let Err(e) = compare_attributes(&lib)? {
                    return Err(tell(format!("changed definitions: {e}")));
                }
                ctx.count("changed definitions accepted by both", 1);
            }
            // the reference only warns in proto2
            (Ok(()), Err(e)) if e.to_string().contains("JSON name") => ctx.count("JSON names used twice", 1),
            (Ok(()), Err(e)) if lenient(&e.to_string(), &set.file) => ctx.count("no verdict: the reference is lenient", 1),
            (Ok(()), Err(e)) => return Err(tell(format!("definitions the reference accepts were rejected: {e}"))),
            (Err(_), Err(_)) => ctx.count("changed definitions rejected by both", 1),
            (Err(e), Ok(())) => {
                ctx.count("changed definitions the reference rejects", 1);
                if let Some(k) = told.first().filter(|k| told.len() == 1 && k.starts_with("fault")) {
                    return Err(tell(format!("LIB accepts {k}: {e}")));
                }
            }
        }
    }
    Ok(())
}

fn bad_options(ctx: &mut Ctx) -> R {
    options::bad(ctx, true, &mut |ctx, what, set| {
        match set_pool(set)? {
            Err(_) => ctx.count("meaningless options rejected by both", 1),
            Ok(()) => {
                if what.starts_with("value out of range") && what.contains("string_value: Some") {
                    // the reference takes any bytes for a string here
                    ctx.count("strings that are not UTF-8", 1);
                    return Ok(());
                }
                if what.starts_with("extension and field confused") {
                    // in parentheses, the reference also finds fields by their scope
                    ctx.count("no verdict: the reference is lenient", 1);
                    return Ok(());
                }
                return Err(format!("meaningless options the library rejects and the reference accepts: {what} \nhex={}", hexall(set)));
            }
        }
        Ok(())
    })
}

fn c30(ctx: &mut Ctx, _: u64) -> R {
    let mode = ctx.r.below(15);
    match mode {
        10 => return options(ctx),
        11 => return bad_options(ctx),
        12 => return references(ctx),
        13 | 14 => return changed(ctx),
        _ => {}
    }
    let c = GenCfg {
        cpp: true,
        wkt: ctx.r.pct(60),
        services: mode < 2,
        exts: !(mode >= 6),
        groups: !(mode >= 6),
        max_files: 1 + ctx.r.below(3),
        max_msgs: 1 + ctx.r.below(4),
        max_fields: 3 + ctx.r.below(8),
        ..Default::default()
    };
    let s = gen_schema(&mut ctx.r, c);
    let pool = mkpool(&s);
    let set = if ctx.r.bool() { files_bytes(&s.files) } else { pool.encode_to_vec() };
    if let Err(e) = set_pool(&set)? {
        return Err(format!("HARNESS: the reference rejects the definitions: {e}\n{}", show_files(&s.files)));
    }
    match compare_attributes(&pool)? {
        Err(e) => return Err(format!("definitions: {e}\n{}", show_files(&s.files))),
        Ok(n) => ctx.count("attributes compared", n as u64),
    }
    for _ in 0..6 {
        match mode {
            0..=2 => binary(ctx, &s, &pool)?,
            3..=5 => text(ctx, &s, &pool)?,
            _ => json(ctx, &s, &pool)?,
        }
    }
    Ok(())
}

pub static PROPS: &[Prop] = &[Prop {
    id: "C30",
    quick: 6_000,
    thorough: 200_000,
    rule: "case i: definitions and messages drawn from hash(seed, id, i), exchanged with the protobuf C++ implementation in the three formats and in both directions, with a comparison of everything both say about the definitions",
    case: c30,
    directed: None,
    extra: None,
    need: &[
        "attributes compared", "binary messages exchanged", "other encodings read alike", "text read by the reference", "spelled documents read alike",
        "text of the reference read by the library", "JSON read by the reference", "JSON of the reference read by the library",
        "references resolved alike", "references rejected by both", "changed definitions accepted by both", "changed definitions rejected by both",
        "meaningless options rejected by both", "options interpreted alike",
    ],
    level: "differential monitoring against the reference implementation",
}];
