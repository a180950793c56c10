//! C24: an extension behaves like an ordinary field of the same type and number.
//!
//! Schema A has extensions; schema B has the same messages with an ordinary field in the place of each
//! extension; schema C has the messages without them. The same reference value (fields by number) is used in all.
use super::json::{lib_opts, ser};
use super::text::lib_topts;
use crate::dynconv::*;
use crate::gen::*;
use crate::json::{self, J};
use crate::props::*;
use crate::rmsg::*;
use crate::run::*;
use crate::schema::*;
use crate::text::all_topts;
use crate::wire;
use prost::Message;
use prost_reflect::{DescriptorPool, DeserializeOptions, DynamicMessage, ExtensionDescriptor, FieldDescriptor, Kind, Value};
use prost_types::descriptor_proto::ExtensionRange;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::*;
use std::collections::{BTreeMap, BTreeSet};
use std::option::Option;

type R = Result<(), String>;

struct Twin {
    a: RSchema,
    b: RSchema,
    c: RSchema,
    /// names of the extensions: JSON key in A, JSON key in B, text name in A, text name in B
    json: Vec<(String, String)>,
    text: Vec<(String, String)>,
    hosts: Vec<String>,
}

fn plain(name: &str, number: i32, ty: Type, rep: bool) -> FieldDescriptorProto {
    FieldDescriptorProto {
        name: Some(name.into()),
        number: Some(number),
        r#type: Some(ty as i32),
        label: Some(if rep { Label::Repeated } else { Label::Optional } as i32),
        json_name: Some(default_json_name(name)),
        ..Default::default()
    }
}

fn typed(name: &str, number: i32, ty: Type, of: &str, rep: bool) -> FieldDescriptorProto {
    FieldDescriptorProto { type_name: Some(format!(".{of}")), ..plain(name, number, ty, rep) }
}

fn twin(ctx: &mut Ctx) -> Twin {
    let wkt = ctx.r.pct(60);
    let cfg = GenCfg { wkt, max_files: 2, max_msgs: 2, max_fields: 5, ..Default::default() };
    let base = gen_files(&mut ctx.r, cfg);
    let bs = RSchema::new(&base);
    let r = &mut ctx.r;
    let deps: Vec<String> = base.iter().map(|f| f.name().to_string()).collect();
    let msgs = bs.plain_msgs();
    let enums: Vec<(String, Vec<String>, bool)> = bs.enums.values().map(|e| (e.full_name.clone(), e.values.iter().map(|v| v.0.clone()).collect(), e.proto3)).collect();
    let hp = *r.pick(&["", "h", "host.pkg", "a.b"]);
    let host = join(hp, "Host");
    let sub = join(hp, "Host.Sub");
    let other = join(hp, "Other");
    let ranges = |d: &mut DescriptorProto| {
        for (s, e) in [(100, 200), (300, 301), (1000, 536_870_912)] {
            d.extension_range.push(ExtensionRange { start: Some(s), end: Some(e), ..Default::default() });
        }
    };
    let mut d = DescriptorProto { name: Some("Host".into()), ..Default::default() };
    d.field = vec![
        plain("a", 1, Type::Int32, false),
        plain("opt", 2, Type::String, true),
        typed("rec", 3, Type::Message, &host, false),
        typed("sub", 4, Type::Message, &sub, true),
        plain("late", 250, Type::Bytes, false),
        plain("later", 900, Type::Sint32, true),
        plain("x", 5, Type::Int64, false),
        plain("y", 6, Type::Bool, false),
    ];
    d.oneof_decl = vec![OneofDescriptorProto { name: Some("xy".into()), ..Default::default() }];
    d.field[6].oneof_index = Some(0);
    d.field[7].oneof_index = Some(0);
    ranges(&mut d);
    let mut ds = DescriptorProto { name: Some("Sub".into()), ..Default::default() };
    ds.field = vec![plain("a", 1, Type::String, false), typed("up", 2, Type::Message, &host, false)];
    ranges(&mut ds);
    d.nested_type.push(ds);
    let mut o = DescriptorProto { name: Some("Other".into()), ..Default::default() };
    o.field = vec![
        typed("h", 1, Type::Message, &host, true),
        typed("m", 2, Type::Message, &format!("{other}.MEntry"), true),
        plain("a", 3, Type::Double, false),
    ];
    o.nested_type.push(DescriptorProto {
        name: Some("MEntry".into()),
        field: vec![plain("key", 1, Type::String, false), typed("value", 2, Type::Message, &host, false)],
        options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }),
        ..Default::default()
    });
    ranges(&mut o);
    let mut hf = FileDescriptorProto {
        name: Some("host.proto".into()),
        package: (!hp.is_empty()).then(|| hp.to_string()),
        dependency: deps.clone(),
        message_type: vec![d, o],
        ..Default::default()
    };
    // the files of the extensions
    let nfiles = 1 + r.below(2);
    let mut ef: Vec<FileDescriptorProto> = vec![];
    for i in 0..nfiles {
        let p = *r.pick(&["", "e", "host.pkg", "a.b.c", hp]);
        let mut dep = deps.clone();
        dep.push("host.proto".into());
        let mut dd = DescriptorProto { name: Some(format!("Scope{i}")), ..Default::default() };
        dd.nested_type.push(DescriptorProto { name: Some("Inner".into()), ..Default::default() });
        ef.push(FileDescriptorProto {
            name: Some(format!("ext{i}.proto")),
            package: (!p.is_empty()).then(|| p.to_string()),
            dependency: dep,
            syntax: r.bool().then(|| "proto3".into()),
            message_type: vec![dd],
            ..Default::default()
        });
    }
    let mut hb = hf.clone();
    let mut used: BTreeSet<(String, i32)> = BTreeSet::new();
    let mut names: BTreeSet<String> = BTreeSet::new();
    let (mut jn, mut tn) = (vec![], vec![]);
    let n = 3 + r.below(9);
    for k in 0..n {
        let extendee = r.pick(&[&host, &host, &sub, &other]).to_string();
        let number = loop {
            let n = *r.pick(&[100, 101, 150, 199, 300, 1000, 1001, 18_999, 20_000, 536_870_911]);
            if used.insert((extendee.clone(), n)) {
                break n;
            }
        };
        // where it is declared
        let at = r.below(5);
        let file = r.below(nfiles);
        let in_host = at == 4;
        let p3 = !in_host && ef[file].syntax.is_some();
        let pkg = if in_host { hp.to_string() } else { ef[file].package().to_string() };
        let scope = match at {
            0 | 1 => pkg,
            2 => join(&pkg, &format!("Scope{file}")),
            3 => join(&pkg, &format!("Scope{file}.Inner")),
            _ => r.pick(&[&host, &sub, &other]).to_string(),
        };
        let name = loop {
            let n = match r.below(4) {
                0 => r.pick(&["a", "opt", "rec", "late", "x", "y", "h", "m", "key"]).to_string(),
                1 => format!("my_ext_{k}"),
                2 => format!("Ext{k}"),
                _ => format!("e{k}"),
            };
            // (not the name of a field beside it)
            if (in_host || (at < 2 && scope.is_empty())) && !n.contains(&k.to_string()) {
                continue;
            }
            if names.insert(join(&scope, &n)) {
                break n;
            }
        };
        let rep = r.pct(40);
        let mut group = None;
        let mut f = match r.below(12) {
            0 | 1 if !msgs.is_empty() => typed(&name, number, Type::Message, r.pick::<String>(&msgs), rep),
            2 => typed(&name, number, Type::Message, *r.pick(&[host.as_str(), &sub, &other]), rep),
            3 if !p3 => {
                let g = format!("Grp{k}");
                let gd = DescriptorProto {
                    name: Some(g.clone()),
                    field: vec![plain("v", 1, Type::Int32, false), typed("deep", 2, Type::Message, &host, true)],
                    ..Default::default()
                };
                hf.message_type.push(gd.clone());
                hb.message_type.push(gd);
                group = Some(g.clone());
                typed(&name, number, Type::Group, &join(hp, &g), rep)
            }
            4 | 5 => {
                let es: Vec<&(String, Vec<String>, bool)> = enums.iter().filter(|e| !p3 || e.2).collect();
                match es.is_empty() {
                    true => plain(&name, number, Type::Uint32, rep),
                    false => {
                        let e = *r.pick(&es);
                        let mut f = typed(&name, number, Type::Enum, &e.0, rep);
                        if !p3 && !rep && r.bool() {
                            f.default_value = Some(r.pick(&e.1).clone());
                        }
                        f
                    }
                }
            }
            6 if wkt => {
                let w: Vec<&String> = bs.msgs.keys().filter(|m| m.starts_with("google.protobuf.") && !bs.msgs[*m].map_entry && !m.contains("Descriptor") && !m.contains("Options")).collect();
                match w.is_empty() {
                    true => plain(&name, number, Type::Bool, rep),
                    false => typed(&name, number, Type::Message, r.pick(&w).as_str(), rep),
                }
            }
            _ => {
                let t = *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 16, 17, 18]);
                let mut f = plain(&name, number, Type::try_from(t).unwrap(), rep);
                if !p3 && !rep && r.pct(30) {
                    f.default_value = Some(
                        match f.r#type() {
                            Type::Bool => "true",
                            Type::String => "d\u{e9}fault",
                            Type::Bytes => "\\001\\377x",
                            Type::Float | Type::Double => *r.pick(&["-inf", "1.5", "nan", "0"]),
                            _ => "7",
                        }
                        .into(),
                    );
                }
                f
            }
        };
        f.extendee = Some(format!(".{extendee}"));
        f.json_name = Some(default_json_name(&name));
        let packable = !matches!(f.r#type(), Type::Message | Type::Group | Type::String | Type::Bytes);
        if rep && packable && r.bool() {
            f.options = Some(FieldOptions { packed: Some(r.bool()), ..Default::default() });
        }
        // the twin
        let mut t = f.clone();
        t.extendee = None;
        let tname = match &group {
            Some(g) => g.to_lowercase(),
            None => format!("tw{k}x"),
        };
        t.name = Some(tname.clone());
        t.json_name = Some(tname.clone());
        if rep && packable {
            t.options.get_or_insert_with(Default::default).packed.get_or_insert(p3);
        }
        let full = join(&scope, &name);
        jn.push((format!("\"[{full}]\""), format!("\"{tname}\"")));
        tn.push((format!("[{full}]"), group.unwrap_or(tname)));
        {
            let m = &mut hb.message_type;
            let d = if extendee == host {
                &mut m[0]
            } else if extendee == sub {
                &mut m[0].nested_type[0]
            } else {
                &mut m[1]
            };
            d.field.push(t);
        }
        match at {
            0 | 1 => ef[file].extension.push(f),
            2 => ef[file].message_type[0].extension.push(f),
            3 => ef[file].message_type[0].nested_type[0].extension.push(f),
            _ => {
                let m = &mut hf.message_type;
                let d = if scope == host {
                    &mut m[0]
                } else if scope == sub {
                    &mut m[0].nested_type[0]
                } else {
                    &mut m[1]
                };
                d.extension.push(f);
            }
        }
    }
    let strip = |f: &FileDescriptorProto| {
        let mut f = f.clone();
        f.extension.clear();
        for m in &mut f.message_type {
            m.extension.clear();
            for n in &mut m.nested_type {
                n.extension.clear();
            }
        }
        f
    };
    // a range of B is no place for fields
    let unrange = |f: &mut FileDescriptorProto| {
        for m in &mut f.message_type {
            m.extension_range.clear();
            for n in &mut m.nested_type {
                n.extension_range.clear();
            }
        }
    };
    unrange(&mut hb);
    let set = |h: FileDescriptorProto, e: Vec<FileDescriptorProto>| {
        let mut v = base.clone();
        v.push(h);
        v.extend(e);
        RSchema::new(&v)
    };
    let plain_e: Vec<FileDescriptorProto> = ef.iter().map(strip).collect();
    Twin {
        a: set(hf.clone(), ef),
        b: set(hb, plain_e.clone()),
        c: set(strip(&hf), plain_e),
        json: jn,
        text: tn,
        hosts: vec![host, sub, other],
    }
}

fn to_b(t: &str, names: &[(String, String)]) -> String {
    names.iter().fold(t.to_string(), |t, (a, b)| t.replace(a, b))
}

fn to_a(t: &str, names: &[(String, String)]) -> String {
    names.iter().fold(t.to_string(), |t, (a, b)| {
        let mut out = String::new();
        let mut from = 0;
        for (i, _) in t.match_indices(b.as_str()) {
            // (not a part of a longer name)
            let free = !t[..i].ends_with(|c: char| c.is_ascii_alphanumeric() || "_./".contains(c))
                && !(b.starts_with("Grp") && t[i + b.len()..].starts_with(|c: char| c.is_ascii_digit()));
            out.push_str(&t[from..i]);
            out.push_str(if free { a } else { b });
            from = i + b.len();
        }
        out + &t[from..]
    })
}

/// Objects as sets of members; members `twins` that are empty lists left out.
fn jset(j: &J, twins: &BTreeSet<String>) -> String {
    match j {
        J::Arr(l) => format!("[{}]", l.iter().map(|j| jset(j, twins)).collect::<Vec<_>>().join(",")),
        J::Obj(o) => {
            let mut v: Vec<String> = o
                .iter()
                .filter(|(k, v)| !(twins.contains(k) && *v == J::Arr(vec![])))
                .map(|(k, v)| format!("{k:?}:{}", jset(v, twins)))
                .collect();
            v.sort();
            format!("{{{}}}", v.join(","))
        }
        j => format!("{j:?}"),
    }
}

fn mutate(j: &mut J, r: &mut crate::rng::Rng, keys: &[String]) {
    match j {
        J::Obj(o) if !o.is_empty() && r.pct(75) => {
            let k = r.below(o.len());
            // (the key of a map stays)
            if r.pct(30) && keys.contains(&o[k].0) {
                o[k].0 = r.pick(keys).clone();
            } else if r.pct(10) {
                let e = o[k].clone();
                o.push(e);
            } else {
                mutate(&mut o[k].1, r, keys);
            }
        }
        J::Arr(l) if !l.is_empty() && r.pct(75) => {
            let k = r.below(l.len());
            mutate(&mut l[k], r, keys);
        }
        j => {
            *j = match r.below(10) {
                0 | 1 => J::Null,
                2 => J::Bool(true),
                3 => J::Num("1.5".into()),
                4 => J::Num("-3000000000".into()),
                5 => J::Str("NaN".into()),
                6 => J::Str("".into()),
                7 => J::Arr(vec![std::mem::replace(j, J::Null)]),
                8 => J::Obj(vec![]),
                _ => J::Str("17".into()),
            }
        }
    }
}

/// Names that ended up in strings.
fn rename(v: &mut RVal, names: &[(String, String)]) {
    let one = |t: &str| to_b(t, names);
    match v {
        RVal::Str(s) => *s = one(s),
        RVal::List(l) => l.iter_mut().for_each(|v| rename(v, names)),
        RVal::Msg(m) => m.fields.values_mut().for_each(|v| rename(v, names)),
        RVal::Map(m) => {
            for (k, mut v) in std::mem::take(m) {
                rename(&mut v, names);
                let k = match k {
                    RKey::Str(s) => RKey::Str(one(&s)),
                    k => k,
                };
                m.insert(k, v);
            }
        }
        _ => (),
    }
}

fn both(t: &Twin, names: &[(String, String)], a: Result<DynamicMessage, String>, b: Result<DynamicMessage, String>) -> Result<bool, String> {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let (mut a, mut b) = (from_dyn(&a)?, from_dyn(&b)?);
            // the order inside Any
            json::norm(&t.a, &mut a);
            json::norm(&t.b, &mut b);
            a.fields.values_mut().for_each(|v| rename(v, names));
            a.sort_unknown();
            b.sort_unknown();
            match diff(&a, &b, Cmp { nan_loose: true, ..Default::default() }) {
                Some(d) => Err(format!("read differently with extensions and with fields: {d}")),
                None => Ok(true),
            }
        }
        (Err(_), Err(_)) => Ok(false),
        (Ok(_), Err(e)) => Err(format!("accepted with extensions, rejected with fields: {e}")),
        (Err(e), Ok(_)) => Err(format!("rejected with extensions, accepted with fields: {e}")),
    }
}

fn kind_text(k: &Kind) -> String {
    match k {
        Kind::Message(m) => format!("message {}", m.full_name()),
        Kind::Enum(m) => format!("enum {}", m.full_name()),
        k => format!("{k:?}"),
    }
}

fn from_json(p: &DescriptorPool, ty: &str, t: &str, deny: bool) -> Result<DynamicMessage, String> {
    let mut de = serde_json::Deserializer::from_str(t);
    let m = DynamicMessage::deserialize_with_options(desc(p, ty), &mut de, &DeserializeOptions::new().deny_unknown_fields(deny)).map_err(|e| e.to_string())?;
    de.end().map_err(|e| e.to_string())?;
    Ok(m)
}

fn from_text(p: &DescriptorPool, ty: &str, t: &str) -> Result<DynamicMessage, String> {
    DynamicMessage::parse_text_format(desc(p, ty), t).map_err(|e| e.to_string())
}

fn count_exts(s: &RSchema, m: &RMsg) -> u64 {
    let mut n = s.exts_of(&m.ty).filter(|f| m.fields.contains_key(&f.number)).count() as u64;
    for v in m.fields.values() {
        v.for_msgs(&mut |x| n += count_exts(s, x));
    }
    n
}

fn c24(ctx: &mut Ctx, _: u64) -> R {
    let t = twin(ctx);
    let (pa, pb, pc) = (mkpool(&t.a), mkpool(&t.b), mkpool(&t.c));
    let tell = |m: String| format!("{m}\nextensions:\n{}fields:\n{}", show_files(&t.a.files), show_files(&t.b.files));
    run(ctx, &t, &pa, &pb, &pc).map_err(tell)
}

fn run(ctx: &mut Ctx, t: &Twin, pa: &DescriptorPool, pb: &DescriptorPool, pc: &DescriptorPool) -> R {
    lookup(ctx, t, pa, pb)?;
    let jn: Vec<(String, String)> = t.json.iter().map(|(a, b)| (a.trim_matches('"').to_string(), b.trim_matches('"').to_string())).collect();
    let jkeys: Vec<String> = t.json.iter().map(|x| x.1.trim_matches('"').to_string()).collect();
    let twins: BTreeSet<String> = jkeys.iter().cloned().collect();
    for _ in 0..3 {
        let ty = ctx.r.pick(&t.hosts).clone();
        let budget = 6 + ctx.r.below(50);
        let unknown = ctx.r.pct(30);
        let nan = ctx.r.bool();
        let m = gen_msg(&mut ctx.r, &t.a, &ty, ValCfg { unknown, nan, max_depth: 3, budget, ..Default::default() });
        let nexts = count_exts(&t.a, &m);
        ctx.count("extension values", nexts);
        let (a, b) = (to_dyn(&t.a, pa, &m), to_dyn(&t.b, pb, &m));
        let fail = |e: String| format!("{e}\nmessage {m:?}");
        // wire
        let (ba, bb) = (a.encode_to_vec(), b.encode_to_vec());
        for (s, b, w) in [(&t.a, &ba, "with extensions"), (&t.b, &ba, "with extensions, as fields"), (&t.a, &bb, "with fields, as extensions")] {
            let mut g = wire::decode(s, &ty, b).map_err(|e| fail(format!("encoding {w}: {e:?}")))?;
            let mut m = m.clone();
            g.sort_unknown();
            m.sort_unknown();
            if let Some(d) = diff(&m, &g, EXACT) {
                return Err(fail(format!("encoded {w}: {d}")));
            }
        }
        if a.encoded_len() != b.encoded_len() || ba.len() != bb.len() {
            return Err(fail(format!("encodings of {} and {} bytes", ba.len(), bb.len())));
        }
        let mut rs = wire::Noise::new(&mut ctx.r, &t.a).records(&m);
        let noisy = rs.concat();
        let dec = |p: &DescriptorPool, b: &[u8]| DynamicMessage::decode(desc(p, &ty), b).map_err(|e| e.to_string());
        both(t, &[], dec(pa, &noisy), dec(pb, &noisy)).map_err(|e| fail(format!("wire {}: {e}", hexall(&noisy))))?;
        ctx.count("wire pairs", 1);
        for _ in 0..3 {
            let mut x = ctx.r.pick(&[&noisy, &ba]).to_vec();
            match ctx.r.below(4) {
                0 => {
                    ctx.r.shuffle(&mut rs);
                    x = rs.concat();
                }
                1 => {
                    let n = ctx.r.below(x.len() + 1);
                    x.truncate(n);
                }
                2 if !rs.is_empty() => {
                    // as if it were another type
                    let k = ctx.r.below(rs.len());
                    let w = ctx.r.below(6) as u8;
                    rs[k][0] = (rs[k][0] & !7) | w;
                    x = rs.concat();
                }
                _ => {
                    if !x.is_empty() {
                        let k = ctx.r.below(x.len());
                        x[k] = ctx.r.u32() as u8;
                    }
                }
            }
            let ok = both(t, &[], dec(pa, &x), dec(pb, &x)).map_err(|e| fail(format!("wire {}: {e}", hexall(&x))))?;
            ctx.count(if ok { "wire pairs accepted" } else { "wire pairs rejected" }, 1);
        }
        // a pool without the extensions
        let c = dec(pc, &ba).map_err(|e| fail(format!("without extensions: {e}")))?;
        let mut want = wire::decode(&t.c, &ty, &ba).map_err(|e| fail(format!("{e:?}")))?;
        let mut got = from_dyn(&c)?;
        want.sort_unknown();
        got.sort_unknown();
        if let Some(d) = diff(&want, &got, EXACT) {
            return Err(fail(format!("unknown extensions: {d}")));
        }
        let back = dec(pa, &c.encode_to_vec()).map_err(|e| fail(format!("through a pool without extensions: {e}")))?;
        let mut got = from_dyn(&back)?;
        let mut want = m.clone();
        got.sort_unknown();
        want.sort_unknown();
        if let Some(d) = diff(&want, &got, EXACT) {
            return Err(fail(format!("through a pool without extensions: {d}")));
        }
        if c.extensions().next().is_some() {
            return Err(fail("extensions in a pool without extensions".into()));
        }
        ctx.count("carried as unknown fields", 1);
        // JSON
        for o in json::all_opts() {
            let (ja, jb) = match (ser(&a, o), ser(&b, o)) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(_), Err(_)) => continue,
                (a, b) => return Err(fail(format!("JSON with {o:?}: extensions {a:?}, fields {b:?}"))),
            };
            let na = json::parse(&to_b(&ja, &t.json)).map_err(|e| fail(format!("{e}: {ja}")))?;
            let nb = json::parse(&jb).map_err(|e| fail(format!("{e}: {jb}")))?;
            let (sa, sb) = (jset(&na, &twins), jset(&nb, &twins));
            if sa != sb {
                return Err(fail(format!("JSON with {o:?}\nwith extensions {ja}\nwith fields {jb}")));
            }
            ctx.count("JSON documents", 1);
            if ctx.r.pct(70) {
                continue;
            }
            for i in 0..3 {
                let mut doc = nb.clone();
                for _ in 0..i {
                    mutate(&mut doc, &mut ctx.r, &jkeys);
                }
                let tb = json::emit(&doc, &mut ctx.r, true);
                let ta = to_a(&tb, &t.json);
                let deny = ctx.r.bool();
                let ok = both(t, &jn, from_json(pa, &ty, &ta, deny), from_json(pb, &ty, &tb, deny)).map_err(|e| fail(format!("JSON {e}\nwith extensions {ta}\nwith fields {tb}")))?;
                ctx.count(if ok { "JSON pairs accepted" } else { "JSON pairs rejected" }, 1);
                let nn: Vec<(String, String)> = jn.iter().map(|x| (x.0.clone(), "[no.such.thing]".to_string())).collect();
                // without the extensions: like names that mean nothing
                let nonsense = t.json.iter().fold(tb.clone(), |x, (_, b)| x.replace(b, "\"[no.such.thing]\""));
                let ok = both(t, &nn, from_json(pc, &ty, &ta, deny), from_json(pc, &ty, &nonsense, deny)).map_err(|e| fail(format!("JSON without extensions: {e}\n{ta}")))?;
                ctx.count(if ok { "unknown extensions in JSON ignored" } else { "unknown extensions in JSON rejected" }, 1);
            }
        }
        // text
        for o in all_topts() {
            if ctx.r.pct(75) {
                continue;
            }
            let o = crate::text::TOpts { skip_unknown: true, ..o };
            let (ta, tb) = (a.to_text_format_with_options(&lib_topts(o)), b.to_text_format_with_options(&lib_topts(o)));
            let xb = to_b(&ta, &t.text);
            let ok = both(t, &t.text, from_text(pa, &ty, &ta), from_text(pb, &ty, &xb)).map_err(|e| fail(format!("text {e}\nwith extensions {ta}\nwith fields {xb}")))?;
            let xa = to_a(&tb, &t.text);
            let ok2 = both(t, &t.text, from_text(pa, &ty, &xa), from_text(pb, &ty, &tb)).map_err(|e| fail(format!("text {e}\nwith extensions {xa}\nwith fields {tb}")))?;
            if !ok || !ok2 {
                return Err(fail(format!("own text rejected:\n{ta}\n{tb}")));
            }
            both(t, &t.text, from_text(pa, &ty, &ta), from_text(pa, &ty, &xa)).map_err(|e| fail(format!("text {e}\n{ta}\n{xa}")))?;
            ctx.count("text pairs", 1);
            for _ in 0..3 {
                let Some(tb) = mutate_text(ctx, &xb, &t.text) else { continue };
                let ta = to_a(&tb, &t.text);
                let ok = both(t, &t.text, from_text(pa, &ty, &ta), from_text(pb, &ty, &tb)).map_err(|e| fail(format!("text {e}\nwith extensions {ta}\nwith fields {tb}")))?;
                ctx.count(if ok { "text pairs accepted" } else { "text pairs rejected" }, 1);
            }
            if t.a.exts_of(&ty).any(|f| m.fields.contains_key(&f.number)) {
                if let Ok(m) = from_text(pc, &ty, &ta) {
                    return Err(fail(format!("text with unknown extensions was accepted: {m:?}\n{ta}")));
                }
                ctx.count("unknown extensions in text rejected", 1);
            }
        }
        let shape: Vec<String> = t.a.exts_of(&ty).filter(|f| m.fields.contains_key(&f.number)).map(|f| format!("{:?}{:?}{}", f.kind, f.card, f.packed)).collect();
        ctx.feature(format!("{shape:?}").as_bytes());
        ctx.sample(|| a.to_text_format());
        history(ctx, t, pa, pb, &ty, a, b).map_err(fail)?;
    }
    // extensions of another message mean nothing
    for e in &t.a.exts {
        if !t.hosts.contains(&e.extendee) {
            continue;
        }
        for ty in &t.hosts {
            if *ty == e.extendee {
                continue;
            }
            let n = &e.field.full_name;
            for v in ["null", "1", "\"\"", "{}", "[]"] {
                let j = format!("{{\"[{n}]\":{v}}}");
                if from_json(pa, ty, &j, true).is_ok() {
                    return Err(format!("{ty} accepted an extension of {}: {j}", e.extendee));
                }
                match from_json(pa, ty, &j, false) {
                    Ok(m) if from_dyn(&m)? == RMsg::new(ty) => (),
                    r => return Err(format!("{ty} did not ignore an extension of {}: {j}: {r:?}", e.extendee)),
                }
            }
            for v in [": 1", ": ''", " {}", ": {}", ": []"] {
                let x = format!("[{n}]{v}");
                if from_text(pa, ty, &x).is_ok() {
                    return Err(format!("{ty} accepted an extension of {}: {x}", e.extendee));
                }
            }
            ctx.count("extensions of other messages refused", 1);
        }
        // nor do other ways to write the name
        let (n, short) = (&e.field.full_name, e.field.full_name.rsplit('.').next().unwrap());
        let ty = &e.extendee;
        for key in [n.to_string(), short.to_string(), format!("[.{n}]"), format!("[{n}"), format!("{n}]"), format!("[[{n}]]"), format!("[{short}]")] {
            let real = t.a.exts_of(ty).any(|f| format!("[{}]", f.full_name) == key) || json::all_names(&t.a, ty).contains(&key);
            if !real && from_json(pa, ty, &format!("{{{key:?}:null}}"), true).is_ok() {
                return Err(format!("{ty} knows a field {key:?}"));
            }
        }
    }
    Ok(())
}

/// Another value, another name, once more, or in a list.
fn mutate_text(ctx: &mut Ctx, t: &str, names: &[(String, String)]) -> Option<String> {
    let at: Vec<(usize, &String)> = names.iter().flat_map(|(_, b)| t.match_indices(b.as_str()).map(move |(i, _)| (i, b)).collect::<Vec<_>>()).collect();
    if at.is_empty() {
        return None;
    }
    let (i, n) = *ctx.r.pick(&at);
    let after = i + n.len();
    Some(match ctx.r.below(5) {
        0 => format!("{}{}{}", &t[..i], ctx.r.pick(names).1, &t[after..]),
        1 => {
            let v = *ctx.r.pick(&[": 1", ": 'x'", ": true", ": -1", ": [1, 2]", " {}", ": []", ": 1.5", ": [{}, {}]", ": inf", ": 99999999999"]);
            format!("{}{n}{v} {}", &t[..i], &t[i..])
        }
        2 => {
            let v = *ctx.r.pick(&[": 1", ": 'x'", ": [1, 2]", " {}", ": [{}]"]);
            format!("{t} {n}{v}")
        }
        3 => format!("{}{}{}", &t[..after], ctx.r.pick(&["", ":", ": [", " <", ": -"]), &t[after..].trim_start_matches(':')),
        _ => format!("{}{n}: {}", &t[..i], &t[i..]),
    })
}

fn lookup(ctx: &mut Ctx, t: &Twin, pa: &DescriptorPool, pb: &DescriptorPool) -> R {
    for m in t.a.msgs.values() {
        let d = desc(pa, &m.full_name);
        let want: BTreeMap<u32, &RField> = t.a.exts_of(&m.full_name).map(|f| (f.number, f)).collect();
        let got: Vec<ExtensionDescriptor> = d.extensions().collect();
        if got.len() != want.len() || got.len() != d.extensions().len() {
            return Err(format!("{} lists {} extensions of {}", m.full_name, got.len(), want.len()));
        }
        for e in &t.a.exts {
            let f = &e.field;
            let mine = e.extendee == m.full_name;
            let json = format!("[{}]", f.full_name);
            let by = [
                ("number", d.get_extension(f.number).filter(|x| x.full_name() == f.full_name)),
                ("full name", d.get_extension_by_full_name(&f.full_name)),
                ("JSON name", d.get_extension_by_json_name(&json)),
                ("iteration", got.iter().find(|x| x.full_name() == f.full_name).cloned()),
            ];
            for (how, x) in by {
                match (mine, x) {
                    (false, None) => (),
                    (true, Some(x)) => {
                        if x.full_name() != f.full_name || x.number() != f.number || x.json_name() != json || x.containing_message() != d {
                            return Err(format!("{} by {how}: {x:?}", f.full_name));
                        }
                        if Some(&x) != pa.get_extension_by_name(&f.full_name).as_ref() {
                            return Err(format!("{} by {how} is not the one of the pool", f.full_name));
                        }
                    }
                    (true, None) => return Err(format!("{} does not find {} by {how}", m.full_name, f.full_name)),
                    (false, Some(x)) => return Err(format!("{} finds {} by {how}: {x:?}", m.full_name, f.full_name)),
                }
            }
            for wrong in [f.full_name.clone(), format!(".{}", f.full_name), f.name.clone()] {
                if d.get_extension_by_json_name(&wrong).is_some() {
                    return Err(format!("{} finds {wrong} as a JSON name", m.full_name));
                }
            }
            if mine && d.get_extension_by_full_name(&json).is_some() {
                return Err(format!("{} finds {json} as a full name", m.full_name));
            }
            ctx.count("lookups", 4);
        }
        if !t.hosts.contains(&m.full_name) {
            continue;
        }
        // attributes
        let db = desc(pb, &m.full_name);
        for e in got {
            let f = db.get_field(e.number()).unwrap();
            let x = (kind_text(&e.kind()), e.cardinality(), e.is_list(), e.is_map(), e.is_packed(), e.is_group(), e.supports_presence(), from_val(&e.default_value()));
            let y = (kind_text(&f.kind()), f.cardinality(), f.is_list(), f.is_map(), f.is_packed(), f.is_group(), f.supports_presence(), from_val(&f.default_value()));
            if x != y {
                return Err(format!("{}: extension {x:?}, field {y:?}", e.full_name()));
            }
            if from_val(&Value::default_value_for_extension(&e)) != from_val(&Value::default_value_for_field(&f)) {
                return Err(format!("{}: default values", e.full_name()));
            }
            ctx.count("extensions compared with fields", 1);
        }
    }
    Ok(())
}

fn from_val(v: &Value) -> String {
    match val_from(v) {
        Ok(v) => format!("{v:?}"),
        Err(e) => e,
    }
}

fn some_value(ctx: &mut Ctx, t: &Twin, f: &RField) -> RVal {
    let r = &mut ctx.r;
    // now and then of another type
    let of = if r.pct(80) { f.clone() } else { r.pick(&t.a.exts).field.clone() };
    let cfg = ValCfg { budget: 8, max_depth: 2, ..Default::default() };
    match r.below(8) {
        0 => default_of(&t.a, &of),
        1 if of.card == Card::Rep => RVal::List(vec![]),
        _ => ValGen::new(r, &t.a, cfg).field(&of, 0).unwrap_or_else(|| default_of(&t.a, &of)),
    }
}

fn state(m: &DynamicMessage) -> Result<String, String> {
    let mut r = from_dyn(m)?;
    r.sort_unknown();
    Ok(format!("{r:?}"))
}

fn history(ctx: &mut Ctx, t: &Twin, pa: &DescriptorPool, pb: &DescriptorPool, ty: &str, mut a: DynamicMessage, mut b: DynamicMessage) -> R {
    let exts: Vec<RField> = t.a.exts_of(ty).cloned().collect();
    if exts.is_empty() {
        return Ok(());
    }
    let (da, db) = (desc(pa, ty), desc(pb, ty));
    let mut log = vec![];
    for _ in 0..10 + ctx.r.below(15) {
        let f = ctx.r.pick(&exts).clone();
        let e: ExtensionDescriptor = da.get_extension(f.number).unwrap();
        let x: FieldDescriptor = db.get_field(f.number).unwrap();
        let n = f.number;
        let op = ctx.r.below(9);
        let (ra, rb): (String, String) = match op {
            0 | 1 => {
                let v = some_value(ctx, t, &f);
                let (va, vb) = (val_to(&t.a, pa, &v), val_to(&t.b, pb, &v));
                let (ia, ib) = (va.is_valid_for_extension(&e), vb.is_valid_for_field(&x));
                let (fa, fb) = (va.is_default_for_extension(&e), vb.is_default_for_field(&x));
                log.push(format!("set {n} {v:?}"));
                let ra = guard(|| a.set_extension(&e, va));
                let rb = guard(|| b.set_field(&x, vb));
                (format!("{ia} {fa} {}", ra.is_ok()), format!("{ib} {fb} {}", rb.is_ok()))
            }
            2 => {
                log.push(format!("has {n}"));
                (a.has_extension(&e).to_string(), b.has_field(&x).to_string())
            }
            3 => {
                log.push(format!("get {n}"));
                (from_val(&a.get_extension(&e)), from_val(&b.get_field(&x)))
            }
            4 => {
                log.push(format!("clear {n}"));
                a.clear_extension(&e);
                b.clear_field(&x);
                (String::new(), String::new())
            }
            5 => {
                log.push(format!("take {n}"));
                (format!("{:?}", a.take_extension(&e).map(|v| from_val(&v))), format!("{:?}", b.take_field(&x).map(|v| from_val(&v))))
            }
            6 => {
                log.push(format!("mut {n}"));
                (from_val(a.get_extension_mut(&e)), from_val(b.get_field_mut(&x)))
            }
            7 => {
                let v = loop {
                    let v = some_value(ctx, t, &f);
                    if val_to(&t.a, pa, &v).is_valid_for_extension(&e) {
                        break v;
                    }
                };
                log.push(format!("mut {n} = {v:?}"));
                *a.get_extension_mut(&e) = val_to(&t.a, pa, &v);
                *b.get_field_mut(&x) = val_to(&t.b, pb, &v);
                (String::new(), String::new())
            }
            _ => {
                log.push("iterate".into());
                let mut xa: Vec<(u32, String)> = a.extensions().map(|(e, v)| (e.number(), from_val(v))).collect();
                let mut xm: Vec<(u32, String)> = a.extensions_mut().map(|(e, v)| (e.number(), from_val(v))).collect();
                let mut xb: Vec<(u32, String)> = b.fields().filter(|(f, _)| exts.iter().any(|e| e.number == f.number())).map(|(e, v)| (e.number(), from_val(v))).collect();
                xa.sort();
                xm.sort();
                xb.sort();
                if xa != xm {
                    return Err(format!("extensions() and extensions_mut() differ: {xa:?} {xm:?}\nhistory {log:?}"));
                }
                (format!("{xa:?}"), format!("{xb:?}"))
            }
        };
        if ra != rb {
            return Err(format!("extension: {ra}\nfield: {rb}\nhistory {log:?}"));
        }
        let (sa, sb) = (state(&a)?, state(&b)?);
        if sa != sb {
            return Err(format!("with extensions: {sa}\nwith fields: {sb}\nhistory {log:?}"));
        }
        ctx.count("operations", 1);
    }
    let (c, d) = (a.clone(), b.clone());
    if a.take_extensions().count() != exts.iter().filter(|e| d.has_field(&db.get_field(e.number).unwrap())).count() {
        return Err(format!("take_extensions()\nhistory {log:?}"));
    }
    if a.extensions().next().is_some() {
        return Err("extensions left after take_extensions()".into());
    }
    if (a == c) && exts.iter().any(|e| d.has_field(&db.get_field(e.number).unwrap())) {
        return Err(format!("equality after take_extensions()\nhistory {log:?}"));
    }
    let _ = lib_opts;
    Ok(())
}

pub static PROPS: &[Prop] = &[Prop {
    id: "C24",
    quick: 1_300,
    thorough: 200_000,
    rule: "case i: a schema with extensions and its twin with ordinary fields drawn from hash(seed, id, i); the same values, documents, corruptions and histories on both; distinct by set of extension shapes in a message",
    case: c24,
    directed: None,
    extra: None,
    need: &[
        "extension values",
        "wire pairs",
        "wire pairs accepted",
        "wire pairs rejected",
        "carried as unknown fields",
        "JSON documents",
        "JSON pairs accepted",
        "JSON pairs rejected",
        "unknown extensions in JSON ignored",
        "unknown extensions in JSON rejected",
        "unknown extensions in text rejected",
        "text pairs",
        "text pairs accepted",
        "text pairs rejected",
        "extensions of other messages refused",
        "extensions compared with fields",
        "operations",
    ],
    level: "exploration",
}];
