//! C23: descriptor sets and options are kept, and options written by name mean what they say.
use crate::descsnap::*;
use crate::dynconv::{diff, from_dyn, Cmp};
use crate::faults;
use crate::gen::*;
use crate::props::*;
use crate::rmsg::*;
use crate::rng::Rng;
use crate::run::*;
use crate::schema::*;
use crate::scope::{self, Mode, Res, Table};
use crate::text::TSpell;
use crate::wire;
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage};
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::source_code_info::Location;
use prost_types::uninterpreted_option::NamePart;
use prost_types::*;
use std::collections::{BTreeMap, BTreeSet};
use std::option::Option;

type R = Result<(), String>;

const OPTS: &[&str] = &[
    "FileOptions",
    "MessageOptions",
    "FieldOptions",
    "OneofOptions",
    "EnumOptions",
    "EnumValueOptions",
    "ServiceOptions",
    "MethodOptions",
    "ExtensionRangeOptions",
];

/// The options message of the element at a path.
fn opt_type(path: &[i32]) -> String {
    let mut k = "FileOptions";
    for c in path.chunks(2) {
        k = match (k, c[0]) {
            ("FileOptions", 4) | ("MessageOptions", 3) => "MessageOptions",
            ("FileOptions", 5) | ("MessageOptions", 4) => "EnumOptions",
            ("FileOptions", 6) => "ServiceOptions",
            ("FileOptions", 7) | ("MessageOptions", 2) | ("MessageOptions", 6) => "FieldOptions",
            ("MessageOptions", 5) => "ExtensionRangeOptions",
            ("MessageOptions", 8) => "OneofOptions",
            ("EnumOptions", 2) => "EnumValueOptions",
            ("ServiceOptions", 2) => "MethodOptions",
            x => panic!("{x:?}"),
        };
    }
    format!("google.protobuf.{k}")
}

pub(crate) struct World {
    pub files: Vec<FileDescriptorProto>,
    pub s: RSchema,
    /// files that see the options
    from: usize,
    cpp: bool,
    table: Table,
    vis: Vec<BTreeSet<usize>>,
}

/// Custom options of every kind in a file of their own, in the middle of generated files.
fn world(ctx: &mut Ctx, cpp: bool) -> World {
    let c = GenCfg { wkt: false, services: true, max_files: 4, max_msgs: 3, max_fields: 5, cpp, ..Default::default() };
    let mut files = vec![wkt_file("google/protobuf/descriptor.proto")];
    files.extend(gen_files(&mut ctx.r, c));
    let r = &mut ctx.r;
    let at = 1 + r.below(files.len());
    let sch = RSchema::new(&files[..at]);
    let msgs: Vec<String> = sch.msgs.values().filter(|m| !m.map_entry && !m.full_name.starts_with("google.")).map(|m| m.full_name.clone()).collect();
    let enums: Vec<String> = sch.enums.keys().filter(|m| !m.starts_with("google.")).cloned().collect();
    let proto3 = r.bool();
    let pkg = *r.pick(&["opt", "", "google.protobuf.opt", "pkg.opts", "a.b.c.d"]);
    let mut f = FileDescriptorProto {
        name: Some("my/opts.proto".into()),
        package: (!pkg.is_empty()).then(|| pkg.to_string()),
        syntax: proto3.then(|| "proto3".to_string()),
        dependency: files[..at].iter().map(|f| f.name().to_string()).collect(),
        ..Default::default()
    };
    let t = Table::new(&files);
    // where options nest
    let mut holder = DescriptorProto { name: Some("OptHolder".into()), ..Default::default() };
    let mut inner = DescriptorProto { name: Some("Inner".into()), ..Default::default() };
    // a message made for options: recursive, with maps and oneofs
    let own = join(pkg, "OptMsg");
    let rest: String = format!(
        r#"name: "OptMsg"
        field {{ name: "a" number: 1 type: TYPE_INT32 label: LABEL_OPTIONAL json_name: "a" }}
        field {{ name: "rec" number: 2 type: TYPE_MESSAGE type_name: ".{own}" label: LABEL_OPTIONAL json_name: "rec" }}
        field {{ name: "list" number: 3 type: TYPE_STRING label: LABEL_REPEATED json_name: "list" }}
        field {{ name: "recs" number: 4 type: TYPE_MESSAGE type_name: ".{own}" label: LABEL_REPEATED json_name: "recs" }}
        field {{ name: "m" number: 5 type: TYPE_MESSAGE type_name: ".{own}.MEntry" label: LABEL_REPEATED json_name: "m" }}
        field {{ name: "x" number: 6 type: TYPE_DOUBLE label: LABEL_OPTIONAL oneof_index: 0 json_name: "x" }}
        field {{ name: "y" number: 7 type: TYPE_BYTES label: LABEL_OPTIONAL oneof_index: 0 json_name: "y" }}
        field {{ name: "ns" number: 8 type: TYPE_SINT64 label: LABEL_REPEATED json_name: "ns" }}
        oneof_decl {{ name: "o" }}
        nested_type {{ name: "MEntry" options {{ map_entry: true }}
          field {{ name: "key" number: 1 type: TYPE_STRING label: LABEL_OPTIONAL json_name: "key" }}
          field {{ name: "value" number: 2 type: TYPE_INT32 label: LABEL_OPTIONAL json_name: "value" }} }}
        {}"#,
        if proto3 { "" } else { "extension_range { start: 100 end: 200 }" }
    );
    let text = DynamicMessage::parse_text_format(DescriptorPool::global().get_message_by_name("google.protobuf.DescriptorProto").unwrap(), &rest).unwrap();
    let m: DescriptorProto = text.transcode_to().unwrap();
    f.message_type.push(m);
    let mut n = 0;
    let mut mk = |r: &mut Rng, extendee: &str, number: i32| {
        n += 1;
        let mut e = FieldDescriptorProto {
            name: Some(format!("{}{n}", r.pick(&["opt_", "o", "Opt", "my_option_"]))),
            number: Some(number),
            extendee: Some(format!(".{extendee}")),
            label: Some(if r.pct(30) { Label::Repeated } else { Label::Optional } as i32),
            ..Default::default()
        };
        e.json_name = Some(default_json_name(e.name()));
        match r.below(10) {
            0..=1 => {
                e.r#type = Some(Type::Message as i32);
                e.type_name = Some(format!(".{own}"));
            }
            2 if !msgs.is_empty() => {
                e.r#type = Some(Type::Message as i32);
                e.type_name = Some(format!(".{}", r.pick(&msgs)));
            }
            3 if !enums.is_empty() => {
                e.r#type = Some(Type::Enum as i32);
                e.type_name = Some(format!(".{}", r.pick(&enums)));
            }
            _ => e.r#type = Some(*r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 16, 17, 18])),
        }
        let packable = !matches!(e.r#type(), Type::Message | Type::String | Type::Bytes);
        if e.label() == Label::Repeated && packable && r.bool() {
            e.options.get_or_insert_with(Default::default).packed = Some(r.bool());
        }
        e
    };
    for (k, o) in OPTS.iter().enumerate() {
        for i in 0..2 + r.below(3) {
            let num = match i {
                0 => 50_000 + k as i32,
                1 => 536_870_911 - k as i32,
                i => 1000 + i as i32,
            };
            let e = mk(r, &format!("google.protobuf.{o}"), num);
            match r.below(4) {
                0 => holder.extension.push(e),
                1 => inner.extension.push(e),
                _ => f.extension.push(e),
            }
        }
    }
    if !proto3 {
        for i in 0..2 {
            let e = mk(r, &own, 100 + i);
            f.extension.push(e);
        }
    }
    holder.nested_type.push(inner);
    f.message_type.push(holder);
    let _ = t;
    for g in &mut files[at..] {
        g.dependency.push("my/opts.proto".into());
        if r.pct(30) {
            g.public_dependency.push(g.dependency.len() as i32 - 1);
        }
    }
    files.insert(at, f);
    let s = RSchema::new(&files);
    let table = Table::new(&files);
    let vis = scope::visibility(&files);
    World { files, s, cpp, from: at, table, vis }
}

/// Standard options that are more than data to the C++ implementation.
const CPP_MINDS: &[&str] = &["weak", "lazy", "unverified_lazy", "optimize_for", "jstype", "ctype", "message_set_wire_format"];

/// Standard options that change nothing else.
fn plain_option(ty: &str, name: &str) -> bool {
    match ty.rsplit('.').next().unwrap() {
        "FileOptions" => !matches!(name, "uninterpreted_option" | "features"),
        "MessageOptions" => matches!(name, "deprecated" | "no_standard_descriptor_accessor"),
        "FieldOptions" => matches!(name, "deprecated" | "lazy" | "weak" | "ctype" | "unverified_lazy"),
        "EnumOptions" => name == "deprecated",
        "EnumValueOptions" => name == "deprecated",
        "ServiceOptions" => name == "deprecated",
        "MethodOptions" => matches!(name, "deprecated" | "idempotency_level"),
        _ => false,
    }
}

fn navigate<'a>(m: &'a mut RMsg, path: &[i32]) -> &'a mut RMsg {
    let mut m = m;
    for c in path.chunks(2) {
        let Some(RVal::List(l)) = m.fields.get_mut(&(c[0] as u32)) else { panic!("{path:?}") };
        let RVal::Msg(x) = &mut l[c[1] as usize] else { panic!("{path:?}") };
        m = x;
    }
    m
}

/// One option statement and the path its value has in the end (None: not checked).
struct Stmt {
    option: UninterpretedOption,
    path: Option<Vec<i32>>,
}

struct Speller<'a> {
    r: &'a mut Rng,
    w: &'a World,
    file: usize,
    scope: String,
    /// names with a leading dot only
    absolute: bool,
    /// list elements that are there already
    out: Vec<Vec<Stmt>>,
}

impl Speller<'_> {
    fn part(&mut self, f: &RField) -> Option<NamePart> {
        if !f.is_ext {
            return Some(NamePart { name_part: f.name.clone(), is_extension: false });
        }
        let full = &f.full_name;
        let vis = &self.w.vis[self.file];
        let outer = match self.scope.rfind('.') {
            Some(i) => &self.scope[..i],
            None => "",
        };
        let mut cands = vec![];
        let mut rest = full.as_str();
        while !self.absolute {
            let hit = |sc: &str| self.w.table.resolve(vis, sc, rest, Mode::Extension) == Res::Found(full.clone());
            if hit(&self.scope) && hit(outer) {
                cands.push(rest.to_string());
            }
            match rest.find('.') {
                Some(i) => rest = &rest[i + 1..],
                None => break,
            }
        }
        if self.w.table.resolve(vis, "", &format!(".{full}"), Mode::Extension) == Res::Found(full.clone()) {
            cands.push(format!(".{full}"));
        }
        if cands.is_empty() {
            return None;
        }
        Some(NamePart { name_part: self.r.pick(&cands).clone(), is_extension: true })
    }

    fn aggregate(&mut self, m: &RMsg) -> String {
        let mut t = TSpell::new(self.r, &self.w.s);
        let c = t.chunks(m);
        t.join(&c)
    }

    fn scalar(&mut self, k: &RKind, v: &RVal, o: &mut UninterpretedOption) -> bool {
        let mut int = |v: i128| {
            if v >= 0 {
                o.positive_int_value = Some(v as u64);
            } else {
                o.negative_int_value = Some(v as i64);
            }
            true
        };
        match v {
            RVal::Bool(b) => {
                o.identifier_value = Some(b.to_string());
                true
            }
            RVal::I32(x) => int(*x as i128),
            RVal::I64(x) => int(*x as i128),
            RVal::U32(x) => int(*x as i128),
            RVal::U64(x) => int(*x as i128),
            RVal::F32(x) => self.float(f32::from_bits(*x) as f64, o),
            RVal::F64(x) => self.float(f64::from_bits(*x), o),
            RVal::Str(x) => {
                o.string_value = Some(x.clone().into_bytes());
                true
            }
            RVal::Bytes(x) => {
                o.string_value = Some(x.clone());
                true
            }
            RVal::Enum(x) => {
                let RKind::Enum(e) = k else { panic!() };
                let names: Vec<&String> = self.w.s.enums[e].values.iter().filter(|v| v.1 == *x).map(|v| &v.0).collect();
                if names.is_empty() {
                    return false;
                }
                o.identifier_value = Some(self.r.pick(&names).to_string());
                true
            }
            RVal::Msg(m) => {
                o.aggregate_value = Some(self.aggregate(m));
                true
            }
            _ => panic!(),
        }
    }

    fn float(&mut self, x: f64, o: &mut UninterpretedOption) -> bool {
        // the C++ implementation used by C30 does not know these words yet
        if !self.w.cpp && self.r.bool() {
            let word = match x {
                f64::INFINITY => "inf",
                _ if x.is_nan() => "nan",
                _ => "",
            };
            if !word.is_empty() {
                o.identifier_value = Some(word.into());
                return true;
            }
        }
        if x.fract() == 0.0 && x < 1.8e19 && x > -9.2e18 && !(x == 0.0 && x.is_sign_negative()) && self.r.bool() {
            if x >= 0.0 {
                o.positive_int_value = Some(x as u64);
            } else {
                o.negative_int_value = Some(x as i64);
            }
        } else {
            o.double_value = Some(x);
        }
        true
    }

    /// Statements for everything in `m`; what cannot be written is taken out of it.
    fn message(&mut self, name: &[NamePart], at: &[i32], m: &mut RMsg, before: Option<&RMsg>) {
        let s = &self.w.s;
        let nums: Vec<u32> = m.fields.keys().copied().collect();
        for n in nums {
            let f = s.field_of(&m.ty, n).unwrap().clone();
            let Some(p) = self.part(&f) else {
                m.fields.remove(&n);
                continue;
            };
            let mut name = name.to_vec();
            name.push(p);
            let at = [at, &[n as i32]].concat();
            let mut o = UninterpretedOption { name: name.clone(), ..Default::default() };
            let v = m.fields.get_mut(&n).unwrap();
            let old = before.and_then(|b| b.fields.get(&n));
            let ok = match v {
                RVal::Map(mm) => {
                    let (kf, vf) = s.map_kv(&f);
                    let mut group = vec![];
                    for (k, v) in mm.iter() {
                        let mut e = RMsg::new(f.kind.msg().unwrap());
                        e.fields.insert(kf.number, crate::text::from_key(k));
                        e.fields.insert(vf.number, v.clone());
                        let text = self.aggregate(&e);
                        group.push(Stmt { option: UninterpretedOption { aggregate_value: Some(text), ..o.clone() }, path: None });
                    }
                    self.out.push(group);
                    true
                }
                RVal::List(l) => {
                    let base = match old {
                        Some(RVal::List(o)) => o.len(),
                        _ => 0,
                    };
                    let mut group = vec![];
                    let mut keep = vec![];
                    for v in std::mem::take(l) {
                        let mut o = o.clone();
                        if self.scalar(&f.kind, &v, &mut o) {
                            group.push(Stmt { option: o, path: Some([&at[..], &[(base + keep.len()) as i32]].concat()) });
                            keep.push(v);
                        }
                    }
                    *l = keep;
                    let ok = !l.is_empty();
                    self.out.push(group);
                    ok
                }
                RVal::Msg(x) if !x.fields.is_empty() && self.r.pct(60) => {
                    self.message(&name, &at, x, None);
                    // nothing left to say
                    !x.fields.is_empty()
                }
                v => {
                    let ok = self.scalar(&f.kind, v, &mut o);
                    if ok {
                        self.out.push(vec![Stmt { option: o, path: Some(at.clone()) }]);
                    }
                    ok
                }
            };
            if !ok {
                m.fields.remove(&n);
            }
        }
    }
}

/// The slot of `packed` or `allow_alias` of the element at a path.
fn bool_slot<'a>(f: &'a mut FileDescriptorProto, path: &[i32]) -> Option<&'a mut Option<bool>> {
    fn field(f: &mut FieldDescriptorProto) -> Option<&mut Option<bool>> {
        f.options.as_mut().map(|o| &mut o.packed)
    }
    fn en(f: &mut EnumDescriptorProto) -> Option<&mut Option<bool>> {
        f.options.as_mut().map(|o| &mut o.allow_alias)
    }
    match path {
        [5, i] => return en(&mut f.enum_type[*i as usize]),
        [7, i] => return field(&mut f.extension[*i as usize]),
        _ => (),
    }
    let mut m = &mut f.message_type[path[1] as usize];
    let mut p = &path[2..];
    while p.len() > 2 {
        assert!(p[0] == 3);
        m = &mut m.nested_type[p[1] as usize];
        p = &p[2..];
    }
    match p[0] {
        2 => field(&mut m.field[p[1] as usize]),
        6 => field(&mut m.extension[p[1] as usize]),
        4 => en(&mut m.enum_type[p[1] as usize]),
        _ => None,
    }
}

fn take_bool(f: &mut FileDescriptorProto, path: &[i32]) -> Option<bool> {
    bool_slot(f, path).and_then(|s| s.take())
}

fn put_bool(f: &mut FileDescriptorProto, path: &[i32], v: bool) {
    *bool_slot(f, path).unwrap() = Some(v);
}

fn merge_into(dst: &mut RMsg, src: &RMsg) {
    for (n, v) in &src.fields {
        match (dst.fields.get_mut(n), v) {
            (Some(RVal::List(a)), RVal::List(b)) => a.extend(b.iter().cloned()),
            _ => {
                dst.fields.insert(*n, v.clone());
            }
        }
    }
    dst.unknown.extend(src.unknown.iter().cloned());
}

fn set_bytes(files: &[Vec<u8>]) -> Vec<u8> {
    let mut out = vec![];
    for f in files {
        wire::put_tag(&mut out, 1, 2);
        wire::put_varint(&mut out, f.len() as u64);
        out.extend(f);
    }
    out
}

/// (file, path of the element) -> its options
pub(crate) fn all_options(pool: &DescriptorPool) -> Vec<(String, Vec<i32>, DynamicMessage)> {
    let mut out = vec![];
    for f in pool.files() {
        out.push((f.name().to_string(), vec![], f.options()));
    }
    for m in pool.all_messages() {
        let n = m.parent_file().name().to_string();
        out.push((n.clone(), m.path().to_vec(), m.options()));
        for f in m.fields() {
            out.push((n.clone(), f.path().to_vec(), f.options()));
        }
        for f in m.oneofs() {
            out.push((n.clone(), f.path().to_vec(), f.options()));
        }
    }
    for e in pool.all_enums() {
        let n = e.parent_file().name().to_string();
        out.push((n.clone(), e.path().to_vec(), e.options()));
        for v in e.values() {
            out.push((n.clone(), v.path().to_vec(), v.options()));
        }
    }
    for s in pool.services() {
        let n = s.parent_file().name().to_string();
        out.push((n.clone(), s.path().to_vec(), s.options()));
        for m in s.methods() {
            out.push((n.clone(), m.path().to_vec(), m.options()));
        }
    }
    for e in pool.all_extensions() {
        out.push((e.parent_file().name().to_string(), e.path().to_vec(), e.options()));
    }
    out
}

const OPTION_FIELD: &[(&str, u32)] = &[
    ("FileOptions", 8),
    ("MessageOptions", 7),
    ("FieldOptions", 8),
    ("OneofOptions", 2),
    ("EnumOptions", 3),
    ("EnumValueOptions", 3),
    ("ServiceOptions", 3),
    ("MethodOptions", 4),
    ("ExtensionRangeOptions", 3),
];

fn option_field(ty: &str) -> u32 {
    OPTION_FIELD.iter().find(|x| ty.ends_with(&format!(".{}", x.0))).unwrap().1
}

/// A snapshot without encoded bytes: the entries of maps have no order.
fn snap(pool: &DescriptorPool, pr: &[String]) -> Snap {
    let mut s = snapshot(pool, pr);
    for v in s.values_mut() {
        if let (Some(a), Some(b)) = (v.find(" enc "), v.find(" raw ")) {
            v.replace_range(a..b, "");
        }
    }
    s
}

/// One statement that means nothing in a set that is good without it.
pub(crate) fn bad(ctx: &mut Ctx, cpp: bool, see: &mut dyn FnMut(&mut Ctx, &str, &[u8]) -> R) -> R {
    let mut w = world(ctx, cpp);
    let mut carriers: Vec<(usize, Vec<i32>)> = faults::option_carriers(&w.files).into_iter().filter(|c| c.0 >= w.from).collect();
    ctx.r.shuffle(&mut carriers);
    let names: Vec<(usize, Vec<i32>, String)> = faults::named(&w.files).into_iter().map(|(e, _)| (e.file, e.path, e.full)).collect();
    let part = |f: &RField| NamePart { name_part: if f.is_ext { format!(".{}", f.full_name) } else { f.name.clone() }, is_extension: f.is_ext };
    let mut tries = 0;
    let (file, path, o, what) = 'found: loop {
        tries += 1;
        if tries > 300 {
            return Ok(());
        }
        let (file, path) = ctx.r.pick(&carriers).clone();
        let ty = opt_type(&path);
        let fields: Vec<RField> = w.s.msg(&ty).fields.values().filter(|f| plain_option(&ty, &f.name) && !(cpp && CPP_MINDS.contains(&f.name.as_str()))).chain(w.s.exts_of(&ty)).cloned().collect();
        if fields.is_empty() {
            continue;
        }
        // a way to a field
        let mut f = ctx.r.pick(&fields).clone();
        let mut name = vec![part(&f)];
        while let (RKind::Msg(m), true) = (&f.kind, f.card != Card::Rep) {
            if ctx.r.pct(40) {
                break;
            }
            let sub: Vec<RField> = w.s.msg(m).fields.values().chain(w.s.exts_of(m)).cloned().collect();
            if sub.is_empty() {
                break;
            }
            f = ctx.r.pick(&sub).clone();
            name.push(part(&f));
        }
        let is_map = matches!(&f.kind, RKind::Msg(m) if w.s.msg(m).map_entry);
        let mut o = UninterpretedOption { name, ..Default::default() };
        let junk = |o: &mut UninterpretedOption, r: &mut Rng, not: &str| loop {
            let k = *r.pick(&["ident", "pos", "neg", "dbl", "str", "agg"]);
            if not.split(' ').any(|n| n == k) {
                continue;
            }
            match k {
                "ident" => o.identifier_value = Some("some_word".into()),
                "pos" => o.positive_int_value = Some(1),
                "neg" => o.negative_int_value = Some(-1),
                "dbl" => o.double_value = Some(1.5),
                "str" => o.string_value = Some(b"text".to_vec()),
                _ => o.aggregate_value = Some("".into()),
            }
            break;
        };
        let r = &mut ctx.r;
        match r.below(8) {
            // a value of another kind
            0 => {
                let not = match &f.kind {
                    RKind::Bool | RKind::Enum(_) => "",
                    RKind::Float | RKind::Double => "pos neg dbl",
                    RKind::Str | RKind::Bytes => "str",
                    RKind::Msg(_) | RKind::Group(_) => "agg",
                    _ => "pos neg",
                };
                junk(&mut o, r, not);
                if let (RKind::Enum(e), Some(id)) = (&f.kind, &o.identifier_value) {
                    if w.s.enums[e].values.iter().any(|v| v.0 == *id) {
                        continue;
                    }
                }
                break 'found (file, path, o, "wrong kind of value");
            }
            // out of range
            1 | 2 => {
                match &f.kind {
                    RKind::Int32 | RKind::Sint32 | RKind::Sfixed32 => {
                        if r.bool() {
                            o.positive_int_value = Some(*r.pick(&[1 << 31, u32::MAX as u64, 1 << 32, u64::MAX, 1 << 63]));
                        } else {
                            o.negative_int_value = Some(*r.pick(&[-(1 << 31) - 1, i64::MIN, -(1 << 32)]));
                        }
                    }
                    RKind::Int64 | RKind::Sint64 | RKind::Sfixed64 => o.positive_int_value = Some(*r.pick(&[1 << 63, u64::MAX])),
                    RKind::Uint32 | RKind::Fixed32 => {
                        if r.bool() {
                            o.positive_int_value = Some(*r.pick(&[1 << 32, u64::MAX, 1 << 63]));
                        } else {
                            o.negative_int_value = Some(*r.pick(&[-1, i64::MIN, i32::MIN as i64]));
                        }
                    }
                    RKind::Uint64 | RKind::Fixed64 => o.negative_int_value = Some(*r.pick(&[-1, i64::MIN])),
                    RKind::Str => o.string_value = Some(vec![b'a', 0xff]),
                    RKind::Bool => o.identifier_value = Some(r.pick(&["TRUE", "True", "t", "f", "FALSE", "1", ""]).to_string()),
                    _ => continue,
                }
                break 'found (file, path, o, "value out of range");
            }
            // a name that leads nowhere
            3 => {
                if f.card == Card::Rep || !matches!(f.kind, RKind::Msg(_) | RKind::Group(_)) {
                    o.name.push(NamePart { name_part: r.pick(&["a", "value", "key"]).to_string(), is_extension: false });
                    junk(&mut o, r, "");
                    break 'found (file, path, o, "path through a scalar or a list");
                }
                o.name.push(NamePart { name_part: "no_such_field".into(), is_extension: r.bool() });
                o.positive_int_value = Some(1);
                break 'found (file, path, o, "no such field");
            }
            // an extension of something else
            4 => {
                let e = r.pick(&w.s.exts).clone();
                let at = if o.name.len() > 1 {
                    // of the message the last part is a field of
                    continue;
                } else {
                    0
                };
                if e.extendee == ty {
                    continue;
                }
                o.name[at] = part(&e.field);
                o.positive_int_value = Some(1);
                break 'found (file, path, o, "extension of another message");
            }
            // set twice
            5 => {
                if f.card == Card::Rep {
                    continue;
                }
                let mut ok = o.clone();
                match &f.kind {
                    RKind::Bool => ok.identifier_value = Some(r.bool().to_string()),
                    RKind::Enum(e) => ok.identifier_value = Some(w.s.enums[e].values[0].0.clone()),
                    RKind::Str | RKind::Bytes => ok.string_value = Some(vec![]),
                    RKind::Msg(_) | RKind::Group(_) => ok.aggregate_value = Some("".into()),
                    _ => ok.positive_int_value = Some(r.below(2) as u64),
                }
                let implicit = !f.presence;
                if implicit {
                    // a default value set is no value
                    continue;
                }
                let (slot, ..) = faults::options_slot(&mut w.files, file, &path);
                slot.push(ok.clone());
                break 'found (file, path, ok, "an option set twice");
            }
            // text that is not a message
            6 => {
                if !matches!(f.kind, RKind::Msg(_) | RKind::Group(_)) || is_map {
                    continue;
                }
                o.aggregate_value = Some(r.pick(&["no_such_field_: 1", "{", "}", "a", ":", "[no.such.ext]: 1", "\"x\""]).to_string());
                break 'found (file, path, o, "text that is not the message");
            }
            // an extension as a field and the other way round
            _ => {
                let k = r.below(o.name.len());
                let p = &mut o.name[k];
                p.name_part = p.name_part.rsplit('.').next().unwrap().to_string();
                p.is_extension = !p.is_extension;
                if p.is_extension {
                    // unless there is an extension of that name
                    let n = p.name_part.clone();
                    if w.s.exts.iter().any(|e| e.field.full_name.rsplit('.').next() == Some(&n)) {
                        continue;
                    }
                } else if w.s.msgs.values().any(|m| m.fields.values().any(|f| f.name == p.name_part)) {
                    continue;
                }
                junk(&mut o, r, "");
                break 'found (file, path, o, "extension and field confused");
            }
        }
    };
    let _ = names;
    let (slot, _, _) = faults::options_slot(&mut w.files, file, &path);
    slot.push(o.clone());
    let mut pool = DescriptorPool::new();
    let before = 1 + ctx.r.below(w.from);
    pool.decode_file_descriptor_set(&set_bytes(&w.files[..before].iter().map(|f| f.encode_to_vec()).collect::<Vec<_>>())[..])
        .map_err(|e| format!("rejected: {e:?}"))?;
    let kept = snapshot(&pool, &[]);
    let rest = FileDescriptorSet { file: w.files[before..].to_vec() };
    let b = rest.encode_to_vec();
    if pool.decode_file_descriptor_set(&b[..]).is_ok() {
        return Err(format!("accepted with {what} at {} {path:?}: {o:?}\nset hex={}", w.files[file].name(), hexall(&b)));
    }
    see(ctx, &format!("{what}: {o:?}"), &FileDescriptorSet { file: w.files.clone() }.encode_to_vec())?;
    if let Some(d) = snap_diff(&kept, &snapshot(&pool, &[])) {
        return Err(format!("a rejected set left something behind: {d}\nset hex={}", hexall(&b)));
    }
    ctx.count("meaningless options rejected", 1);
    ctx.feature(format!("{what} {}", opt_type(&path)).as_bytes());
    Ok(())
}

fn c23(ctx: &mut Ctx, i: u64) -> R {
    if i % 4 == 3 {
        return bad(ctx, false, &mut |_, _, _| Ok(()));
    }
    good(ctx, false, &mut |_, _, _, _| Ok(()))
}

/// What a caller may do with a set that was accepted: its bytes and the pool.
pub(crate) type See<'a> = &'a mut dyn FnMut(&mut Ctx, &World, &[u8], &DescriptorPool) -> R;

pub(crate) fn good(ctx: &mut Ctx, cpp: bool, see: See) -> R {
    let mut w = world(ctx, cpp);
    let carriers: Vec<(usize, Vec<i32>)> = faults::option_carriers(&w.files).into_iter().filter(|c| c.0 >= w.from).collect();
    let names: Vec<(usize, Vec<i32>, String)> = faults::named(&w.files).into_iter().map(|(e, _)| (e.file, e.path, e.full)).collect();
    let mut added: BTreeMap<(usize, Vec<i32>), RMsg> = BTreeMap::new();
    let mut locs: Vec<(usize, Vec<i32>, Option<Vec<i32>>)> = vec![];
    let mut by_name = 0;
    let density = *ctx.r.pick(&[15, 50, 100]);
    let style = ctx.r.below(3);
    for (file, path) in &carriers {
        let ty = opt_type(path);
        if !ctx.r.pct(density) {
            continue;
        }
        // what is there already
        let (_, opath, _) = faults::options_slot(&mut w.files.clone(), *file, path);
        let have: RMsg = {
            let b = w.files[*file].encode_to_vec();
            let mut m = wire::decode(&w.s, "google.protobuf.FileDescriptorProto", &b).map_err(|e| format!("harness: {e:?}"))?;
            let el = navigate(&mut m, path);
            match el.fields.get(&option_field(&ty)) {
                Some(RVal::Msg(o)) => o.clone(),
                _ => RMsg::new(&ty),
            }
        };
        let mut add = RMsg::new(&ty);
        let mut named = RMsg::new(&ty);
        {
            let fields: Vec<RField> = w.s.msg(&ty).fields.values().filter(|f| plain_option(&ty, &f.name) && !(cpp && CPP_MINDS.contains(&f.name.as_str()))).chain(w.s.exts_of(&ty)).cloned().collect();
            for f in fields {
                if have.fields.contains_key(&f.number) || !ctx.r.pct(40) {
                    continue;
                }
                let how = match style {
                    0 => 0,
                    1 => 1,
                    _ => ctx.r.below(3),
                };
                let cfg = ValCfg { nan: false, unknown_enum: how == 0, max_depth: 3, max_len: 3, budget: 20, unknown: how == 0, ..Default::default() };
                let Some(v) = ValGen::new(&mut ctx.r, &w.s, cfg).field(&f, 0) else { continue };
                match how {
                    0 => {
                        add.fields.insert(f.number, v);
                    }
                    1 => {
                        named.fields.insert(f.number, v);
                    }
                    _ => match v {
                        // the first elements interpreted, the others by name
                        RVal::List(mut l) if l.len() > 1 => {
                            let mut rest = l.split_off(1);
                            // the interpreted part need not be sayable, the others have to be
                            if let RKind::Enum(e) = &f.kind {
                                rest.retain(|x| matches!(x, RVal::Enum(n) if w.s.enums[e].values.iter().any(|v| v.1 == *n)));
                            }
                            add.fields.insert(f.number, RVal::List(l));
                            if !rest.is_empty() {
                                named.fields.insert(f.number, RVal::List(rest));
                            }
                        }
                        v => {
                            add.fields.insert(f.number, v);
                        }
                    },
                }
            }
        }
        if style != 1 && ctx.r.pct(15) {
            add.unknown.push((600_000 + ctx.r.below(9) as u32, gen_unk(&mut ctx.r, 2)));
        }
        if add.fields.is_empty() && add.unknown.is_empty() && named.fields.is_empty() {
            continue;
        }
        if !named.fields.is_empty() {
            let full = names.iter().find(|x| x.0 == *file && x.1 == *path).map(|x| x.2.clone());
            // an extension range is not named: the options of a file are scoped by its package
            let scope = match (&full, path.is_empty()) {
                (Some(f), _) => f.clone(),
                (None, true) => w.files[*file].package().to_string(),
                (None, false) => "".into(),
            };
            let absolute = full.is_none();
            let mut sp = Speller { r: &mut ctx.r, w: &w, file: *file, scope, absolute, out: vec![] };
            sp.message(&[], &opath, &mut named, Some(&add));
            let mut groups = sp.out;
            // any order that keeps the elements of a list in order
            let mut stmts = vec![];
            for g in &mut groups {
                g.reverse();
            }
            while groups.iter().any(|g| !g.is_empty()) {
                let live: Vec<usize> = (0..groups.len()).filter(|&i| !groups[i].is_empty()).collect();
                let k = *ctx.r.pick(&live);
                stmts.push(groups[k].pop().unwrap());
            }
            by_name += stmts.len() as u64;
            let (slot, opath, _) = faults::options_slot(&mut w.files, *file, path);
            for st in stmts {
                locs.push((*file, [&opath[..], &[999, slot.len() as i32]].concat(), st.path));
                slot.push(st.option);
            }
        }
        merge_into(&mut add, &named);
        let mut interp = add.clone();
        for (n, v) in &named.fields {
            match (interp.fields.get_mut(n), v) {
                (Some(RVal::List(l)), RVal::List(x)) if l.len() > x.len() => l.truncate(l.len() - x.len()),
                _ => {
                    interp.fields.remove(n);
                }
            }
        }
        added.insert((*file, path.clone()), add);
        // kept apart: the part given as data
        added.insert((*file + 10_000, path.clone()), interp);
    }
    // source information for the statements written by name
    let mut want_locs: BTreeMap<usize, Vec<(Option<Vec<i32>>, Vec<i32>)>> = BTreeMap::new();
    for (i, (file, from, to)) in locs.iter().enumerate() {
        if ctx.r.pct(70) {
            let info = w.files[*file].source_code_info.get_or_insert_with(Default::default);
            let span = vec![i as i32, 3, 9];
            info.location.push(Location { path: from.clone(), span: span.clone(), ..Default::default() });
            want_locs.entry(*file).or_default().push((to.clone(), span));
        }
    }
    // standard options that decide other things, by name too
    let plain = w.files.clone();
    for (file, path) in &carriers {
        let kind = opt_type(path);
        let name = match kind.rsplit('.').next().unwrap() {
            "FieldOptions" => "packed",
            "EnumOptions" => "allow_alias",
            _ => continue,
        };
        let Some(v) = take_bool(&mut w.files[*file], path) else { continue };
        if ctx.r.bool() {
            put_bool(&mut w.files[*file], path, v);
            continue;
        }
        let (slot, _, _) = faults::options_slot(&mut w.files, *file, path);
        slot.push(UninterpretedOption {
            name: vec![NamePart { name_part: name.into(), is_extension: false }],
            identifier_value: Some(v.to_string()),
            ..Default::default()
        });
        by_name += 1;
        ctx.count("packed and allow_alias by name", 1);
    }
    // bytes of every file, and what is expected of them
    let mut bytes = vec![];
    let mut want: Vec<RMsg> = vec![];
    for i in 0..w.files.len() {
        let b = w.files[i].encode_to_vec();
        let mut m = wire::decode(&w.s, "google.protobuf.FileDescriptorProto", &b).map_err(|e| format!("harness: {e:?}"))?;
        let mut exp = wire::decode(&w.s, "google.protobuf.FileDescriptorProto", &normal_file(&plain[i]).encode_to_vec()).map_err(|e| format!("harness: {e:?}"))?;
        for ((f, path), add) in &added {
            let (file, input) = if *f >= 10_000 { (f - 10_000, true) } else { (*f, false) };
            if file != i {
                continue;
            }
            let ty = opt_type(path);
            let n = option_field(&ty);
            let el = navigate(if input { &mut m } else { &mut exp }, path);
            let o = el.fields.entry(n).or_insert_with(|| RVal::Msg(RMsg::new(&ty)));
            let RVal::Msg(o) = o else { panic!() };
            merge_into(o, add);
            if !input {
                o.fields.remove(&999);
            }
        }
        exp.fields.remove(&9);
        bytes.push(wire::encode(&w.s, &m));
        want.push(exp);
    }
    let tell = |m: String| {
        format!(
            "{m}\noptions by name: {:?}\n{}",
            w.files.iter().map(|f| f.name().to_string()).collect::<Vec<_>>(),
            bytes.iter().skip(1).map(|b| format!("file hex={}\n", hexall(b))).collect::<String>()
        )
    };
    // build
    let mut pool = DescriptorPool::new();
    let mut i = 0;
    while i < bytes.len() {
        let n = if by_name > 0 || ctx.r.bool() { bytes.len() - i } else { 1 + ctx.r.below(bytes.len() - i) };
        let res = if n == 1 && ctx.r.bool() {
            pool.decode_file_descriptor_proto(wire::Frag::new(&mut ctx.r, &bytes[i]))
        } else {
            pool.decode_file_descriptor_set(wire::Frag::new(&mut ctx.r, &set_bytes(&bytes[i..i + n])))
        };
        res.map_err(|e| tell(format!("rejected: {e:?}")))?;
        i += n;
    }
    check(ctx, &w, &pool, &want, &added).map_err(tell)?;
    see(ctx, &w, &set_bytes(&bytes), &pool).map_err(tell)?;
    // source positions follow the statements
    for (file, ls) in &want_locs {
        let f = pool.get_file_by_name(w.files[*file].name()).unwrap();
        let info = f.file_descriptor_proto().source_code_info.clone().unwrap_or_default();
        for (path, span) in ls {
            let Some(l) = info.location.iter().find(|l| l.span == *span) else { return Err(tell(format!("the location {span:?} is lost"))) };
            if let Some(p) = path {
                if l.path != *p {
                    return Err(tell(format!("the location of the option at {p:?} is recorded at {:?}", l.path)));
                }
                ctx.count("option positions followed", 1);
            }
        }
    }
    // from its own encoding, twice
    let pr: Vec<String> = w.s.msgs.keys().cloned().collect();
    let first = snap(&pool, &pr);
    let own = pool.encode_to_vec();
    let mut sized = vec![0; own.len()];
    pool.encode(&mut &mut sized[..]).map_err(|e| tell(format!("a buffer of the size of encode_to_vec() is refused: {e}")))?;
    if sized != own {
        return Err(tell("encode() and encode_to_vec() of the pool differ".into()));
    }
    let again = DescriptorPool::decode(wire::Frag::new(&mut ctx.r, &own)).map_err(|e| tell(format!("its own encoding was rejected: {e:?}")))?;
    if let Some(d) = snap_diff(&first, &snap(&again, &pr)) {
        return Err(tell(format!("rebuilt from its encoding: {d}")));
    }
    check(ctx, &w, &again, &want, &added).map_err(|e| tell(format!("rebuilt from its encoding: {e}")))?;
    // and one file at a time
    let mut again = DescriptorPool::new();
    for f in pool.files() {
        let mut b = vec![];
        f.encode(&mut b).map_err(|e| format!("{e}"))?;
        if b != f.encode_to_vec() {
            return Err(tell("encode() and encode_to_vec() differ".into()));
        }
        again.decode_file_descriptor_proto(wire::Frag::new(&mut ctx.r, &b)).map_err(|e| tell(format!("the encoding of {} was rejected: {e:?}", f.name())))?;
    }
    if let Some(d) = snap_diff(&first, &snap(&again, &pr)) {
        return Err(tell(format!("rebuilt file by file: {d}")));
    }
    ctx.count("options written by name", by_name);
    ctx.count("pools compared", 1);
    ctx.feature(format!("{style} {by_name} {}", added.len()).as_bytes());
    Ok(())
}

fn check(ctx: &mut Ctx, w: &World, pool: &DescriptorPool, want: &[RMsg], added: &BTreeMap<(usize, Vec<i32>), RMsg>) -> R {
    let loose = Cmp { nan_loose: true, ..Default::default() };
    let idx: BTreeMap<&str, usize> = w.files.iter().enumerate().map(|(i, f)| (f.name(), i)).collect();
    let mut seen = BTreeSet::new();
    for (file, path, o) in all_options(pool) {
        use prost_reflect::ReflectMessage;
        let i = idx[file.as_str()];
        let ty = opt_type(&path);
        if o.descriptor().full_name() != ty {
            return Err(format!("options() of {file} {path:?} is a {}", o.descriptor().full_name()));
        }
        if o.descriptor().parent_pool() != pool {
            return Err(format!("options() of {file} {path:?} is not of this pool"));
        }
        let mut exp = want[i].clone();
        let el = navigate(&mut exp, &path);
        let mut exp = match el.fields.get(&option_field(&ty)) {
            Some(RVal::Msg(m)) => m.clone(),
            _ => RMsg::new(&ty),
        };
        let mut got = from_dyn(&o)?;
        exp.sort_unknown();
        got.sort_unknown();
        if let Some(d) = diff(&exp, &got, loose) {
            return Err(format!("options() of {file} {path:?}: {d}"));
        }
        if added.contains_key(&(i, path.clone())) {
            ctx.count("elements with custom options", 1);
        }
        if !seen.insert((file.clone(), path.clone())) {
            return Err(format!("two elements at {file} {path:?}"));
        }
    }
    // every element that carries options was asked
    for (i, p) in added.keys() {
        if *i < 10_000 && opt_type(p) != "google.protobuf.ExtensionRangeOptions" && !seen.contains(&(w.files[*i].name().to_string(), p.clone())) {
            return Err(format!("no element at {} {p:?}", w.files[*i].name()));
        }
    }
    // the encoded set
    let b = pool.encode_to_vec();
    let set = wire::decode(&w.s, "google.protobuf.FileDescriptorSet", &b).map_err(|e| format!("the encoded set cannot be read: {e:?}"))?;
    let Some(RVal::List(l)) = set.fields.get(&1) else { return Err("the encoded set is empty".into()) };
    if l.len() != want.len() {
        return Err(format!("the encoded set has {} files of {}", l.len(), want.len()));
    }
    for (k, v) in l.iter().enumerate() {
        let RVal::Msg(m) = v else { panic!() };
        let Some(RVal::Str(name)) = m.fields.get(&1) else { return Err("a file without a name".into()) };
        let Some(&i) = idx.get(name.as_str()) else { return Err(format!("a file {name}")) };
        let own = pool.get_file_by_name(name).unwrap().encode_to_vec();
        let own = wire::decode(&w.s, "google.protobuf.FileDescriptorProto", &own).map_err(|e| format!("the encoded file cannot be read: {e:?}"))?;
        for (how, m) in [("in the encoded set", m), ("encoded alone", &own)] {
            let mut got = m.clone();
            got.fields.remove(&9);
            let mut exp = want[i].clone();
            exp.sort_unknown();
            got.sort_unknown();
            if let Some(d) = diff(&exp, &got, loose) {
                return Err(format!("{name} {how} (position {k}): {d}"));
            }
        }
        ctx.count("encoded files compared", 2);
    }
    Ok(())
}

pub static PROPS: &[Prop] = &[Prop {
    id: "C23",
    quick: 1_500,
    thorough: 80_000,
    rule: "case i: files with custom options of every kind drawn from hash(seed, id, i), given as data and as statements by name; options(), the encoding and rebuilt pools compared with the reference values",
    case: c23,
    directed: None,
    extra: None,
    need: &["options written by name", "elements with custom options", "encoded files compared", "option positions followed", "meaningless options rejected", "packed and allow_alias by name"],
    level: "reference values carried through pools",
}];
