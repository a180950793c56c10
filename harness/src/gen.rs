//! Random generator of valid, *resolved* descriptor sets (as protoc would emit them).
use crate::rng::Rng;
use crate::schema::*;
use prost_types::descriptor_proto::{ExtensionRange, ReservedRange};
use prost_types::enum_descriptor_proto::EnumReservedRange;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::*;
use std::collections::{BTreeMap, BTreeSet};
use std::option::Option;

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub max_files: usize,
    pub max_msgs: usize,
    pub max_fields: usize,
    pub wkt: bool,
    pub exts: bool,
    pub groups: bool,
    pub services: bool,
    pub defaults: bool,
    pub enums: bool,
    /// stay inside what libprotobuf 3.21 accepts and understands
    pub cpp: bool,
    pub weird_json: bool,
    pub force_syntax: Option<bool>, // Some(true) = proto3
    pub options: bool,
}

impl Default for GenCfg {
    fn default() -> Self {
        GenCfg {
            max_files: 3,
            max_msgs: 4,
            max_fields: 9,
            wkt: false,
            exts: true,
            groups: true,
            services: false,
            defaults: true,
            enums: true,
            cpp: false,
            weird_json: true,
            force_syntax: None,
            options: true,
        }
    }
}

/// The well-known-type files as compiled by protoc.
pub fn wkt_files() -> &'static Vec<FileDescriptorProto> {
    static F: std::sync::OnceLock<Vec<FileDescriptorProto>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        use prost::Message;
        let set = FileDescriptorSet::decode(&include_bytes!("../data/wkt.bin")[..]).unwrap();
        set.file
    })
}

pub fn wkt_file(name: &str) -> FileDescriptorProto {
    wkt_files().iter().find(|f| f.name() == name).unwrap().clone()
}

struct Scope {
    counter: u32,
}

#[derive(Clone)]
struct TypeRef {
    full: String,
    file: usize,
    proto3: bool,
    is_enum: bool,
    first_value: String,
    values: Vec<String>,
    ext_ranges: Vec<(i32, i32)>,
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub c: GenCfg,
    files: Vec<FileDescriptorProto>,
    visible: Vec<BTreeSet<usize>>,
    types: Vec<TypeRef>,
    scopes: BTreeMap<String, Scope>,
    used_ext: BTreeSet<(String, i32)>,
    /// numbers outside the usual range can be used: the message has no extension ranges
    high: bool,
}

const WKTS: &[(&str, &[&str])] = &[
    ("google/protobuf/any.proto", &["google.protobuf.Any"]),
    ("google/protobuf/duration.proto", &["google.protobuf.Duration"]),
    ("google/protobuf/empty.proto", &["google.protobuf.Empty"]),
    ("google/protobuf/field_mask.proto", &["google.protobuf.FieldMask"]),
    ("google/protobuf/timestamp.proto", &["google.protobuf.Timestamp"]),
    (
        "google/protobuf/struct.proto",
        &["google.protobuf.Struct", "google.protobuf.Value", "google.protobuf.ListValue"],
    ),
    (
        "google/protobuf/wrappers.proto",
        &[
            "google.protobuf.DoubleValue",
            "google.protobuf.FloatValue",
            "google.protobuf.Int64Value",
            "google.protobuf.UInt64Value",
            "google.protobuf.Int32Value",
            "google.protobuf.UInt32Value",
            "google.protobuf.BoolValue",
            "google.protobuf.StringValue",
            "google.protobuf.BytesValue",
        ],
    ),
];

/// The name of the generated entry type of a map field.
pub fn map_entry_name(field: &str) -> String {
    let mut out = String::new();
    let mut up = true;
    for ch in field.chars() {
        if ch == '_' {
            up = true;
        } else if up {
            out.push(ch.to_ascii_uppercase());
            up = false;
        } else {
            out.push(ch);
        }
    }
    out + "Entry"
}

/// Intermediate tree built before fields can refer to every visible type.
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, c: GenCfg) -> Self {
        Gen {
            r,
            c,
            files: vec![],
            visible: vec![],
            types: vec![],
            scopes: BTreeMap::new(),
            used_ext: BTreeSet::new(),
            high: false,
        }
    }

    fn next(&mut self, scope: &str) -> u32 {
        let s = self.scopes.entry(scope.to_string()).or_insert(Scope { counter: 0 });
        s.counter += 1;
        s.counter
    }

    fn field_name(&mut self, scope: &str) -> String {
        let n = self.next(scope);
        match self.r.below(11) {
            0 => format!("foo_bar_{n}"),
            1 => format!("CamelCase{n}"),
            2 => format!("lowerCamel{n}"),
            3 => format!("UPPER_{n}"),
            4 => format!("_lead{n}"),
            5 => format!("trail_{n}_"),
            6 => format!("dbl__{n}__x"),
            7 => format!("f{n}"),
            8 => format!("x_{n}y_z"),
            9 => format!("aB_cD_{n}"),
            _ => format!("field_{n}"),
        }
    }

    fn type_name(&mut self, scope: &str, kind: &str) -> String {
        let n = self.next(scope);
        match self.r.below(5) {
            0 => format!("{kind}{n}"),
            1 => format!("{}_{n}", kind.to_lowercase()),
            2 => format!("{kind}_{n}"),
            _ => format!("{kind}{n}"),
        }
    }

    pub fn generate(mut self) -> Vec<FileDescriptorProto> {
        let nfiles = 1 + self.r.below(self.c.max_files);
        if self.c.wkt {
            for (name, types) in WKTS {
                let f = wkt_file(name);
                let idx = self.files.len();
                for t in *types {
                    self.types.push(TypeRef {
                        full: t.to_string(),
                        file: idx,
                        proto3: true,
                        is_enum: false,
                        first_value: String::new(),
                        values: vec![],
                        ext_ranges: vec![],
                    });
                }
                if *name == "google/protobuf/struct.proto" {
                    self.types.push(TypeRef {
                        full: "google.protobuf.NullValue".into(),
                        file: idx,
                        proto3: true,
                        is_enum: true,
                        first_value: "NULL_VALUE".into(),
                        values: vec!["NULL_VALUE".into()],
                        ext_ranges: vec![],
                    });
                }
                self.files.push(f);
                self.visible.push([idx].into());
            }
        }
        let base = self.files.len();
        let pkgs = ["", "pkg", "pkg.sub", "pkg.sub.deep", "other", "pkg.other"];
        for i in 0..nfiles {
            let proto3 = self.c.force_syntax.unwrap_or_else(|| self.r.bool());
            let idx = base + i;
            let name = match self.r.below(3) {
                0 => format!("file{i}.proto"),
                1 => format!("dir/sub{i}/file.proto"),
                _ => format!("dir/file{i}.proto"),
            };
            let mut f = FileDescriptorProto { name: Some(name), ..Default::default() };
            let p = *self.r.pick(&pkgs);
            if !p.is_empty() {
                f.package = Some(p.to_string());
            }
            if proto3 {
                f.syntax = Some("proto3".into());
            } else if self.r.pct(30) {
                f.syntax = Some("proto2".into());
            }
            let mut vis: BTreeSet<usize> = [idx].into();
            let mut deps: Vec<usize> = (0..idx).filter(|&d| if d < base { true } else { self.r.pct(60) }).collect();
            self.r.shuffle(&mut deps);
            for (k, d) in deps.iter().enumerate() {
                f.dependency.push(self.files[*d].name().to_string());
                if self.r.pct(40) && *d >= base {
                    f.public_dependency.push(k as i32);
                }
                vis.insert(*d);
                self.public_closure(*d, &mut vis);
            }
            self.visible.push(vis);
            self.files.push(f);
            self.fill_file(idx, proto3);
        }
        self.files
    }

    fn public_closure(&self, d: usize, vis: &mut BTreeSet<usize>) {
        let f = &self.files[d];
        for &p in &f.public_dependency {
            let n = &f.dependency[p as usize];
            let j = self.files.iter().position(|x| x.name() == n).unwrap();
            if vis.insert(j) {
                self.public_closure(j, vis);
            } else {
                // may have been reached as a direct import only
                self.public_closure(j, vis);
            }
        }
    }

    fn gen_enum(&mut self, scope: &str, proto3: bool, file: usize) -> EnumDescriptorProto {
        let name = self.type_name(scope, "En");
        let mut e = EnumDescriptorProto { name: Some(name.clone()), ..Default::default() };
        let mut n = 1 + self.r.below(5);
        if self.r.pct(4) {
            n = 10 + self.r.below(60);
        }
        let alias = n > 1 && self.r.pct(25);
        let early = self.r.pct(40);
        let mut used: Vec<i32> = vec![];
        for i in 0..n {
            let vn = self.next(scope);
            let vname = match self.r.below(4) {
                0 => format!("VALUE_{vn}"),
                1 => format!("v{vn}"),
                2 => format!("{}_{vn}", name.to_uppercase()),
                _ => format!("Val_{vn}x"),
            };
            let num = if i == 0 && proto3 {
                0
            } else if alias && !used.is_empty() && (i == n - 1 || early && self.r.pct(30)) {
                *self.r.pick(&used)
            } else {
                loop {
                    let c = match self.r.below(8) {
                        0 => i32::MAX,
                        1 => i32::MIN,
                        2 => -1,
                        3 => self.r.u32() as i32,
                        _ => self.r.range(-5, 20 + 2 * n as i64) as i32,
                    };
                    if !used.contains(&c) {
                        break c;
                    }
                }
            };
            used.push(num);
            e.value.push(EnumValueDescriptorProto { name: Some(vname), number: Some(num), options: None });
        }
        if alias {
            e.options = Some(EnumOptions { allow_alias: Some(true), ..Default::default() });
        }
        if self.c.options && self.r.pct(15) {
            e.options.get_or_insert_with(Default::default).deprecated = Some(self.r.bool());
        }
        if self.r.pct(25) {
            // reserved range (inclusive) avoiding used numbers
            for _ in 0..3 {
                let a = self.r.range(-100, 1000) as i32;
                let b = a + self.r.below(20) as i32;
                if used.iter().all(|&u| u < a || u > b)
                    && e.reserved_range.iter().all(|r| b < r.start() || a > r.end())
                {
                    e.reserved_range.push(EnumReservedRange { start: Some(a), end: Some(b) });
                }
            }
            e.reserved_name.push("RESERVED_NAME".into());
        }
        self.types.push(TypeRef {
            full: join(scope, &name),
            file,
            proto3,
            is_enum: true,
            first_value: e.value[0].name().to_string(),
            values: e.value.iter().map(|v| v.name().to_string()).collect(),
            ext_ranges: vec![],
        });
        e
    }

    fn skeleton(&mut self, scope: &str, proto3: bool, file: usize, depth: usize) -> DescriptorProto {
        let name = self.type_name(scope, "Msg");
        let full = join(scope, &name);
        let mut m = DescriptorProto { name: Some(name), ..Default::default() };
        let mut ext_ranges = vec![];
        if self.c.exts && !proto3 && self.r.pct(70) {
            for (a, b) in [(1000, 1010), (5000, 25000), (100_000, 536_870_912), (200, 201)] {
                if self.r.pct(60) {
                    ext_ranges.push((a, b));
                }
            }
            self.r.shuffle(&mut ext_ranges);
            for (a, b) in &ext_ranges {
                m.extension_range.push(ExtensionRange { start: Some(*a), end: Some(*b), options: None });
            }
        }
        if self.r.pct(25) {
            m.reserved_range.push(ReservedRange { start: Some(500), end: Some(600) });
            if self.r.bool() {
                m.reserved_range.push(ReservedRange { start: Some(700), end: Some(701) });
            }
            m.reserved_name.push("old_name".into());
            if self.r.bool() {
                m.reserved_name.push("gone".into());
            }
        }
        self.types.push(TypeRef {
            full: full.clone(),
            file,
            proto3,
            is_enum: false,
            first_value: String::new(),
            values: vec![],
            ext_ranges,
        });
        if depth < 2 {
            while self.r.pct(30) && m.nested_type.len() < 3 {
                let n = self.skeleton(&full, proto3, file, depth + 1);
                m.nested_type.push(n);
            }
            while self.c.enums && self.r.pct(25) && m.enum_type.len() < 2 {
                let e = self.gen_enum(&full, proto3, file);
                m.enum_type.push(e);
            }
        }
        m
    }

    fn fill_file(&mut self, idx: usize, proto3: bool) {
        let pkg = self.files[idx].package().to_string();
        let nm = 1 + self.r.below(self.c.max_msgs);
        let mut msgs = vec![];
        for _ in 0..nm {
            msgs.push(self.skeleton(&pkg, proto3, idx, 0));
        }
        let mut enums = vec![];
        if self.c.enums {
            for _ in 0..self.r.below(3) {
                enums.push(self.gen_enum(&pkg, proto3, idx));
            }
        }
        for m in &mut msgs {
            self.fill_msg(&pkg, m, proto3, idx);
        }
        let mut exts = vec![];
        if self.c.exts && !proto3 {
            for _ in 0..self.r.below(5) {
                if let Some(e) = self.gen_ext(&pkg, proto3, idx, &mut msgs) {
                    exts.push(e);
                }
            }
        }
        let mut svcs = vec![];
        if self.c.services {
            for _ in 0..self.r.below(3) {
                let sname = self.type_name(&pkg, "Svc");
                let mut s = ServiceDescriptorProto { name: Some(sname), ..Default::default() };
                let vis = self.visible_msgs(idx);
                for k in 0..self.r.below(4) {
                    let a = self.r.pick(&vis).full.clone();
                    let b = self.r.pick(&vis).full.clone();
                    s.method.push(MethodDescriptorProto {
                        name: Some(format!("Do{k}")),
                        input_type: Some(format!(".{a}")),
                        output_type: Some(format!(".{b}")),
                        client_streaming: self.r.pct(50).then(|| self.r.bool()),
                        server_streaming: self.r.pct(50).then(|| self.r.bool()),
                        options: None,
                    });
                }
                svcs.push(s);
            }
        }
        let f = &mut self.files[idx];
        f.message_type = msgs;
        f.enum_type = enums;
        f.extension = exts;
        f.service = svcs;
        if self.c.options && self.r.pct(20) {
            f.options = Some(FileOptions {
                java_package: Some("com.example".into()),
                deprecated: Some(true),
                ..Default::default()
            });
        }
    }

    fn visible_msgs(&self, idx: usize) -> Vec<TypeRef> {
        self.types.iter().filter(|t| !t.is_enum && self.visible[idx].contains(&t.file)).cloned().collect()
    }

    fn visible_enums(&self, idx: usize, proto3: bool) -> Vec<TypeRef> {
        self.types
            .iter()
            .filter(|t| t.is_enum && self.visible[idx].contains(&t.file) && (!proto3 || t.proto3))
            .cloned()
            .collect()
    }

    fn scalar(&mut self) -> Type {
        *self.r.pick(&[
            Type::Double,
            Type::Float,
            Type::Int64,
            Type::Uint64,
            Type::Int32,
            Type::Fixed64,
            Type::Fixed32,
            Type::Bool,
            Type::String,
            Type::Bytes,
            Type::Uint32,
            Type::Sfixed32,
            Type::Sfixed64,
            Type::Sint32,
            Type::Sint64,
        ])
    }

    fn default_for(&mut self, t: Type, en: Option<&TypeRef>) -> Option<String> {
        let r = &mut *self.r;
        Some(match t {
            Type::Double => r
                .pick(&["1.5", "-0", "inf", "-inf", "nan", "1e+300", "0.1", "-2.5e-07", "3", "0"])
                .to_string(),
            Type::Float => r.pick(&["1.5", "-0", "inf", "-inf", "nan", "1e+30", "0.1", "16777216", "0"]).to_string(),
            Type::Int32 | Type::Sint32 | Type::Sfixed32 => {
                let v = *r.pick(&[0, 1, -1, i32::MAX, i32::MIN, 42]);
                v.to_string()
            }
            Type::Int64 | Type::Sint64 | Type::Sfixed64 => {
                let v = *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, 42]);
                v.to_string()
            }
            Type::Uint32 | Type::Fixed32 => r.pick(&[0, 1, u32::MAX, 7]).to_string(),
            Type::Uint64 | Type::Fixed64 => r.pick(&[0, 1, u64::MAX, 7]).to_string(),
            Type::Bool => r.bool().to_string(),
            Type::String => r.pick(&["", "hello", "quote\"'\\n", "ünï", "multi\nline\ttab"]).to_string(),
            Type::Bytes => r
                .pick(&["", "abc", "\\000\\001\\377", "q\\\"\\'\\\\", "\\n\\r\\t\\a\\b\\f\\v", "\\x41\\xff\\?", "\\0A\\12z"])
                .to_string(),
            Type::Enum => {
                let e = en.unwrap();
                if r.bool() {
                    e.first_value.clone()
                } else {
                    r.pick(&e.values).clone()
                }
            }
            _ => return None,
        })
    }

    fn pick_number(&mut self, used: &mut BTreeSet<i32>, style: usize) -> i32 {
        loop {
            let n = match style {
                0 => used.len() as i32 + 1,
                _ => match self.r.below(12) {
                    0 if self.high && self.r.pct(60) => *self.r.pick(&[262_143, 262_144, 33_554_431, 33_554_432, 268_435_456, 536_870_910, 536_870_911]),
                    0 if self.high => *self.r.pick(&[5000, 18_999, 20_000, 24_999]),
                    0 => *self.r.pick(&[15, 16, 127, 128, 2047, 2048, 26000]),
                    1 => self.r.range(30000, 99999) as i32,
                    2 => self.r.range(110, 190) as i32,
                    _ => self.r.range(1, 30) as i32,
                },
            };
            if (self.high || !(5000..25000).contains(&n)) && used.insert(n) {
                return n;
            }
        }
    }

    fn gen_type(&mut self, f: &mut FieldDescriptorProto, idx: usize, proto3: bool, allow_group: bool, scope: &str, nested: &mut Vec<DescriptorProto>) {
        let x = self.r.below(100);
        if x < 12 {
            let es = self.visible_enums(idx, proto3);
            if !es.is_empty() {
                let e = self.r.pick(&es).clone();
                f.set_type(Type::Enum);
                f.type_name = Some(format!(".{}", e.full));
                if self.c.defaults && !proto3 && f.label() != Label::Repeated && self.r.pct(35) {
                    f.default_value = self.default_for(Type::Enum, Some(&e));
                }
                return;
            }
        } else if x < 32 {
            let ms = self.visible_msgs(idx);
            if !ms.is_empty() {
                let m = self.r.pick(&ms).clone();
                f.set_type(Type::Message);
                f.type_name = Some(format!(".{}", m.full));
                return;
            }
        } else if x < 39 && allow_group && self.c.groups && !proto3 {
            let n = self.next(scope);
            let gname = format!("{}{n}", self.r.pick(&["Group", "MyGrp", "G"]));
            f.name = Some(gname.to_lowercase());
            f.set_type(Type::Group);
            let full = join(scope, &gname);
            f.type_name = Some(format!(".{full}"));
            let mut m = DescriptorProto { name: Some(gname), ..Default::default() };
            self.types.push(TypeRef {
                full: full.clone(),
                file: idx,
                proto3,
                is_enum: false,
                first_value: String::new(),
                values: vec![],
                ext_ranges: vec![],
            });
            // a few fields
            let mut used = BTreeSet::new();
            for _ in 0..self.r.below(4) {
                let mut gf = FieldDescriptorProto { name: Some(self.field_name(&full)), ..Default::default() };
                gf.number = Some(self.pick_number(&mut used, 1));
                gf.set_label(*self.r.pick(&[Label::Optional, Label::Required, Label::Repeated]));
                let mut none = vec![];
                self.gen_type(&mut gf, idx, proto3, false, &full, &mut none);
                self.finish_field(&mut gf, proto3);
                m.field.push(gf);
            }
            nested.push(m);
            return;
        }
        let t = self.scalar();
        f.set_type(t);
        if self.c.defaults && !proto3 && f.label() != Label::Repeated && self.r.pct(30) {
            f.default_value = self.default_for(t, None);
        }
    }

    fn finish_field(&mut self, f: &mut FieldDescriptorProto, proto3: bool) {
        let packable = f.label() == Label::Repeated
            && !matches!(f.r#type(), Type::String | Type::Bytes | Type::Message | Type::Group);
        let mut o = FieldOptions::default();
        let mut any = false;
        if packable && self.r.pct(45) {
            o.packed = Some(self.r.bool());
            any = true;
        }
        if self.c.options && self.r.pct(12) {
            o.deprecated = Some(self.r.bool());
            any = true;
        }
        if self.c.options && self.r.pct(3) && matches!(f.r#type(), Type::Int64 | Type::Uint64) {
            o.set_jstype(field_options::JsType::JsString);
            any = true;
        }
        let _ = proto3;
        if any {
            f.options = Some(o);
        }
        if self.r.pct(30) {
            f.json_name = Some(default_json_name(f.name()));
        }
    }

    fn custom_json(&mut self, scope: &str) -> String {
        let n = self.next(&format!("{scope}#json"));
        if self.c.cpp {
            return format!("custom{n}Json");
        }
        match self.r.below(6) {
            0 => format!("j s\"on{n}"),
            1 => format!("jsön{n}"),
            2 => format!("@json{n}"),
            3 => format!("json.{n}"),
            4 => format!("JSON_{n}"),
            _ => format!("json{n}"),
        }
    }

    fn fill_msg(&mut self, scope: &str, m: &mut DescriptorProto, proto3: bool, idx: usize) {
        let full = join(scope, m.name());
        let mut nested = std::mem::take(&mut m.nested_type);
        for n in &mut nested {
            self.fill_msg(&full, n, proto3, idx);
        }
        let mut used: BTreeSet<i32> = BTreeSet::new();
        let style = self.r.below(3);
        let mut nf = self.r.below(self.c.max_fields + 1);
        if self.c.max_fields > 4 && self.r.pct(2) {
            nf = 20 + self.r.below(50);
        }
        self.high = m.extension_range.is_empty();
        let mut i = 0;
        let mut fields: Vec<FieldDescriptorProto> = vec![];
        let mut oneofs: Vec<OneofDescriptorProto> = vec![];
        while i < nf {
            i += 1;
            let what = self.r.below(100);
            if what < 14 {
                // a oneof with 1..=4 members
                let n = self.next(&full);
                let oname = match self.r.below(3) {
                    0 => format!("choice_{n}"),
                    1 => format!("_of{n}"),
                    _ => format!("OneOf{n}"),
                };
                let oi = oneofs.len() as i32;
                oneofs.push(OneofDescriptorProto { name: Some(oname), options: None });
                for _ in 0..1 + self.r.below(4) {
                    let mut f = self.new_field(&full, &mut used, style);
                    f.set_label(Label::Optional);
                    f.oneof_index = Some(oi);
                    self.gen_type(&mut f, idx, proto3, true, &full, &mut nested);
                    self.finish_field(&mut f, proto3);
                    fields.push(f);
                }
            } else if what < 30 {
                // a map
                let mut f = self.new_field(&full, &mut used, style);
                f.set_label(Label::Repeated);
                f.set_type(Type::Message);
                let en = map_entry_name(f.name());
                f.type_name = Some(format!(".{full}.{en}"));
                let mut k = FieldDescriptorProto {
                    name: Some("key".into()),
                    number: Some(1),
                    json_name: Some("key".into()),
                    ..Default::default()
                };
                k.set_label(Label::Optional);
                loop {
                    let t = self.scalar();
                    if !matches!(t, Type::Double | Type::Float | Type::Bytes) {
                        k.set_type(t);
                        break;
                    }
                }
                let mut v = FieldDescriptorProto {
                    name: Some("value".into()),
                    number: Some(2),
                    json_name: Some("value".into()),
                    ..Default::default()
                };
                v.set_label(Label::Optional);
                let mut none = vec![];
                let save = self.c.defaults;
                self.c.defaults = false;
                loop {
                    v.type_name = None;
                    self.gen_type(&mut v, idx, proto3, false, &full, &mut none);
                    // libprotobuf requires enum map values to start at zero
                    if v.r#type() == Type::Enum {
                        let tn = v.type_name().trim_start_matches('.').to_string();
                        if !self.types.iter().any(|t| t.full == tn && t.proto3) {
                            continue;
                        }
                    }
                    break;
                }
                self.c.defaults = save;
                nested.push(DescriptorProto {
                    name: Some(en),
                    field: vec![k, v],
                    options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }),
                    ..Default::default()
                });
                if self.r.pct(30) {
                    f.json_name = Some(default_json_name(f.name()));
                }
                fields.push(f);
            } else {
                let mut f = self.new_field(&full, &mut used, style);
                let l = match self.r.below(10) {
                    0..=3 => Label::Repeated,
                    4 if !proto3 => Label::Required,
                    _ => Label::Optional,
                };
                f.set_label(l);
                self.gen_type(&mut f, idx, proto3, true, &full, &mut nested);
                self.finish_field(&mut f, proto3);
                if proto3 && l == Label::Optional && self.r.pct(40) {
                    f.proto3_optional = Some(true);
                }
                fields.push(f);
            }
        }
        // synthetic oneofs come last
        for f in &mut fields {
            if f.proto3_optional() {
                f.oneof_index = Some(oneofs.len() as i32);
                oneofs.push(OneofDescriptorProto { name: Some(format!("_{}", f.name())), options: None });
            }
        }
        if self.c.weird_json {
            for f in &mut fields {
                if self.r.pct(12) {
                    f.json_name = Some(self.custom_json(&full));
                }
            }
            // one field's JSON name is another field's own name
            if !self.c.cpp && fields.len() > 1 && self.r.pct(10) {
                let i = self.r.below(fields.len());
                let j = (i + 1 + self.r.below(fields.len() - 1)) % fields.len();
                let other = fields[j].name().to_string();
                if !fields.iter().any(|f| f.json_name() == other && f.name() != other) {
                    fields[j].json_name = Some(self.custom_json(&full));
                    fields[i].json_name = Some(other);
                }
            }
        }
        if style == 2 {
            // declaration order different from number order; members of one oneof stay together
            if oneofs.is_empty() {
                self.r.shuffle(&mut fields);
            }
        }
        m.field = fields;
        m.oneof_decl = oneofs;
        m.nested_type = nested;
        if self.c.options && self.r.pct(10) {
            m.options = Some(MessageOptions { deprecated: Some(true), ..Default::default() });
        }
        if self.c.exts && !proto3 {
            for _ in 0..self.r.below(3) {
                let mut nest = std::mem::take(&mut m.nested_type);
                if let Some(e) = self.gen_ext(&full, proto3, idx, &mut nest) {
                    m.extension.push(e);
                }
                m.nested_type = nest;
            }
        }
    }

    fn new_field(&mut self, scope: &str, used: &mut BTreeSet<i32>, style: usize) -> FieldDescriptorProto {
        FieldDescriptorProto {
            name: Some(self.field_name(scope)),
            number: Some(self.pick_number(used, style)),
            ..Default::default()
        }
    }

    fn gen_ext(&mut self, scope: &str, proto3: bool, idx: usize, nested: &mut Vec<DescriptorProto>) -> Option<FieldDescriptorProto> {
        let cands: Vec<TypeRef> =
            self.visible_msgs(idx).into_iter().filter(|t| !t.ext_ranges.is_empty()).collect();
        if cands.is_empty() {
            return None;
        }
        let t = self.r.pick(&cands).clone();
        let mut tries = 0;
        let num = loop {
            tries += 1;
            if tries > 20 {
                return None;
            }
            let (a, b) = *self.r.pick(&t.ext_ranges);
            let n = match self.r.below(3) {
                0 => a,
                1 => b - 1,
                _ => self.r.range(a as i64, b as i64 - 1) as i32,
            };
            if !(19000..20000).contains(&n) && self.used_ext.insert((t.full.clone(), n)) {
                break n;
            }
        };
        let mut f = FieldDescriptorProto {
            name: Some(self.field_name(scope)),
            number: Some(num),
            extendee: Some(format!(".{}", t.full)),
            ..Default::default()
        };
        f.set_label(*self.r.pick(&[Label::Optional, Label::Optional, Label::Repeated]));
        self.gen_type(&mut f, idx, proto3, true, scope, nested);
        self.finish_field(&mut f, proto3);
        Some(f)
    }
}

pub fn gen_files(r: &mut Rng, c: GenCfg) -> Vec<FileDescriptorProto> {
    Gen::new(r, c).generate()
}

pub fn gen_schema(r: &mut Rng, c: GenCfg) -> RSchema {
    RSchema::new(&gen_files(r, c))
}
