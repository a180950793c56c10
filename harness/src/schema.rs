//! The reference schema: an independent reading of *resolved* file descriptors
//! (the form protoc emits: absolute type names, explicit types).
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::*;
use std::collections::BTreeMap;
use std::option::Option;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RKind {
    Double,
    Float,
    Int32,
    Int64,
    Uint32,
    Uint64,
    Sint32,
    Sint64,
    Fixed32,
    Fixed64,
    Sfixed32,
    Sfixed64,
    Bool,
    Str,
    Bytes,
    Enum(String),
    Msg(String),
    Group(String),
}

impl RKind {
    pub fn packable(&self) -> bool {
        !matches!(self, RKind::Str | RKind::Bytes | RKind::Msg(_) | RKind::Group(_))
    }
    pub fn wire(&self) -> u8 {
        use RKind::*;
        match self {
            Double | Fixed64 | Sfixed64 => 1,
            Float | Fixed32 | Sfixed32 => 5,
            Str | Bytes | Msg(_) => 2,
            Group(_) => 3,
            _ => 0,
        }
    }
    pub fn msg(&self) -> Option<&str> {
        match self {
            RKind::Msg(m) | RKind::Group(m) => Some(m),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Card {
    Opt,
    Req,
    Rep,
}

#[derive(Clone, Debug)]
pub struct RField {
    pub name: String,
    pub full_name: String,
    pub json_name: String,
    pub number: u32,
    pub kind: RKind,
    pub card: Card,
    pub packed: bool,
    /// explicit presence
    pub presence: bool,
    pub oneof: Option<usize>,
    pub default: Option<String>,
    pub is_map: bool,
    pub is_ext: bool,
}

impl RField {
    pub fn is_list(&self) -> bool {
        self.card == Card::Rep && !self.is_map
    }
    pub fn singular(&self) -> bool {
        self.card != Card::Rep
    }
    pub fn is_group(&self) -> bool {
        matches!(self.kind, RKind::Group(_))
    }
}

#[derive(Clone, Debug)]
pub struct ROneof {
    pub name: String,
    pub synthetic: bool,
    pub fields: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct RMsgDesc {
    pub full_name: String,
    pub file: usize,
    pub path: Vec<i32>,
    pub parent: Option<String>,
    pub fields: BTreeMap<u32, RField>,
    /// field numbers in declaration order
    pub order: Vec<u32>,
    pub oneofs: Vec<ROneof>,
    pub ext_ranges: Vec<(i64, i64)>,
    pub map_entry: bool,
    pub proto: DescriptorProto,
}

#[derive(Clone, Debug)]
pub struct REnumDesc {
    pub full_name: String,
    pub file: usize,
    pub path: Vec<i32>,
    pub parent: Option<String>,
    pub values: Vec<(String, i32)>,
    pub proto3: bool,
    pub proto: EnumDescriptorProto,
}

#[derive(Clone, Debug)]
pub struct RExt {
    pub field: RField,
    pub extendee: String,
    pub file: usize,
    pub path: Vec<i32>,
    pub parent: Option<String>,
    pub proto: FieldDescriptorProto,
}

#[derive(Clone, Debug)]
pub struct RSvc {
    pub full_name: String,
    pub file: usize,
    pub path: Vec<i32>,
    pub proto: ServiceDescriptorProto,
}

#[derive(Clone, Debug, Default)]
pub struct RSchema {
    pub files: Vec<FileDescriptorProto>,
    pub msgs: BTreeMap<String, RMsgDesc>,
    pub enums: BTreeMap<String, REnumDesc>,
    pub exts: Vec<RExt>,
    /// (extendee, number) -> index in exts
    pub ext_by_num: BTreeMap<(String, u32), usize>,
    pub svcs: Vec<RSvc>,
}

pub fn join(scope: &str, name: &str) -> String {
    if scope.is_empty() {
        name.to_string()
    } else {
        format!("{scope}.{name}")
    }
}

/// The lowerCamelCase rule of the language specification for default JSON names.
pub fn default_json_name(name: &str) -> String {
    let mut out = Vec::new();
    let mut up = false;
    for &b in name.as_bytes() {
        if b == b'_' {
            up = true;
            continue;
        }
        out.push(if up { b.to_ascii_uppercase() } else { b });
        up = false;
    }
    String::from_utf8(out).unwrap()
}

fn kind_of(f: &FieldDescriptorProto) -> RKind {
    let tn = || f.type_name().trim_start_matches('.').to_string();
    match f.r#type() {
        Type::Double => RKind::Double,
        Type::Float => RKind::Float,
        Type::Int64 => RKind::Int64,
        Type::Uint64 => RKind::Uint64,
        Type::Int32 => RKind::Int32,
        Type::Fixed64 => RKind::Fixed64,
        Type::Fixed32 => RKind::Fixed32,
        Type::Bool => RKind::Bool,
        Type::String => RKind::Str,
        Type::Group => RKind::Group(tn()),
        Type::Message => RKind::Msg(tn()),
        Type::Bytes => RKind::Bytes,
        Type::Uint32 => RKind::Uint32,
        Type::Enum => RKind::Enum(tn()),
        Type::Sfixed32 => RKind::Sfixed32,
        Type::Sfixed64 => RKind::Sfixed64,
        Type::Sint32 => RKind::Sint32,
        Type::Sint64 => RKind::Sint64,
    }
}

impl RSchema {
    pub fn new(files: &[FileDescriptorProto]) -> RSchema {
        let mut s = RSchema::default();
        for f in files {
            s.add(f.clone());
        }
        s.finish();
        s
    }

    fn add(&mut self, f: FileDescriptorProto) {
        let idx = self.files.len();
        let p3 = f.syntax() == "proto3";
        let pkg = f.package().to_string();
        for (i, m) in f.message_type.iter().enumerate() {
            self.add_msg(idx, &pkg, None, m, p3, vec![4, i as i32]);
        }
        for (i, e) in f.enum_type.iter().enumerate() {
            self.add_enum(idx, &pkg, None, e, p3, vec![5, i as i32]);
        }
        for (i, e) in f.extension.iter().enumerate() {
            self.add_ext(idx, &pkg, None, e, p3, vec![7, i as i32]);
        }
        for (i, sv) in f.service.iter().enumerate() {
            self.svcs.push(RSvc { full_name: join(&pkg, sv.name()), file: idx, path: vec![6, i as i32], proto: sv.clone() });
        }
        self.files.push(f);
    }

    fn field(scope: &str, f: &FieldDescriptorProto, p3: bool, is_ext: bool) -> RField {
        let kind = kind_of(f);
        let card = match f.label() {
            Label::Optional => Card::Opt,
            Label::Required => Card::Req,
            Label::Repeated => Card::Rep,
        };
        let full_name = join(scope, f.name());
        let packed = card == Card::Rep
            && kind.packable()
            && f.options.as_ref().and_then(|o| o.packed).unwrap_or(p3);
        let presence = card != Card::Rep
            && (is_ext || !p3 || f.oneof_index.is_some() || f.proto3_optional() || kind.msg().is_some());
        RField {
            name: f.name().to_string(),
            json_name: if is_ext {
                format!("[{full_name}]")
            } else {
                f.json_name.clone().unwrap_or_else(|| default_json_name(f.name()))
            },
            full_name,
            number: f.number() as u32,
            kind,
            card,
            packed,
            presence,
            oneof: f.oneof_index.map(|i| i as usize),
            default: f.default_value.clone(),
            is_map: false,
            is_ext,
        }
    }

    fn add_msg(&mut self, file: usize, scope: &str, parent: Option<String>, m: &DescriptorProto, p3: bool, path: Vec<i32>) {
        let full = join(scope, m.name());
        let mut fields = BTreeMap::new();
        let mut order = vec![];
        let mut oneofs: Vec<ROneof> = m
            .oneof_decl
            .iter()
            .map(|o| ROneof { name: o.name().to_string(), synthetic: false, fields: vec![] })
            .collect();
        for f in &m.field {
            let rf = Self::field(&full, f, p3, false);
            if let Some(o) = rf.oneof {
                oneofs[o].fields.push(rf.number);
                if f.proto3_optional() {
                    oneofs[o].synthetic = true;
                }
            }
            order.push(rf.number);
            fields.insert(rf.number, rf);
        }
        for (i, n) in m.nested_type.iter().enumerate() {
            let mut p = path.clone();
            p.extend([3, i as i32]);
            self.add_msg(file, &full, Some(full.clone()), n, p3, p);
        }
        for (i, n) in m.enum_type.iter().enumerate() {
            let mut p = path.clone();
            p.extend([4, i as i32]);
            self.add_enum(file, &full, Some(full.clone()), n, p3, p);
        }
        for (i, n) in m.extension.iter().enumerate() {
            let mut p = path.clone();
            p.extend([6, i as i32]);
            self.add_ext(file, &full, Some(full.clone()), n, p3, p);
        }
        self.msgs.insert(
            full.clone(),
            RMsgDesc {
                full_name: full,
                file,
                path,
                parent,
                fields,
                order,
                oneofs,
                ext_ranges: m.extension_range.iter().map(|r| (r.start() as i64, r.end() as i64)).collect(),
                map_entry: m.options.as_ref().is_some_and(|o| o.map_entry()),
                proto: m.clone(),
            },
        );
    }

    fn add_enum(&mut self, file: usize, scope: &str, parent: Option<String>, e: &EnumDescriptorProto, p3: bool, path: Vec<i32>) {
        let full = join(scope, e.name());
        self.enums.insert(
            full.clone(),
            REnumDesc {
                full_name: full,
                file,
                path,
                parent,
                values: e.value.iter().map(|v| (v.name().to_string(), v.number())).collect(),
                proto3: p3,
                proto: e.clone(),
            },
        );
    }

    fn add_ext(&mut self, file: usize, scope: &str, parent: Option<String>, f: &FieldDescriptorProto, p3: bool, path: Vec<i32>) {
        let field = Self::field(scope, f, p3, true);
        self.exts.push(RExt {
            field,
            extendee: f.extendee().trim_start_matches('.').to_string(),
            file,
            path,
            parent,
            proto: f.clone(),
        });
    }

    fn finish(&mut self) {
        let map_entries: std::collections::BTreeSet<String> =
            self.msgs.values().filter(|m| m.map_entry).map(|m| m.full_name.clone()).collect();
        for m in self.msgs.values_mut() {
            for f in m.fields.values_mut() {
                if f.card == Card::Rep {
                    if let RKind::Msg(n) = &f.kind {
                        f.is_map = map_entries.contains(n);
                    }
                }
            }
        }
        for (i, e) in self.exts.iter().enumerate() {
            self.ext_by_num.insert((e.extendee.clone(), e.field.number), i);
        }
    }

    pub fn msg(&self, name: &str) -> &RMsgDesc {
        self.msgs.get(name).unwrap_or_else(|| panic!("reference schema has no message {name}"))
    }

    pub fn field_of(&self, msg: &str, number: u32) -> Option<&RField> {
        self.msgs.get(msg).and_then(|m| m.fields.get(&number)).or_else(|| {
            self.ext_by_num.get(&(msg.to_string(), number)).map(|&i| &self.exts[i].field)
        })
    }

    pub fn exts_of<'a>(&'a self, msg: &'a str) -> impl Iterator<Item = &'a RField> + 'a {
        self.ext_by_num
            .range((msg.to_string(), 0)..=(msg.to_string(), u32::MAX))
            .map(move |(_, &i)| &self.exts[i].field)
    }

    pub fn map_kv(&self, f: &RField) -> (&RField, &RField) {
        let m = self.msg(f.kind.msg().unwrap());
        (&m.fields[&1], &m.fields[&2])
    }

    /// messages that are not map entries
    pub fn plain_msgs(&self) -> Vec<String> {
        self.msgs.values().filter(|m| !m.map_entry).map(|m| m.full_name.clone()).collect()
    }

    pub fn enum_default(&self, name: &str) -> i32 {
        self.enums[name].values[0].1
    }
}
