//! Single faults injected into valid descriptor sets, with the place each one is at.
use crate::rng::Rng;
use crate::schema::join;
use crate::scope::{self, Sym, Table};
use prost_types::descriptor_proto::{ExtensionRange, ReservedRange};
use prost_types::enum_descriptor_proto::EnumReservedRange;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::uninterpreted_option::NamePart;
use prost_types::*;
use std::option::Option;

pub type Place = (String, Vec<i32>);

#[derive(Debug, Clone, Default)]
pub struct Fault {
    pub kind: &'static str,
    pub what: String,
    /// the file the fault is in
    pub file: usize,
    /// places that count as the offending element (file, path); empty if the library documents none
    pub places: Vec<Place>,
    /// further places that may be labelled (the earlier definition and the like)
    pub related: Vec<Place>,
    /// words that must appear in the message (any one of them)
    pub mention: Vec<String>,
}

#[derive(Debug, Clone)]
pub struct El {
    pub file: usize,
    pub path: Vec<i32>,
    pub full: String,
    pub scope: String,
}

fn cat(p: &[i32], q: &[i32]) -> Vec<i32> {
    [p, q].concat()
}

pub fn msgs(files: &[FileDescriptorProto]) -> Vec<El> {
    fn go(i: usize, path: Vec<i32>, scope: &str, m: &DescriptorProto, out: &mut Vec<El>) {
        let full = join(scope, m.name());
        for (k, n) in m.nested_type.iter().enumerate() {
            go(i, cat(&path, &[3, k as i32]), &full, n, out);
        }
        out.push(El { file: i, path, full, scope: scope.into() });
    }
    let mut out = vec![];
    for (i, f) in files.iter().enumerate() {
        for (k, m) in f.message_type.iter().enumerate() {
            go(i, vec![4, k as i32], f.package(), m, &mut out);
        }
    }
    out
}

pub fn msg<'a>(files: &'a [FileDescriptorProto], e: &El) -> &'a DescriptorProto {
    let mut m = &files[e.file].message_type[e.path[1] as usize];
    for c in e.path[2..].chunks(2) {
        m = &m.nested_type[c[1] as usize];
    }
    m
}

pub fn msg_mut<'a>(files: &'a mut [FileDescriptorProto], file: usize, path: &[i32]) -> &'a mut DescriptorProto {
    let mut m = &mut files[file].message_type[path[1] as usize];
    for c in path[2..].chunks(2) {
        m = &mut m.nested_type[c[1] as usize];
    }
    m
}

pub fn enums(files: &[FileDescriptorProto]) -> Vec<El> {
    let mut out = vec![];
    for (i, f) in files.iter().enumerate() {
        for (k, e) in f.enum_type.iter().enumerate() {
            out.push(El { file: i, path: vec![5, k as i32], full: join(f.package(), e.name()), scope: f.package().into() });
        }
    }
    for m in msgs(files) {
        for (k, e) in msg(files, &m).enum_type.iter().enumerate() {
            out.push(El { file: m.file, path: cat(&m.path, &[4, k as i32]), full: join(&m.full, e.name()), scope: m.full.clone() });
        }
    }
    out
}

pub fn enum_of<'a>(files: &'a [FileDescriptorProto], file: usize, path: &[i32]) -> &'a EnumDescriptorProto {
    let n = path.len();
    if n == 2 {
        &files[file].enum_type[path[1] as usize]
    } else {
        let mut m = &files[file].message_type[path[1] as usize];
        for c in path[2..n - 2].chunks(2) {
            m = &m.nested_type[c[1] as usize];
        }
        &m.enum_type[path[n - 1] as usize]
    }
}

pub fn enum_mut<'a>(files: &'a mut [FileDescriptorProto], file: usize, path: &[i32]) -> &'a mut EnumDescriptorProto {
    let n = path.len();
    if n == 2 {
        &mut files[file].enum_type[path[1] as usize]
    } else {
        &mut msg_mut(files, file, &path[..n - 2]).enum_type[path[n - 1] as usize]
    }
}

/// Fields and extensions; map entry fields are left out.
pub fn fields(files: &[FileDescriptorProto], ext: Option<bool>) -> Vec<El> {
    let mut out = vec![];
    for m in msgs(files) {
        let d = msg(files, &m);
        if d.options.as_ref().is_some_and(|o| o.map_entry()) {
            continue;
        }
        if ext != Some(true) {
            for (k, f) in d.field.iter().enumerate() {
                out.push(El { file: m.file, path: cat(&m.path, &[2, k as i32]), full: join(&m.full, f.name()), scope: m.full.clone() });
            }
        }
        if ext != Some(false) {
            for (k, f) in d.extension.iter().enumerate() {
                out.push(El { file: m.file, path: cat(&m.path, &[6, k as i32]), full: join(&m.full, f.name()), scope: m.full.clone() });
            }
        }
    }
    if ext != Some(false) {
        for (i, f) in files.iter().enumerate() {
            for (k, e) in f.extension.iter().enumerate() {
                out.push(El { file: i, path: vec![7, k as i32], full: join(f.package(), e.name()), scope: f.package().into() });
            }
        }
    }
    out
}

pub fn field_mut<'a>(files: &'a mut [FileDescriptorProto], file: usize, path: &[i32]) -> &'a mut FieldDescriptorProto {
    let n = path.len();
    if n == 2 {
        &mut files[file].extension[path[1] as usize]
    } else {
        let m = msg_mut(files, file, &path[..n - 2]);
        match path[n - 2] {
            2 => &mut m.field[path[n - 1] as usize],
            _ => &mut m.extension[path[n - 1] as usize],
        }
    }
}

pub fn methods(files: &[FileDescriptorProto]) -> Vec<El> {
    let mut out = vec![];
    for (i, f) in files.iter().enumerate() {
        for (k, s) in f.service.iter().enumerate() {
            let full = join(f.package(), s.name());
            for (j, m) in s.method.iter().enumerate() {
                out.push(El { file: i, path: vec![6, k as i32, 2, j as i32], full: join(&full, m.name()), scope: full.clone() });
            }
        }
    }
    out
}

fn method_mut<'a>(files: &'a mut [FileDescriptorProto], e: &El) -> &'a mut MethodDescriptorProto {
    &mut files[e.file].service[e.path[1] as usize].method[e.path[3] as usize]
}

/// Every named element: (file, path of the element, full name, scope, kind).
pub fn named(files: &[FileDescriptorProto]) -> Vec<(El, Sym)> {
    let mut out = vec![];
    for m in msgs(files) {
        let d = msg(files, &m);
        for (k, o) in d.oneof_decl.iter().enumerate() {
            out.push((El { file: m.file, path: cat(&m.path, &[8, k as i32]), full: join(&m.full, o.name()), scope: m.full.clone() }, Sym::Leaf));
        }
        out.push((m, Sym::Message));
    }
    for e in enums(files) {
        let n = e.path.len();
        let vals: Vec<String> = enum_of(files, e.file, &e.path).value.iter().map(|v| v.name().to_string()).collect();
        debug_assert!(n >= 2);
        for (k, v) in vals.iter().enumerate() {
            out.push((El { file: e.file, path: cat(&e.path, &[2, k as i32]), full: join(&e.scope, v), scope: e.scope.clone() }, Sym::Leaf));
        }
        out.push((e, Sym::Enum));
    }
    for f in fields(files, Some(false)) {
        out.push((f, Sym::Leaf));
    }
    for f in fields(files, Some(true)) {
        out.push((f, Sym::Extension));
    }
    for (i, f) in files.iter().enumerate() {
        for (k, s) in f.service.iter().enumerate() {
            out.push((El { file: i, path: vec![6, k as i32], full: join(f.package(), s.name()), scope: f.package().into() }, Sym::Service));
        }
    }
    for m in methods(files) {
        out.push((m, Sym::Leaf));
    }
    out
}

pub fn name_slot<'a>(files: &'a mut [FileDescriptorProto], file: usize, path: &[i32]) -> &'a mut Option<String> {
    let f = &mut files[file];
    let i = path[1] as usize;
    match path[0] {
        4 => {
            let mut m = &mut f.message_type[i];
            let mut p = &path[2..];
            loop {
                match p {
                    [] => return &mut m.name,
                    [3, k, rest @ ..] => {
                        m = &mut m.nested_type[*k as usize];
                        p = rest;
                    }
                    [2, k] => return &mut m.field[*k as usize].name,
                    [6, k] => return &mut m.extension[*k as usize].name,
                    [8, k] => return &mut m.oneof_decl[*k as usize].name,
                    [4, k] => return &mut m.enum_type[*k as usize].name,
                    [4, k, 2, j] => return &mut m.enum_type[*k as usize].value[*j as usize].name,
                    _ => panic!("{path:?}"),
                }
            }
        }
        5 if path.len() == 2 => &mut f.enum_type[i].name,
        5 => &mut f.enum_type[i].value[path[3] as usize].name,
        6 if path.len() == 2 => &mut f.service[i].name,
        6 => &mut f.service[i].method[path[3] as usize].name,
        7 => &mut f.extension[i].name,
        _ => panic!("{path:?}"),
    }
}

pub const KINDS: &[&str] = &[
    "unnamed",
    "unknown-syntax",
    "duplicate-name",
    "duplicate-with-package",
    "duplicate-camel-name",
    "empty-enum",
    "proto3-enum-first-nonzero",
    "duplicate-file",
    "bad-number",
    "no-number",
    "duplicate-number",
    "duplicate-extension-number",
    "reserved-number",
    "number-in-extension-range",
    "extension-out-of-range",
    "duplicate-json-name",
    "duplicate-enum-number",
    "reserved-enum-number",
    "missing-import",
    "dropped-import",
    "bad-import-index",
    "bad-oneof-index",
    "missing-type",
    "missing-extendee",
    "missing-method-type",
    "wrong-kind-type",
    "wrong-kind-extendee",
    "wrong-kind-method-type",
    "invisible-type",
    "bad-default",
    "no-type-name",
    "type-mismatch",
    "unknown-option",
    "ill-typed-option",
    "repeated-option",
];

fn uo(parts: &[(&str, bool)]) -> UninterpretedOption {
    UninterpretedOption {
        name: parts.iter().map(|(n, e)| NamePart { name_part: n.to_string(), is_extension: *e }).collect(),
        ..Default::default()
    }
}

macro_rules! opt_slot {
    ($o:expr) => {
        &mut $o.get_or_insert_with(Default::default).uninterpreted_option
    };
}

/// The uninterpreted options of an element, the path of its options and a standard bool option on it.
pub fn options_slot<'a>(
    files: &'a mut [FileDescriptorProto],
    file: usize,
    path: &[i32],
) -> (&'a mut Vec<UninterpretedOption>, Vec<i32>, Option<&'static str>) {
    let f = &mut files[file];
    if path.is_empty() {
        return (opt_slot!(f.options), vec![8], Some("java_generic_services"));
    }
    let i = path[1] as usize;
    match path[0] {
        4 => {
            let mut m = &mut f.message_type[i];
            let mut p = &path[2..];
            loop {
                match p {
                    [] => return (opt_slot!(m.options), cat(path, &[7]), Some("deprecated")),
                    [3, k, rest @ ..] => {
                        m = &mut m.nested_type[*k as usize];
                        p = rest;
                    }
                    [2, k] => return (opt_slot!(m.field[*k as usize].options), cat(path, &[8]), Some("deprecated")),
                    [6, k] => return (opt_slot!(m.extension[*k as usize].options), cat(path, &[8]), Some("deprecated")),
                    [8, k] => return (opt_slot!(m.oneof_decl[*k as usize].options), cat(path, &[2]), None),
                    [5, k] => return (opt_slot!(m.extension_range[*k as usize].options), cat(path, &[3]), None),
                    [4, k] => return (opt_slot!(m.enum_type[*k as usize].options), cat(path, &[3]), Some("deprecated")),
                    [4, k, 2, j] => {
                        return (opt_slot!(m.enum_type[*k as usize].value[*j as usize].options), cat(path, &[3]), Some("deprecated"))
                    }
                    _ => panic!("{path:?}"),
                }
            }
        }
        5 if path.len() == 2 => (opt_slot!(f.enum_type[i].options), cat(path, &[3]), Some("deprecated")),
        5 => (opt_slot!(f.enum_type[i].value[path[3] as usize].options), cat(path, &[3]), Some("deprecated")),
        6 if path.len() == 2 => (opt_slot!(f.service[i].options), cat(path, &[3]), Some("deprecated")),
        6 => (opt_slot!(f.service[i].method[path[3] as usize].options), cat(path, &[4]), Some("deprecated")),
        7 => (opt_slot!(f.extension[i].options), cat(path, &[8]), Some("deprecated")),
        _ => panic!("{path:?}"),
    }
}

/// Every element that can carry options: files, extension ranges and all named elements.
pub fn option_carriers(files: &[FileDescriptorProto]) -> Vec<(usize, Vec<i32>)> {
    let mut out: Vec<(usize, Vec<i32>)> = named(files).into_iter().map(|(e, _)| (e.file, e.path)).collect();
    for m in msgs(files) {
        for k in 0..msg(files, &m).extension_range.len() {
            out.push((m.file, cat(&m.path, &[5, k as i32])));
        }
    }
    for i in 0..files.len() {
        out.push((i, vec![]));
    }
    out
}

/// Inject one fault of the given kind at a random applicable element among `mine` (indices of files that may be changed).
pub fn inject(r: &mut Rng, files: &mut Vec<FileDescriptorProto>, kind: &'static str, mine: &dyn Fn(usize) -> bool) -> Option<Fault> {
    let name = |files: &[FileDescriptorProto], i: usize| files[i].name().to_string();
    let mut ft = Fault { kind, ..Default::default() };
    macro_rules! place {
        ($f:expr, $($p:expr),+) => {{
            let f = $f;
            ft.file = f;
            ft.places = vec![$((name(files, f), $p)),+];
        }};
    }
    fn pick<T: Clone>(r: &mut Rng, v: Vec<T>) -> Option<T> {
        (!v.is_empty()).then(|| r.pick(&v).clone())
    }
    let own = |v: Vec<El>| -> Vec<El> { v.into_iter().filter(|e| mine(e.file)).collect() };
    match kind {
        "unnamed" => {
            let (e, _) = pick(r, named(files).into_iter().filter(|e| mine(e.0.file)).collect())?;
            let old = e.full.rsplit('.').next().unwrap().to_string();
            *name_slot(files, e.file, &e.path) = match r.below(6) {
                0 | 1 => None,
                2 | 3 => Some(String::new()),
                4 => Some(format!(".{old}")),
                _ => Some(format!("{old}.")),
            };
            place!(e.file, cat(&e.path, &[1]), e.path.clone());
            ft.what = e.full;
        }
        "unknown-syntax" => {
            let i = pick(r, (0..files.len()).filter(|i| mine(*i)).collect())?;
            let s = *r.pick(&["proto4", "Proto3", "proto1", "editions", "proto3 ", "\u{0}"]);
            files[i].syntax = Some(s.into());
            place!(i, vec![12]);
            ft.mention = vec![s.into()];
        }
        "duplicate-name" => {
            let all = named(files);
            let (a, ka) = pick(r, all.clone())?;
            let both_msgs = r.pct(30);
            let (b, _) = pick(
                r,
                all.iter()
                    .filter(|(b, kb)| {
                        mine(b.file)
                            && b.scope == a.scope
                            && (b.file, &b.path) != (a.file, &a.path)
                            // renaming an element must not rename what is below it into another clash
                            && !(a.file == b.file && (a.path.starts_with(&b.path) || b.path.starts_with(&a.path)))
                            && (both_msgs || !(*kb == Sym::Message && ka == Sym::Message))
                    })
                    .cloned()
                    .collect(),
            )?;
            let simple = a.full.rsplit('.').next().unwrap().to_string();
            // two containers of one name may clash below as well: keep the clash single
            *name_slot(files, b.file, &b.path) = Some(simple);
            if Table::new(files).clash.len() != 1 {
                return None;
            }
            if files[b.file].syntax() == "proto3" {
                // the new name may not clash with a third field in another way
                let low = |n: &str| n.replace('_', "").to_ascii_lowercase();
                let last = |e: &El| low(e.full.rsplit('.').next().unwrap());
                if all.iter().any(|(x, _)| x.scope == b.scope && (x.file, &x.path) != (a.file, &a.path) && (x.file, &x.path) != (b.file, &b.path) && last(x) == last(&a)) {
                    return None;
                }
            }
            place!(b.file, cat(&b.path, &[1]));
            let pa = (name(files, a.file), cat(&a.path, &[1]));
            if mine(a.file) {
                ft.places.push(pa.clone());
            }
            ft.related = vec![pa, (name(files, b.file), cat(&b.path, &[1]))];
            // two fields of a proto3 message: their camel-case names clash as well
            ft.mention = vec![a.full.clone(), format!("'{}'", a.full.rsplit('.').next().unwrap())];
            ft.what = format!("{} = {}", b.full, a.full);
        }
        "duplicate-with-package" => {
            let t = Table::new(files);
            let pkgs: Vec<String> = t.syms.iter().filter(|(_, v)| v.0 == Sym::Package).map(|(k, _)| k.clone()).collect();
            let p = pick(r, pkgs)?;
            let (scope, simple) = match p.rsplit_once('.') {
                Some((a, b)) => (a.to_string(), b.to_string()),
                None => (String::new(), p.clone()),
            };
            let (b, k) = pick(r, named(files).into_iter().filter(|(e, _)| mine(e.file) && e.scope == scope).collect())?;
            *name_slot(files, b.file, &b.path) = Some(simple);
            if Table::new(files).clash.iter().filter(|c| **c != p).count() > 0 {
                return None;
            }
            let _ = k;
            place!(b.file, cat(&b.path, &[1]));
            for i in 0..files.len() {
                let q = files[i].package();
                if q == p || q.starts_with(&format!("{p}.")) {
                    let x = (name(files, i), vec![2]);
                    if mine(i) {
                        ft.places.push(x.clone());
                    }
                    ft.related.push(x);
                }
            }
            ft.related.push((name(files, b.file), cat(&b.path, &[1])));
            ft.mention = vec![p.clone()];
            ft.what = p;
        }
        "duplicate-camel-name" => {
            let m = pick(
                r,
                own(msgs(files)).into_iter().filter(|m| files[m.file].syntax() == "proto3" && msg(files, m).field.len() > 1 && !msg(files, m).options.as_ref().is_some_and(|o| o.map_entry())).collect(),
            )?;
            let d = msg_mut(files, m.file, &m.path);
            let a = r.below(d.field.len());
            let b = r.below(d.field.len());
            if a == b {
                return None;
            }
            let base = d.field[a].name().to_string();
            let mut n = String::new();
            for c in base.chars() {
                if r.pct(20) {
                    n.push('_');
                }
                n.push(if r.pct(30) { c.to_ascii_uppercase() } else if r.pct(30) { c.to_ascii_lowercase() } else { c });
            }
            if r.pct(20) {
                n.push('_');
            }
            if n == base {
                n.insert(0, '_');
            }
            // keep the JSON name, so that only the field names clash
            d.field[b].name = Some(n.clone());
            if Table::new(files).clash.len() > 0 {
                return None;
            }
            place!(m.file, cat(&m.path, &[2, a.max(b) as i32, 1]));
            ft.related = vec![(name(files, m.file), cat(&m.path, &[2, a.min(b) as i32, 1]))];
            ft.mention = vec![base, n];
            ft.what = m.full;
        }
        "empty-enum" => {
            let e = pick(r, own(enums(files)))?;
            enum_mut(files, e.file, &e.path).value.clear();
            place!(e.file, e.path.clone());
            ft.what = e.full;
        }
        "proto3-enum-first-nonzero" => {
            let e = pick(r, own(enums(files)).into_iter().filter(|e| files[e.file].syntax() == "proto3").collect())?;
            let d = enum_mut(files, e.file, &e.path);
            let n = *r.pick(&[1, -1, i32::MAX - 7, i32::MIN + 7, 2_000_000]);
            if d.value.iter().any(|v| v.number() == n) || d.reserved_range.iter().any(|x| x.start() <= n && n <= x.end()) {
                return None;
            }
            d.value[0].number = Some(n);
            place!(e.file, cat(&e.path, &[2, 0, 2]));
            ft.what = e.full;
        }
        "duplicate-file" => {
            let i = pick(r, (0..files.len()).filter(|i| mine(*i)).collect())?;
            let mut f = FileDescriptorProto { name: files[i].name.clone(), ..Default::default() };
            f.package = Some(format!("dup{}", r.below(5)));
            f.message_type.push(DescriptorProto { name: Some("Unique".into()), ..Default::default() });
            files.push(f);
            ft.file = i;
            ft.mention = vec![name(files, i)];
        }
        "bad-number" | "no-number" => {
            let e = pick(r, own(fields(files, None)))?;
            let f = field_mut(files, e.file, &e.path);
            let n = *r.pick(&[0, -1, i32::MIN, i32::MAX, 536_870_912, 19_000, 19_999, 19_500]);
            f.number = if kind == "no-number" { None } else { Some(n) };
            place!(e.file, cat(&e.path, &[3]));
            ft.mention = vec![f_num(kind, n)];
            ft.what = format!("{} = {n}", e.full);
        }
        "duplicate-number" => {
            let m = pick(
                r,
                own(msgs(files)).into_iter().filter(|m| msg(files, m).field.len() > 1 && !msg(files, m).options.as_ref().is_some_and(|o| o.map_entry())).collect(),
            )?;
            let d = msg_mut(files, m.file, &m.path);
            let a = r.below(d.field.len());
            let b = r.below(d.field.len());
            if a == b {
                return None;
            }
            d.field[b].number = d.field[a].number;
            let n = d.field[a].number().to_string();
            place!(m.file, cat(&m.path, &[2, a.max(b) as i32, 3]));
            ft.related = vec![(name(files, m.file), cat(&m.path, &[2, a.min(b) as i32, 3]))];
            ft.mention = vec![n];
            ft.what = m.full;
        }
        "reserved-number" | "number-in-extension-range" => {
            let m = pick(
                r,
                own(msgs(files)).into_iter().filter(|m| !msg(files, m).field.is_empty() && !msg(files, m).options.as_ref().is_some_and(|o| o.map_entry())).collect(),
            )?;
            let d = msg_mut(files, m.file, &m.path);
            let k = r.below(d.field.len());
            let n = d.field[k].number();
            if d.reserved_range.iter().any(|x| x.start() <= n && n < x.end()) || d.extension_range.iter().any(|x| x.start() <= n && n < x.end()) {
                return None;
            }
            // a range around the number, or only just reaching it
            let (a, b) = match r.below(4) {
                0 => (n, n + 1),
                1 => (n, n.saturating_add(1 + r.below(50) as i32)),
                2 => ((n - r.below(50) as i32).max(1), n + 1),
                _ => ((n - r.below(50) as i32).max(1), n.saturating_add(1 + r.below(50) as i32)),
            };
            // the range may only cover this field
            if d.field.iter().filter(|f| a <= f.number() && f.number() < b).count() != 1 {
                return None;
            }
            let mut at = 0;
            if kind == "reserved-number" {
                if d.extension_range.iter().any(|x| x.start() < b && a < x.end()) || d.reserved_range.iter().any(|x| x.start() < b && a < x.end()) {
                    return None;
                }
                at = r.below(d.reserved_range.len() + 1).max(at);
                d.reserved_range.insert(at, ReservedRange { start: Some(a), end: Some(b) });
            } else {
                if files[m.file].syntax() == "proto3" {
                    return None;
                }
                let d = msg_mut(files, m.file, &m.path);
                if d.extension_range.iter().any(|x| x.start() < b && a < x.end()) || d.reserved_range.iter().any(|x| x.start() < b && a < x.end()) {
                    return None;
                }
                at = d.extension_range.len().max(at);
                d.extension_range.push(ExtensionRange { start: Some(a), end: Some(b), options: None });
                if r.pct(30) {
                    // a field of a message is none of its extensions, whatever it says
                    d.field[k].extendee = Some(format!(".{}", m.full));
                }
            }
            place!(m.file, cat(&m.path, &[2, k as i32, 3]));
            let tag = if kind == "reserved-number" { 9 } else { 5 };
            ft.related = vec![(name(files, m.file), cat(&m.path, &[tag, at as i32]))];
            ft.mention = vec![n.to_string()];
            ft.what = format!("{} field {n} in {a}..{b}", m.full);
        }
        "extension-out-of-range" => {
            let e = pick(r, own(fields(files, Some(true))))?;
            let ext = field_mut(files, e.file, &e.path).extendee().trim_start_matches('.').to_string();
            let owner = msgs(files).into_iter().find(|m| m.full == ext)?;
            let d = msg(files, &owner).clone();
            let mut cands: Vec<i32> = vec![1, 100, 18_999, 20_000, 536_870_911];
            for x in &d.extension_range {
                cands.push(x.end());
                cands.push(x.start() - 1);
            }
            cands.retain(|n| {
                (1..=536_870_911).contains(n)
                    && !(19_000..20_000).contains(n)
                    && !d.extension_range.iter().any(|x| x.start() <= *n && *n < x.end())
                    && !d.reserved_range.iter().any(|x| x.start() <= *n && *n < x.end())
            });
            let n = pick(r, cands)?;
            field_mut(files, e.file, &e.path).number = Some(n);
            place!(e.file, cat(&e.path, &[3]));
            ft.mention = vec![n.to_string()];
            ft.what = format!("{} = {n}", e.full);
        }
        "duplicate-extension-number" => {
            let all = fields(files, Some(true));
            let b = pick(r, own(all.clone()))?;
            let of = field_mut(files, b.file, &b.path).extendee().to_string();
            let a = pick(
                r,
                all.into_iter().filter(|a| (a.file, &a.path) != (b.file, &b.path)).filter(|a| field_mut(files, a.file, &a.path).extendee() == of).collect(),
            )?;
            let n = field_mut(files, a.file, &a.path).number;
            field_mut(files, b.file, &b.path).number = n;
            let (x, y) = ((name(files, a.file), cat(&a.path, &[3])), (name(files, b.file), cat(&b.path, &[3])));
            ft.file = b.file;
            ft.places = if mine(a.file) { vec![x.clone(), y.clone()] } else { vec![y.clone()] };
            ft.related = vec![x, y];
            ft.mention = vec![n.unwrap_or(0).to_string()];
            ft.what = format!("{} = {}", b.full, a.full);
        }
        "duplicate-json-name" => {
            let m = pick(
                r,
                own(msgs(files)).into_iter().filter(|m| msg(files, m).field.len() > 1 && !msg(files, m).options.as_ref().is_some_and(|o| o.map_entry())).collect(),
            )?;
            let d = msg_mut(files, m.file, &m.path);
            let a = r.below(d.field.len());
            let b = r.below(d.field.len());
            if a == b {
                return None;
            }
            let json = |f: &FieldDescriptorProto| f.json_name.clone().unwrap_or_else(|| crate::schema::default_json_name(f.name()));
            let j = json(&d.field[a]);
            if r.bool() && j == crate::schema::default_json_name(d.field[a].name()) {
                d.field[a].json_name = None;
            }
            d.field[b].json_name = Some(j.clone());
            if a > b && d.field[a].json_name.is_none() {
                ft.what = "defaulted second".into();
            }
            place!(m.file, cat(&m.path, &[2, a.max(b) as i32, 1]), cat(&m.path, &[2, a.max(b) as i32, 10]));
            let lo = a.min(b) as i32;
            ft.related = vec![(name(files, m.file), cat(&m.path, &[2, lo, 1])), (name(files, m.file), cat(&m.path, &[2, lo, 10]))];
            ft.mention = vec![j];
        }
        "duplicate-enum-number" => {
            let e = pick(r, own(enums(files)))?;
            let d = enum_mut(files, e.file, &e.path);
            if d.value.len() < 2 || d.options.as_ref().is_some_and(|o| o.allow_alias()) {
                return None;
            }
            let b = 1 + r.below(d.value.len() - 1);
            let a = r.below(b);
            d.value[b].number = d.value[a].number;
            if r.pct(30) {
                // an explicit false is as good as nothing
                d.options.get_or_insert_with(Default::default).allow_alias = Some(false);
            }
            let n = d.value[a].number().to_string();
            place!(e.file, cat(&e.path, &[2, b as i32, 2]));
            ft.related = vec![(name(files, e.file), cat(&e.path, &[2, a as i32, 2]))];
            ft.mention = vec![n];
            ft.what = e.full;
        }
        "reserved-enum-number" => {
            let e = pick(r, own(enums(files)))?;
            let d = enum_mut(files, e.file, &e.path);
            let k = r.below(d.value.len());
            let n = d.value[k].number();
            let (a, b) = match r.below(4) {
                0 => (n, n),
                1 => (n, n.saturating_add(r.below(9) as i32)),
                2 => (n.saturating_sub(r.below(9) as i32), n),
                _ => (n.saturating_sub(r.below(9) as i32), n.saturating_add(r.below(9) as i32)),
            };
            if d.value.iter().filter(|v| a <= v.number() && v.number() <= b).count() != 1
                || d.reserved_range.iter().any(|x| x.start() <= b && a <= x.end())
            {
                return None;
            }
            let at = r.below(d.reserved_range.len() + 1);
            d.reserved_range.insert(at, EnumReservedRange { start: Some(a), end: Some(b) });
            place!(e.file, cat(&e.path, &[2, k as i32, 2]));
            ft.related = vec![(name(files, e.file), cat(&e.path, &[4, at as i32]))];
            ft.mention = vec![n.to_string()];
            ft.what = format!("{} {n} in {a}..={b}", e.full);
        }
        "missing-import" => {
            let i = pick(r, (0..files.len()).filter(|i| mine(*i)).collect())?;
            let n = (*r.pick(&["nope/missing.proto", "", "FILE0.proto", "./file0.proto"])).to_string();
            if files.iter().any(|f| f.name() == n) {
                return None;
            }
            files[i].dependency.push(n.clone());
            place!(i, vec![3, files[i].dependency.len() as i32 - 1]);
            ft.mention = vec![n];
        }
        "dropped-import" => {
            // an import that something in the file needs
            let i = pick(r, (0..files.len()).filter(|i| mine(*i) && !files[*i].dependency.is_empty()).collect())?;
            let mut refs = vec![];
            let mut f = files[i].clone();
            scope::for_refs(&mut f, &mut |_, n, _| refs.push(n.clone().unwrap().trim_start_matches('.').to_string()));
            let k = r.below(f.dependency.len());
            f.dependency.remove(k);
            f.public_dependency.retain(|p| *p != k as i32);
            f.public_dependency.iter_mut().filter(|p| **p > k as i32).for_each(|p| *p -= 1);
            let mut fs = files.clone();
            fs[i] = f;
            let vis = scope::visibility(&fs);
            let t = Table::new(&fs);
            let mut hit = vec![];
            for j in 0..fs.len() {
                scope::for_refs(&mut fs[j].clone(), &mut |_, n, _| {
                    let n = n.clone().unwrap();
                    if t.syms.get(n.trim_start_matches('.')).is_some_and(|s| !s.1.iter().any(|x| vis[j].contains(x))) && !hit.contains(&j) {
                        hit.push(j);
                    }
                });
            }
            // with a public import, another file may be the only one to miss it
            if !refs.is_empty() && !hit.contains(&i) {
                return None;
            }
            if hit.iter().any(|j| !mine(*j)) || hit.is_empty() {
                return None;
            }
            ft.related = hit.iter().map(|j| (name(&fs, *j), vec![])).collect();
            *files = fs;
            ft.file = i;
        }
        "bad-import-index" => {
            let i = pick(r, (0..files.len()).filter(|i| mine(*i)).collect())?;
            let n = files[i].dependency.len() as i32;
            let bad = *r.pick(&[n, n + 1, -1, i32::MAX, i32::MIN]);
            if r.bool() {
                files[i].public_dependency.push(bad);
            } else {
                files[i].weak_dependency.push(bad);
            }
            ft.file = i;
            ft.what = format!("{bad} of {n}");
        }
        "bad-oneof-index" => {
            let e = pick(r, own(fields(files, Some(false))))?;
            let n = msg_mut(files, e.file, &e.path[..e.path.len() - 2]).oneof_decl.len() as i32;
            let bad = *r.pick(&[n, n + 1, -1, i32::MAX, i32::MIN]);
            field_mut(files, e.file, &e.path).oneof_index = Some(bad);
            ft.file = e.file;
            ft.what = format!("{} {bad} of {n}", e.full);
        }
        "missing-type" | "wrong-kind-type" | "invisible-type" => {
            let e = pick(r, own(fields(files, None)).into_iter().filter(|e| field_mut(&mut files.clone(), e.file, &e.path).type_name.is_some()).collect())?;
            let bad = bad_name(r, files, e.file, kind, scope::Mode::Type)?;
            let f = field_mut(files, e.file, &e.path);
            let old = f.type_name().to_string();
            f.type_name = Some(bad.0.clone());
            f.default_value = None;
            if r.bool() && f.r#type() != Type::Group {
                f.r#type = None;
            }
            place!(e.file, cat(&e.path, &[6]));
            ft.related = bad.1;
            ft.mention = vec![bad.0.trim_start_matches('.').into()];
            ft.what = format!("{}: {} instead of {old}", e.full, bad.0);
        }
        "missing-extendee" | "wrong-kind-extendee" => {
            let e = pick(r, own(fields(files, Some(true))))?;
            let bad = bad_name(r, files, e.file, if kind == "missing-extendee" { "missing-type" } else { "wrong-kind-type" }, scope::Mode::Message)?;
            field_mut(files, e.file, &e.path).extendee = Some(bad.0.clone());
            place!(e.file, cat(&e.path, &[2]));
            ft.related = bad.1;
            ft.mention = vec![bad.0.trim_start_matches('.').into()];
            ft.what = format!("{}: {}", e.full, bad.0);
        }
        "missing-method-type" | "wrong-kind-method-type" => {
            let e = pick(r, own(methods(files)))?;
            let bad = bad_name(r, files, e.file, if kind == "missing-method-type" { "missing-type" } else { "wrong-kind-type" }, scope::Mode::Message)?;
            let input = r.bool();
            let name_it = (kind == "missing-method-type" && r.pct(25)).then_some(None).unwrap_or(Some(bad.0.clone()));
            let m = method_mut(files, &e);
            if name_it.is_some() {
                ft.mention = vec![bad.0.trim_start_matches('.').into()];
            }
            if input {
                m.input_type = name_it;
            } else {
                m.output_type = name_it;
            }
            place!(e.file, cat(&e.path, &[if input { 2 } else { 3 }]));
            ft.related = bad.1;
            ft.what = format!("{}: {}", e.full, bad.0);
        }
        "bad-default" => {
            let e = pick(r, own(fields(files, None)))?;
            let proto3 = files[e.file].syntax() == "proto3";
            let en: Vec<String> = enums(files).into_iter().map(|x| x.full).collect();
            let f = field_mut(files, e.file, &e.path);
            let bad: &[&str] = match f.r#type() {
                Type::Int32 | Type::Sint32 | Type::Sfixed32 => &["2147483648", "-2147483649", "1.5", "x", "", "0x10", "1e3", " 1", "1 "],
                Type::Int64 | Type::Sint64 | Type::Sfixed64 => &["9223372036854775808", "-9223372036854775809", "1.0", "x", "", " 1"],
                Type::Uint32 | Type::Fixed32 => &["4294967296", "-1", "1.5", "x", "", "1u"],
                Type::Uint64 | Type::Fixed64 => &["18446744073709551616", "-1", "x", "", "1l"],
                Type::Float | Type::Double => &["x", "", "1.5.5", "1e", "0x1", "1,5", "1.0x"],
                Type::Bool => &["True", "FALSE", "1", "0", "", "t", "yes"],
                Type::Bytes => &["\\", "\\x", "\\xg", "\\400", "\\777", "\\q", "a\\", "\\x+1", "\\x1", "\\x1g", "\\8"],
                Type::Enum => &["NO_SUCH_VALUE", "", "0", "1"],
                Type::Message | Type::Group => &["x", "", "{}"],
                Type::String => return None,
            };
            let _ = (proto3, en);
            let v = *r.pick(bad);
            f.default_value = Some(v.into());
            place!(e.file, cat(&e.path, &[7]));
            ft.what = format!("{} default {v:?}", e.full);
        }
        "no-type-name" => {
            let e = pick(r, own(fields(files, None)))?;
            let f = field_mut(files, e.file, &e.path);
            f.type_name = if r.bool() { None } else { Some(String::new()) };
            if !matches!(f.r#type(), Type::Message | Type::Group | Type::Enum) {
                f.r#type = Some(*r.pick(&[10, 11, 14]));
            }
            f.default_value = None;
            place!(e.file, cat(&e.path, &[6]), cat(&e.path, &[5]));
            ft.what = e.full;
        }
        "type-mismatch" => {
            let vis = scope::visibility(files);
            let e = pick(r, own(fields(files, None)))?;
            let cands = named(files);
            let pick_kind = |r: &mut Rng, k: Sym| pick(r, cands.iter().filter(|(x, s)| *s == k && vis[e.file].contains(&x.file)).cloned().collect());
            let f = field_mut(files, e.file, &e.path);
            f.default_value = None;
            let t = match f.r#type() {
                Type::Message | Type::Group => pick_kind(r, Sym::Enum)?,
                Type::Enum => pick_kind(r, Sym::Message)?,
                _ => {
                    let k = if r.bool() { Sym::Enum } else { Sym::Message };
                    pick_kind(r, k)?
                }
            };
            f.type_name = Some(format!(".{}", t.0.full));
            place!(e.file, cat(&e.path, &[6]), cat(&e.path, &[5]));
            ft.related = vec![(name(files, t.0.file), cat(&t.0.path, &[1]))];
            ft.what = format!("{} {:?} names {}", e.full, field_mut(files, e.file, &e.path).r#type(), t.0.full);
        }
        "unknown-option" | "ill-typed-option" | "repeated-option" => {
            let (file, path) = pick(r, option_carriers(files).into_iter().filter(|c| mine(c.0)).collect())?;
            // map entries are made by the compiler
            let (slot, opath, std) = options_slot(files, file, &path);
            let mut new = vec![];
            match kind {
                "unknown-option" => {
                    let mut o = match r.below(5) {
                        0 => uo(&[("no_such_option", false)]),
                        1 => uo(&[("no.such.ext", true)]),
                        2 => uo(&[("(deprecated)", false)]),
                        3 if std.is_some() => uo(&[(std.unwrap(), false), ("x", false)]),
                        _ => uo(&[("Deprecated", false)]),
                    };
                    o.identifier_value = Some("true".into());
                    ft.mention = vec![o.name[0].name_part.clone()];
                    new.push(o);
                }
                "ill-typed-option" => {
                    let mut o = uo(&[(std?, false)]);
                    match r.below(5) {
                        0 => o.positive_int_value = Some(1),
                        1 => o.string_value = Some(b"true".to_vec()),
                        2 => o.identifier_value = Some("yes".into()),
                        3 => o.aggregate_value = Some("true".into()),
                        _ => o.double_value = Some(1.0),
                    }
                    ft.mention = vec![std?.into()];
                    new.push(o);
                }
                _ => {
                    for _ in 0..2 {
                        let mut o = uo(&[(std?, false)]);
                        o.identifier_value = Some(if r.bool() { "true" } else { "false" }.into());
                        new.push(o);
                    }
                    ft.mention = vec![std?.into()];
                }
            }
            let at = slot.len();
            let n = new.len();
            slot.extend(new);
            place!(file, cat(&opath, &[999, (at + n - 1) as i32]));
            if kind == "repeated-option" {
                // if the option was already set, the first one repeats it
                ft.places.push((name(files, file), cat(&opath, &[999, at as i32])));
            }
            ft.what = format!("{path:?}");
        }
        k => panic!("{k}"),
    }
    Some(ft)
}

fn f_num(kind: &str, n: i32) -> String {
    if kind == "no-number" {
        "0".into()
    } else {
        n.to_string()
    }
}

fn bad_name(r: &mut Rng, files: &[FileDescriptorProto], file: usize, kind: &str, mode: scope::Mode) -> Option<(String, Vec<Place>)> {
    let vis = scope::visibility(files);
    let els = named(files);
    match kind {
        "missing-type" => {
            let n = *r.pick(&[".nope.Missing", "Missing", "pkg.Missing", ".Missing", ".pkg", "a.b.c.D", ".x"]);
            let t = Table::new(files);
            let n = if r.pct(30) {
                let (e, _) = r.pick(&els).clone();
                match r.below(3) {
                    0 => format!(".{}x", e.full),
                    1 => format!(".{}.", e.full),
                    _ => format!(".{}.x", e.full),
                }
            } else {
                n.to_string()
            };
            if t.syms.contains_key(n.trim_start_matches('.')) || els.iter().any(|(e, _)| e.full.ends_with(&format!(".{n}"))) {
                return None;
            }
            Some((n, vec![]))
        }
        "wrong-kind-type" => {
            let v: Vec<&(El, Sym)> = els
                .iter()
                .filter(|(e, k)| {
                    vis[file].contains(&e.file)
                        && match mode {
                            scope::Mode::Type => !matches!(k, Sym::Message | Sym::Enum),
                            _ => *k != Sym::Message,
                        }
                })
                .collect();
            if v.is_empty() {
                return None;
            }
            let (e, _) = r.pick(&v);
            Some((format!(".{}", e.full), vec![(files[e.file].name().into(), cat(&e.path, &[1]))]))
        }
        _ => {
            let v: Vec<&(El, Sym)> = els
                .iter()
                .filter(|(e, k)| !vis[file].contains(&e.file) && matches!(k, Sym::Message | Sym::Enum))
                .collect();
            if v.is_empty() {
                return None;
            }
            let (e, _) = r.pick(&v);
            Some((format!(".{}", e.full), vec![]))
        }
    }
}

pub fn set_label(f: &mut FieldDescriptorProto, l: Label) {
    f.set_label(l);
}
