//! Reference symbol table and the scoping rules of the protobuf language.
use crate::schema::join;
use prost_types::*;
use std::collections::{BTreeMap, BTreeSet};
use std::option::Option;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sym {
    Package,
    Message,
    Enum,
    Service,
    Leaf,
    Extension,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// a field's type: message or enum
    Type,
    /// an extendee or a method's input or output
    Message,
    Extension,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Found(String),
    Rejected,
    /// rejected, or found to be this one
    Unsure(String),
}

#[derive(Default, Clone)]
pub struct Table {
    /// name -> kind, files that declare it
    pub syms: BTreeMap<String, (Sym, BTreeSet<usize>)>,
    pub packages: Vec<String>,
    pub clash: Vec<String>,
}

impl Table {
    pub fn new(files: &[FileDescriptorProto]) -> Table {
        let mut t = Table::default();
        for (i, f) in files.iter().enumerate() {
            t.add_file(i, f);
        }
        t
    }

    fn put(&mut self, name: String, k: Sym, file: usize) {
        match self.syms.get_mut(&name) {
            Some((old, fs)) => {
                if *old == Sym::Package && k == Sym::Package {
                    fs.insert(file);
                } else {
                    self.clash.push(name);
                }
            }
            None => {
                self.syms.insert(name, (k, [file].into()));
            }
        }
    }

    pub fn add_file(&mut self, i: usize, f: &FileDescriptorProto) {
        let pkg = f.package();
        self.packages.push(pkg.to_string());
        if !pkg.is_empty() {
            for (k, _) in pkg.match_indices('.') {
                self.put(pkg[..k].to_string(), Sym::Package, i);
            }
            self.put(pkg.to_string(), Sym::Package, i);
        }
        for m in &f.message_type {
            self.add_msg(i, pkg, m);
        }
        for e in &f.enum_type {
            self.add_enum(i, pkg, e);
        }
        for e in &f.extension {
            self.put(join(pkg, e.name()), Sym::Extension, i);
        }
        for s in &f.service {
            let full = join(pkg, s.name());
            self.put(full.clone(), Sym::Service, i);
            for m in &s.method {
                self.put(join(&full, m.name()), Sym::Leaf, i);
            }
        }
    }

    fn add_msg(&mut self, i: usize, scope: &str, m: &DescriptorProto) {
        let full = join(scope, m.name());
        self.put(full.clone(), Sym::Message, i);
        for f in &m.field {
            self.put(join(&full, f.name()), Sym::Leaf, i);
        }
        for o in &m.oneof_decl {
            self.put(join(&full, o.name()), Sym::Leaf, i);
        }
        for n in &m.nested_type {
            self.add_msg(i, &full, n);
        }
        for e in &m.enum_type {
            self.add_enum(i, &full, e);
        }
        for e in &m.extension {
            self.put(join(&full, e.name()), Sym::Extension, i);
        }
    }

    pub fn put_sym(&mut self, name: String, k: Sym, file: usize) {
        self.put(name, k, file);
    }

    /// The values of an enum whose own name is already known.
    pub fn put_enum(&mut self, i: usize, scope: &str, e: &EnumDescriptorProto) {
        for v in &e.value {
            self.put(join(scope, v.name()), Sym::Leaf, i);
        }
    }

    fn add_enum(&mut self, i: usize, scope: &str, e: &EnumDescriptorProto) {
        self.put(join(scope, e.name()), Sym::Enum, i);
        // enum values are siblings of their enum in the language, and so are they in the symbol table
        for v in &e.value {
            self.put(join(scope, v.name()), Sym::Leaf, i);
        }
    }

    fn find(&self, vis: &BTreeSet<usize>, name: &str) -> Option<Sym> {
        let (k, fs) = self.syms.get(name)?;
        fs.iter().any(|f| vis.contains(f)).then_some(*k)
    }

    fn fits(k: Sym, mode: Mode) -> bool {
        match mode {
            Mode::Type => matches!(k, Sym::Message | Sym::Enum),
            Mode::Message => k == Sym::Message,
            Mode::Extension => k == Sym::Extension,
        }
    }

    /// `scope` is the full name of the scope that encloses the reference ("" for the root).
    pub fn resolve(&self, vis: &BTreeSet<usize>, scope: &str, name: &str, mode: Mode) -> Res {
        let done = |full: &str| match self.find(vis, full) {
            Some(k) if Self::fits(k, mode) => Res::Found(full.to_string()),
            _ => Res::Rejected,
        };
        if let Some(full) = name.strip_prefix('.') {
            return done(full);
        }
        let first = name.split('.').next().unwrap();
        let compound = first.len() < name.len();
        let mut cur = Some(scope.to_string());
        let mut skipped = false;
        while let Some(sc) = cur {
            if let Some(k) = self.find(vis, &join(&sc, first)) {
                if compound {
                    if matches!(k, Sym::Package | Sym::Message | Sym::Enum | Sym::Service) {
                        let r = done(&join(&sc, name));
                        return r;
                    }
                } else if Self::fits(k, mode) {
                    // an inner match of an unusable kind: the reference compiler is stricter for
                    // extendees and methods than for field types
                    return if skipped && mode != Mode::Type { Res::Unsure(join(&sc, first)) } else { Res::Found(join(&sc, first)) };
                } else {
                    skipped = true;
                }
            }
            cur = if sc.is_empty() { None } else { Some(sc.rfind('.').map(|i| sc[..i].to_string()).unwrap_or_default()) };
        }
        Res::Rejected
    }
}

/// The files visible from each file: itself, its imports, and what those import publicly.
pub fn visibility(files: &[FileDescriptorProto]) -> Vec<BTreeSet<usize>> {
    let idx: BTreeMap<&str, usize> = files.iter().enumerate().map(|(i, f)| (f.name(), i)).collect();
    files
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let mut vis: BTreeSet<usize> = [i].into();
            let mut todo: Vec<usize> = f.dependency.iter().filter_map(|d| idx.get(d.as_str()).copied()).collect();
            let mut seen = BTreeSet::new();
            while let Some(d) = todo.pop() {
                vis.insert(d);
                if seen.insert(d) {
                    for &p in &files[d].public_dependency {
                        if let Some(n) = files[d].dependency.get(p as usize).and_then(|n| idx.get(n.as_str())) {
                            todo.push(*n);
                        }
                    }
                }
            }
            vis
        })
        .collect()
}

/// Visit every type reference of a file: (enclosing scope, reference, mode).
pub fn for_refs(f: &mut FileDescriptorProto, go: &mut dyn FnMut(&str, &mut Option<String>, Mode)) {
    fn fields(scope: &str, fs: &mut [FieldDescriptorProto], go: &mut dyn FnMut(&str, &mut Option<String>, Mode)) {
        for f in fs {
            if f.type_name.is_some() {
                go(scope, &mut f.type_name, Mode::Type);
            }
            if f.extendee.is_some() {
                go(scope, &mut f.extendee, Mode::Message);
            }
        }
    }
    fn msg(scope: &str, m: &mut DescriptorProto, go: &mut dyn FnMut(&str, &mut Option<String>, Mode)) {
        let full = join(scope, m.name());
        fields(&full, &mut m.field, go);
        fields(&full, &mut m.extension, go);
        for n in &mut m.nested_type {
            msg(&full, n, go);
        }
    }
    let pkg = f.package().to_string();
    for m in &mut f.message_type {
        msg(&pkg, m, go);
    }
    fields(&pkg, &mut f.extension, go);
    for s in &mut f.service {
        let full = join(&pkg, s.name());
        for m in &mut s.method {
            go(&full, &mut m.input_type, Mode::Message);
            go(&full, &mut m.output_type, Mode::Message);
        }
    }
}

pub fn for_fields(f: &mut FileDescriptorProto, go: &mut dyn FnMut(&mut FieldDescriptorProto)) {
    fn msg(m: &mut DescriptorProto, go: &mut dyn FnMut(&mut FieldDescriptorProto)) {
        m.field.iter_mut().for_each(&mut *go);
        m.extension.iter_mut().for_each(&mut *go);
        for n in &mut m.nested_type {
            msg(n, go);
        }
    }
    for m in &mut f.message_type {
        msg(m, go);
    }
    f.extension.iter_mut().for_each(go);
}

/// Rewrite resolved files into an equivalent unresolved form: relative names, unset types and JSON names.
pub fn obfuscate(r: &mut crate::rng::Rng, files: &[FileDescriptorProto]) -> (Vec<FileDescriptorProto>, u64) {
    use prost_types::field_descriptor_proto::Type;
    let table = Table::new(files);
    let vis = visibility(files);
    let mut out = files.to_vec();
    let mut n = 0;
    for (i, f) in out.iter_mut().enumerate() {
        for_refs(f, &mut |scope, name, mode| {
            let full = name.as_ref().unwrap().trim_start_matches('.').to_string();
            if r.pct(40) {
                return;
            }
            let mut cands = vec![];
            let mut rest = full.as_str();
            loop {
                if table.resolve(&vis[i], scope, rest, mode) == Res::Found(full.clone()) {
                    cands.push(rest.to_string());
                }
                match rest.find('.') {
                    Some(k) => rest = &rest[k + 1..],
                    None => break,
                }
            }
            if !cands.is_empty() {
                n += 1;
                *name = Some(r.pick(&cands).clone());
            }
        });
        for_fields(f, &mut |f| {
            if f.type_name.is_some() && f.r#type() != Type::Group && r.pct(30) {
                f.r#type = None;
                n += 1;
            }
            if f.json_name.as_deref() == Some(&crate::schema::default_json_name(f.name())) && r.pct(50) {
                f.json_name = None;
            }
            if f.label == Some(1) && r.pct(20) {
                f.label = None;
            }
        });
    }
    (out, n)
}
