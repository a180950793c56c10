//! C18: resolution of type names against the scoping rules of the language.
use crate::run::*;
use crate::rng::Rng;
use crate::schema::join;
use crate::scope::{self, Mode, Res, Sym, Table};
use crate::props::*;
use prost_reflect::{DescriptorPool, Kind};
use prost_types::descriptor_proto::ExtensionRange;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::*;
use std::option::Option;

type R = Result<(), String>;

const NAMES: &[&str] = &["a", "b", "c", "A", "B"];
const PKGS: &[&str] = &["", "a", "b", "a.b", "b.a", "a.a", "a.b.c", "a.b.a", "A", "c.b"];

fn fresh(r: &mut Rng, t: &Table, scope: &str) -> Option<String> {
    for _ in 0..6 {
        let n = *r.pick(NAMES);
        if !t.syms.contains_key(&join(scope, n)) {
            return Some(n.to_string());
        }
    }
    None
}

fn an_enum(r: &mut Rng, name: String, scope: &str, t: &mut Table, i: usize) -> EnumDescriptorProto {
    // a value takes a name in the enclosing scope
    let v = match fresh(r, t, scope) {
        Some(v) if r.pct(40) && v != name => v,
        _ => format!("V{}_{}", i, t.syms.len()),
    };
    let e = EnumDescriptorProto {
        name: Some(name),
        value: vec![EnumValueDescriptorProto { name: Some(v), number: Some(0), ..Default::default() }],
        ..Default::default()
    };
    t.put_enum(i, scope, &e);
    e
}

/// A oneof (with one member) that takes a name a type or a package may have elsewhere.
fn a_oneof(r: &mut Rng, m: &mut DescriptorProto, full: &str, t: &mut Table, i: usize) {
    if let Some(n) = fresh(r, t, full) {
        t.put_sym(join(full, &n), Sym::Leaf, i);
        let k = m.oneof_decl.len() as i32;
        let f = format!("member{k}");
        t.put_sym(join(full, &f), Sym::Leaf, i);
        m.oneof_decl.push(OneofDescriptorProto { name: Some(n), options: None });
        m.field.push(FieldDescriptorProto { name: Some(f), number: Some(20 + k), oneof_index: Some(k), label: Some(Label::Optional as i32), r#type: Some(Type::Int32 as i32), ..Default::default() });
    }
}

/// A message with nested types, fields and oneofs named from the same small universe.
fn a_msg(r: &mut Rng, name: String, scope: &str, t: &mut Table, i: usize, depth: usize) -> DescriptorProto {
    let full = join(scope, &name);
    t.put_sym(full.clone(), Sym::Message, i);
    let mut m = DescriptorProto {
        name: Some(name),
        extension_range: vec![ExtensionRange { start: Some(100), end: Some(10_000), options: None }],
        ..Default::default()
    };
    if depth < 3 {
        for _ in 0..r.below(3) {
            if let Some(n) = fresh(r, t, &full) {
                m.nested_type.push(a_msg(r, n, &full, t, i, depth + 1));
            }
        }
        if r.pct(25) {
            if let Some(n) = fresh(r, t, &full) {
                t.put_sym(join(&full, &n), Sym::Enum, i);
                let n = an_enum(r, n, &full, t, i);
                m.enum_type.push(n);
            }
        }
    }
    if r.pct(25) {
        a_oneof(r, &mut m, &full, t, i);
    }
    if r.pct(35) {
        if let Some(n) = fresh(r, t, &full) {
            t.put_sym(join(&full, &n), Sym::Leaf, i);
            m.field.push(FieldDescriptorProto { name: Some(n), number: Some(1), label: Some(Label::Optional as i32), r#type: Some(Type::Int32 as i32), ..Default::default() });
        }
    }
    m
}

fn universe(r: &mut Rng) -> (Vec<FileDescriptorProto>, Table) {
    let n = 2 + r.below(5);
    let mut files: Vec<FileDescriptorProto> = vec![];
    let mut t = Table::default();
    for i in 0..n {
        let pkg = loop {
            let p = *r.pick(PKGS);
            let ok = (0..=p.len()).filter(|&k| k > 0 && (k == p.len() || p.as_bytes()[k] == b'.')).all(|k| matches!(t.syms.get(&p[..k]), None | Some((Sym::Package, _))));
            if ok {
                break p;
            }
        };
        let mut f = FileDescriptorProto { name: Some(format!("f{i}.proto")), package: (!pkg.is_empty()).then(|| pkg.to_string()), ..Default::default() };
        t.add_file(i, &f);
        for k in 0..i {
            if r.pct(35) {
                f.dependency.push(format!("f{k}.proto"));
                if r.pct(45) {
                    f.public_dependency.push(f.dependency.len() as i32 - 1);
                }
            }
        }
        for _ in 0..1 + r.below(3) {
            if let Some(nm) = fresh(r, &t, pkg) {
                match r.below(8) {
                    0 => {
                        t.put_sym(join(pkg, &nm), Sym::Enum, i);
                        let e = an_enum(r, nm, pkg, &mut t, i);
                        f.enum_type.push(e);
                    }
                    1 => {
                        t.put_sym(join(pkg, &nm), Sym::Service, i);
                        f.service.push(ServiceDescriptorProto { name: Some(nm), ..Default::default() });
                    }
                    _ => {
                        let m = a_msg(r, nm, pkg, &mut t, i, 0);
                        f.message_type.push(m);
                    }
                }
            }
        }
        files.push(f);
    }
    (files, t)
}

/// The slot of the probing file that holds the reference.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Slot {
    Field,
    ExtType,
    NestedExtType,
    Extendee,
    NestedExtendee,
    Input,
    Output,
}
use Slot::*;

fn c18(ctx: &mut Ctx, _: u64) -> R {
    probe(ctx, &mut |_, _, _, _| Ok(()))
}

/// `see` gets the files (in an order of dependency), the pool if they were accepted, and whether the rules decide.
pub(crate) fn probe(ctx: &mut Ctx, see: &mut dyn FnMut(&mut Ctx, &[FileDescriptorProto], Option<&DescriptorPool>, bool) -> R) -> R {
    let (files, _) = universe(&mut ctx.r);
    let table = Table::new(&files);
    if let Some(c) = table.clash.first() {
        return Err(format!("harness: generated a clash {c}"));
    }
    let mut base = DescriptorPool::new();
    base.add_file_descriptor_protos(files.iter().cloned()).map_err(|e| format!("valid definitions were rejected: {e:?}\n{}", show_files(&files)))?;
    let n = files.len();
    for _ in 0..40 {
        let r = &mut ctx.r;
        let slot = *r.pick(&[Field, Field, Field, ExtType, NestedExtType, Extendee, NestedExtendee, Input, Output]);
        let mut t = table.clone();
        let pkg = {
            let p = *r.pick(PKGS);
            let ok = (0..=p.len()).filter(|&k| k > 0 && (k == p.len() || p.as_bytes()[k] == b'.')).all(|k| matches!(t.syms.get(&p[..k]), None | Some((Sym::Package, _))));
            if ok { p } else { "" }
        };
        let mut f = FileDescriptorProto { name: Some("probe.proto".into()), package: (!pkg.is_empty()).then(|| pkg.to_string()), ..Default::default() };
        t.add_file(n, &f);
        for k in 0..n {
            if r.pct(30) {
                f.dependency.push(format!("f{k}.proto"));
                if r.pct(20) {
                    f.public_dependency.push(f.dependency.len() as i32 - 1);
                }
            }
        }
        r.shuffle(&mut f.dependency);
        f.public_dependency.retain(|&k| (k as usize) < f.dependency.len());
        // definitions of the probing file itself
        if r.pct(40) {
            if let Some(nm) = fresh(r, &t, pkg) {
                let m = a_msg(r, nm, pkg, &mut t, n, 1);
                f.message_type.push(m);
            }
        }
        // R { .. S { .. T { field } } }
        let depth = r.below(3);
        let names = ["R", "S", "T"];
        let mut scopes = vec![];
        let mut sc = pkg.to_string();
        for nm in names.iter().take(depth + 1) {
            sc = join(&sc, nm);
            scopes.push(sc.clone());
        }
        let mut inner: Option<DescriptorProto> = None;
        let mut at = String::new();
        for d in (0..=depth).rev() {
            let full = &scopes[d];
            let mut m = DescriptorProto { name: Some(names[d].into()), extension_range: vec![ExtensionRange { start: Some(100), end: Some(10_000), options: None }], ..Default::default() };
            t.put_sym(full.clone(), Sym::Message, n);
            for _ in 0..r.below(2) {
                if let Some(nm) = fresh(r, &t, full) {
                    if r.pct(25) {
                        t.put_sym(join(full, &nm), Sym::Enum, n);
                        let e = an_enum(r, nm, full, &mut t, n);
                        m.enum_type.push(e);
                    } else {
                        let x = a_msg(r, nm, full, &mut t, n, 2);
                        m.nested_type.push(x);
                    }
                }
            }
            if r.pct(20) {
                a_oneof(r, &mut m, full, &mut t, n);
            }
            if d == depth {
                at = full.clone();
            }
            if let Some(x) = inner.take() {
                m.nested_type.push(x);
            }
            inner = Some(m);
        }
        let mut root = inner.unwrap();
        // the name under test
        let all: Vec<String> = t.syms.keys().cloned().collect();
        let mut name = match r.below(10) {
            0..=6 => {
                let full = r.pick(&all).clone();
                let cuts: Vec<usize> = full.match_indices('.').map(|(i, _)| i + 1).collect();
                if !cuts.is_empty() && r.pct(75) {
                    let c = *r.pick(&cuts);
                    full[c..].to_string()
                } else {
                    full
                }
            }
            _ => (0..1 + r.below(3)).map(|_| *r.pick(NAMES)).collect::<Vec<_>>().join("."),
        };
        if r.pct(25) {
            name = format!(".{name}");
        }
        if r.pct(2) {
            name = r.pick(&[".", "..a", "a.", "a..b", ".a.", "A. b", "R.", ".R"]).to_string();
        }
        let mut field = FieldDescriptorProto { name: Some("probe_field".into()), number: Some(if slot == Field { 50 } else { 500 }), label: Some(Label::Optional as i32), ..Default::default() };
        let scope;
        let mode;
        let anchor = || Some(".R_ext".to_string());
        match slot {
            Field => {
                field.type_name = Some(name.clone());
                scope = at.clone();
                mode = Mode::Type;
                let mut m = &mut root;
                for _ in 0..depth {
                    m = m.nested_type.last_mut().unwrap();
                }
                m.field.push(field);
            }
            ExtType | NestedExtType | Extendee | NestedExtendee => {
                if matches!(slot, ExtType | NestedExtType) {
                    field.type_name = Some(name.clone());
                    field.extendee = anchor();
                    mode = Mode::Type;
                } else {
                    field.extendee = Some(name.clone());
                    field.r#type = Some(Type::Int32 as i32);
                    mode = Mode::Message;
                }
                if matches!(slot, NestedExtType | NestedExtendee) {
                    scope = at.clone();
                    let mut m = &mut root;
                    for _ in 0..depth {
                        m = m.nested_type.last_mut().unwrap();
                    }
                    m.extension.push(field);
                } else {
                    scope = pkg.to_string();
                    f.extension.push(field);
                }
            }
            Input | Output => {
                let (a, b) = if slot == Input { (name.clone(), ".R_ext".to_string()) } else { (".R_ext".to_string(), name.clone()) };
                let sn = "Svc";
                scope = join(pkg, sn);
                mode = Mode::Message;
                // a method may have the name of a type
                let mname = r.pick(NAMES).to_string();
                f.service.push(ServiceDescriptorProto {
                    name: Some(sn.into()),
                    method: vec![MethodDescriptorProto { name: Some(mname.clone()), input_type: Some(a), output_type: Some(b), ..Default::default() }],
                    ..Default::default()
                });
                t.put_sym(join(pkg, sn), Sym::Service, n);
                t.put_sym(join(&scope, &mname), Sym::Leaf, n);
            }
        }
        f.message_type.push(root);
        // an anchor in a file of its own, visible to the probe
        let ext_file = FileDescriptorProto {
            name: Some("anchor.proto".into()),
            message_type: vec![DescriptorProto { name: Some("R_ext".into()), extension_range: vec![ExtensionRange { start: Some(100), end: Some(10_000), options: None }], ..Default::default() }],
            ..Default::default()
        };
        f.dependency.push("anchor.proto".into());
        let mut files2 = files.clone();
        files2.push(f.clone());
        files2.push(ext_file.clone());
        let t = Table::new(&files2);
        if let Some(c) = t.clash.first() {
            return Err(format!("harness: generated a clash {c}"));
        }
        let vis = scope::visibility(&files2);
        let mut want = t.resolve(&vis[n], &scope, &name, mode);
        // a stated type has to be of the kind that is found
        let mut stated = None;
        if mode == Mode::Type && r.pct(40) {
            let ty = *r.pick(&[Type::Message, Type::Enum]);
            stated = Some(ty);
            if let Res::Found(full) = &want {
                let is = t.syms[full].0;
                if (is == Sym::Message) != (ty == Type::Message) {
                    want = Res::Rejected;
                }
            }
            set_type(&mut f, ty);
            files2[n] = f.clone();
        }
        let sep = r.bool();
        let got = if sep {
            let mut p = base.clone();
            p.add_file_descriptor_protos([ext_file, f.clone()]).map(|_| p)
        } else {
            let mut v = files2.clone();
            r.shuffle(&mut v);
            let mut p = DescriptorPool::new();
            p.add_file_descriptor_protos(v).map(|_| p)
        };
        let (pkg, at) = (pkg.to_string(), at.clone());
        let tell = |m: String| {
            format!(
                "{m}: {slot:?} {name:?} in scope {scope:?} of package {pkg:?}, stated type {stated:?}, file sees {:?} ({})\n{}",
                vis[n],
                if sep { "added after" } else { "one batch" },
                show_files(&files2)
            )
        };
        ctx.feature(format!("{slot:?}{}{}{:?}{}", name.matches('.').count(), name.starts_with('.'), std::mem::discriminant(&want), scope.matches('.').count()).as_bytes());
        let mut ordered = files2.clone();
        let last = ordered.pop().unwrap();
        ordered.insert(0, last);
        see(ctx, &ordered, got.as_ref().ok(), !matches!(want, Res::Unsure(_))).map_err(&tell)?;
        match got {
            Err(e) => match want {
                Res::Found(full) => return Err(tell(format!("rejected ({e}), but it denotes {full}"))),
                _ => ctx.count("references rejected as they must be", 1),
            },
            Ok(p) => {
                let got = target(&p, slot, &pkg, &at).map_err(&tell)?;
                match &want {
                    Res::Rejected => return Err(tell(format!("accepted as {got}, but it denotes nothing usable"))),
                    Res::Found(full) | Res::Unsure(full) if *full != got => return Err(tell(format!("resolved to {got}, but it denotes {full}"))),
                    Res::Unsure(_) => ctx.count("references with an unusable inner match", 1),
                    Res::Found(_) => ctx.count("references resolved", 1),
                }
                // its own descriptor has the absolute name
                let fd = p.get_file_by_name("probe.proto").ok_or_else(|| tell("the file is not in the pool".into()))?;
                let mut d = fd.file_descriptor_proto().clone();
                let mut seen = false;
                scope::for_refs(&mut d, &mut |_, x, _| seen |= x.as_deref() == Some(&format!(".{got}")));
                if !seen {
                    return Err(tell(format!("the file's descriptor does not name .{got}")));
                }
            }
        }
    }
    Ok(())
}

fn set_type(f: &mut FileDescriptorProto, ty: Type) {
    scope::for_fields(f, &mut |x| {
        if x.name() == "probe_field" && x.type_name.is_some() {
            x.r#type = Some(ty as i32);
        }
    });
}

fn target(p: &DescriptorPool, slot: Slot, pkg: &str, at: &str) -> Result<String, String> {
    let of = |k: Kind| match k {
        Kind::Message(m) => Ok(m.full_name().to_string()),
        Kind::Enum(e) => Ok(e.full_name().to_string()),
        k => Err(format!("resolved to kind {k:?}")),
    };
    let ext = |scope: &str| p.get_extension_by_name(&join(scope, "probe_field")).ok_or("the extension is not in the pool");
    Ok(match slot {
        Field => of(p.get_message_by_name(at).and_then(|m| m.get_field(50)).ok_or("the field is not in the pool")?.kind())?,
        ExtType => of(ext(pkg)?.kind())?,
        NestedExtType => of(ext(at)?.kind())?,
        Extendee => ext(pkg)?.containing_message().full_name().to_string(),
        NestedExtendee => ext(at)?.containing_message().full_name().to_string(),
        Input | Output => {
            let s = p.get_service_by_name(&join(pkg, "Svc")).ok_or("the service is not in the pool")?;
            let m = s.methods().next().ok_or("the method is not in the pool")?;
            let x = if slot == Input { m.input() } else { m.output() };
            x.full_name().to_string()
        }
    })
}

pub static PROPS: &[Prop] = &[Prop {
    id: "C18",
    quick: 6_000,
    thorough: 250_000,
    rule: "case i: files drawn from hash(seed, id, i) over a small universe of colliding names, and 40 references each judged by an independent implementation of the scoping rules",
    case: c18,
    directed: None,
    extra: None,
    need: &["references resolved", "references rejected as they must be"],
    level: "reference oracle over colliding name universes",
}];
