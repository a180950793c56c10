//! Reads the code which prost-build generated.
use quote::ToTokens;
use std::path::Path;

pub struct Field {
    pub ident: String,
    /// None for a oneof
    pub tag: Option<u32>,
}
pub struct Struct {
    pub path: String,
    /// how often ReflectMessage is derived, and the arguments
    pub derives: usize,
    pub args: Vec<String>,
    pub fields: Vec<Field>,
}
pub struct Oneof {
    pub path: String,
    pub variants: Vec<(String, u32)>,
}
#[derive(Default)]
pub struct Types {
    pub structs: Vec<Struct>,
    pub oneofs: Vec<Oneof>,
    /// full name by path, from `impl Name`
    pub names: Vec<(String, String)>,
}

/// Whether prost-build can compile these files at all.
pub fn supported(files: &[prost_types::FileDescriptorProto]) -> bool {
    // a required message in itself cannot be represented
    fn any(m: &prost_types::DescriptorProto) -> bool {
        m.field.iter().any(|f| f.label == Some(2) && matches!(f.r#type, Some(10 | 11))) || m.nested_type.iter().any(any)
    }
    !files.iter().any(|f| f.message_type.iter().any(any))
}

fn derives(attrs: &[syn::Attribute], what: &str) -> usize {
    attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.meta.to_token_stream().to_string().replace(' ', "")).map(|s| s.matches(what).count()).sum()
}

fn tag(attrs: &[syn::Attribute]) -> Option<Option<u32>> {
    for a in attrs {
        if a.path().is_ident("prost") {
            let s = a.meta.to_token_stream().to_string().replace(' ', "");
            if s.contains("oneof=") {
                return Some(None);
            }
            let i = s.rfind("tag=\"")? + 5;
            let j = s[i..].find('"')? + i;
            return Some(s[i..j].parse().ok());
        }
    }
    None
}

fn items(dir: &Path, path: &str, list: &[syn::Item], out: &mut Types) {
    for i in list {
        match i {
            syn::Item::Mod(m) => {
                if let Some((_, l)) = &m.content {
                    items(dir, &format!("{path}::{}", m.ident), l, out);
                }
            }
            syn::Item::Macro(m) if m.mac.path.is_ident("include") => {
                let s = m.mac.tokens.to_string();
                let name = s.rsplit('/').next().unwrap().trim_matches(|c| c == '"' || c == ')' || c == ' ');
                file(&dir.join(name), dir, path, out);
            }
            syn::Item::Struct(s) if derives(&s.attrs, "prost::Message") > 0 => {
                let fields = s
                    .fields
                    .iter()
                    .filter_map(|f| tag(&f.attrs).map(|t| Field { ident: f.ident.as_ref().unwrap().to_string(), tag: t }))
                    .collect();
                let args = s.attrs.iter().filter(|a| a.path().is_ident("prost_reflect")).map(|a| a.meta.require_list().map(|l| l.tokens.to_string()).unwrap_or_default()).collect();
                out.structs.push(Struct { path: format!("{path}::{}", s.ident), derives: derives(&s.attrs, "ReflectMessage"), args, fields });
            }
            syn::Item::Enum(e) if derives(&e.attrs, "prost::Oneof") > 0 => {
                let variants = e.variants.iter().filter_map(|v| tag(&v.attrs).flatten().map(|t| (v.ident.to_string(), t))).collect();
                out.oneofs.push(Oneof { path: format!("{path}::{}", e.ident), variants });
            }
            syn::Item::Impl(i) if i.trait_.as_ref().is_some_and(|t| t.1.segments.last().unwrap().ident == "Name") => {
                let (mut name, mut package) = (String::new(), String::new());
                for x in &i.items {
                    if let syn::ImplItem::Const(c) = x {
                        let v = c.expr.to_token_stream().to_string().trim_matches('"').to_string();
                        if c.ident == "NAME" {
                            name = v;
                        } else {
                            package = v;
                        }
                    } else if let syn::ImplItem::Fn(f) = x {
                        // the name of a nested type
                        if f.sig.ident == "full_name" {
                            let s = f.block.to_token_stream().to_string();
                            let a = s.find('"').unwrap() + 1;
                            let b = s.rfind('"').unwrap();
                            name = s[a..b].to_string();
                            package = String::new();
                            break;
                        }
                    }
                }
                let full = if package.is_empty() { name } else { format!("{package}.{name}") };
                out.names.push((format!("{path}::{}", i.self_ty.to_token_stream()), full));
            }
            _ => {}
        }
    }
}

fn file(p: &Path, dir: &Path, path: &str, out: &mut Types) {
    let s = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {e}", p.display()));
    let f = syn::parse_file(&s).unwrap();
    items(dir, path, &f.items, out);
}

/// The types in the directory of a set.
pub fn walk(dir: &Path, path: &str) -> Types {
    let mut out = Types::default();
    file(&dir.join("mod.rs"), dir, path, &mut out);
    out
}
