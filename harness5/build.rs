//! Compiles hand-written and randomly generated schemas with prost-reflect-build, and writes for every
//! generated type the code to read its fields one by one.
//!
//! Whatever goes wrong in prost-reflect-build is written to `failed.txt`, for the check to report.
#![allow(dead_code)]
#[path = "../harness/src/gen.rs"]
mod gen;
#[path = "../harness/src/rng.rs"]
mod rng;
#[path = "../harness/src/schema.rs"]
mod schema;
#[path = "src/parse.rs"]
mod parse;

use prost::Message;
use prost_reflect_build::Builder;
use std::fmt::Write;
use std::fs;
use std::path::{Path, PathBuf};

fn base(dir: &Path) -> prost_build::Config {
    let mut c = prost_build::Config::new();
    c.out_dir(dir).include_file("mod.rs").enable_type_names();
    c
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=protos");
    println!("cargo:rerun-if-changed=src/parse.rs");
    for f in ["gen.rs", "schema.rs", "rng.rs"] {
        println!("cargo:rerun-if-changed=../harness/src/{f}");
    }
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let mut failed = String::new();
    let mut sets: Vec<(String, bool)> = vec![];
    let mut run = |name: &str, global: bool, f: &dyn Fn(&Path) -> std::io::Result<()>| {
        let dir = out.join(name);
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&dir)));
        let msg = match r {
            Ok(Ok(())) => {
                sets.push((name.to_string(), global));
                return;
            }
            Ok(Err(e)) => e.to_string(),
            Err(p) => format!("panic: {:?}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()))),
        };
        writeln!(failed, "{name}: {msg}").unwrap();
        // what was written may be incomplete
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        fs::write(dir.join("fds.bin"), b"").unwrap();
    };
    run("hand", true, &|dir| {
        Builder::new()
            .file_descriptor_set_path(dir.join("fds.bin"))
            .file_descriptor_set_bytes("crate::bytes::HAND")
            .compile_protos_with_config(base(dir), &["protos/hand.proto", "protos/shared.proto", "protos/nopackage.proto"], &["protos"])
    });
    // uses the types of the first, by way of `configure`
    run("hand2", true, &|dir| {
        let mut c = base(dir);
        c.extern_path(".gen5.shared", "crate::hand::gen5::shared").btree_map(["."]).bytes(["."]);
        Builder::new().file_descriptor_set_path(dir.join("fds.bin")).file_descriptor_set_bytes("crate::bytes::HAND2").configure(&mut c, &["protos/hand2.proto"], &["protos"])?;
        c.compile_protos(&["protos/hand2.proto"], &["protos"])
    });
    // the same with a pool of its own
    run("own", false, &|dir| {
        let mut c = base(dir);
        c.bytes(["."]).boxed(".gen5.hand.Optionals.f_msg").retain_enum_prefix();
        Builder::new()
            .file_descriptor_set_path(dir.join("fds.bin"))
            .descriptor_pool("crate::pools::own()")
            .compile_protos_with_config(c, &["protos/hand.proto", "protos/shared.proto", "protos/nopackage.proto"], &["protos"])
    });
    // random schemas, without protoc
    let mut n = 0;
    let mut seed = 1u64;
    while n < 6 {
        let mut r = rng::Rng::new(seed);
        seed += 1;
        let cfg = gen::GenCfg { max_files: 3, max_msgs: 4, max_fields: 8, wkt: n % 2 == 0, cpp: true, weird_json: false, ..Default::default() };
        let files = gen::gen_files(&mut r, cfg);
        if !parse::supported(&files) {
            continue;
        }
        let name = format!("rand{n}");
        n += 1;
        let names: Vec<String> = files.iter().map(|f| f.name().to_string()).collect();
        let set = prost_types::FileDescriptorSet { file: files };
        run(&name, false, &|dir| {
            fs::write(dir.join("fds.bin"), set.encode_to_vec())?;
            let mut c = base(dir);
            c.skip_protoc_run();
            if n % 2 == 0 {
                c.btree_map(["."]).bytes(["."]);
            }
            Builder::new()
                .file_descriptor_set_path(dir.join("fds.bin"))
                .descriptor_pool(format!("crate::pools::{}()", dir.file_name().unwrap().to_str().unwrap()))
                .compile_protos_with_config(c, &names, &["."])
        });
    }

    // the types which were generated
    let mut code = String::new();
    let mut reg = String::new();
    let (mut bytes, mut pools, mut pool_of) = (String::new(), String::new(), String::new());
    for (s, global) in &sets {
        writeln!(code, "#[allow(clippy::all, dead_code, non_camel_case_types, deprecated, unused)] pub mod {s} {{ include!(concat!(env!(\"OUT_DIR\"), \"/{s}/mod.rs\")); }}").unwrap();
        writeln!(bytes, "pub const {}: &[u8] = include_bytes!(concat!(env!(\"OUT_DIR\"), \"/{s}/fds.bin\"));", s.to_uppercase()).unwrap();
        if !global {
            writeln!(
                pools,
                "pub fn {s}() -> &'static ::prost_reflect::DescriptorPool {{ static P: std::sync::OnceLock<::prost_reflect::DescriptorPool> = std::sync::OnceLock::new(); P.get_or_init(|| ::prost_reflect::DescriptorPool::decode(crate::bytes::{}).unwrap()) }}",
                s.to_uppercase()
            )
            .unwrap();
            write!(pool_of, "{s:?} => crate::pools::{s}(),").unwrap();
        }
        let types = parse::walk(&out.join(s), &format!("crate::{s}"));
        for t in &types.structs {
            let mut body = String::new();
            for f in &t.fields {
                match f.tag {
                    Some(n) => writeln!(body, "v.push(({n}, self.{}.fv()));", f.ident).unwrap(),
                    None => writeln!(body, "if let Some(o) = &self.{} {{ let (n, x) = o.one(); v.push((n, Fv::Some(Box::new(x)))); }}", f.ident).unwrap(),
                }
            }
            writeln!(code, "impl ToFv for {} {{ fn fv(&self) -> Fv {{ #[allow(unused_mut)] let mut v = vec![]; {body} Fv::Msg(v) }} }}", t.path).unwrap();
            writeln!(reg, "v.push(entry::<{}>({s:?}, {}, {global}, <{} as ::prost::Name>::full_name()));", t.path, format_args!("crate::bytes::{}", s.to_uppercase()), t.path).unwrap();
        }
        for e in &types.oneofs {
            let mut body = String::new();
            for (id, n) in &e.variants {
                writeln!(body, "{}::{id}(x) => ({n}, x.fv()),", e.path).unwrap();
            }
            writeln!(code, "impl OneFv for {} {{ fn one(&self) -> (u32, Fv) {{ match self {{ {body} }} }} }}", e.path).unwrap();
        }
    }
    writeln!(code, "pub mod bytes {{ {bytes} }}\npub mod pools {{ {pools} }}\npub fn pool_of(set: &str) -> &'static ::prost_reflect::DescriptorPool {{ match set {{ {pool_of} _ => unreachable!() }} }} pub fn registry() -> Vec<Entry> {{ #[allow(unused_mut)] let mut v = vec![]; {reg} v }}").unwrap();
    fs::write(out.join("types.rs"), code).unwrap();
    fs::write(out.join("failed.txt"), failed).unwrap();
}
