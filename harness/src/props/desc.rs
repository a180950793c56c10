//! Descriptor pools: building, naming, failing, sharing.
use crate::descsnap::*;
use crate::faults;
use crate::gen::*;
use crate::props::*;
use crate::run::*;
use crate::schema::*;
use crate::scope;
use prost::Message;
use prost_reflect::{DescriptorError, DescriptorPool};
use prost_types::{FileDescriptorProto, FileDescriptorSet};

type R = Result<(), String>;

pub fn cfg(ctx: &mut Ctx) -> GenCfg {
    GenCfg { wkt: ctx.r.pct(15), services: true, max_files: 4, max_msgs: 3, max_fields: 7, ..Default::default() }
}

/// One call of one of the entry points with a batch of files.
pub fn add(ctx: &mut Ctx, pool: &mut DescriptorPool, files: &[FileDescriptorProto]) -> Result<(), DescriptorError> {
    let set = || FileDescriptorSet { file: files.to_vec() };
    if files.len() == 1 {
        match ctx.r.below(3) {
            0 => return pool.add_file_descriptor_proto(files[0].clone()),
            1 => return pool.decode_file_descriptor_proto(crate::wire::Frag::new(&mut ctx.r, &files[0].encode_to_vec())),
            _ => {}
        }
    }
    match ctx.r.below(3) {
        0 => pool.add_file_descriptor_set(set()),
        1 => pool.add_file_descriptor_protos(files.iter().cloned()),
        _ => pool.decode_file_descriptor_set(crate::wire::Frag::new(&mut ctx.r, &set().encode_to_vec())),
    }
}

/// Build a pool from dependency-ordered files by a random arrangement.
pub fn arrange(ctx: &mut Ctx, pool: &mut DescriptorPool, files: &[FileDescriptorProto]) -> Result<String, (String, DescriptorError)> {
    let mut desc = String::new();
    let mut left: Vec<FileDescriptorProto> = files.to_vec();
    let have: std::collections::BTreeSet<String> = pool.files().map(|f| f.name().to_string()).collect();
    let mut have = have;
    // a random topological order
    let mut order = vec![];
    while !left.is_empty() {
        let ready: Vec<usize> = (0..left.len()).filter(|&i| left[i].dependency.iter().all(|d| have.contains(d) || !files.iter().any(|f| f.name() == d))).collect();
        let k = *ctx.r.pick(&ready);
        let f = left.remove(k);
        have.insert(f.name().to_string());
        order.push(f);
    }
    let mut i = 0;
    while i < order.len() {
        let n = match ctx.r.below(3) {
            0 => 1,
            1 => order.len() - i,
            _ => 1 + ctx.r.below(order.len() - i),
        };
        let mut batch = order[i..i + n].to_vec();
        if ctx.r.bool() {
            ctx.r.shuffle(&mut batch);
        }
        // some of the batch may be there already
        if i > 0 && ctx.r.pct(30) {
            let at = ctx.r.below(batch.len() + 1);
            let dup = order[ctx.r.below(i)].clone();
            batch.insert(at, dup);
        }
        desc.push_str(&format!("[{}]", batch.iter().map(|f| f.name()).collect::<Vec<_>>().join(" ")));
        add(ctx, pool, &batch).map_err(|e| (desc.clone(), e))?;
        i += n;
    }
    Ok(desc)
}

pub fn probes(files: &[FileDescriptorProto]) -> Vec<String> {
    let t = scope::Table::new(files);
    let mut v: std::collections::BTreeSet<String> = t.syms.keys().cloned().collect();
    for f in files {
        v.insert(f.name().into());
    }
    let more: Vec<String> = v.iter().map(|n| format!("{n}x")).collect();
    v.extend(more);
    v.insert(String::new());
    v.into_iter().collect()
}

fn c17(ctx: &mut Ctx, _: u64) -> R {
    let c = cfg(ctx);
    let files = gen_files(&mut ctx.r, c);
    let s = RSchema::new(&files);
    let (input, n) = if ctx.r.pct(60) { scope::obfuscate(&mut ctx.r, &files) } else { (files.clone(), 0) };
    ctx.count("references written in relative or unset form", n);
    let mut pool = DescriptorPool::new();
    let how = match arrange(ctx, &mut pool, &input) {
        Ok(h) => h,
        Err((h, e)) => return Err(format!("valid definitions were rejected ({h}): {e:?}\n{}", show_files(&input))),
    };
    let mut n = 0;
    check_pool(&pool, &s, &mut n).map_err(|e| format!("{e} (added as {how})\n{}", show_files(&input)))?;
    ctx.count("elements compared with their definition", n);
    let mut n = 0;
    check_absent(&mut ctx.r, &pool, &s, &mut n).map_err(|e| format!("{e} (added as {how})\n{}", show_files(&input)))?;
    ctx.count("lookups by wrong names and numbers", n);
    ctx.feature(format!("{} {} {} {} {}", s.files.len(), s.msgs.len(), s.enums.len(), s.exts.len(), s.svcs.len()).as_bytes());
    ctx.sample(|| show_files(&input));
    Ok(())
}

/// More elements of each kind than any small index type can count.
fn c17_wide(ctx: &mut Ctx) -> R {
    use prost_types::field_descriptor_proto::{Label, Type};
    use prost_types::*;
    const N: usize = 66_000;
    const K: usize = 300;
    let num = |i: usize| if i < 18_999 { i as i32 + 1 } else { i as i32 + 1001 };
    let field = |name: String, n: i32| {
        let mut f = FieldDescriptorProto { name: Some(name), number: Some(n), ..Default::default() };
        f.set_type(Type::Int32);
        f.set_label(Label::Optional);
        f
    };
    let mut m = DescriptorProto { name: Some("W".into()), ..Default::default() };
    m.field = (0..N).map(|i| field(format!("f{i}_x"), num(i))).collect();
    m.oneof_decl = (0..K).map(|i| OneofDescriptorProto { name: Some(format!("o{i}")), options: None }).collect();
    for i in 0..K {
        m.field[i].oneof_index = Some(i as i32);
    }
    let mut file = FileDescriptorProto { name: Some("wide.proto".into()), package: Some("w".into()), ..Default::default() };
    file.message_type = (0..N).map(|i| DescriptorProto { name: Some(format!("M{i}")), ..Default::default() }).collect();
    file.message_type.push(m);
    file.message_type.push(DescriptorProto {
        name: Some("X".into()),
        extension_range: vec![descriptor_proto::ExtensionRange { start: Some(1), end: Some(536_870_912), options: None }],
        ..Default::default()
    });
    file.extension = (0..N)
        .map(|i| FieldDescriptorProto { extendee: Some(".w.X".into()), ..field(format!("e{i}_x"), num(i)) })
        .collect();
    file.enum_type = (0..K)
        .map(|k| EnumDescriptorProto {
            name: Some(format!("E{k}")),
            value: (0..if k == K - 1 { N } else { 1 }).map(|i| EnumValueDescriptorProto { name: Some(format!("V{k}_{i}")), number: Some(i as i32 - 5), options: None }).collect(),
            ..Default::default()
        })
        .collect();
    file.service = (0..K)
        .map(|k| ServiceDescriptorProto {
            name: Some(format!("S{k}")),
            method: (0..if k == K - 1 { K } else { 1 })
                .map(|i| MethodDescriptorProto { name: Some(format!("C{i}")), input_type: Some(format!(".w.M{i}")), output_type: Some(format!(".w.M{}", N - 1 - i)), ..Default::default() })
                .collect(),
            options: None,
        })
        .collect();
    let mut files: Vec<_> = (0..K).map(|k| FileDescriptorProto { name: Some(format!("small{k}.proto")), ..Default::default() }).collect();
    files.push(file);
    let mut pool = DescriptorPool::new();
    pool.add_file_descriptor_protos(files).map_err(|e| format!("wide definitions were rejected: {e:?}"))?;
    let w = pool.get_message_by_name("w.W").ok_or("w.W not found")?;
    let x = pool.get_message_by_name("w.X").ok_or("w.X not found")?;
    let e = pool.get_enum_by_name(&format!("w.E{}", K - 1)).ok_or("last enum not found")?;
    let sv = pool.get_service_by_name(&format!("w.S{}", K - 1)).ok_or("last service not found")?;
    macro_rules! same {
        ($a:expr, $b:expr) => {
            if $a != $b {
                return Err(format!("{} is {:?}, not {:?}", stringify!($a), $a, $b));
            }
        };
    }
    same!(pool.all_messages().len(), N + 2);
    same!(pool.all_enums().len(), K);
    same!(pool.all_extensions().len(), N);
    same!(pool.services().len(), K);
    same!(pool.files().len(), K + 1);
    same!(w.fields().len(), N);
    same!(w.oneofs().len(), K);
    same!(x.extensions().len(), N);
    same!(e.values().len(), N);
    same!(sv.methods().len(), K);
    let mut at: Vec<usize> = vec![0, 1, 127, 128, 255, 256, 257, K - 1, 18_998, 18_999, 32_767, 32_768, 65_535, 65_536, 65_537, N - 1];
    at.extend((0..60).map(|_| ctx.r.below(N)));
    let mut msg = prost_reflect::DynamicMessage::new(w.clone());
    for &i in &at {
        let n = num(i) as u32;
        for (r, f) in [("number", w.get_field(n)), ("name", w.get_field_by_name(&format!("f{i}_x"))), ("JSON name", w.get_field_by_json_name(&format!("f{i}X"))), ("index", w.fields().nth(i))] {
            let Some(f) = f else { return Err(format!("field {i} of {N} not found by {r}")) };
            same!((f.number(), f.name().to_string(), f.path().to_vec()), (n, format!("f{i}_x"), vec![4, N as i32, 2, i as i32]));
            same!(f.containing_oneof().map(|o| o.name().to_string()), (i < K).then(|| format!("o{i}")));
        }
        for (r, f) in [("number", x.get_extension(n)), ("name", x.get_extension_by_full_name(&format!("w.e{i}_x"))), ("JSON name", x.get_extension_by_json_name(&format!("[w.e{i}_x]"))), ("name in the pool", pool.get_extension_by_name(&format!("w.e{i}_x")))] {
            let Some(f) = f else { return Err(format!("extension {i} of {N} not found by {r}")) };
            same!((f.number(), f.full_name().to_string(), f.path().to_vec()), (n, format!("w.e{i}_x"), vec![7, i as i32]));
        }
        for (r, v) in [("number", e.get_value(i as i32 - 5)), ("name", e.get_value_by_name(&format!("V{}_{i}", K - 1)))] {
            let Some(v) = v else { return Err(format!("enum value {i} of {N} not found by {r}")) };
            same!((v.number(), v.name().to_string(), v.path().to_vec()), (i as i32 - 5, format!("V{}_{i}", K - 1), vec![5, K as i32 - 1, 2, i as i32]));
        }
        for (r, v) in [("name", pool.get_message_by_name(&format!("w.M{i}"))), ("index", pool.all_messages().nth(i))] {
            let Some(v) = v else { return Err(format!("message {i} of {N} not found by {r}")) };
            same!((v.name().to_string(), v.path().to_vec()), (format!("M{i}"), vec![4, i as i32]));
        }
        if i < K {
            let c = sv.methods().nth(i).ok_or("method not found")?;
            same!((c.name().to_string(), c.input().name().to_string(), c.output().name().to_string()), (format!("C{i}"), format!("M{i}"), format!("M{}", N - 1 - i)));
            same!(pool.files().nth(i).map(|f| f.name().to_string()), Some(format!("small{i}.proto")));
            let o = w.oneofs().nth(i).unwrap();
            same!(o.fields().map(|f| f.number()).collect::<Vec<_>>(), vec![n]);
        }
        msg.set_field_by_number(n, prost_reflect::Value::I32(i as i32 + 1));
        same!(msg.get_field_by_name(&format!("f{i}_x")).unwrap().as_i32(), Some(i as i32 + 1));
    }
    ctx.count("elements of wide definitions compared", at.len() as u64 * 12);
    Ok(())
}

fn c17_directed(ctx: &mut Ctx) -> R {
    c17_wide(ctx)?;
    // the compiler's own output for the well-known types, and the pool that ships with the library
    let files = wkt_files().clone();
    let s = RSchema::new(&files);
    let pool = DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: files.clone() }).map_err(|e| format!("{e:?}"))?;
    let mut n = 0;
    check_pool(&pool, &s, &mut n)?;
    check_absent(&mut ctx.r, &pool, &s, &mut n)?;
    ctx.count("elements compared with their definition", n);
    let empty = DescriptorPool::new();
    check_pool(&empty, &RSchema::new(&[]), &mut n)?;
    if empty.get_message_by_name("").is_some() || empty.encode_to_vec() != b"" {
        return Err("an empty pool is not empty".into());
    }
    Ok(())
}

fn c22(ctx: &mut Ctx, _: u64) -> R {
    let c = GenCfg { max_files: 5, max_msgs: 2, max_fields: 5, ..cfg(ctx) };
    let files = gen_files(&mut ctx.r, c);
    let (input, _) = if ctx.r.pct(50) { scope::obfuscate(&mut ctx.r, &files) } else { (files.clone(), 0) };
    let pr = probes(&files);
    let bad = |e: String| format!("{e}\n{}", show_files(&input));
    let mut reference = DescriptorPool::new();
    reference.add_file_descriptor_protos(input.iter().cloned()).map_err(|e| bad(format!("valid definitions were rejected in one batch: {e:?}")))?;
    let want = snapshot(&reference, &pr);
    for _ in 0..3 {
        let mut pool = DescriptorPool::new();
        let how = arrange(ctx, &mut pool, &input).map_err(|(h, e)| bad(format!("valid definitions were rejected when added as {h}: {e:?}")))?;
        let got = snapshot(&pool, &pr);
        if let Some(d) = snap_diff(&want, &got) {
            return Err(bad(format!("added as {how}: {d}")));
        }
        ctx.count("arrangements compared", 1);
        ctx.feature(how.as_bytes());
        // adding anything again is a no-op
        let mut again = input.clone();
        ctx.r.shuffle(&mut again);
        again.truncate(1 + ctx.r.below(again.len()));
        let before = pool.clone();
        add(ctx, &mut pool, &again).map_err(|e| bad(format!("adding identical files again failed: {e:?}")))?;
        if pool != before {
            return Err(bad("adding identical files again made the pool another pool".into()));
        }
        if let Some(d) = snap_diff(&want, &snapshot(&pool, &pr)) {
            return Err(bad(format!("adding identical files again changed the pool: {d}")));
        }
        ctx.count("repeated additions", 1);
    }
    // rebuilt from its own encoding
    let set = FileDescriptorSet { file: reference.file_descriptor_protos().cloned().collect() };
    let pool = DescriptorPool::from_file_descriptor_set(set).map_err(|e| bad(format!("the pool's own descriptors were rejected: {e:?}")))?;
    let got = snapshot(&pool, &pr);
    if let Some(d) = snap_diff(&want, &got) {
        return Err(bad(format!("rebuilt from file_descriptor_protos(): {d}")));
    }
    let pool = DescriptorPool::decode(&reference.encode_to_vec()[..]).map_err(|e| bad(format!("the pool's own encoding was rejected: {e:?}")))?;
    if let Some(d) = snap_diff(&want, &snapshot(&pool, &pr)) {
        return Err(bad(format!("rebuilt from encode_to_vec(): {d}")));
    }
    // a missing dependency is missed in every arrangement
    let needed: Vec<usize> = (0..input.len()).filter(|&i| input.iter().any(|f| f.dependency.iter().any(|d| d == input[i].name()))).collect();
    if !needed.is_empty() {
        let gone = *ctx.r.pick(&needed);
        let mut rest = input.clone();
        let lost = rest.remove(gone);
        let mut pool = DescriptorPool::new();
        match arrange(ctx, &mut pool, &rest) {
            Ok(how) => return Err(bad(format!("accepted without {} when added as {how}", lost.name()))),
            Err(_) => ctx.count("sets with a missing file rejected", 1),
        }
    }
    Ok(())
}

/// A batch that must fail: dependency-ordered files with one fault; the first `base` files are not touched.
fn break_it(ctx: &mut Ctx, files: &[FileDescriptorProto], base: usize) -> Option<(Vec<FileDescriptorProto>, faults::Fault)> {
    for _ in 0..30 {
        let kind = *ctx.r.pick(faults::KINDS);
        let mut fs = files.to_vec();
        let n = files.len();
        if let Some(f) = faults::inject(&mut ctx.r, &mut fs, kind, &|i| i >= base && i < n) {
            if kind == "duplicate-file" && base > 0 && f.file < base {
                continue;
            }
            return Some((fs, f));
        }
    }
    None
}

fn c19(ctx: &mut Ctx, _: u64) -> R {
    let c = cfg(ctx);
    let nw = if c.wkt { 7 } else { 0 };
    let files = gen_files(&mut ctx.r, c);
    let base = files.len().min(nw + if ctx.r.bool() { 0 } else { ctx.r.below(files.len() - nw) });
    let mut ok = DescriptorPool::new();
    ok.add_file_descriptor_protos(files.iter().cloned())
        .map_err(|e| format!("valid definitions were rejected: {e:?}\n{}", show_files(&files)))?;
    for _ in 0..8 {
        let kind = *ctx.r.pick(faults::KINDS);
        let mut fs = files.clone();
        let n = fs.len();
        let Some(ft) = faults::inject(&mut ctx.r, &mut fs, kind, &|i| i >= base.max(nw) && i < n) else { continue };
        let mut pool = DescriptorPool::new();
        if base > 0 {
            pool.add_file_descriptor_protos(fs[..base].iter().cloned()).map_err(|e| format!("valid definitions were rejected: {e:?}\n{}", show_files(&files[..base])))?;
        }
        let mut batch = fs[base..].to_vec();
        if ctx.r.bool() {
            ctx.r.shuffle(&mut batch);
        }
        match add(ctx, &mut pool, &batch) {
            Ok(()) => return Err(format!("accepted with fault {kind} ({}) in {}\n{}", ft.what, files[ft.file].name(), show_files(&fs))),
            Err(e) => {
                ctx.count(&format!("rejected: {kind}"), 1);
                ctx.feature(format!("{kind} {}", err_shape(&e)).as_bytes());
                // an error can be displayed
                let _ = format!("{e} {e:?}");
            }
        }
    }
    Ok(())
}

fn err_shape(e: &DescriptorError) -> String {
    e.path().map(|p| p.iter().enumerate().map(|(i, x)| if i % 2 == 0 || p.len() == i + 1 { format!("{x}.") } else { "*.".into() }).collect()).unwrap_or_default()
}

/// Pools, clones and descriptors as a user would hold them, with everything they showed when taken.
struct Held {
    pool: DescriptorPool,
    snap: Snap,
    msgs: Vec<(prost_reflect::MessageDescriptor, String)>,
    exts: Vec<(prost_reflect::ExtensionDescriptor, String)>,
}

fn hold(ctx: &mut Ctx, pool: &DescriptorPool, pr: &[String]) -> Held {
    let mut h = Held { pool: pool.clone(), snap: snapshot(pool, pr), msgs: vec![], exts: vec![] };
    for m in pool.all_messages() {
        if ctx.r.pct(40) {
            let t = message_text(&m);
            h.msgs.push((m, t));
        }
    }
    for m in pool.all_extensions() {
        if ctx.r.pct(40) {
            let t = ext_text(&m);
            h.exts.push((m, t));
        }
    }
    h
}

fn recheck(h: &Held, pr: &[String]) -> R {
    if let Some(d) = snap_diff(&h.snap, &snapshot(&h.pool, pr)) {
        return Err(d);
    }
    for (m, t) in &h.msgs {
        let now = message_text(m);
        if now != *t {
            return Err(format!("a held descriptor of {} changed: {t} now {now}", m.full_name()));
        }
        if *m.parent_pool() != h.pool || h.pool.get_message_by_name(m.full_name()).as_ref() != Some(m) {
            return Err(format!("a held descriptor of {} is no longer the pool's", m.full_name()));
        }
    }
    for (m, t) in &h.exts {
        let now = ext_text(m);
        if now != *t {
            return Err(format!("a held descriptor of {} changed: {t} now {now}", m.full_name()));
        }
        if *m.parent_pool() != h.pool || h.pool.get_extension_by_name(m.full_name()).as_ref() != Some(m) {
            return Err(format!("a held descriptor of {} is no longer the pool's", m.full_name()));
        }
    }
    Ok(())
}

fn c20(ctx: &mut Ctx, _: u64) -> R {
    let c = cfg(ctx);
    let nw = if c.wkt { 7 } else { 0 };
    let files = gen_files(&mut ctx.r, c);
    let base = nw + ctx.r.below(files.len() - nw);
    let mut all = files.clone();
    // names that only the failing batches would bring
    let mut ghost = FileDescriptorProto { name: Some("ghost.proto".into()), package: Some("ghost.town".into()), ..Default::default() };
    ghost.message_type.push(prost_types::DescriptorProto { name: Some("Ghost".into()), ..Default::default() });
    all.push(ghost.clone());
    let pr = probes(&all);
    let mut pool = DescriptorPool::new();
    arrange(ctx, &mut pool, &files[..base]).map_err(|e| format!("valid definitions were rejected: {e:?}\n{}", show_files(&files)))?;
    let mut log = vec![format!("base of {base} files")];
    for _ in 0..1 + ctx.r.below(3) {
        // with nothing else alive, with a clone, or only with descriptors
        let before = snapshot(&pool, &pr);
        let held = match ctx.r.below(3) {
            0 => None,
            _ => Some(hold(ctx, &pool, &pr)),
        };
        let what;
        let failed = match ctx.r.below(8) {
            0 => {
                what = "undecodable bytes".to_string();
                let mut b = FileDescriptorSet { file: files[base..].to_vec() }.encode_to_vec();
                b.extend([0x0a, 0x05, 0x0a]);
                pool.decode_file_descriptor_set(&b[..]).is_err()
            }
            1 => {
                what = "undecodable file".to_string();
                let mut b = files[base].encode_to_vec();
                b.extend([0x22, 0x7f, 0x01]);
                pool.decode_file_descriptor_proto(&b[..]).is_err()
            }
            _ => {
                let Some((fs, ft)) = break_it(ctx, &files, base) else { continue };
                what = format!("{} {} in {}", ft.kind, ft.what, files[ft.file].name());
                let mut batch = fs[base..].to_vec();
                if ctx.r.bool() {
                    let at = ctx.r.below(batch.len() + 1);
                    batch.insert(at, ghost.clone());
                }
                if ctx.r.pct(30) {
                    ctx.r.shuffle(&mut batch);
                }
                ctx.count(&format!("failing: {}", ft.kind), 1);
                add(ctx, &mut pool, &batch).is_err()
            }
        };
        log.push(what);
        if !failed {
            // whether it should have been rejected is another property's question
            return Ok(());
        }
        let bad = |e: String| format!("after failed additions {log:?}: {e}\n{}", show_files(&files));
        if let Some(d) = snap_diff(&before, &snapshot(&pool, &pr)) {
            return Err(bad(d));
        }
        ctx.count("pools compared around a failed addition", 1);
        if let Some(h) = &held {
            recheck(h, &pr).map_err(bad)?;
            if h.pool != pool {
                return Err(bad("the pool is no longer equal to its clone".into()));
            }
            for (m, _) in &h.msgs {
                if pool.get_message_by_name(m.full_name()).as_ref() != Some(m) {
                    return Err(bad(format!("the descriptor of {} held from before is no longer the pool's", m.full_name())));
                }
            }
            ctx.count("clones and descriptors rechecked", 1 + h.msgs.len() as u64 + h.exts.len() as u64);
        }
        // a control pool that never failed
        let mut control = DescriptorPool::new();
        control.add_file_descriptor_protos(files[..base].iter().cloned()).unwrap();
        if let Some(d) = snap_diff(&snapshot(&control, &pr), &snapshot(&pool, &pr)) {
            return Err(bad(format!("differs from a pool that never failed: {d}")));
        }
    }
    // carry on as if nothing had happened
    let mut rest = files[base..].to_vec();
    rest.push(ghost);
    let bad = |e: String| format!("after failed additions {log:?}: {e}\n{}", show_files(&files));
    let how = arrange(ctx, &mut pool, &rest).map_err(|e| bad(format!("the corrected files were rejected: {e:?}")))?;
    let mut control = DescriptorPool::new();
    control.add_file_descriptor_protos(files[..base].iter().cloned()).unwrap();
    control.add_file_descriptor_protos(rest).map_err(|e| bad(format!("control: {e:?}")))?;
    if let Some(d) = snap_diff(&snapshot(&control, &pr), &snapshot(&pool, &pr)) {
        return Err(bad(format!("corrected files ({how}): {d}")));
    }
    ctx.count("corrected batches compared with a pool that never failed", 1);
    ctx.feature(log.join("|").as_bytes());
    Ok(())
}

struct Handle {
    pool: DescriptorPool,
    have: Vec<usize>,
    snap: Snap,
    group: u64,
}

fn c21(ctx: &mut Ctx, _: u64) -> R {
    let c = GenCfg { max_files: 6, max_msgs: 2, max_fields: 4, wkt: false, ..cfg(ctx) };
    let files = gen_files(&mut ctx.r, c);
    let pr = probes(&files);
    let mut log: Vec<String> = vec![];
    let mut hs: Vec<Handle> = vec![Handle { pool: DescriptorPool::new(), have: vec![], snap: snapshot(&DescriptorPool::new(), &pr), group: 0 }];
    let mut held: Vec<(u64, Held)> = vec![];
    let mut groups = 1u64;
    // messages stored with the descriptors they were made from
    let mut vals: Vec<(prost_reflect::DynamicMessage, String, Vec<u8>)> = vec![];
    for _ in 0..6 + ctx.r.below(14) {
        let i = ctx.r.below(hs.len());
        match ctx.r.below(10) {
            0 | 1 => {
                let h = &hs[i];
                log.push(format!("clone {i}"));
                let n = Handle { pool: h.pool.clone(), have: h.have.clone(), snap: h.snap.clone(), group: h.group };
                hs.push(n);
            }
            2 if hs.len() > 1 => {
                log.push(format!("drop {i}"));
                hs.remove(i);
            }
            3 => {
                log.push(format!("hold {i}"));
                let p = hs[i].pool.clone();
                let g = hs[i].group;
                let mut h = hold(ctx, &p, &pr);
                if ctx.r.bool() {
                    // only descriptors keep it alive
                    if let Some((m, _)) = h.msgs.first() {
                        h.pool = m.parent_pool().clone();
                    }
                }
                held.push((g, h));
            }
            4 => {
                let p = &hs[i].pool;
                let ms: Vec<_> = p.all_messages().filter(|m| !m.is_map_entry()).collect();
                if ms.is_empty() {
                    continue;
                }
                let m = ctx.r.pick(&ms).clone();
                let s = RSchema::new(&hs[i].have.iter().map(|&k| files[k].clone()).collect::<Vec<_>>());
                let v = crate::rmsg::gen_msg(&mut ctx.r, &s, m.full_name(), crate::rmsg::ValCfg { nan: false, ..Default::default() });
                let d = crate::dynconv::to_dyn(&s, p, &v);
                log.push(format!("message {} of {i}", m.full_name()));
                let t = msg_canon(&d);
                let b = d.encode_to_vec();
                vals.push((d, t, b));
            }
            5 => {
                // failing addition
                let missing: Vec<usize> = (0..files.len()).filter(|k| !hs[i].have.contains(k)).collect();
                if missing.is_empty() {
                    continue;
                }
                let mut fs: Vec<FileDescriptorProto> = missing.iter().map(|&k| files[k].clone()).collect();
                let k = ctx.r.below(fs.len());
                fs[k].dependency.push("nope.proto".into());
                log.push(format!("fail {i}"));
                let r = add(ctx, &mut hs[i].pool, &fs);
                if r.is_ok() {
                    return Err(format!("accepted a missing import\n{}", show_files(&fs)));
                }
            }
            _ => {
                let ready: Vec<usize> = (0..files.len())
                    .filter(|k| !hs[i].have.contains(k) && files[*k].dependency.iter().all(|d| hs[i].have.iter().any(|h| files[*h].name() == d)))
                    .collect();
                if ready.is_empty() {
                    continue;
                }
                let k = *ctx.r.pick(&ready);
                log.push(format!("add {} to {i}", files[k].name()));
                let f = files[k].clone();
                add(ctx, &mut hs[i].pool, &[f]).map_err(|e| format!("{log:?}: valid definitions were rejected: {e:?}\n{}", show_files(&files)))?;
                let h = &mut hs[i];
                h.have.push(k);
                groups += 1;
                h.group = groups;
                let mut fresh = DescriptorPool::new();
                for &k in &h.have {
                    fresh.add_file_descriptor_proto(files[k].clone()).map_err(|e| format!("{e:?}"))?;
                }
                h.snap = snapshot(&fresh, &pr);
            }
        }
        ctx.count("operations on shared pools", 1);
        let bad = |e: String| format!("history {log:?}: {e}\n{}", show_files(&files));
        for (k, h) in hs.iter().enumerate() {
            if let Some(d) = snap_diff(&h.snap, &snapshot(&h.pool, &pr)) {
                return Err(bad(format!("handle {k}: {d}")));
            }
        }
        for (_, h) in &held {
            recheck(h, &pr).map_err(bad)?;
        }
        ctx.count("snapshots rechecked", (hs.len() + held.len()) as u64);
        for (m, t, b) in &vals {
            if msg_canon(m) != *t {
                return Err(bad(format!("a message changed: {t} now {}", msg_canon(m))));
            }
            use prost_reflect::ReflectMessage;
            let back = prost_reflect::DynamicMessage::decode(m.descriptor(), &b[..]).map_err(|e| bad(format!("{e}")))?;
            if back != *m {
                return Err(bad("a message no longer decodes to itself".into()));
            }
            ctx.count("old messages used again", 1);
        }
        // identity by pool
        for a in 0..hs.len() {
            for b in 0..hs.len() {
                if (hs[a].pool == hs[b].pool) != (hs[a].group == hs[b].group) {
                    return Err(bad(format!("handles {a} and {b}: equal is {}, same pool is {}", hs[a].pool == hs[b].pool, hs[a].group == hs[b].group)));
                }
            }
            for (g, h) in &held {
                if (hs[a].pool == h.pool) != (hs[a].group == *g) {
                    return Err(bad(format!("handle {a} and a held clone: equal is {}, same pool is {}", hs[a].pool == h.pool, hs[a].group == *g)));
                }
                for (m, _) in h.msgs.iter().take(3) {
                    let same = hs[a].pool.get_message_by_name(m.full_name()).is_some_and(|x| x == *m);
                    if same != (hs[a].group == *g) {
                        return Err(bad(format!("descriptor of {}: equal is {same}", m.full_name())));
                    }
                }
            }
        }
    }
    ctx.feature(log.iter().map(|l| &l[..3]).collect::<String>().as_bytes());
    // every pool handle goes away, the descriptors stay
    let mut kept: Vec<(prost_reflect::MessageDescriptor, String)> = vec![];
    for (_, h) in held {
        kept.extend(h.msgs);
    }
    drop(hs);
    for (m, t) in &kept {
        if message_text(m) != *t {
            return Err(format!("history {log:?}: a descriptor changed when the pool handles were dropped"));
        }
        let d = prost_reflect::DynamicMessage::new(m.clone());
        let _ = d.encode_to_vec();
        ctx.count("descriptors used after all pool handles were gone", 1);
    }
    Ok(())
}

/// What an old handle makes of types and extensions that were unknown when it was taken.
fn about_later(holder: &prost_reflect::MessageDescriptor, pkg: &str, url: &str) -> Vec<String> {
    use prost_reflect::{DynamicMessage, SerializeOptions};
    let pool = holder.parent_pool();
    let mut out = vec![];
    let f = |x: Option<String>| x.unwrap_or_else(|| "none".into());
    out.push(format!("message {}", f(pool.get_message_by_name(&format!("{pkg}.Late")).map(|m| m.full_name().into()))));
    out.push(format!("enum {}", f(pool.get_enum_by_name(&format!("{pkg}.LateEnum")).map(|m| m.full_name().into()))));
    out.push(format!("service {}", f(pool.get_service_by_name(&format!("{pkg}.LateService")).map(|m| m.full_name().into()))));
    out.push(format!("extension {}", f(pool.get_extension_by_name(&format!("{pkg}.late_ext")).map(|m| m.full_name().into()))));
    out.push(format!("file {}", f(pool.get_file_by_name(&format!("{pkg}/late.proto")).map(|m| m.name().into()))));
    out.push(format!("sizes {} {} {} {}", pool.all_messages().len(), pool.all_enums().len(), pool.files().len(), pool.all_extensions().len()));
    out.push(format!("of the message {}", holder.extensions().count()));
    out.push(format!("by number {}", f(holder.get_extension(150).map(|e| e.full_name().into()))));
    out.push(format!("by name {}", f(holder.get_extension_by_full_name(&format!("{pkg}.late_ext")).map(|e| e.full_name().into()))));
    out.push(format!("by JSON name {}", f(holder.get_extension_by_json_name(&format!("[{pkg}.late_ext]")).map(|e| e.full_name().into()))));
    // a message with a payload of the later type and a value of the later extension
    let type_url = format!("{url}{pkg}.Late");
    let any = prost_types::Any { type_url: type_url.clone(), value: vec![0x08, 0x2a] };
    let mut bytes = vec![0x0a];
    prost::encoding::encode_varint(any.encoded_len() as u64, &mut bytes);
    bytes.extend(any.encode_to_vec());
    bytes.extend([0xb0, 0x09, 0x07]);
    match DynamicMessage::decode(holder.clone(), &bytes[..]) {
        Err(e) => out.push(format!("decode error {e}")),
        Ok(m) => {
            out.push(format!("extensions {:?}", m.extensions().map(|(e, v)| format!("{} {v:?}", e.full_name())).collect::<Vec<_>>()));
            out.push(format!("unknown {:?}", m.unknown_fields().map(|u| u.number()).collect::<Vec<_>>()));
            out.push(format!("bytes {:?}", m.encode_to_vec()));
            for k in 0..4u8 {
                let o = prost_reflect::text_format::FormatOptions::new().expand_any(k & 1 != 0).skip_unknown_fields(k & 2 != 0);
                out.push(format!("text {}", m.to_text_format_with_options(&o)));
            }
            let mut j = vec![];
            let r = m.serialize_with_options(&mut serde_json::Serializer::new(&mut j), &SerializeOptions::new());
            out.push(match r {
                Ok(()) => format!("JSON {}", String::from_utf8_lossy(&j)),
                Err(e) => format!("JSON error {e}"),
            });
        }
    }
    for t in [format!("any {{ [{type_url}] {{ n: 5 }} }}"), format!("[{pkg}.late_ext]: 3")] {
        out.push(match DynamicMessage::parse_text_format(holder.clone(), &t) {
            Ok(m) => format!("read text {:?}", m.encode_to_vec()),
            Err(e) => format!("text rejected {e}"),
        });
    }
    for t in [format!("{{\"any\":{{\"@type\":\"{type_url}\",\"n\":5}}}}"), format!("{{\"[{pkg}.late_ext]\":3}}")] {
        out.push(match DynamicMessage::deserialize(holder.clone(), &mut serde_json::Deserializer::from_str(&t)) {
            Ok(m) => format!("read JSON {:?}", m.encode_to_vec()),
            Err(e) => format!("JSON rejected {e}"),
        });
    }
    out
}

/// Additions to the global pool, or to a pool of one's own, seen from handles taken before.
fn c21_directed(ctx: &mut Ctx) -> R {
    use std::sync::atomic::{AtomicU64, Ordering};
    static SERIAL: AtomicU64 = AtomicU64::new(0);
    for round in 0..60 {
        let pkg = format!("c21later.n{}", SERIAL.fetch_add(1, Ordering::Relaxed));
        let url = *ctx.r.pick(&["type.googleapis.com/", "type.googleprod.com/"]);
        let field = |name: &str, number: i32, ty: i32, tn: Option<&str>| prost_types::FieldDescriptorProto {
            name: Some(name.into()),
            number: Some(number),
            label: Some(1),
            r#type: Some(ty),
            type_name: tn.map(|x| x.to_string()),
            ..Default::default()
        };
        let early = FileDescriptorProto {
            name: Some(format!("{pkg}/early.proto")),
            package: Some(pkg.clone()),
            dependency: vec!["google/protobuf/any.proto".into()],
            message_type: vec![prost_types::DescriptorProto {
                name: Some("Holder".into()),
                field: vec![field("any", 1, 11, Some(".google.protobuf.Any"))],
                extension_range: vec![prost_types::descriptor_proto::ExtensionRange { start: Some(100), end: Some(200), ..Default::default() }],
                ..Default::default()
            }],
            ..Default::default()
        };
        let late = FileDescriptorProto {
            name: Some(format!("{pkg}/late.proto")),
            package: Some(pkg.clone()),
            dependency: vec![early.name().to_string()],
            message_type: vec![prost_types::DescriptorProto { name: Some("Late".into()), field: vec![field("n", 1, 5, None)], ..Default::default() }],
            enum_type: vec![prost_types::EnumDescriptorProto {
                name: Some("LateEnum".into()),
                value: vec![prost_types::EnumValueDescriptorProto { name: Some("LATE".into()), number: Some(0), options: None }],
                ..Default::default()
            }],
            service: vec![prost_types::ServiceDescriptorProto { name: Some("LateService".into()), ..Default::default() }],
            extension: vec![prost_types::FieldDescriptorProto { extendee: Some(format!(".{pkg}.Holder")), ..field("late_ext", 150, 5, None) }],
            ..Default::default()
        };
        let global = round % 2 == 0;
        let mut own = DescriptorPool::new();
        for f in wkt_files() {
            own.add_file_descriptor_proto(f.clone()).map_err(|e| format!("{e:?}"))?;
        }
        let put = |own: &mut DescriptorPool, f: &FileDescriptorProto| {
            match global {
                true => DescriptorPool::add_global_file_descriptor_proto(f.clone()),
                false => own.add_file_descriptor_proto(f.clone()),
            }
            .map_err(|e| format!("{}: valid definitions were rejected: {e:?}", f.name()))
        };
        let get = |own: &DescriptorPool| if global { DescriptorPool::global() } else { own.clone() };
        put(&mut own, &early)?;
        let old = get(&own);
        let name = format!("{pkg}.Holder");
        let holder = old.get_message_by_name(&name).ok_or("no Holder")?;
        let cold = round % 4 < 2;
        let before = if cold {
            // an equal handle of a pool of its own is asked instead, so that nothing was looked up in this one
            let mut p = DescriptorPool::new();
            for f in old.files() {
                p.add_file_descriptor_proto(f.file_descriptor_proto().clone()).map_err(|e| format!("{e:?}"))?;
            }
            about_later(&p.get_message_by_name(&name).unwrap(), &pkg, url)
        } else {
            about_later(&holder, &pkg, url)
        };
        put(&mut own, &late)?;
        let after = about_later(&holder, &pkg, url);
        let where_ = if global { "the global pool" } else { "a pool" };
        if before.len() != after.len() {
            return Err(format!("{pkg}, {where_}: {before:?} became {after:?}"));
        }
        for (a, b) in before.iter().zip(&after) {
            if a != b {
                return Err(format!("{pkg}, {where_}, asked before: {}: the old handle said {a:?}, after an addition it says {b:?}", !cold));
            }
        }
        let new = get(&own).get_message_by_name(&name).ok_or("no Holder")?;
        let now = about_later(&new, &pkg, url);
        for want in ["by number", "by name", "by JSON name", "message", "extension", "enum", "service"] {
            let line = now.iter().find(|l| l.starts_with(want)).unwrap();
            if line.ends_with("none") {
                return Err(format!("{pkg}, {where_}: the new handle does not see the addition: {line}"));
            }
        }
        if now.iter().any(|l| l.contains("rejected") || l.contains("error")) {
            return Err(format!("{pkg}, {where_}: the new handle cannot use the added type: {now:?}"));
        }
        ctx.count("old handles asked about later types", 1);
    }
    Ok(())
}

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C17",
        quick: 20_000,
        thorough: 120_000,
        rule: "case i: valid definition set drawn from hash(seed, id, i), added by a random arrangement; every accessor of every element compared with an independent reading",
        case: c17,
        directed: Some(c17_directed),
        extra: None,
        need: &["elements of wide definitions compared", "elements compared with their definition", "lookups by wrong names and numbers"],
        level: "full walk of generated pools",
    },
    Prop {
        id: "C19",
        quick: 20_000,
        thorough: 200_000,
        rule: "case i: valid definition set drawn from hash(seed, id, i) plus single faults at random applicable elements",
        case: c19,
        directed: None,
        extra: None,
        need: &["rejected: unnamed", "rejected: bad-default", "rejected: invisible-type", "rejected: repeated-option"],
        level: "fault injection",
    },
    Prop {
        id: "C20",
        quick: 8_000,
        thorough: 100_000,
        rule: "case i: base pool and failing batches drawn from hash(seed, id, i); complete snapshots around each failure and a control pool",
        case: c20,
        directed: None,
        extra: None,
        need: &["pools compared around a failed addition", "clones and descriptors rechecked"],
        level: "state snapshots around injected failures",
    },
    Prop {
        id: "C21",
        quick: 3_000,
        thorough: 40_000,
        rule: "case i: history of clone/add/fail/drop/hold operations drawn from hash(seed, id, i); every handle and descriptor rechecked after every step",
        case: c21,
        directed: Some(c21_directed),
        extra: None,
        need: &["snapshots rechecked", "old messages used again", "descriptors used after all pool handles were gone", "old handles asked about later types"],
        level: "history monitor",
    },
    Prop {
        id: "C22",
        quick: 6_000,
        thorough: 80_000,
        rule: "case i: definition set drawn from hash(seed, id, i) added by several random partitions, orders and entry points",
        case: c22,
        directed: None,
        extra: None,
        need: &["arrangements compared", "repeated additions", "sets with a missing file rejected"],
        level: "metamorphic comparison",
    },
];
