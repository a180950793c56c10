//! C25: pools and messages are safe to use from many threads.
//!
//! Half of the cases record histories of the global pool (calls and answers with their order in time) and search
//! for a sequential order that explains them. The other half use the same pool, descriptors and messages from
//! many threads and compare every answer with that of one thread. The same cases run under ThreadSanitizer,
//! AddressSanitizer and Miri (tools/san.sh).
use super::json::ser;
use crate::descsnap::*;
use crate::dynconv::*;
use crate::gen::*;
use crate::json::Opts;
use crate::props::*;
use crate::rmsg::*;
use crate::rng::Rng;
use crate::run::*;
use crate::schema::*;
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage, ReflectMessage, Value};
use prost_types::*;
use std::collections::HashSet;
use std::option::Option;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Barrier;

type R = Result<(), String>;

/// Order in time, without ordering the memory accesses around it.
static CLOCK: AtomicU64 = AtomicU64::new(0);
static SERIAL: AtomicU64 = AtomicU64::new(0);

fn pause(r: &mut Rng) {
    match r.below(8) {
        0 => std::thread::yield_now(),
        1 => std::thread::sleep(std::time::Duration::from_micros(r.below(120) as u64)),
        2 | 3 => (0..r.below(300)).for_each(|_| std::hint::spin_loop()),
        _ => (),
    }
}

// ------------------------------------------------------------------ the global pool

/// Versions of files of one case. What matters of each: its name, what it defines, what it needs.
struct Version {
    file: FileDescriptorProto,
    name: usize,
    defines: &'static [&'static str],
    /// (file, symbol)
    needs: Option<(usize, &'static str)>,
    valid: bool,
}

fn versions(pkg: &str) -> Vec<Version> {
    let f = |name: usize, defines: &'static [&'static str], needs: Option<(usize, &'static str)>, valid: bool, tag: &str| {
        let mut d = FileDescriptorProto {
            name: Some(format!("{pkg}/{name}.proto")),
            package: Some(pkg.into()),
            syntax: Some("proto2".into()),
            ..Default::default()
        };
        for s in defines {
            let mut m = DescriptorProto { name: Some(s.to_string()), ..Default::default() };
            m.field.push(FieldDescriptorProto { name: Some("n".into()), number: Some(1), r#type: Some(5), label: Some(1), ..Default::default() });
            if let Some((_, n)) = needs {
                m.field.push(FieldDescriptorProto { name: Some("m".into()), number: Some(2), r#type: Some(11), label: Some(1), type_name: Some(format!(".{pkg}.{n}")), ..Default::default() });
            }
            if !valid {
                m.field.push(FieldDescriptorProto { name: Some("bad".into()), number: Some(3), r#type: Some(11), label: Some(1), type_name: Some(".no.such.type".into()), ..Default::default() });
            }
            m.extension_range.push(descriptor_proto::ExtensionRange { start: Some(100), end: Some(200), ..Default::default() });
            d.message_type.push(m);
            d.enum_type.push(EnumDescriptorProto {
                name: Some(format!("{s}E")),
                value: vec![EnumValueDescriptorProto { name: Some(format!("{s}_ZERO")), number: Some(0), ..Default::default() }],
                ..Default::default()
            });
            d.extension.push(FieldDescriptorProto {
                name: Some(format!("{s}_ext")),
                number: Some(100),
                r#type: Some(9),
                label: Some(1),
                extendee: Some(format!(".{pkg}.{s}")),
                ..Default::default()
            });
            d.service.push(ServiceDescriptorProto {
                name: Some(format!("{s}S")),
                method: vec![MethodDescriptorProto { name: Some("Call".into()), input_type: Some(format!(".{pkg}.{s}")), output_type: Some(format!(".{pkg}.{s}")), ..Default::default() }],
                ..Default::default()
            });
        }
        if let Some((n, _)) = needs {
            d.dependency.push(format!("{pkg}/{n}.proto"));
        }
        d.options = Some(FileOptions { java_package: Some(tag.into()), ..Default::default() });
        Version { file: d, name, defines, needs, valid }
    };
    vec![
        f(0, &["A"], None, true, "a"),
        f(0, &["A2"], None, true, "a2"),
        f(1, &["B", "BB"], Some((0, "A")), true, "b"),
        f(2, &["A", "C"], None, true, "c"),
        f(3, &["D"], None, false, "d"),
        f(4, &["E"], Some((1, "B")), true, "e"),
        f(5, &["F"], None, true, "f"),
        f(6, &["G"], Some((0, "A2")), true, "g"),
        f(7, &["F", "H"], None, true, "h"),
    ]
}

/// What adding a batch does to the list of versions present: None if it is refused.
fn apply(vs: &[Version], state: &[u8], batch: &[u8]) -> Option<Vec<u8>> {
    let mut out = state.to_vec();
    let mut fresh: Vec<u8> = vec![];
    for &b in batch {
        if fresh.iter().any(|&f| vs[f as usize].name == vs[b as usize].name) {
            // twice in one batch
            return None;
        }
        if state.iter().any(|&s| vs[s as usize].name == vs[b as usize].name) {
            continue;
        }
        fresh.push(b);
    }
    for &b in &fresh {
        let v = &vs[b as usize];
        if !v.valid || out.iter().any(|&s| vs[s as usize].defines.iter().any(|d| v.defines.contains(d))) {
            return None;
        }
        out.push(b);
    }
    for &b in &fresh {
        if let Some((f, sym)) = vs[b as usize].needs {
            if !out.iter().any(|&s| vs[s as usize].name == f && vs[s as usize].defines.contains(&sym)) {
                return None;
            }
        }
    }
    Some(out)
}

#[derive(Clone, Debug)]
enum Op {
    Add { batch: Vec<u8>, ok: bool },
    Read { seen: Vec<u8> },
}

#[derive(Clone, Debug)]
struct Event {
    thread: usize,
    from: u64,
    to: u64,
    op: Op,
}

/// The versions of the case in a pool, or what is wrong with it.
fn observe(vs: &[Version], pool: &DescriptorPool, pkg: &str) -> Result<Vec<u8>, String> {
    let mut seen = vec![];
    let prefix = format!("{pkg}/");
    for f in pool.files() {
        if !f.name().starts_with(&prefix) {
            continue;
        }
        let Some(i) = vs.iter().position(|v| v.file.name() == f.name() && v.file.options.as_ref().unwrap().java_package == f.file_descriptor_proto().options.as_ref().unwrap().java_package) else {
            return Err(format!("a file {} nobody added", f.name()));
        };
        if seen.contains(&(i as u8)) {
            return Err(format!("{} twice", f.name()));
        }
        seen.push(i as u8);
        if pool.get_file_by_name(f.name()).as_ref() != Some(&f) {
            return Err(format!("{} is not found by name", f.name()));
        }
        let v = &vs[i];
        if f.messages().len() != v.defines.len() || f.enums().len() != v.defines.len() || f.services().len() != v.defines.len() || f.extensions().len() != v.defines.len() {
            return Err(format!("{} is not all there", f.name()));
        }
        for d in v.defines {
            let m = pool.get_message_by_name(&format!("{pkg}.{d}")).ok_or_else(|| format!("{} without {d}", f.name()))?;
            let e = pool.get_enum_by_name(&format!("{pkg}.{d}E")).ok_or_else(|| format!("{} without {d}E", f.name()))?;
            let s = pool.get_service_by_name(&format!("{pkg}.{d}S")).ok_or_else(|| format!("{} without {d}S", f.name()))?;
            let x = pool.get_extension_by_name(&format!("{pkg}.{d}_ext")).ok_or_else(|| format!("{} without {d}_ext", f.name()))?;
            if m.parent_file() != f || e.parent_file() != f || s.parent_file() != f || x.parent_file() != f || x.containing_message() != m {
                return Err(format!("{d} of {} is of another file", f.name()));
            }
            if s.methods().next().map(|c| c.input()) != Some(m.clone()) || m.get_extension(100) != Some(x) {
                return Err(format!("{d} of {} refers to something else", f.name()));
            }
            if let Some((n, sym)) = v.needs {
                let k = m.get_field_by_name("m").unwrap().kind();
                if k.as_message().map(|x| (x.full_name().to_string(), x.parent_file().name().to_string())) != Some((format!("{pkg}.{sym}"), format!("{pkg}/{n}.proto"))) {
                    return Err(format!("the field of {d} has the wrong type"));
                }
            }
        }
    }
    // nothing without its file
    for v in vs {
        for d in v.defines {
            let has = seen.iter().any(|&s| vs[s as usize].defines.contains(d));
            if pool.get_message_by_name(&format!("{pkg}.{d}")).is_some() != has
                || pool.get_enum_by_name(&format!("{pkg}.{d}E")).is_some() != has
                || pool.get_service_by_name(&format!("{pkg}.{d}S")).is_some() != has
                || pool.get_extension_by_name(&format!("{pkg}.{d}_ext")).is_some() != has
            {
                return Err(format!("{d} without its file, or half of it"));
            }
        }
    }
    Ok(seen)
}

/// Is there a sequential order of the events that explains every answer?
fn linearizable(vs: &[Version], start: &[u8], ev: &[Event]) -> bool {
    fn go(vs: &[Version], ev: &[Event], done: u64, state: &[u8], memo: &mut HashSet<(u64, Vec<u8>)>) -> bool {
        if done.count_ones() as usize == ev.len() {
            return true;
        }
        if !memo.insert((done, state.to_vec())) {
            return false;
        }
        // only what began before everything left ended
        let limit = ev.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, e)| e.to).min().unwrap();
        for (i, e) in ev.iter().enumerate() {
            if done & (1 << i) != 0 || e.from > limit {
                continue;
            }
            let next = match &e.op {
                Op::Add { batch, ok } => match (apply(vs, state, batch), ok) {
                    (Some(s), true) => s,
                    (None, false) => state.to_vec(),
                    _ => continue,
                },
                Op::Read { seen } if seen == state => state.to_vec(),
                Op::Read { .. } => continue,
            };
            if go(vs, ev, done | (1 << i), &next, memo) {
                return true;
            }
        }
        false
    }
    go(vs, ev, 0, start, &mut HashSet::new())
}

fn add_global(vs: &[Version], batch: &[u8], r: &mut Rng) -> bool {
    if batch.len() == 1 && r.bool() {
        return DescriptorPool::add_global_file_descriptor_proto(vs[batch[0] as usize].file.clone()).is_ok();
    }
    let set = FileDescriptorSet { file: batch.iter().map(|&b| vs[b as usize].file.clone()).collect() };
    DescriptorPool::decode_global_file_descriptor_set(&set.encode_to_vec()[..]).is_ok()
}

fn global_case(ctx: &mut Ctx, small: bool) -> R {
    let pkg = format!("c25p{}n{}", std::process::id(), SERIAL.fetch_add(1, Relaxed));
    let vs = versions(&pkg);
    let nthreads = if small { 2 + ctx.r.below(2) } else { 2 + ctx.r.below(5) };
    let per = if small { 3 } else { 2 + ctx.r.below(5) };
    let mut start = vec![];
    for _ in 0..ctx.r.below(3) {
        let b = vec![ctx.r.below(vs.len()) as u8];
        let ok = add_global(&vs, &b, &mut ctx.r);
        match apply(&vs, &start, &b) {
            Some(s) if ok => start = s,
            None if !ok => (),
            x => return Err(format!("one thread: {start:?} and {b:?} give {ok}, expected {x:?}")),
        }
    }
    let seeds: Vec<u64> = (0..nthreads).map(|_| ctx.r.u64()).collect();
    let barrier = Barrier::new(nthreads);
    let kind = ctx.r.below(3);
    let results: Vec<Result<Vec<Event>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(t, &seed)| {
                let (vs, pkg, barrier) = (&vs, &pkg, &barrier);
                s.spawn(move || {
                    let mut r = Rng::new(seed);
                    let mut out = vec![];
                    let mut kept = vec![];
                    barrier.wait();
                    for _ in 0..per {
                        pause(&mut r);
                        let add = match kind {
                            0 => r.pct(30),
                            1 => r.pct(80),
                            _ => t % 2 == 0,
                        };
                        let from = CLOCK.fetch_add(1, Relaxed);
                        if add {
                            let mut batch: Vec<u8> = vec![];
                            for _ in 0..1 + r.below(3) {
                                let b = r.below(vs.len()) as u8;
                                if !batch.contains(&b) {
                                    batch.push(b);
                                }
                            }
                            let ok = match guard(|| add_global(vs, &batch, &mut r)) {
                                Ok(ok) => ok,
                                Err(e) => return Err(format!("adding {batch:?}: {e}")),
                            };
                            let to = CLOCK.fetch_add(1, Relaxed);
                            out.push(Event { thread: t, from, to, op: Op::Add { batch, ok } });
                        } else {
                            let pool = match guard(DescriptorPool::global) {
                                Ok(p) => p,
                                Err(e) => return Err(format!("global(): {e}")),
                            };
                            let to = CLOCK.fetch_add(1, Relaxed);
                            let seen = observe(vs, &pool, pkg)?;
                            out.push(Event { thread: t, from, to, op: Op::Read { seen: seen.clone() } });
                            kept.push((pool, seen));
                        }
                    }
                    // copies do not change
                    for (p, seen) in kept {
                        if observe(vs, &p, pkg)? != seen {
                            return Err("a copy of the global pool changed".into());
                        }
                    }
                    Ok(out)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    let mut ev = vec![];
    for r in results {
        ev.extend(r?);
    }
    let overlap = ev.iter().enumerate().map(|(i, a)| ev[..i].iter().filter(|b| a.from < b.to && b.from < a.to).count()).sum::<usize>();
    let from = CLOCK.fetch_add(1, Relaxed);
    let last = observe(&vs, &DescriptorPool::global(), &pkg)?;
    ev.push(Event { thread: 99, from, to: CLOCK.fetch_add(1, Relaxed), op: Op::Read { seen: last } });
    ev.sort_by_key(|e| e.from);
    if !linearizable(&vs, &start, &ev) {
        return Err(format!(
            "no sequential order explains this history (versions 0-{}: {}), starting with {start:?}:\n{}",
            vs.len() - 1,
            vs.iter().map(|v| format!("{} defines {:?} needs {:?} valid {}", v.file.name(), v.defines, v.needs, v.valid)).collect::<Vec<_>>().join("; "),
            ev.iter().map(|e| format!("  thread {} [{}..{}] {:?}\n", e.thread, e.from, e.to, e.op)).collect::<String>()
        ));
    }
    ctx.count("histories", 1);
    ctx.count("calls recorded", ev.len() as u64);
    ctx.count("overlapping calls", overlap as u64);
    // the interleaving: the order of starts and ends by thread
    let mut marks: Vec<(u64, usize, bool, bool)> = ev.iter().flat_map(|e| [(e.from, e.thread, true, matches!(e.op, Op::Add { .. })), (e.to, e.thread, false, matches!(e.op, Op::Add { ok: true, .. }))]).collect();
    marks.sort();
    ctx.feature(format!("{:?}", marks.iter().map(|m| (m.1, m.2, m.3)).collect::<Vec<_>>()).as_bytes());
    ctx.sample(|| ev.iter().map(|e| format!("{} [{}..{}] {:?}; ", e.thread, e.from, e.to, e.op)).collect());
    Ok(())
}

// ------------------------------------------------------------------ shared pools and messages

struct Shared {
    s: RSchema,
    pool: DescriptorPool,
    msgs: Vec<DynamicMessage>,
    values: Vec<RMsg>,
    snap: Snap,
    answers: Vec<String>,
    extra: FileDescriptorProto,
}

/// Bytes as multisets: the payload of an Any written from JSON or text has its map entries in any order.
fn unordered(s: String) -> String {
    if !s.contains("google.protobuf.Any") {
        return s;
    }
    let mut out = String::new();
    let mut rest = &s[..];
    while let Some(i) = rest.find("Bytes([") {
        let (a, b) = rest.split_at(i + 7);
        out.push_str(a);
        let j = b.find(']').unwrap_or(0);
        let mut xs: Vec<&str> = b[..j].split(", ").collect();
        xs.sort();
        out.push_str(&xs.join(", "));
        rest = &b[j..];
    }
    out + rest
}

fn answers(pool: &DescriptorPool, m: &DynamicMessage, v: &RMsg) -> Result<String, String> {
    let b = m.encode_to_vec();
    let back = DynamicMessage::decode(desc(pool, &v.ty), &b[..]).map_err(|e| e.to_string())?;
    let o = Opts { string64: true, enum_num: false, proto_name: false, skip_default: true };
    let j = ser(m, o).unwrap_or_else(|e| e);
    let t = m.to_text_format();
    let pt = match DynamicMessage::parse_text_format(desc(pool, &v.ty), &t) {
        Ok(m) => msg_canon(&m),
        Err(e) => e.to_string(),
    };
    let mut j2 = serde_json::from_str::<serde_json::Value>(&j).map(|v| v.to_string().len()).unwrap_or(0);
    if let Ok(x) = DynamicMessage::deserialize(desc(pool, &v.ty), &mut serde_json::Deserializer::from_str(&j)) {
        j2 += msg_canon(&x).len();
    }
    Ok(unordered(format!("{} {} {} {} {pt} {j2} {} {:?}", b.len(), msg_canon(&back), j.len(), t.len(), msg_canon(m), m.descriptor().fields().map(|f| m.has_field(&f)).collect::<Vec<_>>())))
}

fn strip(mut s: Snap) -> Snap {
    for v in s.values_mut() {
        if let (Some(a), Some(b)) = (v.find(" enc "), v.find(" raw ")) {
            v.replace_range(a..b, "");
        }
    }
    s
}

fn shared_case(ctx: &mut Ctx, small: bool) -> R {
    let c = if small {
        GenCfg { max_files: 1, max_msgs: 1, max_fields: 4, ..Default::default() }
    } else {
        GenCfg { max_files: 2, max_msgs: 3, max_fields: 6, services: true, wkt: ctx.r.pct(30), ..Default::default() }
    };
    let s = gen_schema(&mut ctx.r, c);
    let budget = if small { 8 } else { 30 };
    // (text, JSON and Any depend on the order of maps: one entry)
    let mut values = vec![];
    for _ in 0..if small { 1 } else { 3 } {
        let plain = s.plain_msgs();
        let ty = ctx.r.pick::<String>(&plain).clone();
        values.push(gen_msg(&mut ctx.r, &s, &ty, ValCfg { budget, max_len: 1, max_depth: 3, unknown: true, nan: false, ..Default::default() }));
    }
    // the answers of one thread, from a pool of its own
    let own = mkpool(&s);
    let snap = if small { Snap::new() } else { strip(snapshot(&own, &[])) };
    let answers1: Vec<String> = values.iter().map(|v| answers(&own, &to_dyn(&s, &own, v), v)).collect::<Result<_, _>>()?;
    drop(own);
    let pool = mkpool(&s);
    let msgs: Vec<DynamicMessage> = values.iter().map(|v| to_dyn(&s, &pool, v)).collect();
    let extra = FileDescriptorProto {
        name: Some("added/by/a/thread.proto".into()),
        package: Some("added".into()),
        message_type: vec![DescriptorProto { name: Some("New".into()), ..Default::default() }],
        ..Default::default()
    };
    let sh = Shared { s, pool, msgs, values, snap, answers: answers1, extra };
    let nthreads = if small { 2 } else { 3 + ctx.r.below(5) };
    let rounds = if small { 2 } else { 3 + ctx.r.below(4) };
    let seeds: Vec<u64> = (0..nthreads).map(|_| ctx.r.u64()).collect();
    let barrier = Barrier::new(nthreads);
    let chan = std::sync::Mutex::new(Vec::<(DescriptorPool, DynamicMessage, usize)>::new());
    let ops = AtomicU64::new(0);
    let results: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&seed| {
                let (sh, barrier, chan, ops) = (&sh, &barrier, &chan, &ops);
                s.spawn(move || match guard(|| shared_thread(sh, Rng::new(seed), barrier, chan, rounds, ops)) {
                    Ok(r) => r,
                    Err(e) => Err(e),
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for r in results {
        r.map_err(|e| format!("{e}\n{}", show_files(&sh.s.files)))?;
    }
    // nothing is left behind
    let s2 = if small { Snap::new() } else { strip(snapshot(&sh.pool, &[])) };
    if let Some(d) = snap_diff(&sh.snap, &s2) {
        return Err(format!("the shared pool changed: {d}"));
    }
    for (m, v) in sh.msgs.iter().zip(&sh.values) {
        if let Some(d) = diff(v, &from_dyn(m)?, EXACT) {
            return Err(format!("a shared message changed: {d}"));
        }
    }
    ctx.count("shared cases", 1);
    ctx.count("shared operations", ops.load(Relaxed));
    ctx.feature(format!("{seeds:?}").as_bytes());
    Ok(())
}

fn shared_thread(sh: &Shared, mut r: Rng, barrier: &Barrier, chan: &std::sync::Mutex<Vec<(DescriptorPool, DynamicMessage, usize)>>, rounds: usize, ops: &AtomicU64) -> R {
    barrier.wait();
    for _ in 0..rounds {
        pause(&mut r);
        ops.fetch_add(1, Relaxed);
        let k = r.below(sh.msgs.len());
        let (m, v) = (&sh.msgs[k], &sh.values[k]);
        match r.below(8) {
            0 if !sh.snap.is_empty() => {
                if let Some(d) = snap_diff(&sh.snap, &strip(snapshot(&sh.pool, &[]))) {
                    return Err(format!("descriptors seen by a thread differ: {d}"));
                }
            }
            0..=2 => {
                let a = answers(&sh.pool, m, v)?;
                if a != sh.answers[k] {
                    return Err(format!("one thread: {}\nmany: {a}", sh.answers[k]));
                }
            }
            // a copy of the pool of one's own
            3 => {
                let mut p = sh.pool.clone();
                if p != sh.pool {
                    return Err("a clone of the pool differs".into());
                }
                p.add_file_descriptor_proto(sh.extra.clone()).map_err(|e| format!("a clone takes no file: {e}"))?;
                if p.get_message_by_name("added.New").is_none() || sh.pool.get_message_by_name("added.New").is_some() {
                    return Err("additions to a clone".into());
                }
                let x = to_dyn(&sh.s, &p, v);
                let a = answers(&p, &x, v)?;
                if a != sh.answers[k] {
                    return Err(format!("one thread: {}\nwith the clone: {a}", sh.answers[k]));
                }
                drop(p);
                if x.descriptor().full_name() != v.ty {
                    return Err("the descriptor after its pool was dropped".into());
                }
            }
            // a copy of the message of one's own
            4 => {
                let mut c = m.clone();
                if c.descriptor() != m.descriptor() {
                    return Err("the descriptor of a clone differs".into());
                }
                for f in c.descriptor().fields() {
                    match r.below(3) {
                        0 => c.clear_field(&f),
                        1 => {
                            let _ = c.take_field(&f);
                        }
                        _ => {
                            let v: &mut Value = c.get_field_mut(&f);
                            *v = Value::default_value_for_field(&f);
                        }
                    }
                }
                if let Some(d) = diff(v, &from_dyn(m)?, EXACT) {
                    return Err(format!("a shared message changed with its clone: {d}"));
                }
            }
            // handed from thread to thread
            5 => chan.lock().unwrap().push((sh.pool.clone(), m.clone(), k)),
            6 => {
                let got = chan.lock().unwrap().pop();
                if let Some((p, x, k)) = got {
                    let a = answers(&p, &x, &sh.values[k])?;
                    if a != sh.answers[k] {
                        return Err(format!("one thread: {}\nhanded over: {a}", sh.answers[k]));
                    }
                    if p != sh.pool || x.descriptor().parent_pool() != &sh.pool {
                        return Err("a pool handed over is another".into());
                    }
                }
            }
            // descriptors that outlive everything else
            _ => {
                let d = {
                    let p = sh.pool.clone();
                    desc(&p, &v.ty)
                };
                let f: Vec<_> = d.fields().collect();
                let parents = f.iter().all(|f| f.parent_message() == &d && f.parent_file() == d.parent_file());
                if !parents || d != m.descriptor() || f.len() != sh.s.msg(&v.ty).fields.len() {
                    return Err("descriptors taken by a thread differ".into());
                }
                let mut x = DynamicMessage::new(d);
                drop(f);
                x.merge(&m.encode_to_vec()[..]).map_err(|e| e.to_string())?;
                if let Some(d) = diff(v, &from_dyn(&x)?, EXACT) {
                    return Err(format!("merged by a thread: {d}"));
                }
            }
        }
    }
    Ok(())
}

fn c25(ctx: &mut Ctx, i: u64) -> R {
    if i % 2 == 0 {
        global_case(ctx, false)
    } else {
        shared_case(ctx, false)
    }
}

/// The first use of everything that is made on first use, by many threads at once.
fn first_use(r: &mut Rng) -> R {
    let n = 2 + r.below(7);
    let barrier = Barrier::new(n);
    let picks: Vec<usize> = (0..n).map(|_| r.below(4)).collect();
    let add = FileDescriptorProto { name: Some("first.proto".into()), message_type: vec![DescriptorProto { name: Some("First".into()), ..Default::default() }], ..Default::default() };
    let res: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = picks
            .iter()
            .map(|&k| {
                let (barrier, add) = (&barrier, &add);
                s.spawn(move || {
                    barrier.wait();
                    match guard(|| match k {
                        0 => DescriptorPool::global().get_message_by_name("google.protobuf.Timestamp").map(|m| m.fields().len() == 2),
                        1 => Some(prost_types::Timestamp::default().descriptor().full_name() == "google.protobuf.Timestamp"),
                        2 => Some(DescriptorPool::add_global_file_descriptor_proto(add.clone()).is_ok() && DescriptorPool::global().get_message_by_name("First").is_some()),
                        _ => {
                            // options read through the global pool
                            let mut p = DescriptorPool::new();
                            let f = FileDescriptorProto { name: Some("o.proto".into()), options: Some(FileOptions { go_package: Some("g".into()), ..Default::default() }), ..Default::default() };
                            Some(p.add_file_descriptor_proto(f).is_ok() && p.files().next().unwrap().options().has_field_by_name("go_package"))
                        }
                    }) {
                        Ok(Some(true)) => Ok(()),
                        Ok(x) => Err(format!("first use {k}: {x:?}")),
                        Err(e) => Err(format!("first use {k}: {e}")),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for x in res {
        x?;
    }
    let p = DescriptorPool::global();
    let n = p.files().filter(|f| f.name() == "google/protobuf/timestamp.proto").count();
    let t = prost_types::Timestamp::default().descriptor();
    if n != 1 || Some(&t) != DescriptorPool::global().get_message_by_name("google.protobuf.Timestamp").as_ref() && picks.iter().all(|&k| k != 2) {
        return Err("well-known types after the first use".into());
    }
    Ok(())
}

/// `prmon threads SEED FROM N small|full`: cases in this very process, for the sanitizers.
pub fn mini(seed: u64, from: u64, n: u64, small: bool) -> i32 {
    install_hook();
    let mut ctx = plain_ctx("C25", seed);
    for i in from..from + n {
        ctx.r = Rng::new(crate::rng::mix(seed).wrapping_add(i));
        let r = match i % 3 {
            0 => {
                let r = first_use(&mut ctx.r.clone());
                ctx.count("first uses", 1);
                r.and_then(|_| global_case(&mut ctx, small))
            }
            1 => shared_case(&mut ctx, small),
            _ => global_case(&mut ctx, small),
        };
        if let Err(e) = r {
            println!("FAILED seed {seed} case {i}: {e}");
            return 1;
        }
    }
    println!("COUNTERS {}", serde_json::to_string(&ctx.counters).unwrap());
    println!("DISTINCT {}", ctx.features.len());
    0
}

pub static PROPS: &[Prop] = &[Prop {
    id: "C25",
    quick: 5_000,
    thorough: 30_000,
    rule: "even cases: calls to the global pool by 2-6 threads recorded and checked for linearizability; odd cases: one pool and its messages used by 3-7 threads, answers compared with one thread's; plus fresh processes racing on first use, and the same cases under ThreadSanitizer, AddressSanitizer and Miri; distinct by interleaving of the recorded calls",
    case: c25,
    directed: None,
    extra: Some(extra),
    need: &["histories", "overlapping calls", "shared operations", "first uses", "tsan: histories", "tsan: shared operations"],
    level: "linearizability of recorded histories; race and memory-error detectors",
}];

fn extra(x: &mut Extra) {
    use std::process::Command;
    let exe = std::env::current_exe().unwrap();
    let add = |x: &mut Extra, prefix: &str, out: &str| {
        for l in out.lines() {
            if let Some(c) = l.strip_prefix("COUNTERS ") {
                if let Ok(m) = serde_json::from_str::<std::collections::BTreeMap<String, u64>>(c) {
                    for (k, v) in m {
                        *x.counters.entry(format!("{prefix}{k}")).or_default() += v;
                    }
                }
            }
            if let Some(c) = l.strip_prefix("DISTINCT ") {
                *x.counters.entry(format!("{prefix}distinct interleavings")).or_default() += c.parse::<u64>().unwrap_or(0);
            }
        }
    };
    // fresh processes: what is made on first use is made under contention
    let runs = if x.thorough { 400 } else { 60 };
    for k in 0..runs {
        let o = match Command::new(&exe).args(["threads", &(x.seed * 1000 + k).to_string(), "0", "1", "full"]).output() {
            Ok(o) => o,
            Err(e) => {
                x.inconclusive.push(format!("cannot start a process: {e}"));
                return;
            }
        };
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        if !o.status.success() {
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            x.violations.push((format!("first-{k}"), format!("a fresh process failed ({:?}): {out}\n{err}\nprmon threads {} 0 1 full", o.status, x.seed * 1000 + k)));
            return;
        }
        add(x, "", &out);
    }
    let mut jobs: Vec<(&str, u64, u64, &str)> = vec![("tsan", x.seed, if x.thorough { 3_000 } else { 240 }, "full"), ("asan", x.seed, if x.thorough { 3_000 } else { 240 }, "full")];
    if x.thorough {
        // each with its own schedule
        jobs.extend((0..7).map(|k| ("miri", x.seed * 100 + k, 3, "small")));
    }
    let hs: Vec<_> = jobs
        .into_iter()
        .map(|(tool, seed, n, small)| {
            let go = move || Command::new(root().join("tools/san.sh")).args([tool, &seed.to_string(), &n.to_string(), small]).output();
            (tool, if tool == "miri" { Ok(std::thread::spawn(go)) } else { Err(go()) })
        })
        .collect();
    for (tool, o) in hs {
        let o = match o {
            Ok(h) => h.join().unwrap(),
            Err(o) => o,
        };
        let o = match o {
            Ok(o) => o,
            Err(e) => {
                x.inconclusive.push(format!("{tool}: {e}"));
                continue;
            }
        };
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        match o.status.code() {
            Some(0) => add(x, &format!("{tool}: "), &out),
            Some(1) => x.violations.push((tool.to_string(), format!("{tool}: {}\n{}", tail(&out, 4000), tail(&err, 6000)))),
            _ => {
                let m = format!("{tool} could not be run: {} {}", tail(&out, 500), tail(&err, 500));
                if tool == "tsan" {
                    x.inconclusive.push(m);
                } else {
                    x.notes.push((tool.to_string(), serde_json::json!(m)));
                }
            }
        }
    }
}

fn tail(s: &str, n: usize) -> &str {
    let mut k = s.len().saturating_sub(n);
    while !s.is_char_boundary(k) {
        k += 1;
    }
    &s[k..]
}
