//! C06, C07, C08, C28: the in-memory message as a record.
use super::wirep::{ctxerr, pick_type, want_eq};
use super::*;
use crate::dynconv::*;
use crate::gen::*;
use crate::rmsg::*;
use crate::run::{guard, CaseResult, Ctx, Prop};
use crate::schema::*;
use crate::wire;
use prost::Message;
use prost_reflect::*;
use std::collections::{BTreeMap, HashMap};

pub static PROPS: &[&Prop] = &[&C06, &C07, &C08, &C28];

pub static C06: Prop = Prop {
    id: "C06",
    quick: 9000,
    thorough: 150_000,
    rule: "random operation histories over every accessor path of random messages, checked after every operation against a reference record; distinct by sequence of (operation, field shape)",
    case: c06,
    directed: None,
    extra: None,
    need: &["op:set", "op:get_mut", "op:clear", "op:take", "op:fields_mut", "op:take_fields", "op:take_extensions", "op:take_unknown", "op:merge", "op:clear_all", "op:nested", "op:absent_number", "op:ext_set", "implicit_zero_set", "oneof_replaced"],
    level: "exploration",
};

/// Fields and extensions of a type.
fn all_fields(s: &RSchema, ty: &str) -> Vec<RField> {
    s.msg(ty).fields.values().cloned().chain(s.exts_of(ty).cloned()).collect()
}

/// Present value normalisation: what storing `v` into `f` makes observable.
fn store(s: &RSchema, m: &mut RMsg, f: &RField, v: RVal) {
    if let Some(o) = f.oneof {
        let others: Vec<u32> = s.msg(&m.ty).oneofs[o].fields.iter().copied().filter(|n| *n != f.number).collect();
        for n in others {
            m.fields.remove(&n);
        }
    }
    let hidden = match &v {
        RVal::List(l) => l.is_empty(),
        RVal::Map(l) => l.is_empty(),
        v => !f.presence && is_zero(s, f, v),
    };
    if hidden {
        m.fields.remove(&f.number);
    } else {
        m.fields.insert(f.number, v);
    }
}

/// A value for the field, of any kind of interest: default, zero, empty, random.
fn any_value(ctx: &mut Ctx, s: &RSchema, f: &RField) -> RVal {
    match ctx.r.below(6) {
        0 => default_of(s, f),
        1 if f.card != Card::Rep => zero_of(s, &f.kind),
        _ => {
            let mut g = ValGen::new(&mut ctx.r, s, ValCfg { max_depth: 2, budget: 12, unknown: true, ..Default::default() });
            match g.field(f, 0) {
                Some(v) => v,
                None => default_of(s, f),
            }
        }
    }
}

/// Everything observable about every field, by every path, against the model.
pub fn check_full(s: &RSchema, m: &RMsg, x: &DynamicMessage, what: &str) -> CaseResult {
    want_eq(what, m, x, EXACT)?;
    let d = x.descriptor();
    for f in all_fields(s, &m.ty) {
        let want = m.fields.get(&f.number).cloned().unwrap_or_else(|| default_of(s, &f));
        let has = m.fields.contains_key(&f.number);
        let mut got: Vec<(&str, RVal)> = vec![];
        if f.is_ext {
            let e = d.get_extension(f.number).ok_or("extension not found")?;
            if x.has_extension(&e) != has {
                return Err(format!("{what}: has_extension({}) is {}", f.full_name, !has));
            }
            if x.has_field_by_number(f.number) {
                return Err(format!("{what}: extension {} reported as a field", f.full_name));
            }
            got.push(("get_extension", val_from(&x.get_extension(&e))?));
        } else {
            let fd = d.get_field(f.number).ok_or("field not found")?;
            for (w, h) in [
                ("has_field", x.has_field(&fd)),
                ("has_field_by_number", x.has_field_by_number(f.number)),
                ("has_field_by_name", x.has_field_by_name(&f.name)),
            ] {
                if h != has {
                    return Err(format!("{what}: {w}({}) is {h}", f.full_name));
                }
            }
            got.push(("get_field", val_from(&x.get_field(&fd))?));
            got.push(("get_field_by_number", val_from(&*x.get_field_by_number(f.number).ok_or("get_field_by_number: None")?)?));
            got.push(("get_field_by_name", val_from(&*x.get_field_by_name(&f.name).ok_or("get_field_by_name: None")?)?));
        }
        for (w, g) in got {
            if let Some(df) = vdiff(&want, &g, EXACT) {
                return Err(format!("{what}: {w}({}) expected vs got: {df}", f.full_name));
            }
        }
    }
    Ok(())
}

/// Mutate a value in place, and the model alongside. The kind never changes.
fn mutate(ctx: &mut Ctx, s: &RSchema, pool: &DescriptorPool, f: &RField, slot: &mut Value, mv: &mut RVal, depth: usize) -> CaseResult {
    let fresh_elem = |ctx: &mut Ctx, k: &RKind| {
        let mut g = ValGen::new(&mut ctx.r, s, ValCfg { max_depth: 2, budget: 8, ..Default::default() });
        g.elem(k, 1)
    };
    match (slot, mv) {
        (Value::List(l), RVal::List(r)) => {
            for _ in 0..1 + ctx.r.below(3) {
                match ctx.r.below(5) {
                    0 => {
                        l.pop();
                        r.pop();
                    }
                    1 => {
                        l.clear();
                        r.clear();
                    }
                    2 if !l.is_empty() => {
                        let i = ctx.r.below(l.len());
                        let v = fresh_elem(ctx, &f.kind);
                        l[i] = val_to(s, pool, &v);
                        r[i] = v;
                    }
                    _ => {
                        let v = fresh_elem(ctx, &f.kind);
                        l.push(val_to(s, pool, &v));
                        r.push(v);
                    }
                }
            }
        }
        (Value::Map(l), RVal::Map(r)) => {
            let (kf, vf) = s.map_kv(f);
            for _ in 0..1 + ctx.r.below(3) {
                match ctx.r.below(4) {
                    0 if !r.is_empty() => {
                        let k = r.keys().nth(ctx.r.below(r.len())).unwrap().clone();
                        r.remove(&k);
                        if l.remove(&key_to(&k)).is_none() {
                            return Err(format!("map entry {k:?} of {} could not be removed", f.full_name));
                        }
                    }
                    1 => {
                        l.clear();
                        r.clear();
                    }
                    _ => {
                        let k = ValGen::new(&mut ctx.r, s, ValCfg::default()).key(&kf.kind);
                        let v = fresh_elem(ctx, &vf.kind);
                        l.insert(key_to(&k), val_to(s, pool, &v));
                        r.insert(k, v);
                    }
                }
            }
        }
        (Value::Message(x), RVal::Msg(m)) => {
            if depth < 2 {
                ctx.count("op:nested", 1);
                for _ in 0..1 + ctx.r.below(3) {
                    op(ctx, s, pool, x, m, depth + 1)?;
                }
            }
        }
        (slot, mv) => {
            // a scalar: through the typed accessor or by assignment
            let v = any_scalar(ctx, s, f);
            let done = match (&v, ctx.r.bool()) {
                (RVal::Bool(b), true) => slot.as_bool_mut().map(|p| *p = *b),
                (RVal::I32(b), true) => slot.as_i32_mut().map(|p| *p = *b),
                (RVal::I64(b), true) => slot.as_i64_mut().map(|p| *p = *b),
                (RVal::U32(b), true) => slot.as_u32_mut().map(|p| *p = *b),
                (RVal::U64(b), true) => slot.as_u64_mut().map(|p| *p = *b),
                (RVal::F32(b), true) => slot.as_f32_mut().map(|p| *p = f32::from_bits(*b)),
                (RVal::F64(b), true) => slot.as_f64_mut().map(|p| *p = f64::from_bits(*b)),
                (RVal::Str(b), true) => slot.as_string_mut().map(|p| *p = b.clone()),
                (RVal::Bytes(b), true) => slot.as_bytes_mut().map(|p| *p = b.clone().into()),
                (RVal::Enum(b), true) => slot.as_enum_number_mut().map(|p| *p = *b),
                _ => {
                    *slot = val_to(s, pool, &v);
                    Some(())
                }
            };
            if done.is_none() {
                return Err(format!("typed mutable accessor refused {v:?} for {}", f.full_name));
            }
            *mv = v;
        }
    }
    Ok(())
}

fn any_scalar(ctx: &mut Ctx, s: &RSchema, f: &RField) -> RVal {
    if ctx.r.pct(25) {
        zero_of(s, &f.kind)
    } else {
        ValGen::new(&mut ctx.r, s, ValCfg::default()).scalar(&f.kind)
    }
}

fn take_eq(what: &str, want: Option<RVal>, got: Option<Value>) -> CaseResult {
    match (want, got) {
        (None, None) => Ok(()),
        (Some(w), Some(g)) => match vdiff(&w, &val_from(&g)?, EXACT) {
            None => Ok(()),
            Some(d) => Err(format!("{what}: expected vs taken: {d}")),
        },
        (w, g) => Err(format!("{what}: expected {w:?}, took {g:?}")),
    }
}

/// One random operation on both sides.
pub fn op(ctx: &mut Ctx, s: &RSchema, pool: &DescriptorPool, x: &mut DynamicMessage, m: &mut RMsg, depth: usize) -> CaseResult {
    let fields = all_fields(s, &m.ty);
    let d = x.descriptor();
    let what = ctx.r.below(if depth == 0 { 100 } else { 78 });
    if fields.is_empty() && what < 78 {
        return Ok(());
    }
    let f = if fields.is_empty() { None } else {
        // prefer oneof members and already present fields
        let cands: Vec<&RField> = fields.iter().filter(|f| f.oneof.is_some() || m.fields.contains_key(&f.number)).collect();
        Some(if !cands.is_empty() && ctx.r.pct(60) { (*ctx.r.pick(&cands)).clone() } else { ctx.r.pick(&fields).clone() })
    };
    let fd = f.as_ref().and_then(|f| d.get_field(f.number));
    let ed = f.as_ref().and_then(|f| d.get_extension(f.number));
    let path = ctx.r.below(4);
    match what {
        0..=29 => {
            let f = f.unwrap();
            let v = any_value(ctx, s, &f);
            if f.oneof.is_some_and(|o| s.msg(&m.ty).oneofs[o].fields.iter().any(|n| *n != f.number && m.fields.contains_key(n))) {
                ctx.count("oneof_replaced", 1);
            }
            if !f.presence && f.singular() && is_zero(s, &f, &v) {
                ctx.count("implicit_zero_set", 1);
            }
            let val = val_to(s, pool, &v);
            if let Some(fd) = fd {
                ctx.count("op:set", 1);
                let r = match path {
                    0 => x.try_set_field(&fd, val),
                    1 => x.try_set_field_by_number(f.number, val),
                    2 => x.try_set_field_by_name(&f.name, val),
                    _ => {
                        match ctx.r.below(3) {
                            0 => x.set_field(&fd, val),
                            1 => x.set_field_by_number(f.number, val),
                            _ => x.set_field_by_name(&f.name, val),
                        }
                        Ok(())
                    }
                };
                if let Err(e) = r {
                    return Err(format!("setting {} to {v:?} was refused: {e}", f.full_name));
                }
            } else {
                ctx.count("op:ext_set", 1);
                x.set_extension(&ed.unwrap(), val);
            }
            store(s, m, &f, v);
        }
        30..=54 => {
            let f = f.unwrap();
            ctx.count("op:get_mut", 1);
            // an unset field is inserted with its default
            let mut mv = m.fields.get(&f.number).cloned().unwrap_or_else(|| default_of(s, &f));
            let slot = match (&fd, &ed, path) {
                (Some(fd), _, 0) => x.get_field_mut(fd),
                (Some(_), _, 1) => x.get_field_by_number_mut(f.number).ok_or("get_field_by_number_mut: None")?,
                (Some(_), _, _) => x.get_field_by_name_mut(&f.name).ok_or("get_field_by_name_mut: None")?,
                (_, Some(e), _) => x.get_extension_mut(e),
                _ => unreachable!(),
            };
            // what an implicit-presence field hides may be a stored default, never anything else
            if let Some(df) = vdiff(&mv, &val_from(slot)?, EXACT) {
                return Err(format!("get_mut({}) expected vs got: {df}", f.full_name));
            }
            if ctx.r.pct(80) {
                mutate(ctx, s, pool, &f, slot, &mut mv, depth)?;
            }
            store(s, m, &f, mv);
        }
        55..=64 => {
            let f = f.unwrap();
            ctx.count("op:clear", 1);
            match (&fd, &ed, path) {
                (Some(fd), _, 0) => x.clear_field(fd),
                (Some(_), _, 1) => x.clear_field_by_number(f.number),
                (Some(_), _, _) => x.clear_field_by_name(&f.name),
                (_, Some(e), _) => x.clear_extension(e),
                _ => unreachable!(),
            }
            m.fields.remove(&f.number);
        }
        65..=77 => {
            let f = f.unwrap();
            ctx.count("op:take", 1);
            let got = match (&fd, &ed, path) {
                (Some(fd), _, 0) => x.take_field(fd),
                (Some(_), _, 1) => x.take_field_by_number(f.number),
                (Some(_), _, _) => x.take_field_by_name(&f.name),
                (_, Some(e), _) => x.take_extension(e),
                _ => unreachable!(),
            };
            take_eq(&f.full_name, m.fields.remove(&f.number), got)?;
        }
        78..=82 => {
            ctx.count("op:fields_mut", 1);
            let mut seen = vec![];
            let exts = ctx.r.bool();
            let items: Vec<(u32, &mut Value)> = if exts {
                x.extensions_mut().map(|(f, v)| (f.number(), v)).collect()
            } else {
                x.fields_mut().map(|(f, v)| (f.number(), v)).collect()
            };
            for (n, slot) in items {
                seen.push(n);
                let f = fields.iter().find(|f| f.number == n && f.is_ext == exts).ok_or_else(|| format!("mutable iterator yields unknown field {n}"))?;
                let mut mv = m.fields.get(&n).cloned().ok_or_else(|| format!("mutable iterator yields absent {}", f.full_name))?;
                if ctx.r.bool() {
                    mutate(ctx, s, pool, f, slot, &mut mv, 1)?;
                }
                store(s, m, f, mv);
            }
            let mut dd = seen.clone();
            dd.sort();
            dd.dedup();
            if dd.len() != seen.len() {
                return Err(format!("mutable iterator repeats a field: {seen:?}"));
            }
            for f in &fields {
                if f.is_ext == exts && m.fields.contains_key(&f.number) && !seen.contains(&f.number) {
                    return Err(format!("mutable iterator misses {}", f.full_name));
                }
            }
        }
        83..=85 => {
            let exts = ctx.r.bool();
            ctx.count(if exts { "op:take_extensions" } else { "op:take_fields" }, 1);
            let part = ctx.r.pct(25).then(|| ctx.r.below(3));
            let got: Vec<(u32, Value)> = match (exts, part) {
                (true, None) => x.take_extensions().map(|(f, v)| (f.number(), v)).collect(),
                (false, None) => x.take_fields().map(|(f, v)| (f.number(), v)).collect(),
                (true, Some(k)) => x.take_extensions().take(k).map(|(f, v)| (f.number(), v)).collect(),
                (false, Some(k)) => x.take_fields().take(k).map(|(f, v)| (f.number(), v)).collect(),
            };
            for (n, v) in &got {
                take_eq(&format!("bulk take {n}"), m.fields.remove(n), Some(v.clone()))?;
            }
            if part.is_none() {
                for f in &fields {
                    if f.is_ext == exts && m.fields.contains_key(&f.number) {
                        return Err(format!("bulk take misses {}", f.full_name));
                    }
                }
            } else {
                // documented as unspecified: adopt which of the remaining ones are gone
                for f in &fields {
                    if f.is_ext == exts {
                        let has = match (d.get_field(f.number), d.get_extension(f.number)) {
                            (Some(fd), _) => x.has_field(&fd),
                            (_, Some(e)) => x.has_extension(&e),
                            _ => false,
                        };
                        if !has {
                            m.fields.remove(&f.number);
                        }
                    }
                }
            }
        }
        86..=88 => {
            ctx.count("op:take_unknown", 1);
            let mut b = vec![];
            for u in x.take_unknown_fields() {
                u.encode(&mut b);
            }
            let mut got = wire::decode_unknown(&b).map_err(|e| format!("taken unknown fields do not re-encode: {e:?}"))?;
            got.sort_by_key(|u| u.0);
            let mut want = std::mem::take(&mut m.unknown);
            want.sort_by_key(|u| u.0);
            if want != got {
                return Err(format!("take_unknown_fields: expected {want:?}, took {got:?}"));
            }
        }
        89..=93 => {
            ctx.count("op:merge", 1);
            let o = gen_msg(&mut ctx.r, s, &m.ty.clone(), ValCfg { unknown: true, max_depth: 2, budget: 20, fill: 30, ..Default::default() });
            let b = wire::encode(s, &o);
            x.merge(&b[..]).map_err(|e| format!("merge refused: {e}"))?;
            wire::merge(s, m, &b).map_err(|e| format!("HARNESS: {e:?}"))?;
            m.sort_unknown();
        }
        94 => {
            ctx.count("op:clear_all", 1);
            x.clear();
            m.fields.clear();
            m.unknown.clear();
        }
        95..=96 => {
            // a clone stands in for the message from here on
            ctx.count("op:clone", 1);
            let c = x.clone();
            *x = c;
        }
        _ => {
            ctx.count("op:absent_number", 1);
            let n = ValGen::new(&mut ctx.r, s, ValCfg::default()).unknown_number(&m.ty);
            let v = Value::Bool(true);
            let name = "no_such_field_";
            if x.has_field_by_number(n)
                || x.get_field_by_number(n).is_some()
                || x.get_field_by_number_mut(n).is_some()
                || x.take_field_by_number(n).is_some()
                || x.has_field_by_name(name)
                || x.get_field_by_name(name).is_some()
                || x.get_field_by_name_mut(name).is_some()
                || x.take_field_by_name(name).is_some()
            {
                return Err(format!("field number {n} or name {name} does not exist but is accessible"));
            }
            if x.try_set_field_by_number(n, v.clone()) != Err(SetFieldError::NotFound)
                || x.try_set_field_by_name(name, v.clone()) != Err(SetFieldError::NotFound)
            {
                return Err("setting a non-existent field did not report NotFound".into());
            }
            x.set_field_by_number(n, v.clone());
            x.set_field_by_name(name, v);
            x.clear_field_by_number(n);
            x.clear_field_by_name(name);
        }
    }
    Ok(())
}

fn c06(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let cfg = GenCfg { max_files: 2, max_msgs: 3, max_fields: 4 + ctx.r.below(7), ..Default::default() };
    let s = gen_schema(&mut ctx.r, cfg);
    let pool = mkpool(&s);
    for _ in 0..2 {
        let ty = pick_type(ctx, &s);
        let mut x = DynamicMessage::new(desc(&pool, &ty));
        let mut m = RMsg::new(&ty);
        if ctx.r.bool() {
            m = gen_msg(&mut ctx.r, &s, &ty, ValCfg { unknown: true, max_depth: 3, budget: 30, ..Default::default() });
            m.sort_unknown();
            x = to_dyn(&s, &pool, &m);
        }
        let n = 4 + ctx.r.below(20);
        let mut feat = vec![];
        for i in 0..n {
            let before = m.clone();
            let keys: BTreeMap<String, u64> = ctx.counters.clone();
            op(ctx, &s, &pool, &mut x, &mut m, 0).map_err(|e| format!("step {i} on {before:?}: {e}\n{}", show_files(&s.files)))?;
            if let Err(e) = check_full(&s, &m, &x, "after an operation") {
                let done: Vec<&String> = ctx.counters.iter().filter(|(k, v)| keys.get(*k) != Some(v)).map(|(k, _)| k).collect();
                return Err(format!("step {i} {done:?} on {before:?}\n gives {m:?}: {e}\n{}", show_files(&s.files)));
            }
            for (k, v) in &ctx.counters {
                if keys.get(k) != Some(v) {
                    feat.extend(k.as_bytes());
                }
            }
            ctx.count("states_checked", 1);
        }
        let mut got = wire::decode(&s, &ty, &x.encode_to_vec()).map_err(|e| format!("final encoding invalid: {e:?}"))?;
        got.sort_unknown();
        if let Some(df) = diff(&m, &got, EXACT) {
            return Err(format!("encoding after the history differs: {df}; {m:?}\n{}", show_files(&s.files)));
        }
        ctx.feature(&feat);
        ctx.sample(|| format!("{ty}: {n} operations, final {m:?}"));
    }
    Ok(())
}

pub static C07: Prop = Prop {
    id: "C07",
    quick: 60000,
    thorough: 200_000,
    rule: "random histories (set, mutable access, take, clear, wire merge, JSON and text parses with one or two members set) over messages with real and synthetic oneofs; presence read through every path after each step; distinct by (path, member kinds) sequences",
    case: c07,
    directed: None,
    extra: None,
    need: &["set", "get_mut", "wire_merge", "json_one", "json_two_rejected", "text_one", "text_two_rejected", "take", "clear"],
    level: "exploration",
};

fn oneof_state(s: &RSchema, x: &DynamicMessage, ty: &str) -> Result<Vec<Option<u32>>, String> {
    let d = x.descriptor();
    let listed: Vec<u32> = x.fields().map(|(f, _)| f.number()).collect();
    let bytes = x.encode_to_vec();
    let recs = wire::split_records(&bytes).map_err(|e| format!("encoding invalid {e:?}"))?;
    let mut out = vec![];
    for (i, o) in s.msg(ty).oneofs.iter().enumerate() {
        let od = d.oneofs().nth(i).ok_or("oneof missing")?;
        let mut present = vec![];
        for n in &o.fields {
            let fd = d.get_field(*n).ok_or("field missing")?;
            if fd.containing_oneof().as_ref() != Some(&od) {
                return Err(format!("containing_oneof of {} wrong", fd.full_name()));
            }
            let a = x.has_field(&fd);
            let b = x.has_field_by_number(*n);
            let c = listed.contains(n);
            let e = recs.iter().any(|r| r.0 == *n);
            if a != b || a != c || a != e {
                return Err(format!("presence of {} differs by path: has {a}, by number {b}, fields() {c}, encoded {e}", fd.full_name()));
            }
            if a {
                present.push(*n);
            }
        }
        if present.len() > 1 {
            return Err(format!("members {present:?} of oneof {} are present together", o.name));
        }
        out.push(present.first().copied());
    }
    Ok(out)
}

fn oneof_schema(ctx: &mut Ctx) -> Option<(RSchema, DescriptorPool, String)> {
    let cfg = GenCfg { max_files: 1, max_msgs: 3, max_fields: 8, exts: ctx.r.bool(), weird_json: false, ..Default::default() };
    let s = gen_schema(&mut ctx.r, cfg);
    let c: Vec<String> = s.msgs.values().filter(|m| !m.oneofs.is_empty()).map(|m| m.full_name.clone()).collect();
    if c.is_empty() {
        return None;
    }
    let ty = ctx.r.pick(&c).clone();
    let pool = mkpool(&s);
    Some((s, pool, ty))
}

fn json_lit(ctx: &mut Ctx, s: &RSchema, f: &RField) -> Option<String> {
    use RKind::*;
    Some(match &f.kind {
        Bool => "true".into(),
        Str => "\"x\"".into(),
        Bytes => "\"QQ==\"".into(),
        Enum(e) => s.enums[e].values[0].1.to_string(),
        Msg(_) | Group(_) => "{}".into(),
        _ => ctx.r.below(3).to_string(),
    })
}

fn text_lit(ctx: &mut Ctx, s: &RSchema, f: &RField) -> String {
    use RKind::*;
    match &f.kind {
        Bool => "true".into(),
        Str | Bytes => "\"x\"".into(),
        Enum(e) => s.enums[e].values[0].0.clone(),
        Msg(_) | Group(_) => "{}".into(),
        _ => ctx.r.below(3).to_string(),
    }
}

fn text_entry(ctx: &mut Ctx, s: &RSchema, f: &RField) -> String {
    let name = match &f.kind {
        RKind::Group(g) => s.msg(g).proto.name().to_string(),
        _ => f.name.clone(),
    };
    let colon = if f.kind.msg().is_some() { "" } else { ":" };
    format!("{name}{colon} {}", text_lit(ctx, s, f))
}

fn c07(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let Some((s, pool, ty)) = oneof_schema(ctx) else { return Ok(()) };
    let d = desc(&pool, &ty);
    let md = s.msg(&ty).clone();
    let mut x = DynamicMessage::new(d.clone());
    let mut state: Vec<Option<u32>> = vec![None; md.oneofs.len()];
    let mut feat = vec![];
    let rep = |what: &str, st: &Vec<Option<u32>>| format!("{what}; expected members {st:?} of {ty}\n{}", show_files(&s.files));
    for _ in 0..12 {
        let oi = ctx.r.below(md.oneofs.len());
        let o = &md.oneofs[oi];
        if o.fields.is_empty() {
            continue;
        }
        let n = *ctx.r.pick(&o.fields);
        let f = md.fields[&n].clone();
        let fd = d.get_field(n).unwrap();
        let k = ctx.r.below(10);
        feat.push(k as u8);
        feat.push(f.kind.wire());
        match k {
            0 | 1 => {
                ctx.count("set", 1);
                let v = val_to(&s, &pool, &any_value(ctx, &s, &f));
                match ctx.r.below(3) {
                    0 => x.set_field(&fd, v),
                    1 => x.set_field_by_name(&f.name, v),
                    _ => x.try_set_field_by_number(n, v).map_err(|e| e.to_string())?,
                }
                state[oi] = Some(n);
            }
            2 => {
                ctx.count("get_mut", 1);
                match ctx.r.below(3) {
                    0 => {
                        x.get_field_mut(&fd);
                    }
                    1 => {
                        x.get_field_by_number_mut(n);
                    }
                    _ => {
                        x.get_field_by_name_mut(&f.name);
                    }
                }
                state[oi] = Some(n);
            }
            3 => {
                ctx.count("take", 1);
                let got = x.take_field(&fd).is_some();
                if got != (state[oi] == Some(n)) {
                    return Err(rep(&format!("take of member {n} returned {got}"), &state));
                }
                if state[oi] == Some(n) {
                    state[oi] = None;
                }
            }
            4 => {
                ctx.count("clear", 1);
                x.clear_field(&fd);
                if state[oi] == Some(n) {
                    state[oi] = None;
                }
            }
            5 | 6 => {
                ctx.count("wire_merge", 1);
                let m = {
                    let mut m = RMsg::new(&ty);
                    let v = ValGen::new(&mut ctx.r, &s, ValCfg { max_depth: 1, budget: 6, ..Default::default() }).elem(&f.kind, 1);
                    m.fields.insert(n, v);
                    m
                };
                let mut b = wire::encode(&s, &m);
                // sometimes two members in one buffer: the last wins
                if ctx.r.bool() {
                    let n2 = *ctx.r.pick(&o.fields);
                    let mut m2 = RMsg::new(&ty);
                    let v = ValGen::new(&mut ctx.r, &s, ValCfg { max_depth: 1, budget: 6, ..Default::default() }).elem(&md.fields[&n2].kind, 1);
                    m2.fields.insert(n2, v);
                    let mut c = wire::encode(&s, &m2);
                    c.extend(&b);
                    b = c;
                }
                x.merge(&b[..]).map_err(|e| rep(&format!("merge refused {e}"), &state))?;
                state[oi] = Some(n);
            }
            7 => {
                // JSON
                let Some(l) = json_lit(ctx, &s, &f) else { continue };
                let name = if ctx.r.bool() { f.json_name.clone() } else { f.name.clone() };
                let (n2, f2) = {
                    let n2 = *ctx.r.pick(&o.fields);
                    (n2, md.fields[&n2].clone())
                };
                if n2 != n {
                    let l2 = json_lit(ctx, &s, &f2).unwrap();
                    let name2 = if ctx.r.bool() { f2.json_name.clone() } else { f2.name.clone() };
                    let doc = format!("{{{name:?}: {l}, {name2:?}: {l2}}}");
                    if let Ok(v) = de_json(&d, &doc) {
                        return Err(rep(&format!("JSON with two members accepted: {doc} gives {v}"), &state));
                    }
                    ctx.count("json_two_rejected", 1);
                    // null members do not count
                    let doc = format!("{{{name:?}: {l}, {name2:?}: null}}");
                    if !matches!(f2.kind, RKind::Enum(ref e) if e == "google.protobuf.NullValue") {
                        x = de_json(&d, &doc).map_err(|e| rep(&format!("JSON {doc} refused: {e}"), &state))?;
                        state = vec![None; md.oneofs.len()];
                        state[oi] = Some(n);
                    }
                } else {
                    let doc = format!("{{{name:?}: {l}}}");
                    x = de_json(&d, &doc).map_err(|e| rep(&format!("JSON {doc} refused: {e}"), &state))?;
                    state = vec![None; md.oneofs.len()];
                    state[oi] = Some(n);
                    ctx.count("json_one", 1);
                }
            }
            _ => {
                // text
                let a = text_entry(ctx, &s, &f);
                let n2 = *ctx.r.pick(&o.fields);
                if n2 != n {
                    let b = text_entry(ctx, &s, &md.fields[&n2].clone());
                    let doc = format!("{a} {b}");
                    if let Ok(v) = DynamicMessage::parse_text_format(d.clone(), &doc) {
                        return Err(rep(&format!("text with two members accepted: {doc} gives {v}"), &state));
                    }
                    ctx.count("text_two_rejected", 1);
                } else {
                    x = DynamicMessage::parse_text_format(d.clone(), &a).map_err(|e| rep(&format!("text {a} refused: {e}"), &state))?;
                    state = vec![None; md.oneofs.len()];
                    state[oi] = Some(n);
                    ctx.count("text_one", 1);
                }
            }
        }
        let got = oneof_state(&s, &x, &ty).map_err(|e| rep(&e, &state))?;
        if got != state {
            return Err(rep(&format!("operation {k} on member {n} leaves {got:?}"), &state));
        }
        ctx.count("states_checked", 1);
    }
    ctx.feature(&feat);
    ctx.sample(|| format!("{ty}: {} oneofs", md.oneofs.len()));
    Ok(())
}

pub fn de_json(d: &MessageDescriptor, doc: &str) -> Result<DynamicMessage, String> {
    let mut de = serde_json::Deserializer::from_str(doc);
    let m = DynamicMessage::deserialize(d.clone(), &mut de).map_err(|e| e.to_string())?;
    de.end().map_err(|e| e.to_string())?;
    Ok(m)
}

pub static C08: Prop = Prop {
    id: "C08",
    quick: 9000,
    thorough: 150_000,
    rule: "every field of random schemas against well-typed values, one-point corruptions nested in lists and maps, and values of every other variant; distinct by (field shape, value shape)",
    case: c08,
    directed: None,
    extra: None,
    need: &["accepted", "rejected", "rejected_nested", "rejected_key", "panicked", "not_found"],
    level: "exploration",
};

/// Our own reading of the rule. None: no verdict (an embedded message of another type).
fn typed(s: &RSchema, f: &RField, v: &Value) -> Option<bool> {
    if f.is_map {
        let Value::Map(m) = v else { return Some(false) };
        let (kf, vf) = s.map_kv(f);
        let mut unsure = false;
        for (k, v) in m {
            let kok = matches!(
                (k, &kf.kind),
                (MapKey::Bool(_), RKind::Bool)
                    | (MapKey::I32(_), RKind::Int32 | RKind::Sint32 | RKind::Sfixed32)
                    | (MapKey::I64(_), RKind::Int64 | RKind::Sint64 | RKind::Sfixed64)
                    | (MapKey::U32(_), RKind::Uint32 | RKind::Fixed32)
                    | (MapKey::U64(_), RKind::Uint64 | RKind::Fixed64)
                    | (MapKey::String(_), RKind::Str)
            );
            if !kok {
                return Some(false);
            }
            match typed_kind(&vf.kind, v) {
                Some(false) => return Some(false),
                None => unsure = true,
                _ => {}
            }
        }
        return if unsure { None } else { Some(true) };
    }
    if f.card == Card::Rep {
        let Value::List(l) = v else { return Some(false) };
        let mut unsure = false;
        for v in l {
            match typed_kind(&f.kind, v) {
                Some(false) => return Some(false),
                None => unsure = true,
                _ => {}
            }
        }
        return if unsure { None } else { Some(true) };
    }
    typed_kind(&f.kind, v)
}

fn typed_kind(k: &RKind, v: &Value) -> Option<bool> {
    use RKind::*;
    Some(match (v, k) {
        (Value::Bool(_), Bool) => true,
        (Value::I32(_), Int32 | Sint32 | Sfixed32) => true,
        (Value::I64(_), Int64 | Sint64 | Sfixed64) => true,
        (Value::U32(_), Uint32 | Fixed32) => true,
        (Value::U64(_), Uint64 | Fixed64) => true,
        (Value::F32(_), Float) => true,
        (Value::F64(_), Double) => true,
        (Value::String(_), Str) => true,
        (Value::Bytes(_), RKind::Bytes) => true,
        (Value::EnumNumber(_), Enum(_)) => true,
        (Value::Message(m), Msg(n) | Group(n)) => return (m.descriptor().full_name() == n).then_some(true),
        _ => false,
    })
}

fn zoo(ctx: &mut Ctx, s: &RSchema, pool: &DescriptorPool) -> Value {
    let r = &mut ctx.r;
    match r.below(13) {
        0 => Value::Bool(r.bool()),
        1 => Value::I32(gen_i32(r)),
        2 => Value::I64(gen_i64(r)),
        3 => Value::U32(gen_u32(r)),
        4 => Value::U64(gen_u64(r)),
        5 => Value::F32(f32::from_bits(gen_f32(r, false))),
        6 => Value::F64(f64::from_bits(gen_f64(r, false))),
        7 => Value::String(gen_str(r)),
        8 => Value::Bytes(gen_bytes(r).into()),
        9 => Value::EnumNumber(gen_i32(r)),
        10 => {
            let ty = r.pick(&s.plain_msgs()).clone();
            Value::Message(DynamicMessage::new(desc(pool, &ty)))
        }
        11 => {
            let n = r.below(3);
            Value::List((0..n).map(|_| zoo(ctx, s, pool)).collect())
        }
        _ => {
            let n = r.below(3);
            let mut m = HashMap::new();
            for _ in 0..n {
                m.insert(zoo_key(ctx), zoo(ctx, s, pool));
            }
            Value::Map(m)
        }
    }
}

fn zoo_key(ctx: &mut Ctx) -> MapKey {
    let r = &mut ctx.r;
    match r.below(6) {
        0 => MapKey::Bool(r.bool()),
        1 => MapKey::I32(gen_i32(r)),
        2 => MapKey::I64(gen_i64(r)),
        3 => MapKey::U32(gen_u32(r)),
        4 => MapKey::U64(gen_u64(r)),
        _ => MapKey::String(gen_str(r)),
    }
}

fn has_nan(v: &Value) -> bool {
    match v {
        Value::F32(x) => x.is_nan(),
        Value::F64(x) => x.is_nan(),
        Value::List(l) => l.iter().any(has_nan),
        Value::Map(m) => m.values().any(has_nan),
        Value::Message(m) => m.fields().any(|(_, v)| has_nan(v)) || m.extensions().any(|(_, v)| has_nan(v)),
        _ => false,
    }
}

/// The accessors of a value and of a map key succeed exactly for its variant, and what is written
/// through them is read back.
fn accessors(v: &Value) -> CaseResult {
    let want = |w: bool, got: bool, what: &str| if w == got { Ok(()) } else { Err(format!("{what} of {v:?}: present {got}")) };
    macro_rules! acc {
        ($v:expr, $($var:pat, $as:ident, $mut:ident, |$x:ident| $eq:expr;)*) => {$({
            let own = matches!($v, $var);
            want(own, $v.$as().is_some(), stringify!($as))?;
            let mut w = $v.clone();
            want(own, w.$mut().is_some(), stringify!($mut))?;
            if let Some($x) = $v.$as() {
                want(true, $eq, concat!(stringify!($as), " contents"))?;
                let mut a = $v.clone();
                let mut b = $v.clone();
                std::mem::swap(a.$mut().unwrap(), b.$mut().unwrap());
                want(true, a == *$v && b == *$v, stringify!($mut))?;
            }
        })*};
    }
    acc!(v,
        Value::Bool(_), as_bool, as_bool_mut, |x| *v == Value::Bool(x);
        Value::I32(_), as_i32, as_i32_mut, |x| *v == Value::I32(x);
        Value::I64(_), as_i64, as_i64_mut, |x| *v == Value::I64(x);
        Value::U32(_), as_u32, as_u32_mut, |x| *v == Value::U32(x);
        Value::U64(_), as_u64, as_u64_mut, |x| *v == Value::U64(x);
        Value::F32(_), as_f32, as_f32_mut, |x| *v == Value::F32(x);
        Value::F64(_), as_f64, as_f64_mut, |x| *v == Value::F64(x);
        Value::EnumNumber(_), as_enum_number, as_enum_number_mut, |x| *v == Value::EnumNumber(x);
        Value::String(_), as_str, as_string_mut, |x| *v == Value::String(x.to_string());
        Value::Bytes(_), as_bytes, as_bytes_mut, |x| *v == Value::Bytes(x.clone());
        Value::Message(_), as_message, as_message_mut, |x| *v == Value::Message(x.clone());
        Value::List(_), as_list, as_list_mut, |x| *v == Value::List(x.to_vec());
        Value::Map(_), as_map, as_map_mut, |x| *v == Value::Map(x.clone());
    );
    let k = v.clone().into_map_key();
    want(
        matches!(v, Value::Bool(_) | Value::I32(_) | Value::I64(_) | Value::U32(_) | Value::U64(_) | Value::String(_)),
        k.is_some(),
        "into_map_key",
    )?;
    if let Some(k) = &k {
        want(true, Value::from(k.clone()) == *v, "Value::from(MapKey)")?;
        acc!(k,
            MapKey::Bool(_), as_bool, as_bool_mut, |x| *k == MapKey::Bool(x);
            MapKey::I32(_), as_i32, as_i32_mut, |x| *k == MapKey::I32(x);
            MapKey::I64(_), as_i64, as_i64_mut, |x| *k == MapKey::I64(x);
            MapKey::U32(_), as_u32, as_u32_mut, |x| *k == MapKey::U32(x);
            MapKey::U64(_), as_u64, as_u64_mut, |x| *k == MapKey::U64(x);
            MapKey::String(_), as_str, as_string_mut, |x| *k == MapKey::String(x.to_string());
        );
    }
    Ok(())
}

/// Default values of a field and of its kind, and which values are default.
fn defaults(s: &RSchema, d: &MessageDescriptor, f: &RField, vs: &[Value]) -> CaseResult {
    let fail = |w: &str, v: &Value| Err(format!("{w} of {}: {v:?}", f.full_name));
    let (fd, ed) = (d.get_field(f.number), d.get_extension(f.number));
    let kind = fd.as_ref().map(|f| f.kind()).or_else(|| ed.as_ref().map(|f| f.kind())).ok_or("field not found")?;
    let dv = match (&fd, &ed) {
        (Some(f), _) => Value::default_value_for_field(f),
        (_, Some(e)) => Value::default_value_for_extension(e),
        _ => unreachable!(),
    };
    let is = |v: &Value| match (&fd, &ed) {
        (Some(f), _) => (v.is_default_for_field(f), v.is_valid_for_field(f)),
        (_, Some(e)) => (v.is_default_for_extension(e), v.is_valid_for_extension(e)),
        _ => unreachable!(),
    };
    let want = default_of(s, f);
    if vdiff(&want, &val_from(&dv)?, EXACT).is_some() || !is(&dv).1 {
        return fail("default value for the field", &dv);
    }
    let zero = zero_of(s, &f.kind);
    let kv = Value::default_value(&kind);
    if vdiff(&zero, &val_from(&kv)?, EXACT).is_some() || !kv.is_valid(&kind) || !kv.is_default(&kind) || kv != kind.default_value() {
        return fail("default value of the kind", &kv);
    }
    for v in vs.iter().chain([&dv, &kv]) {
        if has_nan(v) || has_nan(&dv) || !is(v).1 {
            continue;
        }
        if is(v).0 != vdiff(&want, &val_from(v)?, EXACT).is_none() {
            return fail("is_default_for_field", v);
        }
        if f.singular() && v.is_default(&kind) != vdiff(&zero, &val_from(v)?, EXACT).is_none() {
            return fail("is_default", v);
        }
    }
    Ok(())
}

fn c08(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let cfg = GenCfg { max_files: 1, max_msgs: 3, max_fields: 8, ..Default::default() };
    let s = gen_schema(&mut ctx.r, cfg);
    let pool = mkpool(&s);
    let ty = pick_type(ctx, &s);
    let d = desc(&pool, &ty);
    let max_len = if ctx.r.pct(15) { 4 } else { 3 };
    let m = gen_msg(&mut ctx.r, &s, &ty, ValCfg { unknown: true, nan: false, max_depth: 2, budget: 25, max_len, ..Default::default() });
    let base = to_dyn(&s, &pool, &m);
    for f in all_fields(&s, &ty) {
        for _ in 0..5 {
            // a well-typed value, sometimes corrupted at one point, or anything at all
            let good = any_value(ctx, &s, &f);
            let mut v = val_to(&s, &pool, &good);
            let mode = ctx.r.below(4);
            match (&mut v, mode) {
                (_, 0) => {}
                (Value::List(l), 1 | 2) if !l.is_empty() => {
                    let i = ctx.r.below(l.len());
                    l[i] = zoo(ctx, &s, &pool);
                }
                (Value::Map(mm), 1) if !mm.is_empty() => {
                    let k = mm.keys().next().unwrap().clone();
                    let old = mm.remove(&k).unwrap();
                    mm.insert(zoo_key(ctx), old);
                }
                (Value::Map(mm), 2) if !mm.is_empty() => {
                    let k = mm.keys().next().unwrap().clone();
                    mm.insert(k, zoo(ctx, &s, &pool));
                }
                (Value::Map(mm), _) if ctx.r.pct(30) => {
                    mm.insert(zoo_key(ctx), zoo(ctx, &s, &pool));
                }
                _ => v = zoo(ctx, &s, &pool),
            }
            if has_nan(&v) {
                continue;
            }
            accessors(&v)?;
            defaults(&s, &d, &f, std::slice::from_ref(&v)).map_err(|e| format!("{e}\n{}", show_files(&s.files)))?;
            ctx.count("values read and written by all accessors", 1);
            let Some(want) = typed(&s, &f, &v) else {
                ctx.count("foreign_message_no_verdict", 1);
                continue;
            };
            let rep = |w: &str| format!("{w}: value {v:?} for {} ({:?} {:?} map {}) should be {}\n{}", f.full_name, f.card, f.kind, f.is_map, if want { "accepted" } else { "rejected" }, show_files(&s.files));
            if ctx.counters.len() < 1_000 {
                ctx.feature(format!("{:?}{:?}{}{}|{}", f.card, f.kind.wire(), f.is_map, f.is_ext, shape(&v)).as_bytes());
            }
            let shallow = match &v {
                Value::List(_) => f.is_list(),
                Value::Map(_) => f.is_map,
                _ => f.singular(),
            };
            if let Some(fd) = d.get_field(f.number) {
                if v.is_valid_for_field(&fd) != want {
                    return Err(rep("is_valid_for_field"));
                }
                if !f.is_map && f.singular() && v.is_valid(&fd.kind()) != want {
                    return Err(rep("is_valid"));
                }
                let mut x = base.clone();
                let r = match ctx.r.below(3) {
                    0 => x.try_set_field(&fd, v.clone()),
                    1 => x.try_set_field_by_number(f.number, v.clone()),
                    _ => x.try_set_field_by_name(&f.name, v.clone()),
                };
                if r.is_ok() != want {
                    return Err(rep("try_set_field"));
                }
                match r {
                    Ok(()) => {
                        let mut mm = m.clone();
                        store(&s, &mut mm, &f, val_from(&v)?);
                        check_full(&s, &mm, &x, "after a checked set").map_err(|e| rep(&e))?;
                        // encodable
                        let _ = x.encode_to_vec();
                        ctx.count("accepted", 1);
                    }
                    Err(e) => {
                        let text = e.to_string();
                        if e != (SetFieldError::InvalidType { field: fd.clone(), value: v.clone() }) || text.is_empty() {
                            return Err(rep(&format!("wrong error {e:?}")));
                        }
                        check_full(&s, &m, &x, "after a rejected set").map_err(|e| rep(&e))?;
                        if x != base {
                            return Err(rep("a rejected set changed the message"));
                        }
                        ctx.count("rejected", 1);
                        if shallow {
                            ctx.count("rejected_nested", 1);
                        }
                        if shallow && f.is_map {
                            ctx.count("rejected_key", 1);
                        }
                        let mut y = base.clone();
                        let by = ctx.r.below(3);
                        let p = guard(|| match by {
                            0 => y.set_field(&fd, v.clone()),
                            1 => y.set_field_by_number(f.number, v.clone()),
                            _ => y.set_field_by_name(&f.name, v.clone()),
                        });
                        if p.is_ok() {
                            return Err(rep("the panicking set did not panic"));
                        }
                        ctx.count("panicked", 1);
                    }
                }
            } else {
                let ed = d.get_extension(f.number).ok_or("extension missing")?;
                if v.is_valid_for_extension(&ed) != want {
                    return Err(rep("is_valid_for_extension"));
                }
                if want {
                    let mut x = base.clone();
                    x.set_extension(&ed, v.clone());
                    let mut mm = m.clone();
                    store(&s, &mut mm, &f, val_from(&v)?);
                    check_full(&s, &mm, &x, "after set_extension").map_err(|e| rep(&e))?;
                    ctx.count("accepted", 1);
                } else {
                    ctx.count("rejected", 1);
                    let mut y = base.clone();
                    if guard(|| y.set_extension(&ed, v.clone())).is_ok() {
                        return Err(rep("set_extension did not panic"));
                    }
                }
            }
            // keys convert from exactly the values that can be keys
            let is_key = matches!(v, Value::Bool(_) | Value::I32(_) | Value::I64(_) | Value::U32(_) | Value::U64(_) | Value::String(_));
            if v.clone().into_map_key().is_some() != is_key {
                return Err(rep("into_map_key"));
            }
        }
    }
    let n = ValGen::new(&mut ctx.r, &s, ValCfg::default()).unknown_number(&ty);
    let v = zoo(ctx, &s, &pool);
    let mut x = base.clone();
    if !has_nan(&v) && (x.try_set_field_by_number(n, v.clone()) != Err(SetFieldError::NotFound) || x.try_set_field_by_name("nope nope", v) != Err(SetFieldError::NotFound)) {
        return Err(format!("setting unknown field {n} was not reported as NotFound"));
    }
    check_full(&s, &m, &x, "after setting unknown fields")?;
    ctx.count("not_found", 1);
    Ok(())
}

fn shape(v: &Value) -> String {
    match v {
        Value::List(l) => format!("[{}]", l.iter().map(shape).collect::<Vec<_>>().join(",")),
        Value::Map(m) => {
            let mut v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", std::mem::discriminant(k).pipe(|d| format!("{d:?}")), shape(v))).collect();
            v.sort();
            format!("{{{}}}", v.join(","))
        }
        Value::Message(_) => "m".into(),
        v => format!("{:?}", std::mem::discriminant(v)),
    }
}

trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl<T> Pipe for T {}

pub static C28: Prop = Prop {
    id: "C28",
    quick: 9000,
    thorough: 100_000,
    rule: "all pairs of descriptor handles of random pools reached by different routes (and of clones and rebuilt pools), and messages of equal and minimally different contents built by different histories; distinct by pool structure and message shapes",
    case: c28,
    directed: None,
    extra: None,
    need: &["handle_pairs", "equal_histories", "different_contents", "clone_independent", "foreign_pool_pairs"],
    level: "exploration",
};

fn laws<T: PartialEq + Clone>(ctx: &mut Ctx, kind: &str, hs: &[(String, T)]) -> CaseResult {
    for (i, (ka, a)) in hs.iter().enumerate() {
        for (kb, b) in &hs[i..] {
            let same = ka == kb;
            if (a == b) != same || (b == a) != same {
                return Err(format!("{kind} handles {ka} and {kb}: equality is {}", a == b));
            }
            ctx.count("handle_pairs", 1);
            if ka.split('#').next() != kb.split('#').next() {
                ctx.count("foreign_pool_pairs", 1);
            }
        }
        if a.clone() != *a {
            return Err(format!("{kind} {ka}: clone is unequal"));
        }
    }
    Ok(())
}

#[derive(Default)]
struct Handles {
    files: Vec<(String, FileDescriptor)>,
    msgs: Vec<(String, MessageDescriptor)>,
    fields: Vec<(String, FieldDescriptor)>,
    exts: Vec<(String, ExtensionDescriptor)>,
    enums: Vec<(String, EnumDescriptor)>,
    vals: Vec<(String, EnumValueDescriptor)>,
    oneofs: Vec<(String, OneofDescriptor)>,
    svcs: Vec<(String, ServiceDescriptor)>,
    meths: Vec<(String, MethodDescriptor)>,
}

fn routes(tag: &str, p: &DescriptorPool, s: &RSchema, o: &mut Handles) {
    for (i, f) in p.files().enumerate() {
        let k = format!("{tag}#{}", f.name());
        o.files.push((k.clone(), p.get_file_by_name(f.name()).unwrap()));
        o.files.push((k.clone(), FileDescriptor::new(p.clone(), i)));
        for d in f.dependencies() {
            o.files.push((format!("{tag}#{}", d.name()), d.clone()));
        }
        for m in f.messages() {
            o.msgs.push((format!("{tag}#{}", m.full_name()), m.clone()));
            o.files.push((k.clone(), m.parent_file()));
        }
        for e in f.enums() {
            o.enums.push((format!("{tag}#{}", e.full_name()), e.clone()));
        }
        for e in f.extensions() {
            o.exts.push((format!("{tag}#{}", e.full_name()), e.clone()));
        }
        for e in f.services() {
            o.svcs.push((format!("{tag}#{}", e.full_name()), e.clone()));
        }
        o.files.push((k, f));
    }
    for m in p.all_messages() {
        let k = format!("{tag}#{}", m.full_name());
        o.msgs.push((k.clone(), p.get_message_by_name(m.full_name()).unwrap()));
        o.msgs.push((k.clone(), DynamicMessage::new(m.clone()).descriptor()));
        for f in m.fields() {
            let fk = format!("{tag}#{}", f.full_name());
            o.fields.push((fk.clone(), m.get_field(f.number()).unwrap()));
            o.fields.push((fk.clone(), m.get_field_by_name(f.name()).unwrap()));
            if let Some(j) = m.get_field_by_json_name(f.json_name()) {
                o.fields.push((format!("{tag}#{}", j.full_name()), j));
            }
            o.msgs.push((k.clone(), f.parent_message().clone()));
            match f.kind() {
                Kind::Message(x) => o.msgs.push((format!("{tag}#{}", x.full_name()), x)),
                Kind::Enum(x) => o.enums.push((format!("{tag}#{}", x.full_name()), x)),
                _ => {}
            }
            if let Some(on) = f.containing_oneof() {
                o.oneofs.push((format!("{tag}#{}", on.full_name()), on));
            }
            o.fields.push((fk, f));
        }
        for on in m.oneofs() {
            for f in on.fields() {
                o.fields.push((format!("{tag}#{}", f.full_name()), f));
            }
            o.oneofs.push((format!("{tag}#{}", on.full_name()), on));
        }
        for e in m.child_messages() {
            o.msgs.push((k.clone(), e.parent_message().unwrap()));
            o.msgs.push((format!("{tag}#{}", e.full_name()), e));
        }
        for e in m.child_enums() {
            o.enums.push((format!("{tag}#{}", e.full_name()), e));
        }
        for e in m.child_extensions().chain(m.extensions()) {
            o.exts.push((format!("{tag}#{}", e.full_name()), m.get_extension(e.number()).unwrap_or(e.clone())));
            o.msgs.push((format!("{tag}#{}", e.containing_message().full_name()), e.containing_message()));
            // (a child extension may extend another message that has this number too)
            let l = o.exts.len() - 1;
            let name = o.exts[l].1.full_name().to_string();
            o.exts[l].0 = format!("{tag}#{name}");
            o.exts.push((format!("{tag}#{}", e.full_name()), e));
        }
        o.msgs.push((k, m));
    }
    for e in p.all_enums() {
        let k = format!("{tag}#{}", e.full_name());
        o.enums.push((k.clone(), p.get_enum_by_name(e.full_name()).unwrap()));
        for v in e.values() {
            let vk = format!("{tag}#{}#{}", e.full_name(), v.name());
            o.vals.push((vk.clone(), e.get_value_by_name(v.name()).unwrap()));
            o.enums.push((k.clone(), v.parent_enum().clone()));
            if s.enums[e.full_name()].values.iter().filter(|x| x.1 == v.number()).count() == 1 {
                o.vals.push((vk.clone(), e.get_value(v.number()).unwrap()));
            }
            o.vals.push((vk, v));
        }
        let dv = e.default_value();
        o.vals.push((format!("{tag}#{}#{}", e.full_name(), dv.name()), dv));
        o.enums.push((k, e));
    }
    for e in p.all_extensions() {
        let k = format!("{tag}#{}", e.full_name());
        o.exts.push((k.clone(), p.get_extension_by_name(e.full_name()).unwrap()));
        if let Some(x) = e.containing_message().get_extension_by_full_name(e.full_name()) {
            o.exts.push((k.clone(), x));
        }
        o.exts.push((k, e));
    }
    for (i, sv) in p.services().enumerate() {
        let k = format!("{tag}#{}", sv.full_name());
        o.svcs.push((k.clone(), p.get_service_by_name(sv.full_name()).unwrap()));
        o.svcs.push((k.clone(), ServiceDescriptor::new(p.clone(), i)));
        for (j, m) in sv.methods().enumerate() {
            let mk = format!("{tag}#{}", m.full_name());
            o.meths.push((mk.clone(), MethodDescriptor::new(sv.clone(), j)));
            o.svcs.push((k.clone(), m.parent_service().clone()));
            o.msgs.push((format!("{tag}#{}", m.input().full_name()), m.input()));
            o.msgs.push((format!("{tag}#{}", m.output().full_name()), m.output()));
            o.meths.push((mk, m));
        }
        o.svcs.push((k, sv));
    }
}

fn c28(ctx: &mut Ctx, i: u64) -> CaseResult {
    let cfg = GenCfg { max_files: 2, max_msgs: 2, max_fields: 5, services: true, ..Default::default() };
    let s = gen_schema(&mut ctx.r, cfg);
    let pool = mkpool(&s);
    let show = |e: String| format!("{e}\n{}", show_files(&s.files));
    if i % 3 == 0 {
        let clone = pool.clone();
        let other = mkpool(&s);
        let mut o = Handles::default();
        routes("a", &pool, &s, &mut o);
        routes("a", &clone, &s, &mut o);
        routes("b", &other, &s, &mut o);
        // keep the pair count bounded
        macro_rules! cut {
            ($($f:ident),*) => {$(
                ctx.r.shuffle(&mut o.$f);
                o.$f.truncate(90);
            )*};
        }
        cut!(files, msgs, fields, exts, enums, vals, oneofs, svcs, meths);
        laws(ctx, "file", &o.files).map_err(show)?;
        laws(ctx, "message", &o.msgs).map_err(show)?;
        laws(ctx, "field", &o.fields).map_err(show)?;
        laws(ctx, "extension", &o.exts).map_err(show)?;
        laws(ctx, "enum", &o.enums).map_err(show)?;
        laws(ctx, "enum value", &o.vals).map_err(show)?;
        laws(ctx, "oneof", &o.oneofs).map_err(show)?;
        laws(ctx, "service", &o.svcs).map_err(show)?;
        laws(ctx, "method", &o.meths).map_err(show)?;
        if pool != clone || pool == other || clone == other {
            return Err(show("pool equality does not follow identity".into()));
        }
        ctx.feature(format!("h{}{}", o.msgs.len(), o.fields.len()).as_bytes());
    }
    for _ in 0..3 {
        let ty = pick_type(ctx, &s);
        let d = desc(&pool, &ty);
        let vc = ValCfg { unknown: true, nan: false, max_depth: 3, budget: 40, ..Default::default() };
        let mut m = gen_msg(&mut ctx.r, &s, &ty, vc);
        m.sort_unknown();
        // several histories that end in the same contents
        let mut hist: Vec<(&str, DynamicMessage)> = vec![("setters", to_dyn(&s, &pool, &m))];
        hist.push(("mutable accessors", super::wirep::build_mut(ctx, &s, &pool, &m)));
        hist.push(("decode", DynamicMessage::decode(d.clone(), &wire::encode(&s, &m)[..]).map_err(|e| e.to_string())?));
        let mut noise = wire::Noise::new(&mut ctx.r, &s);
        let noisy = noise.records(&m).concat();
        hist.push(("decode noisy", DynamicMessage::decode(d.clone(), &noisy[..]).map_err(|e| e.to_string())?));
        {
            // arbitrary other contents first, then emptied in different ways, then set
            let m0 = gen_msg(&mut ctx.r, &s, &ty, ValCfg { unknown: true, nan: false, max_depth: 2, budget: 30, ..Default::default() });
            let mut x = to_dyn(&s, &pool, &m0);
            match ctx.r.below(4) {
                0 => x.clear(),
                1 => {
                    let _ = x.take_fields().count();
                    let _ = x.take_extensions().count();
                    let _ = x.take_unknown_fields().count();
                }
                2 => {
                    for f in d.fields() {
                        let dv = f.default_value();
                        if f.supports_presence() {
                            x.clear_field(&f);
                        } else {
                            x.set_field(&f, dv);
                        }
                    }
                    for e in d.extensions() {
                        x.take_extension(&e);
                    }
                    let _ = x.take_unknown_fields().count();
                }
                _ => {
                    for f in d.fields() {
                        if f.supports_presence() {
                            x.take_field(&f);
                        } else {
                            *x.get_field_mut(&f) = f.default_value();
                        }
                    }
                    for e in d.extensions() {
                        x.clear_extension(&e);
                    }
                    let _ = x.take_unknown_fields().count();
                }
            }
            x.merge(&wire::encode(&s, &m)[..]).map_err(|e| e.to_string())?;
            // touching implicit fields without changing them
            for f in d.fields() {
                if !f.supports_presence() && ctx.r.bool() {
                    x.get_field_mut(&f);
                }
            }
            hist.push(("emptied and merged", x));
        }
        for (wa, a) in &hist {
            ctxerr!(want_eq(wa, &m, a, EXACT), "{}", show_files(&s.files))?;
            for (wb, b) in &hist {
                if a != b || !(a == b) {
                    return Err(show(format!("equal contents built by {wa} and by {wb} compare unequal: {m:?}\n{a:?}\n{b:?}")));
                }
                ctx.count("equal_histories", 1);
            }
        }
        // a minimally different message is unequal
        let mut m2 = m.clone();
        if perturb(ctx, &s, &mut m2) && diff(&m, &m2, Cmp { zero_loose: true, ..EXACT }).is_some() {
            let y = to_dyn(&s, &pool, &m2);
            for (w, a) in &hist {
                if *a == y || y == *a {
                    return Err(show(format!("different contents compare equal ({w}): {m:?}\n{m2:?}")));
                }
            }
            ctx.count("different_contents", 1);
        }
        let other = mkpool(&s);
        if ctx.r.pct(20) && to_dyn(&s, &other, &m) == hist[0].1 {
            return Err(show("messages of different pools compare equal".into()));
        }
        // clones are independent, in both directions
        let orig = hist[ctx.r.below(hist.len())].1.clone();
        let mut a = orig.clone();
        let mut b = a.clone();
        if a != b {
            return Err(show("a clone is unequal".into()));
        }
        let mut ma = m.clone();
        let mut mb = m.clone();
        for _ in 0..6 {
            if ctx.r.bool() {
                op(ctx, &s, &pool, &mut a, &mut ma, 0).map_err(show)?;
            } else {
                op(ctx, &s, &pool, &mut b, &mut mb, 0).map_err(show)?;
            }
            want_eq("mutated copy", &ma, &a, EXACT).map_err(show)?;
            want_eq("other copy", &mb, &b, EXACT).map_err(show)?;
            want_eq("original", &m, &orig, EXACT).map_err(show)?;
            ctx.count("clone_independent", 1);
        }
        ctx.feature(&super::wirep::feat(&s, &m));
    }
    Ok(())
}

/// Change one thing that is observable. False if nothing could be changed.
pub fn perturb(ctx: &mut Ctx, s: &RSchema, m: &mut RMsg) -> bool {
    let fields = all_fields(s, &m.ty);
    for _ in 0..6 {
        match ctx.r.below(6) {
            0 if !m.fields.is_empty() => {
                let k = *m.fields.keys().nth(ctx.r.below(m.fields.len())).unwrap();
                m.fields.remove(&k);
                return true;
            }
            1 => {
                let n = ValGen::new(&mut ctx.r, s, ValCfg::default()).unknown_number(&m.ty);
                m.unknown.push((n, RUnk::Varint(7)));
                return true;
            }
            2 if !m.unknown.is_empty() => {
                let k = ctx.r.below(m.unknown.len());
                m.unknown.remove(k);
                return true;
            }
            3 => {
                // recurse
                let mut ok = false;
                for v in m.fields.values_mut() {
                    let pick = ctx.r.bool();
                    v.for_msgs_mut(&mut |x| {
                        if !ok && pick {
                            ok = perturb(ctx, s, x);
                        }
                    });
                    if ok {
                        break;
                    }
                }
                if ok {
                    return true;
                }
            }
            _ => {
                if fields.is_empty() {
                    continue;
                }
                let f = ctx.r.pick(&fields).clone();
                if f.oneof.is_some_and(|o| s.msg(&m.ty).oneofs[o].fields.iter().any(|n| *n != f.number && m.fields.contains_key(n))) {
                    continue;
                }
                let v = ValGen::new(&mut ctx.r, s, ValCfg { nan: false, max_depth: 1, budget: 5, ..Default::default() }).field(&f, 1);
                if let Some(v) = v {
                    if m.fields.get(&f.number) != Some(&v) {
                        m.fields.insert(f.number, v);
                        return true;
                    }
                }
            }
        }
    }
    false
}
