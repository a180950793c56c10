//! C09–C13: ProtoJSON.
use super::wirep::{feat, pick_type};
use super::*;
use crate::dynconv::*;
use crate::gen::*;
use crate::json::*;
use crate::rmsg::*;
use crate::run::{guard, CaseResult, Ctx, Prop};
use crate::schema::*;
use crate::wire;
use prost_reflect::*;
use serde::de::DeserializeSeed;
use std::collections::BTreeMap;

pub static PROPS: &[&Prop] = &[&C09, &C10, &C11, &C12, &C13];

pub static C09: Prop = Prop {
    id: "C09",
    quick: 40000,
    thorough: 300_000,
    rule: "random schemas and messages (with unknown fields), each serialized under all 16 option combinations through the compact, pretty and in-memory serializers; distinct by (option, field shapes)",
    case: c09,
    directed: None,
    extra: None,
    need: &["documents", "default_filled", "unknown_omitted", "extension_member", "any", "unserializable"],
    level: "exploration",
};

fn cfg(ctx: &mut Ctx) -> GenCfg {
    GenCfg {
        wkt: ctx.r.pct(70),
        max_files: 1 + ctx.r.below(2),
        max_msgs: 1 + ctx.r.below(4),
        max_fields: 3 + ctx.r.below(8),
        ..Default::default()
    }
}

/// A JSON-representable message of one of the schema's types, sometimes a well-known type itself.
fn json_msg(ctx: &mut Ctx, s: &RSchema, unknown: bool) -> RMsg {
    let mut ty = pick_type(ctx, s);
    if ctx.r.pct(8) {
        let w: Vec<String> = s.plain_msgs().into_iter().filter(|t| is_json_wkt(t)).collect();
        if !w.is_empty() {
            ty = ctx.r.pick(&w).clone();
        }
    }
    let budget = 10 + ctx.r.below(80);
    gen_msg(&mut ctx.r, s, &ty, ValCfg { unknown, any_empty: false, max_depth: 3, budget, ..Default::default() })
}

pub fn lib_opts(o: Opts) -> SerializeOptions {
    SerializeOptions::new()
        .stringify_64_bit_integers(o.string64)
        .use_enum_numbers(o.enum_num)
        .use_proto_field_name(o.proto_name)
        .skip_default_fields(o.skip_default)
}

pub fn ser(x: &DynamicMessage, o: Opts) -> Result<String, String> {
    let mut w = serde_json::Serializer::new(vec![]);
    x.serialize_with_options(&mut w, &lib_opts(o)).map_err(|e| e.to_string())?;
    String::from_utf8(w.into_inner()).map_err(|e| e.to_string())
}

fn ser_pretty(x: &DynamicMessage, o: Opts) -> Result<String, String> {
    let mut w = serde_json::Serializer::pretty(vec![]);
    x.serialize_with_options(&mut w, &lib_opts(o)).map_err(|e| e.to_string())?;
    String::from_utf8(w.into_inner()).map_err(|e| e.to_string())
}

fn ser_value(x: &DynamicMessage, o: Opts) -> Result<serde_json::Value, String> {
    x.serialize_with_options(serde_json::value::Serializer, &lib_opts(o)).map_err(|e| e.to_string())
}

fn c09(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let c = cfg(ctx);
    let s = gen_schema(&mut ctx.r, c);
    let pool = mkpool(&s);
    for _ in 0..2 {
        let unknown = ctx.r.pct(40);
        let m = json_msg(ctx, &s, unknown);
        let x = to_dyn(&s, &pool, &m);
        let f = feat(&s, &m);
        for o in all_opts() {
            let e = match canon(&s, &m, o) {
                Ok(e) => e,
                Err(e) => return Err(format!("HARNESS: {e}")),
            };
            let fail = |w: &str, d: String| Err(format!("{w} with {o:?}: {d}\n message {m:?}\n{}", show_files(&s.files)));
            for (w, t) in [
                ("to text", ser(&x, o)),
                ("pretty text", ser_pretty(&x, o)),
                ("to value", ser_value(&x, o).map(|v| v.to_string())),
            ] {
                let t = match t {
                    Ok(t) => t,
                    Err(e) => return fail(w, format!("serialization failed: {e}")),
                };
                let j = match parse(&t) {
                    Ok(j) => j,
                    Err(e) => return fail(w, format!("not JSON: {e}: {t}")),
                };
                if let Some(d) = ecmp(&e, &j) {
                    return fail(w, format!("{d}; printed {t}"));
                }
                ctx.count("documents", 1);
            }
            if !o.skip_default {
                ctx.count("default_filled", 1);
            }
            let mut k = f.clone();
            k.extend(format!("{o:?}").bytes());
            ctx.feature(&k);
        }
        let plain = serde_json::to_string(&x).map_err(|e| e.to_string())?;
        let e = canon(&s, &m, Opts { string64: true, enum_num: false, proto_name: false, skip_default: true })?;
        match parse(&plain) {
            Ok(j) => {
                if let Some(d) = ecmp(&e, &j) {
                    return Err(format!("default options: {d}; printed {plain}\n{}", show_files(&s.files)));
                }
            }
            Err(e) => return Err(format!("default options: {e}")),
        }
        if !m.unknown.is_empty() {
            ctx.count("unknown_omitted", 1);
        }
        if s.exts_of(&m.ty).any(|f| m.fields.contains_key(&f.number)) {
            ctx.count("extension_member", 1);
        }
        if plain.contains("\"@type\"") {
            ctx.count("any", 1);
        }
        ctx.sample(|| plain.clone());
    }
    // messages outside the JSON range are refused, not misprinted
    if s.msgs.contains_key("google.protobuf.Value") {
        let (m, why) = unprintable(ctx, &s);
        let x = to_dyn(&s, &pool, &m);
        let opts = *ctx.r.pick(&all_opts());
        if let Ok(t) = ser(&x, opts) {
            return Err(format!("{why} was printed as {t}: {m:?}"));
        }
        if let Ok(t) = ser_value(&x, opts) {
            return Err(format!("{why} was printed as {t}: {m:?}"));
        }
        ctx.count("unserializable", 1);
    }
    Ok(())
}

/// A well-known-type value without a JSON form.
fn unprintable(ctx: &mut Ctx, s: &RSchema) -> (RMsg, &'static str) {
    let g = |t: &str| RMsg::new(&format!("google.protobuf.{t}"));
    let (m, why) = match ctx.r.below(6) {
        0 => {
            let mut m = g("Timestamp");
            let v = *ctx.r.pick(&[-62135596801, 253402300800, i64::MIN, i64::MAX, -62135596800 - 86400, 253402300799 + 86400]);
            m.fields.insert(1, RVal::I64(v));
            (m, "out-of-range timestamp")
        }
        1 => {
            let mut m = g("Duration");
            let v = *ctx.r.pick(&[-315576000001, 315576000001, i64::MIN, i64::MAX]);
            m.fields.insert(1, RVal::I64(v));
            (m, "out-of-range duration")
        }
        2 => {
            let mut m = g("Duration");
            let v = *ctx.r.pick(&[1_000_000_000, -1_000_000_000, i32::MAX, i32::MIN]);
            m.fields.insert(2, RVal::I32(v));
            (m, "out-of-range duration nanos")
        }
        3 => {
            let mut m = g("FieldMask");
            let p = *ctx.r.pick(&["fooBar", "foo__bar", "foo_1", "foo_", "_1a", "a.b_", "A", "a.B", "a,b_2"]);
            m.fields.insert(1, RVal::List(vec![RVal::Str("ok".into()), RVal::Str(p.into())]));
            (m, "field mask path that cannot round-trip")
        }
        4 => {
            let mut m = g("Value");
            let v = *ctx.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            m.fields.insert(2, RVal::F64(v.to_bits()));
            (m, "non-finite number in Value")
        }
        _ => {
            let mut m = g("Any");
            let u = *ctx.r.pick(&["type.googleapis.com/no.such.Type", "noslash", "type.googleapis.com/", "type.googleapis.com/google.protobuf.Timestamp"]);
            m.fields.insert(1, RVal::Str(u.into()));
            m.fields.insert(2, RVal::Bytes(vec![0x08]));
            (m, "Any with unresolvable type or undecodable payload")
        }
    };
    // sometimes nested
    let m = if ctx.r.pct(40) {
        let mut a = g("Any");
        a.fields.insert(1, RVal::Str(format!("x/{}", m.ty)));
        a.fields.insert(2, RVal::Bytes(wire::encode(s, &m)));
        a
    } else if m.ty == "google.protobuf.Value" {
        let mut l = g("ListValue");
        l.fields.insert(1, RVal::List(vec![RVal::Msg(m)]));
        l
    } else {
        m
    };
    (m, why)
}

// ------------------------------------------------------------------ deserialization routes

struct OneByte<'a>(&'a [u8]);
impl std::io::Read for OneByte<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() || b.is_empty() {
            return Ok(0);
        }
        b[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}

fn fin<'de, R: serde_json::de::Read<'de>>(
    d: &MessageDescriptor,
    mut de: serde_json::Deserializer<R>,
    o: &DeserializeOptions,
) -> Result<DynamicMessage, String> {
    let m = DynamicMessage::deserialize_with_options(d.clone(), &mut de, o).map_err(|e| e.to_string())?;
    de.end().map_err(|e| e.to_string())?;
    Ok(m)
}

/// Every form of delivery of the same document.
fn routes(d: &MessageDescriptor, doc: &str, deny: bool, values: bool) -> Vec<(&'static str, Result<DynamicMessage, String>)> {
    let o = DeserializeOptions::new().deny_unknown_fields(deny);
    let mut out: Vec<(&'static str, Result<DynamicMessage, String>)> = vec![];
    let mut run = |n: &'static str, f: &mut dyn FnMut() -> Result<DynamicMessage, String>| {
        let r = match guard(|| f()) {
            Ok(r) => r,
            Err(p) => Err(format!("PANIC {p}")),
        };
        out.push((n, r));
    };
    run("from_str", &mut || fin(d, serde_json::Deserializer::from_str(doc), &o));
    run("from_slice", &mut || fin(d, serde_json::Deserializer::from_slice(doc.as_bytes()), &o));
    run("from_reader", &mut || fin(d, serde_json::Deserializer::from_reader(OneByte(doc.as_bytes())), &o));
    if deny {
        run("seed", &mut || {
            let mut de = serde_json::Deserializer::from_str(doc);
            let m = d.clone().deserialize(&mut de).map_err(|e| e.to_string())?;
            de.end().map_err(|e| e.to_string())?;
            Ok(m)
        });
    }
    if values {
        run("value", &mut || {
            let v: serde_json::Value = serde_json::from_str(doc).map_err(|e| e.to_string())?;
            DynamicMessage::deserialize_with_options(d.clone(), v, &o).map_err(|e| e.to_string())
        });
        run("value_ref", &mut || {
            let v: serde_json::Value = serde_json::from_str(doc).map_err(|e| e.to_string())?;
            DynamicMessage::deserialize_with_options(d.clone(), &v, &o).map_err(|e| e.to_string())
        });
    }
    out
}

fn same(s: &RSchema, want: &RMsg, got: &DynamicMessage) -> Option<String> {
    let mut g = match from_dyn(got) {
        Ok(g) => g,
        Err(e) => return Some(e),
    };
    let mut w = want.clone();
    norm(s, &mut w);
    norm(s, &mut g);
    diff(&w, &g, LOOSE)
}

pub static C10: Prop = Prop {
    id: "C10",
    quick: 20000,
    thorough: 600_000,
    rule: "random messages spelled in random permitted ways and laid out with random whitespace, escapes and member order, delivered as str, slice, reader and in-memory value; distinct by set of spellings used and field shapes",
    case: c10,
    directed: None,
    extra: None,
    need: &["accepted", "spelling:int_string", "spelling:int_point_zero", "spelling:int_exponent", "spelling:float_string", "spelling:float_nonfinite", "spelling:enum_number", "spelling:enum_alias", "spelling:base64_url", "spelling:base64_unpadded", "spelling:proto_name", "spelling:null_for_unset", "spelling:any_type_late", "spelling:timestamp_offset"],
    level: "exploration",
};

fn c10(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let c = cfg(ctx);
    let s = gen_schema(&mut ctx.r, c);
    let pool = mkpool(&s);
    for _ in 0..4 {
        let m = json_msg(ctx, &s, false);
        let (doc, used) = {
            let mut sp = Spell::new(&mut ctx.r, &s);
            let j = sp.msg(&m);
            let used = std::mem::take(&mut sp.used);
            let plain = ctx.r.pct(20);
            (emit(&j, &mut ctx.r, plain), used)
        };
        // NullValue as the string form, absent default etc. do not change the denoted message
        for (w, r) in routes(&desc(&pool, &m.ty), &doc, ctx.case % 2 == 0, true) {
            let fail = |d: String| Err(format!("{w}: {d}\n document {doc}\n message {m:?}\n{}", show_files(&s.files)));
            match r {
                Err(e) => return fail(format!("valid document rejected: {e}")),
                Ok(x) => {
                    if let Some(d) = same(&s, &m, &x) {
                        return fail(format!("denoted vs parsed: {d}"));
                    }
                }
            }
            ctx.count("accepted", 1);
        }
        for (k, n) in &used {
            ctx.count(&format!("spelling:{k}"), *n);
        }
        let mut k = feat(&s, &m);
        k.extend(used.keys().flat_map(|k| k.bytes()));
        ctx.feature(&k);
        ctx.sample(|| doc.clone());
    }
    Ok(())
}

pub static C11: Prop = Prop {
    id: "C11",
    quick: 25000,
    thorough: 800_000,
    rule: "valid documents with exactly one slot (value, element, map key, member set) replaced by a token known to be invalid there, delivered by every route; plus documents with injected unknown members and enum names under deny_unknown_fields(false); distinct by (corruption, slot kind)",
    case: c11,
    directed: None,
    extra: None,
    need: &["rejected", "tolerated", "spelling:injected_member", "spelling:injected_enum_name_field", "spelling:injected_enum_name_list", "spelling:injected_enum_name_map", "truncated", "repeated_member"],
    level: "exploration",
};

fn c11(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let c = cfg(ctx);
    let s = gen_schema(&mut ctx.r, c);
    let pool = mkpool(&s);
    for _ in 0..3 {
        let m = json_msg(ctx, &s, false);
        let d = desc(&pool, &m.ty);
        // count the slots, then corrupt one
        let slots = {
            let mut sp = Spell::new(&mut ctx.r, &s);
            sp.msg(&m);
            sp.slot
        };
        for _ in 0..3 {
            let at = ctx.r.below(slots.max(1));
            let mut sp = Spell::new(&mut ctx.r, &s);
            sp.corrupt = Some(at);
            let j = sp.msg(&m);
            let Some(what) = sp.what.clone() else { continue };
            let deny = ctx.r.pct(70) || what.starts_with("unknown member") || what.starts_with("enum:\"") || what.starts_with("nullvalue:\"") || what.starts_with("any:") || what.starts_with("empty:{");
            let doc = emit(&j, &mut ctx.r, false);
            for (w, r) in routes(&d, &doc, deny, true) {
                match r {
                    Ok(x) => {
                        return Err(format!("{w}: invalid document accepted ({what}), giving {x}\n document {doc}\n{}", show_files(&s.files)))
                    }
                    Err(e) if e.starts_with("PANIC") => return Err(format!("{w}: {e} ({what})\n document {doc}\n{}", show_files(&s.files))),
                    Err(_) => ctx.count("rejected", 1),
                }
            }
            ctx.feature(what.as_bytes());
            ctx.sample(|| format!("[{what}] {doc}"));
        }
        // top level of the wrong type
        // tolerated unknowns
        let (doc, used) = {
            let mut sp = Spell::new(&mut ctx.r, &s);
            sp.inject = true;
            let j = sp.msg(&m);
            let used = std::mem::take(&mut sp.used);
            (emit(&j, &mut ctx.r, false), used)
        };
        for (w, r) in routes(&d, &doc, false, true) {
            let fail = |d: String| Err(format!("unknown fields allowed, {w}: {d}\n document {doc}\n message {m:?}\n{}", show_files(&s.files)));
            match r {
                Err(e) => return fail(format!("rejected: {e}")),
                Ok(x) => {
                    if let Some(d) = same(&s, &m, &x) {
                        return fail(format!("denoted vs parsed: {d}"));
                    }
                }
            }
            ctx.count("tolerated", 1);
        }
        for (k, n) in &used {
            if k.starts_with("inject") {
                ctx.count(&format!("spelling:{k}"), *n);
            }
        }
        // a document cut short or followed by more is not a document
        let j = Spell::new(&mut ctx.r, &s).msg(&m);
        let doc = emit(&j, &mut ctx.r, true);
        let mut cut = ctx.r.below(doc.len());
        while !doc.is_char_boundary(cut) {
            cut -= 1;
        }
        let t = if ctx.r.pct(70) && matches!(j, J::Obj(_) | J::Arr(_) | J::Str(_)) {
            doc[..cut].to_string()
        } else {
            format!("{doc}{}", ctx.r.pick(&["{}", ",", "]", " x", "\"\""]))
        };
        for (w, r) in routes(&d, &t, true, true) {
            match r {
                Ok(x) => return Err(format!("{w}: {t:?} accepted as {x}")),
                Err(e) if e.starts_with("PANIC") => return Err(format!("{w}: {e} on {t:?}\n{}", show_files(&s.files))),
                _ => ctx.count("truncated", 1),
            }
        }
        // a member given twice: refused, or the last one counts
        if let J::Obj(v) = &j {
            let md = &s.msg(&m.ty);
            if !is_json_wkt(&m.ty) && !v.is_empty() {
                let e = ctx.r.pick(v).clone();
                let f = md.fields.values().find(|f| f.json_name == e.0).or_else(|| md.fields.values().find(|f| f.name == e.0));
                if let Some(f) = f {
                    if e.1 != J::Null && f.oneof.is_none() && m.fields.contains_key(&f.number) {
                        let other = ValGen::new(&mut ctx.r, &s, ValCfg { any_empty: false, max_depth: 1, budget: 4, ..Default::default() }).field(f, 1);
                        let mut m2 = RMsg::new(&m.ty);
                        if let Some(o) = other {
                            m2.fields.insert(f.number, o);
                            let J::Obj(mut first) = Spell::new(&mut ctx.r, &s).msg(&m2) else { unreachable!() };
                            first.retain(|x| x.0 == f.name || x.0 == f.json_name);
                            first.extend(v.clone());
                            let doc = emit(&J::Obj(first), &mut ctx.r, false);
                            for (w, r) in routes(&d, &doc, true, false) {
                                match r {
                                    Err(e) if e.starts_with("PANIC") => return Err(format!("{w}: {e} on {doc}")),
                                    Err(_) => {}
                                    Ok(x) => {
                                        if let Some(df) = same(&s, &m, &x) {
                                            return Err(format!("{w}: repeated member {:?} accepted but the last does not count: {df}\n{doc}\n{}", e.0, show_files(&s.files)));
                                        }
                                    }
                                }
                            }
                            ctx.count("repeated_member", 1);
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub static C12: Prop = Prop {
    id: "C12",
    quick: 5000,
    thorough: 300_000,
    rule: "random messages, every option combination, serialized and parsed back through text, reader and in-memory value, compared with the source; distinct by field shapes and option",
    case: c12,
    directed: None,
    extra: None,
    need: &["round_trips", "via_value", "with_any"],
    level: "exploration",
};

fn c12(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let c = cfg(ctx);
    let s = gen_schema(&mut ctx.r, c);
    let pool = mkpool(&s);
    for _ in 0..2 {
        let m = json_msg(ctx, &s, false);
        let x = to_dyn(&s, &pool, &m);
        let d = x.descriptor();
        for o in all_opts() {
            // under proto names, a name may be another field's JSON name: ambiguous by construction
            if o.proto_name && ambiguous(&s, &m.ty) {
                ctx.count("ambiguous_names_skipped", 1);
                continue;
            }
            let fail = |w: &str, e: String| Err(format!("{w} with {o:?}: {e}\n message {m:?}\n{}", show_files(&s.files)));
            let t = match ser(&x, o) {
                Ok(t) => t,
                Err(e) => return fail("serialize", e),
            };
            for (w, r) in routes(&d, &t, true, true) {
                match r {
                    Err(e) => return fail(w, format!("own output rejected: {e}: {t}")),
                    Ok(y) => {
                        if let Some(df) = same(&s, &m, &y) {
                            return fail(w, format!("sent vs returned: {df}: {t}"));
                        }
                    }
                }
                ctx.count("round_trips", 1);
            }
            let v = match ser_value(&x, o) {
                Ok(t) => t,
                Err(e) => return fail("serialize to value", e),
            };
            for (w, r) in [
                ("value", DynamicMessage::deserialize(d.clone(), v.clone())),
                ("value ref", DynamicMessage::deserialize(d.clone(), &v)),
            ] {
                match r {
                    Err(e) => return fail(w, format!("own output rejected: {e}: {v}")),
                    Ok(y) => {
                        if let Some(df) = same(&s, &m, &y) {
                            return fail(w, format!("sent vs returned: {df}: {v}"));
                        }
                    }
                }
                ctx.count("via_value", 1);
            }
            if t.contains("@type") {
                ctx.count("with_any", 1);
            }
            let mut k = feat(&s, &m);
            k.extend(format!("{o:?}").bytes());
            ctx.feature(&k);
        }
        ctx.sample(|| format!("{x}"));
    }
    Ok(())
}

/// Does some reachable message have a proto name equal to another field's JSON name?
fn ambiguous(s: &RSchema, _ty: &str) -> bool {
    s.msgs.values().any(|d| d.fields.values().any(|f| d.fields.values().any(|g| g.number != f.number && g.json_name == f.name)))
}

pub static C13: Prop = Prop {
    id: "C13",
    quick: 36000,
    thorough: 500_000,
    rule: "boundary and random values of every well-known type in every position (top level, field, list, map, oneof, extension, inside Any), canonical form, permitted spellings and corrupted spellings; distinct by (type, position, form)",
    case: c13,
    directed: Some(c13_calendar),
    extra: None,
    need: &["canonical", "spelled", "rejected", "unserializable", "value_tree", "calendar_days"],
    level: "exploration",
};

/// Every day boundary of a dense set of days, by our own calendar.
fn c13_calendar(ctx: &mut Ctx) -> CaseResult {
    let s = RSchema::new(wkt_files());
    let pool = mkpool(&s);
    let d = desc(&pool, "google.protobuf.Timestamp");
    let o = Opts { string64: true, enum_num: false, proto_name: false, skip_default: true };
    let mut days: Vec<i64> = vec![];
    for y in 1..=9999i64 {
        // 28 Feb .. 1 Mar, and the year's ends
        let base = (y - 1970) * 365 + (y - 1969).div_euclid(4) - (y - 1901).div_euclid(100) + (y - 1601).div_euclid(400);
        if y % 4 == 0 || y % 37 == 0 {
            days.extend([base + 57, base + 58, base + 59, base + 60]);
        }
        if y % 11 == 0 {
            days.extend([base, base + 364, base + 365]);
        }
        if y % 100 == 0 {
            days.extend(base..base + 366);
        }
    }
    for day in days {
        let t = day * 86400 + (day.rem_euclid(86400));
        if !(-62135596800..=253402300799).contains(&t) {
            continue;
        }
        let text = format!("\"{}Z\"", datetime(t));
        let mut m = RMsg::new("google.protobuf.Timestamp");
        if t != 0 {
            m.fields.insert(1, RVal::I64(t));
        }
        let x = to_dyn(&s, &pool, &m);
        let got = ser(&x, o)?;
        if got != text {
            return Err(format!("timestamp {t} printed as {got}, expected {text}"));
        }
        let y = super::record::de_json(&d, &text)?;
        if let Some(df) = same(&s, &m, &y) {
            return Err(format!("{text} parsed as {df}"));
        }
        ctx.count("calendar_days", 1);
    }
    Ok(())
}

/// Wrap a value (model, JSON) of type `ty` at a random position of a holder message.
fn place(ctx: &mut Ctx, s: &RSchema, v: &RMsg, j: &J) -> (RMsg, J, &'static str) {
    let short = v.ty.trim_start_matches("google.protobuf.").to_string();
    let h = |n: &str| s.msg("w.Holder").fields.values().find(|f| f.name == format!("{n}_{}", short.to_lowercase())).unwrap().number;
    let mut m = RMsg::new("w.Holder");
    match ctx.r.below(8) {
        0 => (v.clone(), j.clone(), "top"),
        1 => {
            m.fields.insert(h("f"), RVal::Msg(v.clone()));
            (m, J::Obj(vec![(format!("f{}", cap(&short)), j.clone())]), "field")
        }
        2 => {
            m.fields.insert(h("r"), RVal::List(vec![RVal::Msg(v.clone()), RVal::Msg(v.clone())]));
            (m, J::Obj(vec![(format!("r_{}", short.to_lowercase()), J::Arr(vec![j.clone(), j.clone()]))]), "list")
        }
        3 => {
            m.fields.insert(h("m"), RVal::Map(BTreeMap::from([(RKey::Str("k".into()), RVal::Msg(v.clone()))])));
            (m, J::Obj(vec![(format!("m{}", cap(&short)), J::Obj(vec![("k".into(), j.clone())]))]), "map")
        }
        4 => {
            m.fields.insert(h("o"), RVal::Msg(v.clone()));
            (m, J::Obj(vec![(format!("o{}", cap(&short)), j.clone())]), "oneof")
        }
        n => {
            // inside Any: directly, or inside a holder, or twice
            let (inner, ij) = if n == 6 {
                m.fields.insert(h("f"), RVal::Msg(v.clone()));
                (m, J::Obj(vec![(format!("f_{}", short.to_lowercase()), j.clone())]))
            } else {
                (v.clone(), j.clone())
            };
            let (mut a, mut aj) = wrap_any(ctx, s, &inner, ij);
            if n == 7 {
                (a, aj) = wrap_any(ctx, s, &a, aj);
            }
            (a, aj, "any")
        }
    }
}

fn wrap_any(ctx: &mut Ctx, s: &RSchema, v: &RMsg, j: J) -> (RMsg, J) {
    let mut a = RMsg::new("google.protobuf.Any");
    let url = format!("type.googleapis.com/{}", v.ty);
    a.fields.insert(1, RVal::Str(url.clone()));
    let b = wire::encode(s, v);
    if !b.is_empty() {
        a.fields.insert(2, RVal::Bytes(b));
    }
    let t = ("@type".to_string(), J::Str(url));
    let mut v = if is_json_wkt(&v.ty) {
        vec![("value".to_string(), j)]
    } else {
        match j {
            J::Obj(o) => o,
            _ => unreachable!(),
        }
    };
    let at = ctx.r.below(v.len() + 1);
    v.insert(at, t);
    (a, J::Obj(v))
}

fn cap(s: &str) -> String {
    let l = s.to_lowercase();
    l[..1].to_uppercase() + &l[1..]
}

pub const WKTS: &[&str] = &[
    "Any", "Duration", "Empty", "FieldMask", "Timestamp", "Struct", "Value", "ListValue", "DoubleValue", "FloatValue", "Int64Value",
    "UInt64Value", "Int32Value", "UInt32Value", "BoolValue", "StringValue", "BytesValue",
];

fn holder() -> &'static (RSchema, DescriptorPool) {
    static H: std::sync::OnceLock<(RSchema, DescriptorPool)> = std::sync::OnceLock::new();
    H.get_or_init(|| {
        use prost_types::field_descriptor_proto::{Label, Type};
        use prost_types::*;
        let mut fields = vec![];
        let mut nested = vec![];
        for (i, t) in WKTS.iter().enumerate() {
            let l = t.to_lowercase();
            for (k, p) in ["f", "r", "m", "o"].iter().enumerate() {
                let name = format!("{p}_{l}");
                let mut tn = format!(".google.protobuf.{t}");
                if *p == "m" {
                    let en = map_entry_name(&name);
                    tn = format!(".w.Holder.{en}");
                    nested.push(DescriptorProto {
                        name: Some(en),
                        field: vec![
                            FieldDescriptorProto { name: Some("key".into()), number: Some(1), label: Some(Label::Optional as i32), r#type: Some(Type::String as i32), json_name: Some("key".into()), ..Default::default() },
                            FieldDescriptorProto { name: Some("value".into()), number: Some(2), label: Some(Label::Optional as i32), r#type: Some(Type::Message as i32), type_name: Some(format!(".google.protobuf.{t}")), json_name: Some("value".into()), ..Default::default() },
                        ],
                        options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }),
                        ..Default::default()
                    });
                }
                fields.push(FieldDescriptorProto {
                    name: Some(name.clone()),
                    number: Some((i * 4 + k + 1) as i32),
                    label: Some(if *p == "r" || *p == "m" { Label::Repeated } else { Label::Optional } as i32),
                    r#type: Some(Type::Message as i32),
                    type_name: Some(tn),
                    json_name: Some(default_json_name(&name)),
                    oneof_index: (*p == "o").then_some(0),
                    ..Default::default()
                });
            }
        }
        let mut files = wkt_files().clone();
        files.push(FileDescriptorProto {
            name: Some("w.proto".into()),
            package: Some("w".into()),
            syntax: Some("proto3".into()),
            dependency: files.iter().map(|f| f.name().to_string()).collect(),
            message_type: vec![DescriptorProto {
                name: Some("Holder".into()),
                field: fields,
                nested_type: nested,
                oneof_decl: vec![OneofDescriptorProto { name: Some("o".into()), options: std::option::Option::None }],
                ..Default::default()
            }],
            ..Default::default()
        });
        let s = RSchema::new(&files);
        let p = mkpool(&s);
        (s, p)
    })
}

fn json_to_value(j: &J) -> RMsg {
    let mut m = RMsg::new("google.protobuf.Value");
    let v = match j {
        J::Null => (1, RVal::Enum(0)),
        J::Num(n) => (2, RVal::F64(n.parse::<f64>().unwrap().to_bits())),
        J::Str(x) => (3, RVal::Str(x.clone())),
        J::Bool(b) => (4, RVal::Bool(*b)),
        J::Obj(o) => {
            let mut st = RMsg::new("google.protobuf.Struct");
            let map: BTreeMap<RKey, RVal> = o.iter().map(|(k, v)| (RKey::Str(k.clone()), RVal::Msg(json_to_value(v)))).collect();
            if !map.is_empty() {
                st.fields.insert(1, RVal::Map(map));
            }
            (5, RVal::Msg(st))
        }
        J::Arr(a) => {
            let mut l = RMsg::new("google.protobuf.ListValue");
            if !a.is_empty() {
                l.fields.insert(1, RVal::List(a.iter().map(|v| RVal::Msg(json_to_value(v))).collect()));
            }
            (6, RVal::Msg(l))
        }
        J::Raw(_) => unreachable!(),
    };
    m.fields.insert(v.0, v.1);
    m
}

fn c13(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let (s, pool) = holder();
    let o0 = Opts { string64: true, enum_num: false, proto_name: false, skip_default: true };
    for _ in 0..4 {
        let short = *ctx.r.pick(WKTS);
        let ty = format!("google.protobuf.{short}");
        let v = gen_msg(&mut ctx.r, s, &ty, ValCfg { any_empty: false, max_depth: 2, budget: 12, ..Default::default() });
        let spelled = {
            let mut sp = Spell::new(&mut ctx.r, s);
            sp.msg(&v)
        };
        // canonical output at this position
        let (m, j, pos) = place(ctx, s, &v, &spelled);
        let d = desc(pool, &m.ty);
        let x = to_dyn(s, pool, &m);
        let o = if ctx.r.bool() { o0 } else { *ctx.r.pick(&all_opts()) };
        let want = canon(s, &m, o).map_err(|e| format!("HARNESS: {e}"))?;
        let t = ser(&x, o).map_err(|e| format!("{short} at {pos}: in-range value not printed: {e}: {m:?}"))?;
        if let Some(df) = parse(&t).map_or_else(Some, |j| ecmp(&want, &j)) {
            return Err(format!("{short} at {pos} {o:?}: {df}; printed {t}; {m:?}"));
        }
        for (w, r) in routes(&d, &t, true, true) {
            match r {
                Err(e) => return Err(format!("{short} at {pos}, {w}: own output rejected: {e}: {t}")),
                Ok(y) => {
                    if let Some(df) = same(s, &m, &y) {
                        return Err(format!("{short} at {pos}, {w}: printed {t}, parsed back differently: {df}"));
                    }
                }
            }
        }
        ctx.count("canonical", 1);
        ctx.feature(format!("{short}/{pos}/canonical").as_bytes());
        let doc = emit(&j, &mut ctx.r, false);
        for (w, r) in routes(&d, &doc, true, true) {
            match r {
                Err(e) => return Err(format!("{short} at {pos}, {w}: permitted spelling rejected: {e}: {doc}")),
                Ok(y) => {
                    if let Some(df) = same(s, &m, &y) {
                        return Err(format!("{short} at {pos}, {w}: {doc} denotes vs parsed: {df}"));
                    }
                }
            }
        }
        ctx.count("spelled", 1);
        ctx.feature(format!("{short}/{pos}/spelled").as_bytes());
        ctx.sample(|| doc.clone());
        // corrupted
        let mut sp = Spell::new(&mut ctx.r, s);
        sp.corrupt = Some(0);
        let k = RKind::Msg(ty.clone());
        let bad = sp.elem(&k, &RVal::Msg(v.clone()), false);
        let what = sp.what.clone().unwrap_or_default();
        let (m2, j2, pos) = place(ctx, s, &v, &bad);
        let doc = emit(&j2, &mut ctx.r, true);
        let d2 = desc(pool, &m2.ty);
        for (w, r) in routes(&d2, &doc, true, true) {
            match r {
                Ok(y) => return Err(format!("{short} at {pos}, {w}: invalid form accepted ({what}): {doc} as {y}")),
                Err(e) if e.starts_with("PANIC") => return Err(format!("{short} at {pos}, {w}: {e}: {doc}")),
                Err(_) => ctx.count("rejected", 1),
            }
        }
        ctx.feature(format!("{pos}/{what}").as_bytes());
    }
    // generated timestamps and durations just outside the range
    let (lo, hi) = (-62135596800i64, 253402300799i64);
    let off = ctx.r.range(1, 1439);
    let bad = match ctx.r.below(4) {
        // local time in range, instant out of range
        0 => format!("\"{}+{:02}:{:02}\"", datetime(lo + ctx.r.range(0, off * 60 - 1)), off / 60, off % 60),
        1 => format!("\"{}-{:02}:{:02}\"", datetime(hi - ctx.r.range(0, off * 60 - 1)), off / 60, off % 60),
        2 => format!("\"{}{}s\"", if ctx.r.bool() { "-" } else { "" }, 315_576_000_001i64 + ctx.r.range(0, 1 << 40)),
        _ => {
            // one character of a valid timestamp replaced by a letter
            let t = datetime(ctx.r.range(lo, hi)) + "Z";
            let i = ctx.r.below(t.len() - 1);
            let c = *ctx.r.pick(&["x", " ", "/", "a", "٣"]);
            format!("\"{}{c}{}\"", &t[..i], &t[i + 1..])
        }
    };
    let ty = if bad.ends_with("s\"") { "Duration" } else { "Timestamp" };
    let v = RMsg::new(&format!("google.protobuf.{ty}"));
    let (m2, j2, pos) = place(ctx, s, &v, &J::Raw(bad.clone()));
    let doc = emit(&j2, &mut ctx.r, true);
    for (w, r) in routes(&desc(pool, &m2.ty), &doc, true, true) {
        match r {
            Ok(y) => return Err(format!("{ty} at {pos}, {w}: out-of-range {bad} accepted as {y}")),
            Err(e) if e.starts_with("PANIC") => return Err(format!("{w}: {e}: {doc}")),
            Err(_) => ctx.count("rejected", 1),
        }
    }
    let (m, why) = unprintable(ctx, s);
    let (m, _, pos) = place(ctx, s, &m, &J::Null);
    if let Ok(t) = ser(&to_dyn(s, pool, &m), *ctx.r.pick(&all_opts())) {
        return Err(format!("{why} at {pos} printed as {t}: {m:?}"));
    }
    ctx.count("unserializable", 1);
    // any JSON value at all is a Value
    let j = {
        let mut sp = Spell::new(&mut ctx.r, s);
        sp.junk(0)
    };
    let v = json_to_value(&j);
    let (m, j2, pos) = place(ctx, s, &v, &j);
    let doc = emit(&j2, &mut ctx.r, false);
    // a null directly in a Value-typed singular field is a null Value, by the rule for Value
    for (w, r) in routes(&desc(pool, &m.ty), &doc, true, true) {
        match r {
            Err(e) => return Err(format!("Value at {pos}, {w}: {doc} rejected: {e}")),
            Ok(y) => {
                if let Some(df) = same(s, &m, &y) {
                    return Err(format!("Value at {pos}, {w}: {doc} denotes vs parsed: {df}"));
                }
            }
        }
        ctx.count("value_tree", 1);
    }
    Ok(())
}
