//! C01–C04: the wire format.
use super::*;
use crate::dynconv::*;
use crate::gen::*;
use crate::rmsg::*;
use crate::run::{CaseResult, Ctx, Prop};
use crate::schema::*;
use crate::wire::{self, Frag};
use prost::Message;
use prost_reflect::{DynamicMessage, ReflectMessage, UnknownField};

pub static PROPS: &[&Prop] = &[&C01, &C02, &C03, &C04];

fn cfg_for(r: &mut crate::rng::Rng, wkt: bool) -> GenCfg {
    GenCfg { wkt, max_files: 1 + r.below(3), max_msgs: 1 + r.below(4), max_fields: 3 + r.below(9), ..Default::default() }
}

pub fn feat(s: &RSchema, m: &RMsg) -> Vec<u8> {
    // the set of (kind, cardinality, presence, packed, ext) shapes the message exercises, by type structure
    let mut v = vec![];
    fn go(s: &RSchema, m: &RMsg, v: &mut Vec<String>) {
        for (n, x) in &m.fields {
            if let Some(f) = s.field_of(&m.ty, *n) {
                let k = match &f.kind {
                    RKind::Enum(_) => "enum".into(),
                    RKind::Msg(t) if crate::rmsg::is_json_wkt(t) => t.clone(),
                    RKind::Msg(_) => "msg".into(),
                    RKind::Group(_) => "group".into(),
                    k => format!("{k:?}"),
                };
                v.push(format!("{k}/{:?}/{}{}{}{}", f.card, f.presence, f.packed, f.is_ext, f.is_map));
            }
            x.for_msgs(&mut |m| go(s, m, v));
        }
    }
    go(s, m, &mut v);
    v.sort();
    v.dedup();
    v.join(",").into_bytes()
}

pub fn pick_type(ctx: &mut Ctx, s: &RSchema) -> String {
    let own: Vec<String> =
        s.plain_msgs().into_iter().filter(|m| !m.starts_with("google.protobuf.")).collect();
    let rich: Vec<String> = own.iter().filter(|m| s.msgs[*m].fields.len() > 2).cloned().collect();
    if !rich.is_empty() && ctx.r.pct(80) {
        ctx.r.pick(&rich).clone()
    } else {
        ctx.r.pick(&own).clone()
    }
}

pub fn want_eq(what: &str, want: &RMsg, got: &DynamicMessage, c: Cmp) -> CaseResult {
    let got = from_dyn(got).map_err(|e| format!("{what}: {e}"))?;
    match diff(want, &got, c) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: expected vs got: {d}")),
    }
}

macro_rules! ctxerr {
    ($e:expr, $($a:tt)*) => { $e.map_err(|e| format!("{e}; {}", format!($($a)*))) };
}
pub(crate) use ctxerr;

pub static C01: Prop = Prop {
    id: "C01",
    quick: 2500,
    thorough: 200_000,
    rule: "random schema, random message, random non-canonical encoding of it (interleaved, split, overridden, overlong, packed/unpacked, partial map entries), split for merging; distinct by the set of field shapes and encoding tricks used",
    case: c01,
    directed: None,
    extra: None,
    need: &["decode", "merge_populated", "trick:split_message", "trick:overridden_oneof", "trick:missing_map_key", "trick:packed_for_unpacked", "trick:garbage_high_bits"],
    level: "exploration",
};

fn c01(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let cfg = cfg_for(&mut ctx.r, false);
    let s = gen_schema(&mut ctx.r, cfg);
    let pool = mkpool(&s);
    for _ in 0..6 {
        let ty = pick_type(ctx, &s);
        let d = desc(&pool, &ty);
        let max_len = if ctx.r.pct(25) { 4 } else { 3 };
        let vc = ValCfg { unknown: true, max_len, ..Default::default() };
        let mut m = gen_msg(&mut ctx.r, &s, &ty, vc.clone());
        m.sort_unknown();
        let mut noise = wire::Noise::new(&mut ctx.r, &s);
        let recs = noise.records(&m);
        let used = noise.used.clone();
        for (k, v) in &used {
            ctx.count(&format!("trick:{k}"), *v);
        }
        let bytes = recs.concat();
        let mut rd = wire::decode(&s, &ty, &bytes).map_err(|e| format!("HARNESS: reference decoder rejects reference encoding: {e:?}"))?;
        rd.sort_unknown();
        if let Some(d) = diff(&m, &rd, EXACT) {
            return Err(format!("HARNESS: reference codec disagrees with itself: {d}"));
        }
        let rep = || format!("type {ty} bytes {}\n{}", hex(&bytes), show_files(&s.files));
        let got = DynamicMessage::decode(d.clone(), &bytes[..]).map_err(|e| format!("valid bytes rejected: {e}; {}", rep()))?;
        ctxerr!(want_eq("decode", &m, &got, EXACT), "{}", rep())?;
        ctx.count("decode", 1);
        let mut f = feat(&s, &m);
        f.extend(used.keys().map(|k| k.to_string()).collect::<Vec<_>>().join(",").into_bytes());
        ctx.feature(&f);
        ctx.sample(|| format!("{ty}: {}", hex(&bytes)));

        // every way of cutting the input in two, and a fragmented buffer
        let k = ctx.r.below(recs.len() + 1);
        let a = recs[..k].concat();
        let b = recs[k..].concat();
        let mut x = DynamicMessage::decode(d.clone(), &a[..]).map_err(|e| format!("prefix rejected: {e}; {}", rep()))?;
        x.merge(&b[..]).map_err(|e| format!("suffix rejected: {e}; {}", rep()))?;
        ctxerr!(want_eq("decode+merge", &m, &x, EXACT), "cut {k}; {}", rep())?;
        let frag = Frag::new(&mut ctx.r, &bytes);
        let y = DynamicMessage::decode(d.clone(), frag).map_err(|e| format!("fragmented buffer rejected: {e}; {}", rep()))?;
        ctxerr!(want_eq("decode from a fragmented buffer", &m, &y, EXACT), "{}", rep())?;
        ctx.count("decode from a fragmented buffer", 1);
        let mut ld = vec![];
        wire::put_varint(&mut ld, bytes.len() as u64);
        ld.extend(&bytes);
        let mut z = DynamicMessage::new(d.clone());
        z.merge_length_delimited(Frag::new(&mut ctx.r, &ld)).map_err(|e| format!("length-delimited rejected: {e}; {}", rep()))?;
        ctxerr!(want_eq("merge_length_delimited", &m, &z, EXACT), "{}", rep())?;

        // merging into a populated message = decoding the concatenation
        let m2 = gen_msg(&mut ctx.r, &s, &ty, vc);
        let e2 = wire::encode(&s, &m2);
        let mut want = wire::decode(&s, &ty, &e2).unwrap();
        wire::merge(&s, &mut want, &bytes).unwrap();
        want.sort_unknown();
        let mut p = if ctx.r.bool() {
            to_dyn(&s, &pool, &m2)
        } else {
            DynamicMessage::decode(d.clone(), &e2[..]).map_err(|e| format!("canonical bytes rejected: {e}; {}", rep()))?
        };
        p.merge(&bytes[..]).map_err(|e| format!("merge rejected: {e}; {}", rep()))?;
        ctxerr!(want_eq("merge into populated", &want, &p, EXACT), "first {}; {}", hex(&e2), rep())?;
        let q = DynamicMessage::decode(d.clone(), e2.chain_vec(&bytes).as_slice())
            .map_err(|e| format!("concatenation rejected: {e}; {}", rep()))?;
        ctxerr!(want_eq("decode concatenation", &want, &q, EXACT), "first {}; {}", hex(&e2), rep())?;
        // clear: merge into a cleared message is a plain decode
        p.clear();
        ctxerr!(want_eq("clear", &RMsg::new(&ty), &p, EXACT), "{}", rep())?;
        p.merge(&bytes[..]).map_err(|e| format!("merge after clear rejected: {e}; {}", rep()))?;
        ctxerr!(want_eq("merge after clear", &m, &p, EXACT), "{}", rep())?;
        ctx.count("merge_populated", 1);
    }
    Ok(())
}

trait ChainVec {
    fn chain_vec(&self, o: &[u8]) -> Vec<u8>;
}
impl ChainVec for Vec<u8> {
    fn chain_vec(&self, o: &[u8]) -> Vec<u8> {
        let mut v = self.clone();
        v.extend(o);
        v
    }
}

pub static C02: Prop = Prop {
    id: "C02",
    quick: 6000,
    thorough: 200_000,
    rule: "random schema and message built by setters, by mutable accessors or by decoding, with explicitly set defaults; output checked for length, form, presence and content; distinct by set of field shapes",
    case: c02,
    directed: None,
    extra: None,
    need: &["encoded", "explicit_default_set", "implicit_default_set", "built_by_mut"],
    level: "exploration",
};

/// Build through get_field_mut and in-place mutation.
pub fn build_mut(ctx: &mut Ctx, s: &RSchema, pool: &prost_reflect::DescriptorPool, m: &RMsg) -> DynamicMessage {
    use prost_reflect::Value;
    let d = desc(pool, &m.ty);
    let mut out = DynamicMessage::new(d.clone());
    let mut order: Vec<u32> = m.fields.keys().copied().collect();
    ctx.r.shuffle(&mut order);
    for n in order {
        let v = &m.fields[&n];
        let f = d.get_field(n);
        let e = d.get_extension(n);
        let slot: &mut Value = match (&f, &e) {
            (Some(f), _) => match ctx.r.below(3) {
                0 => out.get_field_mut(f),
                1 => out.get_field_by_number_mut(n).unwrap(),
                _ => out.get_field_by_name_mut(f.name()).unwrap(),
            },
            (_, Some(e)) => out.get_extension_mut(e),
            _ => unreachable!(),
        };
        match (slot, v) {
            (Value::List(l), RVal::List(x)) => l.extend(x.iter().map(|v| val_to(s, pool, v))),
            (Value::Map(l), RVal::Map(x)) => {
                for (k, v) in x {
                    l.insert(key_to(k), val_to(s, pool, v));
                }
            }
            (Value::Message(dst), RVal::Msg(x)) => *dst = build_mut(ctx, s, pool, x),
            (slot, v) => *slot = val_to(s, pool, v),
        }
    }
    if !m.unknown.is_empty() {
        let mut b = vec![];
        for (n, u) in &m.unknown {
            wire::put_unk(&mut b, *n, u);
        }
        out.merge(&b[..]).unwrap();
    }
    out
}

/// Make some fields explicitly hold their default: returns the adjusted model and the assignments
/// that must stay invisible (implicit presence).
pub fn with_defaults(ctx: &mut Ctx, s: &RSchema, m: &mut RMsg) -> Vec<(u32, RVal)> {
    let mut invisible = vec![];
    let d = s.msg(&m.ty).clone();
    let exts: Vec<RField> = s.exts_of(&m.ty).cloned().collect();
    for f in d.fields.values().chain(&exts) {
        if m.fields.contains_key(&f.number) || !ctx.r.pct(30) {
            continue;
        }
        if let Some(o) = f.oneof {
            if d.oneofs[o].fields.iter().any(|n| m.fields.contains_key(n)) {
                continue;
            }
        }
        let v = if ctx.r.bool() || f.card == Card::Rep { default_of(s, f) } else { zero_of(s, &f.kind) };
        if f.presence {
            m.fields.insert(f.number, v);
            ctx.count("explicit_default_set", 1);
        } else {
            invisible.push((f.number, v));
            ctx.count("implicit_default_set", 1);
        }
    }
    invisible
}

pub fn set_num(s: &RSchema, pool: &prost_reflect::DescriptorPool, x: &mut DynamicMessage, n: u32, v: &RVal) {
    let d = x.descriptor();
    let val = val_to(s, pool, v);
    if let Some(f) = d.get_field(n) {
        x.set_field(&f, val);
    } else {
        x.set_extension(&d.get_extension(n).expect("extension"), val);
    }
}

fn c02(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let cfg = cfg_for(&mut ctx.r, false);
    let s = gen_schema(&mut ctx.r, cfg);
    let pool = mkpool(&s);
    for _ in 0..6 {
        let ty = pick_type(ctx, &s);
        let d = desc(&pool, &ty);
        let mut m = gen_msg(&mut ctx.r, &s, &ty, ValCfg { unknown: true, ..Default::default() });
        let inv = with_defaults(ctx, &s, &mut m);
        m.sort_unknown();
        let how = ctx.r.below(3);
        let mut x = match how {
            0 => to_dyn(&s, &pool, &m),
            1 => {
                ctx.count("built_by_mut", 1);
                build_mut(ctx, &s, &pool, &m)
            }
            _ => DynamicMessage::decode(d.clone(), &wire::encode(&s, &m)[..]).map_err(|e| format!("canonical bytes rejected: {e}"))?,
        };
        for (n, v) in &inv {
            set_num(&s, &pool, &mut x, *n, v);
        }
        let rep = |b: &[u8]| format!("type {ty}, built by {how}, bytes {}\nmodel {m:?}\n{}", hex(b), show_files(&s.files));
        let bytes = x.encode_to_vec();
        if x.encoded_len() != bytes.len() {
            return Err(format!("encoded_len {} but {} bytes written; {}", x.encoded_len(), bytes.len(), rep(&bytes)));
        }
        let mut got = wire::decode(&s, &ty, &bytes).map_err(|e| format!("output invalid: {e:?}; {}", rep(&bytes)))?;
        got.sort_unknown();
        if let Some(df) = diff(&m, &got, EXACT) {
            return Err(format!("encoded content differs: model vs bytes: {df}; {}", rep(&bytes)));
        }
        ctxerr!(wire::check_form(&s, &ty, &bytes), "{}", rep(&bytes))?;
        // exact and too small buffers
        let mut buf = vec![0u8; bytes.len()];
        {
            let mut slice = &mut buf[..];
            x.encode(&mut slice).map_err(|e| format!("exactly sized buffer refused: {e}; {}", rep(&bytes)))?;
        }
        {
            let cut = ctx.r.below(bytes.len() + 1);
            let (mut l, mut r) = (vec![0u8; cut], vec![0u8; bytes.len() - cut]);
            {
                use bytes::BufMut;
                let mut two = (&mut l[..]).chain_mut(&mut r[..]);
                x.encode(&mut two).map_err(|e| format!("exactly sized buffer in two parts refused: {e}; {}", rep(&bytes)))?;
            }
            l.extend(r);
            let mut again = wire::decode(&s, &ty, &l).map_err(|e| format!("output into two parts invalid: {e:?}; {}", rep(&l)))?;
            again.sort_unknown();
            if let Some(df) = diff(&m, &again, EXACT) {
                return Err(format!("encoding into a buffer of two parts differs: {df}; {}", rep(&l)));
            }
            // what is in a buffer already stays
            let mut v = vec![1u8, 2, 3];
            x.encode(&mut v).map_err(|e| format!("{e}"))?;
            if v.len() != bytes.len() + 3 || v[..3] != [1, 2, 3] {
                return Err(format!("encoding into a buffer in use: {} bytes; {}", v.len(), rep(&v)));
            }
        }
        if !bytes.is_empty() {
            let mut small = vec![0u8; bytes.len() - 1];
            let mut slice = &mut small[..];
            if x.encode(&mut slice).is_ok() {
                return Err(format!("a too small buffer was accepted; {}", rep(&bytes)));
            }
        }
        // (map order may differ between runs of the encoder, content may not)
        let mut again = wire::decode(&s, &ty, &buf).map_err(|e| format!("second output invalid: {e:?}"))?;
        again.sort_unknown();
        if let Some(df) = diff(&m, &again, EXACT) {
            return Err(format!("second encoding differs: {df}; {}", rep(&buf)));
        }
        let ld = x.encode_length_delimited_to_vec();
        let mut want = vec![];
        wire::put_varint(&mut want, bytes.len() as u64);
        if !ld.starts_with(&want) || ld.len() != want.len() + bytes.len() {
            return Err(format!("length-delimited prefix wrong; {}", rep(&ld)));
        }
        // what was not present must not be observable either
        ctxerr!(want_eq("in-memory state after building", &m, &x, EXACT), "{}", rep(&bytes))?;
        ctx.count("encoded", 1);
        ctx.feature(&feat(&s, &m));
        ctx.sample(|| format!("{ty}: {}", hex(&bytes)));
    }
    Ok(())
}

pub static C03: Prop = Prop {
    id: "C03",
    quick: 6000,
    thorough: 200_000,
    rule: "random message of a full schema decoded and re-encoded through a schema with randomly removed fields, plus random unknown records at every level; distinct by set of shapes and removed count",
    case: c03,
    directed: None,
    extra: None,
    need: &["passthrough", "unknown_records", "taken", "merged_after_take"],
    level: "exploration",
};

/// Remove fields from message types; every oneof keeps at least one member.
pub fn reduce(ctx: &mut Ctx, files: &[prost_types::FileDescriptorProto], pct: u32) -> (Vec<prost_types::FileDescriptorProto>, usize) {
    fn go(ctx: &mut Ctx, m: &mut prost_types::DescriptorProto, pct: u32, n: &mut usize) {
        if m.options.as_ref().is_some_and(|o| o.map_entry()) {
            return;
        }
        let mut left: std::collections::BTreeMap<i32, usize> = Default::default();
        for f in &m.field {
            if let Some(o) = f.oneof_index {
                *left.entry(o).or_default() += 1;
            }
        }
        m.field.retain(|f| {
            if !ctx.r.pct(pct) {
                return true;
            }
            if let Some(o) = f.oneof_index {
                let l = left.get_mut(&o).unwrap();
                if *l <= 1 {
                    return true;
                }
                *l -= 1;
            }
            *n += 1;
            false
        });
        for k in &mut m.nested_type {
            go(ctx, k, pct, n);
        }
        m.extension.retain(|_| {
            let keep = !ctx.r.pct(pct);
            *n += !keep as usize;
            keep
        });
    }
    let mut out = files.to_vec();
    let mut n = 0;
    for f in &mut out {
        if f.name().starts_with("google/protobuf/") {
            continue;
        }
        for m in &mut f.message_type {
            go(ctx, m, pct, &mut n);
        }
        f.extension.retain(|_| {
            let keep = !ctx.r.pct(pct);
            n += !keep as usize;
            keep
        });
    }
    (out, n)
}

fn c03(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let cfg = cfg_for(&mut ctx.r, false);
    let full = gen_files(&mut ctx.r, cfg);
    let s = RSchema::new(&full);
    let pct = *ctx.r.pick(&[20, 50, 90, 100]);
    let (rfiles, removed) = reduce(ctx, &full, pct);
    let rs = RSchema::new(&rfiles);
    let rpool = mkpool(&rs);
    let fpool = mkpool(&s);
    for _ in 0..5 {
        let ty = pick_type(ctx, &s);
        let d = desc(&rpool, &ty);
        let mut m = gen_msg(&mut ctx.r, &s, &ty, ValCfg { unknown: true, ..Default::default() });
        m.sort_unknown();
        let canon = wire::encode(&s, &m);
        // records in a random order that keeps the order within one number
        let recs = wire::split_records(&canon).unwrap();
        let mut by: std::collections::BTreeMap<u32, std::collections::VecDeque<Vec<u8>>> = Default::default();
        for (n, _, r) in &recs {
            by.entry(*n).or_default().push_back(r.clone());
        }
        let mut shuf: Vec<Vec<u8>> = vec![];
        let mut nums: Vec<u32> = by.keys().copied().collect();
        while !nums.is_empty() {
            let i = ctx.r.below(nums.len());
            let q = by.get_mut(&nums[i]).unwrap();
            shuf.push(q.pop_front().unwrap());
            if q.is_empty() {
                nums.swap_remove(i);
            }
        }
        let bytes = shuf.concat();
        let rep = || format!("type {ty} removed {removed} bytes {}\n{}\nreduced {}", hex(&bytes), show_files(&full), show_files(&rfiles));
        let mut x = DynamicMessage::new(d.clone());
        // decode whole or in two parts
        let k = ctx.r.below(shuf.len() + 1);
        x.merge(Frag::new(&mut ctx.r, &shuf[..k].concat())).map_err(|e| format!("rejected: {e}; {}", rep()))?;
        x.merge(&shuf[k..].concat()[..]).map_err(|e| format!("rejected: {e}; {}", rep()))?;
        // as the reduced schema sees it
        let mut want = wire::decode(&rs, &ty, &bytes).map_err(|e| format!("HARNESS {e:?}"))?;
        want.sort_unknown();
        let nunk = want.unknown.len() as u64;
        ctxerr!(want_eq("decode under the reduced schema", &want, &x, EXACT), "{}", rep())?;
        ctx.count("unknown_records", nunk);
        let out = x.encode_to_vec();
        if out.len() != x.encoded_len() {
            return Err(format!("encoded_len wrong with unknown fields; {}", rep()));
        }
        let mut back = wire::decode(&s, &ty, &out).map_err(|e| format!("re-encoding invalid: {e:?}; {}", rep()))?;
        back.sort_unknown();
        if let Some(df) = diff(&m, &back, EXACT) {
            return Err(format!("data lost in pass-through: original vs recovered: {df}; {}", rep()));
        }
        // a library reader with the full schema recovers the same
        let y = DynamicMessage::decode(desc(&fpool, &ty), &out[..]).map_err(|e| format!("full reader rejects: {e}; {}", rep()))?;
        ctxerr!(want_eq("full reader", &m, &y, EXACT), "{}", rep())?;
        ctx.count("passthrough", 1);
        // each unknown field individually
        for u in x.unknown_fields() {
            let mut b = vec![];
            u.encode(&mut b);
            let v = UnknownField::decode(&mut &b[..], Default::default()).map_err(|e| format!("UnknownField re-decode: {e}"))?;
            if &v != u || v.number() != u.number() || v.wire_type() as u32 as u8 != (b_wire(&b)) || u.wire_type() as u32 as u8 != b_wire(&b) {
                return Err(format!("UnknownField does not round-trip; {}", rep()));
            }
            if u.encoded_len() != b.len() {
                return Err(format!("UnknownField::encoded_len wrong; {}", rep()));
            }
            if x.has_field_by_number(u.number()) || x.get_field_by_number(u.number()).is_some() {
                return Err(format!("unknown field {} visible as a field; {}", u.number(), rep()));
            }
            if x.clone().try_set_field_by_number(u.number(), prost_reflect::Value::I32(1)).is_ok() {
                return Err(format!("unknown field number {} settable; {}", u.number(), rep()));
            }
        }
        let c = x.clone();
        ctxerr!(want_eq("clone", &want, &c, EXACT), "{}", rep())?;
        // clearing known fields leaves unknown data, and the other way round
        let mut known_cleared = x.clone();
        for f in d.fields() {
            known_cleared.clear_field(&f);
        }
        for e in d.extensions() {
            known_cleared.clear_extension(&e);
        }
        let mut only_unk = RMsg::new(&ty);
        only_unk.unknown = want.unknown.clone();
        ctxerr!(want_eq("after clearing known fields", &only_unk, &known_cleared, EXACT), "{}", rep())?;
        let mut taken = vec![];
        for u in x.take_unknown_fields() {
            u.encode(&mut taken);
        }
        let mut t = wire::decode_unknown(&taken).map_err(|e| format!("{e:?}"))?;
        t.sort_by_key(|u| u.0);
        if t != want.unknown {
            return Err(format!("take_unknown_fields yields {t:?}, expected {:?}; {}", want.unknown, rep()));
        }
        let mut rest = want.clone();
        rest.unknown.clear();
        ctxerr!(want_eq("after taking unknown fields", &rest, &x, EXACT), "{}", rep())?;
        if x.unknown_fields().count() != 0 {
            return Err(format!("unknown fields left after take; {}", rep()));
        }
        ctx.count("taken", t.len() as u64);
        // numbers emptied by the take accept unknown data again, as a fresh message would
        if !t.is_empty() {
            for round in 0..2 {
                let mut add = vec![];
                let mut more: Vec<(u32, crate::rmsg::RUnk)> = vec![];
                for _ in 0..1 + ctx.r.below(4) {
                    let n = if ctx.r.pct(80) { t[ctx.r.below(t.len())].0 } else { continue };
                    let u = crate::rmsg::gen_unk(&mut ctx.r, 2);
                    wire::put_unk(&mut add, n, &u);
                    more.push((n, u));
                }
                x.merge(&add[..]).map_err(|e| format!("merge after take_unknown_fields: {e}; {}", rep()))?;
                rest.unknown.extend(more);
                rest.sort_unknown();
                ctxerr!(want_eq("merge after take_unknown_fields", &rest, &x, EXACT), "round {round} added {} {}", hex(&add), rep())?;
                let again = DynamicMessage::decode(d.clone(), &x.encode_to_vec()[..]).map_err(|e| format!("{e}; {}", rep()))?;
                ctxerr!(want_eq("re-encoded after take and merge", &rest, &again, EXACT), "{}", rep())?;
                ctx.count("merged_after_take", 1);
                if round == 0 && ctx.r.bool() {
                    x.take_unknown_fields().for_each(drop);
                    rest.unknown.clear();
                }
            }
        }
        let mut f = feat(&s, &m);
        f.extend(removed.to_le_bytes());
        ctx.feature(&f);
        ctx.sample(|| format!("{ty}: {} removed fields, {} unknown top-level records, {}", removed, nunk, hex(&bytes)));
    }
    Ok(())
}

fn b_wire(b: &[u8]) -> u8 {
    b[0] & 7
}

pub static C04: Prop = Prop {
    id: "C04",
    quick: 8000,
    thorough: 250_000,
    rule: "valid encodings damaged by truncation at every offset, byte edits, tag edits, length edits, UTF-8 damage, splices, plus random bytes; distinct by (outcome, damage kind, reference error, prefix of bytes)",
    case: c04,
    directed: Some(c04_directed),
    extra: None,
    need: &["rejected_ok", "accepted_ok", "truncations"],
    level: "exploration",
};

/// Everything that must not panic on a successfully decoded message.
pub fn exercise(x: &DynamicMessage) -> Result<(), String> {
    let b = x.encode_to_vec();
    if b.len() != x.encoded_len() {
        return Err("encoded_len differs from the encoding of an accepted message".into());
    }
    let c = x.clone();
    let _ = x == &c;
    let _ = format!("{x:?}");
    let _ = format!("{x}");
    let _ = x.to_text_format();
    let _ = x.to_text_format_with_options(&prost_reflect::text_format::FormatOptions::new().pretty(true).skip_unknown_fields(false).expand_any(true));
    let _ = serde_json::to_string(x);
    let mut out = vec![];
    let mut ser = serde_json::Serializer::new(&mut out);
    let _ = x.serialize_with_options(
        &mut ser,
        &prost_reflect::SerializeOptions::new().skip_default_fields(false).use_enum_numbers(true),
    );
    Ok(())
}

fn judge(ctx: &mut Ctx, s: &RSchema, d: &prost_reflect::MessageDescriptor, b: &[u8], kind: &str) -> CaseResult {
    let ty = d.full_name();
    let want = wire::decode(s, ty, b);
    let rep = || format!("type {ty} damage {kind} bytes {}\n{}", hex(b), show_files(&s.files));
    let got = DynamicMessage::decode(d.clone(), b);
    match (&want, &got) {
        (Err(wire::WErr::Bad(e)), Ok(_)) => return Err(format!("malformed bytes accepted ({e}); {}", rep())),
        (Err(wire::WErr::Bad(_)), Err(_)) => ctx.count("rejected_ok", 1),
        (Ok(m), Ok(g)) => {
            let mut m = m.clone();
            m.sort_unknown();
            ctxerr!(want_eq("decode", &m, g, EXACT), "{}", rep())?;
            ctx.count("accepted_ok", 1);
        }
        (Ok(_), Err(e)) => return Err(format!("valid bytes rejected: {e}; {}", rep())),
        _ => ctx.count("no_verdict_mismatch", 1),
    }
    if let Ok(x) = &got {
        ctxerr!(exercise(x), "{}", rep())?;
    }
    // a failed merge must not panic or make the message unusable
    let mut p = DynamicMessage::new(d.clone());
    let piecewise = p.merge(Frag::new(&mut ctx.r, b)).is_ok();
    if piecewise != got.is_ok() {
        return Err(format!("whole: {}, in pieces: {piecewise}; {}", got.is_ok(), rep()));
    }
    ctxerr!(exercise(&p), "after merge; {}", rep())?;
    if ctx.r.pct(10) {
        let mut ld = vec![];
        let lie = match ctx.r.below(3) {
            0 => b.len() as u64,
            1 => b.len() as u64 + 1 + ctx.r.below(5) as u64,
            _ => u64::MAX >> ctx.r.below(64),
        };
        wire::put_varint(&mut ld, lie);
        ld.extend(b);
        let mut p = DynamicMessage::new(d.clone());
        let ok = p.merge_length_delimited(&ld[..]).is_ok();
        if ok && lie > b.len() as u64 {
            return Err(format!("length prefix {lie} beyond the buffer accepted; {}", rep()));
        }
    }
    let key = format!("{kind}/{:?}/{}/{:?}", want.as_ref().err(), got.is_ok(), &b[..b.len().min(6)]);
    ctx.feature(key.as_bytes());
    Ok(())
}

fn c04(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let wkt = ctx.r.pct(40);
    let cfg = cfg_for(&mut ctx.r, wkt);
    let s = gen_schema(&mut ctx.r, cfg);
    let pool = mkpool(&s);
    for _ in 0..3 {
        let ty = if wkt && ctx.r.pct(30) {
            let w: Vec<String> = s.plain_msgs().into_iter().filter(|m| is_json_wkt(m)).collect();
            ctx.r.pick(&w).clone()
        } else {
            pick_type(ctx, &s)
        };
        let d = desc(&pool, &ty);
        let wkt_valid = ctx.r.bool();
        let m = gen_msg(&mut ctx.r, &s, &ty, ValCfg { unknown: true, wkt_valid, ..Default::default() });
        let bytes = if ctx.r.bool() { wire::encode(&s, &m) } else { wire::Noise::new(&mut ctx.r, &s).records(&m).concat() };
        ctx.sample(|| format!("{ty}: damaging {}", hex(&bytes)));
        if bytes.len() <= 48 || ctx.r.pct(4) {
            for k in 0..bytes.len().min(400) {
                judge(ctx, &s, &d, &bytes[..k], "truncate")?;
                ctx.count("truncations", 1);
            }
        } else {
            for _ in 0..8 {
                let k = ctx.r.below(bytes.len());
                judge(ctx, &s, &d, &bytes[..k], "truncate")?;
                ctx.count("truncations", 1);
            }
        }
        for _ in 0..14 {
            let mut b = bytes.clone();
            let edits = 1 + ctx.r.below(3);
            let mut kind = "edit";
            for _ in 0..edits {
                let n = b.len().max(1);
                match ctx.r.below(9) {
                    0 if !b.is_empty() => {
                        let i = ctx.r.below(n);
                        b[i] ^= 1 << ctx.r.below(8);
                        kind = "bitflip";
                    }
                    1 if !b.is_empty() => {
                        let i = ctx.r.below(n);
                        b[i] = *ctx.r.pick(&[0, 0xff, 0x7f, 0x80, 1, 3, 4, 0xc0]);
                        kind = "byte";
                    }
                    2 => {
                        let i = ctx.r.below(b.len() + 1);
                        let k = 1 + ctx.r.below(3);
                        for x in ctx.r.bytes(k) {
                            b.insert(i, x);
                        }
                        kind = "insert";
                    }
                    3 if !b.is_empty() => {
                        let i = ctx.r.below(n);
                        let j = (i + 1 + ctx.r.below(4)).min(b.len());
                        b.drain(i..j);
                        kind = "delete";
                    }
                    4 => {
                        // a stray record at the end: end group, bad wire types, number zero
                        let f = s.msg(&ty).fields.keys().copied().collect::<Vec<_>>();
                        let num = if !f.is_empty() && ctx.r.bool() { *ctx.r.pick(&f) } else { ctx.r.below(20) as u32 };
                        let w = ctx.r.below(8) as u8;
                        wire::put_tag(&mut b, num, w);
                        if ctx.r.bool() {
                            let k = ctx.r.below(10);
                            b.extend(ctx.r.bytes(k));
                        }
                        kind = "stray";
                    }
                    5 => {
                        // an eleven byte varint or a huge length
                        let f = s.msg(&ty).fields.keys().copied().collect::<Vec<_>>();
                        let num = if !f.is_empty() { *ctx.r.pick(&f) } else { 1 };
                        if ctx.r.bool() {
                            wire::put_tag(&mut b, num, 0);
                            let k = 9 + ctx.r.below(4);
                            b.extend(std::iter::repeat_n(0x80 | ctx.r.below(128) as u8, k));
                            b.push(1);
                            kind = "longvarint";
                        } else {
                            wire::put_tag(&mut b, num, 2);
                            wire::put_varint(&mut b, u64::MAX >> ctx.r.below(64));
                            let k = ctx.r.below(6);
                            b.extend(ctx.r.bytes(k));
                            kind = "hugelen";
                        }
                    }
                    6 => {
                        // invalid UTF-8 in a string field or map key
                        let d = s.msg(&ty);
                        let f: Vec<&RField> = d.fields.values().filter(|f| f.kind == RKind::Str).collect();
                        let maps: Vec<&RField> = d
                            .fields
                            .values()
                            .filter(|f| f.is_map && (s.map_kv(f).0.kind == RKind::Str || s.map_kv(f).1.kind == RKind::Str))
                            .collect();
                        let bad: &[u8] = *ctx.r.pick(&[&[0xff][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[b'a', 0xe2, 0x82]]);
                        let mut rec = vec![];
                        if !f.is_empty() && (maps.is_empty() || ctx.r.bool()) {
                            wire::put_tag(&mut rec, ctx.r.pick(&f).number, 2);
                            wire::put_varint(&mut rec, bad.len() as u64);
                            rec.extend(bad);
                        } else if !maps.is_empty() {
                            let mf = ctx.r.pick(&maps);
                            let num = if s.map_kv(mf).0.kind == RKind::Str { 1 } else { 2 };
                            let mut e = vec![];
                            wire::put_tag(&mut e, num, 2);
                            wire::put_varint(&mut e, bad.len() as u64);
                            e.extend(bad);
                            wire::put_tag(&mut rec, mf.number, 2);
                            wire::put_varint(&mut rec, e.len() as u64);
                            rec.extend(e);
                        }
                        b.extend(rec);
                        kind = "utf8";
                    }
                    7 => {
                        // unbalanced groups
                        let num = 1 + ctx.r.below(3000) as u32;
                        wire::put_tag(&mut b, num, 3);
                        if ctx.r.bool() {
                            wire::put_tag(&mut b, num + ctx.r.below(2) as u32, 4);
                        }
                        kind = "group";
                    }
                    _ => {
                        let k = ctx.r.below(24);
                        b = ctx.r.bytes(k);
                        kind = "random";
                    }
                }
            }
            judge(ctx, &s, &d, &b, kind)?;
        }
    }
    Ok(())
}

/// The messages of the well-known types and every one-byte and two-byte input.
fn c04_directed(ctx: &mut Ctx) -> CaseResult {
    let s = RSchema::new(wkt_files());
    let pool = mkpool(&s);
    for ty in ["google.protobuf.Value", "google.protobuf.Struct", "google.protobuf.FieldDescriptorProto", "google.protobuf.Any"] {
        let d = desc(&pool, ty);
        for a in 0..=255u8 {
            judge(ctx, &s, &d, &[a], "exhaustive1")?;
            for b in 0..=255u8 {
                judge(ctx, &s, &d, &[a, b], "exhaustive2")?;
            }
        }
    }
    Ok(())
}
