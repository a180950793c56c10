//! Conversion between the reference model and the library's dynamic messages, through the public API only.
use crate::rmsg::*;
use crate::schema::*;
use crate::wire;
use prost::Message;
use prost_reflect::{Cardinality, DescriptorPool, DynamicMessage, Kind, MapKey, MessageDescriptor, ReflectMessage, Value};
use std::collections::{BTreeMap, HashMap};

pub fn mkpool(s: &RSchema) -> DescriptorPool {
    let mut p = DescriptorPool::new();
    p.add_file_descriptor_protos(s.files.iter().cloned())
        .unwrap_or_else(|e| panic!("valid generated schema was rejected: {e} {e:?}"));
    p
}

pub fn desc(p: &DescriptorPool, ty: &str) -> MessageDescriptor {
    p.get_message_by_name(ty).unwrap_or_else(|| panic!("message {ty} not found in the pool"))
}

pub fn key_to(k: &RKey) -> MapKey {
    match k {
        RKey::Bool(v) => MapKey::Bool(*v),
        RKey::I32(v) => MapKey::I32(*v),
        RKey::I64(v) => MapKey::I64(*v),
        RKey::U32(v) => MapKey::U32(*v),
        RKey::U64(v) => MapKey::U64(*v),
        RKey::Str(v) => MapKey::String(v.clone()),
    }
}

pub fn key_from(k: &MapKey) -> RKey {
    match k {
        MapKey::Bool(v) => RKey::Bool(*v),
        MapKey::I32(v) => RKey::I32(*v),
        MapKey::I64(v) => RKey::I64(*v),
        MapKey::U32(v) => RKey::U32(*v),
        MapKey::U64(v) => RKey::U64(*v),
        MapKey::String(v) => RKey::Str(v.clone()),
    }
}

pub fn val_to(s: &RSchema, p: &DescriptorPool, v: &RVal) -> Value {
    match v {
        RVal::Bool(x) => Value::Bool(*x),
        RVal::I32(x) => Value::I32(*x),
        RVal::I64(x) => Value::I64(*x),
        RVal::U32(x) => Value::U32(*x),
        RVal::U64(x) => Value::U64(*x),
        RVal::F32(x) => Value::F32(f32::from_bits(*x)),
        RVal::F64(x) => Value::F64(f64::from_bits(*x)),
        RVal::Str(x) => Value::String(x.clone()),
        RVal::Bytes(x) => Value::Bytes(x.clone().into()),
        RVal::Enum(x) => Value::EnumNumber(*x),
        RVal::Msg(m) => Value::Message(to_dyn(s, p, m)),
        RVal::List(l) => Value::List(l.iter().map(|v| val_to(s, p, v)).collect()),
        RVal::Map(m) => Value::Map(m.iter().map(|(k, v)| (key_to(k), val_to(s, p, v))).collect::<HashMap<_, _>>()),
    }
}

/// Build by setting fields; unknown fields (which have no setter) are merged in from their encoding.
pub fn to_dyn(s: &RSchema, p: &DescriptorPool, m: &RMsg) -> DynamicMessage {
    let d = desc(p, &m.ty);
    let mut out = DynamicMessage::new(d.clone());
    for (n, v) in &m.fields {
        let val = val_to(s, p, v);
        if let Some(f) = d.get_field(*n) {
            out.set_field(&f, val);
        } else if let Some(e) = d.get_extension(*n) {
            out.set_extension(&e, val);
        } else {
            panic!("field {n} of {} not found in descriptor", m.ty);
        }
    }
    if !m.unknown.is_empty() {
        let mut b = vec![];
        for (n, u) in &m.unknown {
            wire::put_unk(&mut b, *n, u);
        }
        out.merge(&b[..]).unwrap();
    }
    out
}

pub fn val_from(v: &Value) -> Result<RVal, String> {
    Ok(match v {
        Value::Bool(x) => RVal::Bool(*x),
        Value::I32(x) => RVal::I32(*x),
        Value::I64(x) => RVal::I64(*x),
        Value::U32(x) => RVal::U32(*x),
        Value::U64(x) => RVal::U64(*x),
        Value::F32(x) => RVal::F32(x.to_bits()),
        Value::F64(x) => RVal::F64(x.to_bits()),
        Value::String(x) => RVal::Str(x.clone()),
        Value::Bytes(x) => RVal::Bytes(x.to_vec()),
        Value::EnumNumber(x) => RVal::Enum(*x),
        Value::Message(m) => RVal::Msg(from_dyn(m)?),
        Value::List(l) => RVal::List(l.iter().map(val_from).collect::<Result<_, _>>()?),
        Value::Map(m) => {
            let mut out = BTreeMap::new();
            for (k, v) in m {
                out.insert(key_from(k), val_from(v)?);
            }
            RVal::Map(out)
        }
    })
}

fn zero_by_kind(k: &Kind, v: &Value) -> bool {
    match v {
        Value::Bool(b) => !b,
        Value::I32(x) => *x == 0,
        Value::I64(x) => *x == 0,
        Value::U32(x) => *x == 0,
        Value::U64(x) => *x == 0,
        Value::F32(x) => x.to_bits() == 0,
        Value::F64(x) => x.to_bits() == 0,
        Value::String(x) => x.is_empty(),
        Value::Bytes(x) => x.is_empty(),
        Value::EnumNumber(x) => match k {
            Kind::Enum(e) => e.enum_descriptor_proto().value[0].number() == *x,
            _ => false,
        },
        Value::Message(_) => false,
        Value::List(l) => l.is_empty(),
        Value::Map(m) => m.is_empty(),
    }
}

/// Read everything observable out of a dynamic message, cross-checking the access paths.
pub fn from_dyn(m: &DynamicMessage) -> Result<RMsg, String> {
    let d = m.descriptor();
    let mut out = RMsg::new(d.full_name());
    let mut present = 0;
    for f in d.fields() {
        let has = m.has_field(&f);
        if has != m.has_field_by_number(f.number()) || has != m.has_field_by_name(f.name()) {
            return Err(format!("has_field paths disagree for {}", f.full_name()));
        }
        let v = m.get_field(&f);
        if has {
            present += 1;
            let implicit = f.cardinality() == Cardinality::Repeated || !f.supports_presence();
            if implicit && zero_by_kind(&f.kind(), &v) {
                return Err(format!("{} reported present while empty/default", f.full_name()));
            }
            out.fields.insert(f.number(), val_from(&v)?);
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    for (f, v) in m.fields() {
        if !seen.insert(f.number()) {
            return Err(format!("fields() yields {} twice", f.full_name()));
        }
        if !m.has_field(&f) {
            return Err(format!("fields() yields absent {}", f.full_name()));
        }
        let v = val_from(v)?;
        if out.fields.get(&f.number()).map(|x| format!("{x:?}")) != Some(format!("{v:?}")) {
            return Err(format!("fields() and get_field disagree for {}", f.full_name()));
        }
    }
    if seen.len() != present {
        return Err(format!("fields() yields {} of {present} present fields", seen.len()));
    }
    let mut eseen = 0;
    for e in d.extensions() {
        if m.has_extension(&e) {
            eseen += 1;
            out.fields.insert(e.number(), val_from(&m.get_extension(&e))?);
        }
    }
    let mut enums = std::collections::BTreeSet::new();
    for (e, v) in m.extensions() {
        if !enums.insert(e.number()) {
            return Err(format!("extensions() yields {} twice", e.full_name()));
        }
        let v = val_from(v)?;
        if out.fields.get(&e.number()).map(|x| format!("{x:?}")) != Some(format!("{v:?}")) {
            return Err(format!("extensions() and get_extension disagree for {}", e.full_name()));
        }
    }
    if enums.len() != eseen {
        return Err(format!("extensions() yields {} of {eseen} present extensions", enums.len()));
    }
    let mut ub = vec![];
    let mut nums = vec![];
    for u in m.unknown_fields() {
        nums.push(u.number());
        u.encode(&mut ub);
        if d.get_field(u.number()).is_some() || d.get_extension(u.number()).is_some() {
            return Err(format!("known field {} kept as unknown", u.number()));
        }
    }
    out.unknown = wire::decode_unknown(&ub).map_err(|e| format!("unknown field re-encoding invalid: {e:?}"))?;
    if out.unknown.iter().map(|u| u.0).collect::<Vec<_>>() != nums {
        return Err("unknown field numbers differ from their encoding".into());
    }
    out.unknown.sort_by_key(|u| u.0);
    Ok(out)
}

/// First difference between two models, or None. `nan_loose`: NaN payloads are equal; `no_unknown`: ignore unknown fields.
#[derive(Clone, Copy, Default)]
pub struct Cmp {
    pub nan_loose: bool,
    pub no_unknown: bool,
    pub zero_loose: bool,
}

pub const EXACT: Cmp = Cmp { nan_loose: false, no_unknown: false, zero_loose: false };
pub const LOOSE: Cmp = Cmp { nan_loose: true, no_unknown: true, zero_loose: false };

pub fn diff(a: &RMsg, b: &RMsg, c: Cmp) -> Option<String> {
    if a.ty != b.ty {
        return Some(format!("type {} vs {}", a.ty, b.ty));
    }
    for (n, v) in &a.fields {
        match b.fields.get(n) {
            None => return Some(format!("{}.{n}: {:?} vs absent", a.ty, v)),
            Some(w) => {
                if let Some(d) = vdiff(v, w, c) {
                    return Some(format!("{}.{n}: {d}", a.ty));
                }
            }
        }
    }
    for (n, v) in &b.fields {
        if !a.fields.contains_key(n) {
            return Some(format!("{}.{n}: absent vs {:?}", a.ty, v));
        }
    }
    if !c.no_unknown {
        let mut x = a.unknown.clone();
        let mut y = b.unknown.clone();
        x.sort_by_key(|u| u.0);
        y.sort_by_key(|u| u.0);
        if x != y {
            return Some(format!("{}: unknown {:?} vs {:?}", a.ty, x, y));
        }
    }
    None
}

pub fn vdiff(a: &RVal, b: &RVal, c: Cmp) -> Option<String> {
    match (a, b) {
        (RVal::Msg(x), RVal::Msg(y)) => diff(x, y, c),
        (RVal::List(x), RVal::List(y)) => {
            if x.len() != y.len() {
                return Some(format!("list of {} vs {}: {x:?} vs {y:?}", x.len(), y.len()));
            }
            x.iter().zip(y).enumerate().find_map(|(i, (p, q))| vdiff(p, q, c).map(|d| format!("[{i}] {d}")))
        }
        (RVal::Map(x), RVal::Map(y)) => {
            if x.keys().ne(y.keys()) {
                return Some(format!("map keys {:?} vs {:?}", x.keys(), y.keys()));
            }
            x.iter().find_map(|(k, p)| vdiff(p, &y[k], c).map(|d| format!("[{k:?}] {d}")))
        }
        (RVal::F32(x), RVal::F32(y)) => {
            let (p, q) = (f32::from_bits(*x), f32::from_bits(*y));
            if x == y || (c.nan_loose && p.is_nan() && q.is_nan()) || (c.zero_loose && p == q) {
                None
            } else {
                Some(format!("{p:?} vs {q:?}"))
            }
        }
        (RVal::F64(x), RVal::F64(y)) => {
            let (p, q) = (f64::from_bits(*x), f64::from_bits(*y));
            if x == y || (c.nan_loose && p.is_nan() && q.is_nan()) || (c.zero_loose && p == q) {
                None
            } else {
                Some(format!("{p:?} vs {q:?}"))
            }
        }
        (x, y) => (x != y).then(|| format!("{x:?} vs {y:?}")),
    }
}
