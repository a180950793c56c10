//! Reference ProtoJSON: a strict JSON parser, the canonical mapping, permitted spellings and corruptions.
use crate::rmsg::*;
use crate::rng::Rng;
use crate::schema::*;
use crate::wire;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
    /// text copied as is (only in corrupted documents)
    Raw(String),
}

// ------------------------------------------------------------------ parser (RFC 8259, strict)

pub fn parse(t: &str) -> Result<J, String> {
    let mut p = P { b: t.as_bytes(), i: 0 };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("trailing data at {}", p.i));
    }
    Ok(v)
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        self.b.get(self.i).copied().unwrap_or(0)
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{m} at {}", self.i))
    }
    fn lit(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn digits(&mut self) -> Result<(), String> {
        let s = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        if s == self.i {
            return self.err("digit expected");
        }
        Ok(())
    }
    fn value(&mut self, depth: usize) -> Result<J, String> {
        match self.peek() {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return self.err("',' or ']' expected"),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v: Vec<(String, J)> = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.peek() != b'"' {
                        return self.err("key expected");
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return self.err("':' expected");
                    }
                    self.i += 1;
                    self.ws();
                    let x = self.value(depth + 1)?;
                    if v.iter().any(|e| e.0 == k) {
                        return Err(format!("duplicate key {k:?}"));
                    }
                    v.push((k, x));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return self.err("',' or '}' expected"),
                    }
                }
            }
            b'-' | b'0'..=b'9' => {
                let s = self.i;
                if self.peek() == b'-' {
                    self.i += 1;
                }
                if self.peek() == b'0' {
                    self.i += 1;
                } else {
                    self.digits()?;
                }
                if self.peek() == b'.' {
                    self.i += 1;
                    self.digits()?;
                }
                if matches!(self.peek(), b'e' | b'E') {
                    self.i += 1;
                    if matches!(self.peek(), b'+' | b'-') {
                        self.i += 1;
                    }
                    self.digits()?;
                }
                Ok(J::Num(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
            }
            _ => self.err("value expected"),
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        if self.i + 4 > self.b.len() {
            return self.err("short \\u");
        }
        let t = std::str::from_utf8(&self.b[self.i..self.i + 4]).map_err(|e| e.to_string())?;
        if !t.bytes().all(|c| c.is_ascii_hexdigit()) {
            return self.err("bad \\u");
        }
        self.i += 4;
        Ok(u32::from_str_radix(t, 16).unwrap())
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out = vec![];
        loop {
            if self.i >= self.b.len() {
                return self.err("unterminated string");
            }
            let c = self.b[self.i];
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
                b'\\' => {
                    let e = self.peek();
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex4()?;
                            let cp = if (0xd800..0xdc00).contains(&a) {
                                if self.peek() != b'\\' {
                                    return self.err("lone surrogate");
                                }
                                self.i += 1;
                                if self.peek() != b'u' {
                                    return self.err("lone surrogate");
                                }
                                self.i += 1;
                                let b = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return self.err("lone surrogate");
                                }
                                0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)
                            } else {
                                a
                            };
                            match char::from_u32(cp) {
                                Some(c) => c,
                                None => return self.err("lone surrogate"),
                            }
                        }
                        _ => return self.err("bad escape"),
                    };
                    let mut buf = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                }
                0..=0x1f => return self.err("control character in string"),
                c => out.push(c),
            }
        }
    }
}

// ------------------------------------------------------------------ printer with random layout

pub fn emit(j: &J, r: &mut Rng, plain: bool) -> String {
    let mut o = String::new();
    ws(&mut o, r, plain);
    emit_to(j, &mut o, r, plain);
    ws(&mut o, r, plain);
    o
}

fn ws(o: &mut String, r: &mut Rng, plain: bool) {
    if !plain && r.pct(15) {
        for _ in 0..r.below(3) {
            o.push(*r.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}

fn emit_str(s: &str, o: &mut String, r: &mut Rng, plain: bool) {
    o.push('"');
    for c in s.chars() {
        let style = if plain { 0 } else { r.below(12) };
        match c {
            '"' if style != 1 => o.push_str("\\\""),
            '\\' if style != 1 => o.push_str("\\\\"),
            '\n' if style > 1 => o.push_str("\\n"),
            '\r' if style > 1 => o.push_str("\\r"),
            '\t' if style > 1 => o.push_str("\\t"),
            '\u{8}' if style > 1 => o.push_str("\\b"),
            '\u{c}' if style > 1 => o.push_str("\\f"),
            '/' if style == 2 => o.push_str("\\/"),
            c if (c as u32) < 0x20 || style == 1 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if r.bool() {
                        o.push_str(&format!("\\u{u:04x}"));
                    } else {
                        o.push_str(&format!("\\u{u:04X}"));
                    }
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn emit_to(j: &J, o: &mut String, r: &mut Rng, plain: bool) {
    match j {
        J::Null => o.push_str("null"),
        J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        J::Num(n) | J::Raw(n) => o.push_str(n),
        J::Str(s) => emit_str(s, o, r, plain),
        J::Arr(v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(o, r, plain);
                emit_to(x, o, r, plain);
                ws(o, r, plain);
            }
            o.push(']');
        }
        J::Obj(v) => {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(o, r, plain);
                emit_str(k, o, r, plain);
                ws(o, r, plain);
                o.push(':');
                ws(o, r, plain);
                emit_to(x, o, r, plain);
                ws(o, r, plain);
            }
            o.push('}');
        }
    }
}

// ------------------------------------------------------------------ canonical form

#[derive(Clone, Debug)]
pub enum E {
    Null,
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    Str(String),
    /// any of these strings (aliased enum values)
    Names(Vec<String>),
    Arr(Vec<E>),
    Obj(BTreeMap<String, E>),
}

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub string64: bool,
    pub enum_num: bool,
    pub proto_name: bool,
    pub skip_default: bool,
}

pub fn all_opts() -> Vec<Opts> {
    (0..16)
        .map(|i| Opts { string64: i & 1 == 0, enum_num: i & 2 != 0, proto_name: i & 4 != 0, skip_default: i & 8 == 0 })
        .collect()
}

pub fn base64(b: &[u8], url: bool, pad: bool) -> String {
    let t: &[u8; 64] = if url {
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
    } else {
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    };
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(t[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else if pad {
                o.push('=');
            }
        }
    }
    o
}

/// days since 1970-01-01 to civil date
pub fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (if m <= 2 { y + 1 } else { y }, m, d)
}

pub fn datetime(secs: i64) -> String {
    let (y, m, d) = civil(secs.div_euclid(86400));
    let t = secs.rem_euclid(86400);
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}", t / 3600, t / 60 % 60, t % 60)
}

fn frac(n: u32) -> String {
    if n == 0 {
        String::new()
    } else if n % 1_000_000 == 0 {
        format!(".{:03}", n / 1_000_000)
    } else if n % 1000 == 0 {
        format!(".{:06}", n / 1000)
    } else {
        format!(".{n:09}")
    }
}

pub fn i64f(m: &RMsg, n: u32) -> i64 {
    match m.fields.get(&n) {
        Some(RVal::I64(x)) => *x,
        Some(RVal::I32(x)) => *x as i64,
        _ => 0,
    }
}

pub fn strf(m: &RMsg, n: u32) -> &str {
    match m.fields.get(&n) {
        Some(RVal::Str(s)) => s,
        _ => "",
    }
}

fn paths(m: &RMsg) -> Vec<String> {
    match m.fields.get(&1) {
        Some(RVal::List(l)) => l.iter().map(|v| if let RVal::Str(s) = v { s.clone() } else { String::new() }).collect(),
        _ => vec![],
    }
}

fn camel(p: &str) -> String {
    let mut o = String::new();
    let mut up = false;
    for c in p.chars() {
        if c == '_' {
            up = true;
        } else if up {
            o.push(c.to_ascii_uppercase());
            up = false;
        } else {
            o.push(c);
        }
    }
    o
}

/// The payload of an Any, or why it has none.
pub fn any_payload(s: &RSchema, m: &RMsg) -> Result<(String, RMsg), String> {
    let url = strf(m, 1).to_string();
    let name = match url.rfind('/') {
        Some(i) => &url[i + 1..],
        None => return Err("no slash".into()),
    };
    if !s.msgs.contains_key(name) {
        return Err("unresolvable".into());
    }
    let empty = vec![];
    let b = match m.fields.get(&2) {
        Some(RVal::Bytes(b)) => b,
        _ => &empty,
    };
    let v = wire::decode(s, name, b).map_err(|e| format!("{e:?}"))?;
    Ok((url, v))
}

fn f64e(b: u64) -> E {
    let f = f64::from_bits(b);
    if f.is_nan() {
        E::Str("NaN".into())
    } else if f == f64::INFINITY {
        E::Str("Infinity".into())
    } else if f == f64::NEG_INFINITY {
        E::Str("-Infinity".into())
    } else {
        E::F64(b)
    }
}

fn f32e(b: u32) -> E {
    let f = f32::from_bits(b);
    if f.is_finite() {
        E::F32(b)
    } else {
        f64e((f as f64).to_bits())
    }
}

pub fn key_str(k: &RKey) -> String {
    match k {
        RKey::Bool(b) => b.to_string(),
        RKey::I32(b) => b.to_string(),
        RKey::I64(b) => b.to_string(),
        RKey::U32(b) => b.to_string(),
        RKey::U64(b) => b.to_string(),
        RKey::Str(b) => b.clone(),
    }
}

pub fn canon_elem(s: &RSchema, k: &RKind, v: &RVal, o: Opts) -> Result<E, String> {
    Ok(match v {
        RVal::Bool(b) => E::Bool(*b),
        RVal::I32(x) => E::Int(*x as i128),
        RVal::U32(x) => E::Int(*x as i128),
        RVal::I64(x) if o.string64 => E::Str(x.to_string()),
        RVal::U64(x) if o.string64 => E::Str(x.to_string()),
        RVal::I64(x) => E::Int(*x as i128),
        RVal::U64(x) => E::Int(*x as i128),
        RVal::F32(x) => f32e(*x),
        RVal::F64(x) => f64e(*x),
        RVal::Str(x) => E::Str(x.clone()),
        RVal::Bytes(x) => E::Str(base64(x, false, true)),
        RVal::Enum(n) => {
            let RKind::Enum(en) = k else { return Err("HARNESS: kind".into()) };
            if en == "google.protobuf.NullValue" {
                E::Null
            } else if o.enum_num {
                E::Int(*n as i128)
            } else {
                let names: Vec<String> = s.enums[en].values.iter().filter(|v| v.1 == *n).map(|v| v.0.clone()).collect();
                if names.is_empty() {
                    E::Int(*n as i128)
                } else {
                    E::Names(names)
                }
            }
        }
        RVal::Msg(m) => canon(s, m, o)?,
        RVal::List(_) | RVal::Map(_) => return Err("HARNESS: nested collection".into()),
    })
}

fn canon_fields(s: &RSchema, m: &RMsg, o: Opts, out: &mut BTreeMap<String, E>) -> Result<(), String> {
    let d = s.msg(&m.ty);
    for f in d.fields.values().chain(s.exts_of(&m.ty)) {
        let dv;
        let v = match m.fields.get(&f.number) {
            Some(v) => v,
            None if !o.skip_default && !f.is_ext && !f.presence => {
                dv = default_of(s, f);
                &dv
            }
            None => continue,
        };
        let e = match v {
            RVal::List(l) => E::Arr(l.iter().map(|x| canon_elem(s, &f.kind, x, o)).collect::<Result<_, _>>()?),
            RVal::Map(l) => {
                let (_, vf) = s.map_kv(f);
                let mut t = BTreeMap::new();
                for (k, v) in l {
                    t.insert(key_str(k), canon_elem(s, &vf.kind, v, o)?);
                }
                E::Obj(t)
            }
            v => canon_elem(s, &f.kind, v, o)?,
        };
        let name = if o.proto_name && !f.is_ext { &f.name } else { &f.json_name };
        if out.insert(name.clone(), e).is_some() {
            return Err(format!("HARNESS: duplicate name {name}"));
        }
    }
    Ok(())
}

/// The canonical JSON of a message; Err when it has none.
pub fn canon(s: &RSchema, m: &RMsg, o: Opts) -> Result<E, String> {
    if !is_json_wkt(&m.ty) {
        let mut out = BTreeMap::new();
        canon_fields(s, m, o, &mut out)?;
        return Ok(E::Obj(out));
    }
    Ok(match m.ty.trim_start_matches("google.protobuf.") {
        "Any" => {
            let (url, v) = any_payload(s, m)?;
            let mut out = BTreeMap::new();
            out.insert("@type".to_string(), E::Str(url));
            if is_json_wkt(&v.ty) {
                out.insert("value".into(), canon(s, &v, o)?);
            } else {
                canon_fields(s, &v, o, &mut out)?;
            }
            E::Obj(out)
        }
        "Timestamp" => {
            let (t, n) = (i64f(m, 1), i64f(m, 2));
            if !(-62135596800..=253402300799).contains(&t) || !(0..=999_999_999).contains(&n) {
                return Err("timestamp out of range".into());
            }
            E::Str(format!("{}{}Z", datetime(t), frac(n as u32)))
        }
        "Duration" => {
            let (t, n) = (i64f(m, 1), i64f(m, 2));
            if t.unsigned_abs() > 315_576_000_000 || n.unsigned_abs() > 999_999_999 || (t > 0 && n < 0) || (t < 0 && n > 0) {
                return Err("duration out of range".into());
            }
            let sign = if t < 0 || n < 0 { "-" } else { "" };
            E::Str(format!("{sign}{}{}s", t.unsigned_abs(), frac(n.unsigned_abs() as u32)))
        }
        "FieldMask" => {
            let mut out = vec![];
            for p in paths(m) {
                // must survive the round trip through camel case
                if snake(&camel(&p)) != Some(p.clone()) {
                    return Err("field mask path cannot round-trip".into());
                }
                out.push(camel(&p));
            }
            E::Str(out.join(","))
        }
        "Empty" => E::Obj(BTreeMap::new()),
        "Struct" => {
            let mut out = BTreeMap::new();
            if let Some(RVal::Map(l)) = m.fields.get(&1) {
                for (k, v) in l {
                    out.insert(key_str(k), canon_elem(s, &RKind::Msg(String::new()), v, o)?);
                }
            }
            E::Obj(out)
        }
        "ListValue" => match m.fields.get(&1) {
            Some(RVal::List(l)) => E::Arr(
                l.iter().map(|v| canon_elem(s, &RKind::Msg(String::new()), v, o)).collect::<Result<_, _>>()?,
            ),
            _ => E::Arr(vec![]),
        },
        "Value" => match m.fields.iter().next() {
            None => E::Null,
            Some((1, _)) => E::Null,
            Some((2, RVal::F64(b))) => {
                if !f64::from_bits(*b).is_finite() {
                    return Err("non-finite number in Value".into());
                }
                E::F64(*b)
            }
            Some((_, v)) => canon_elem(s, &RKind::Bool, v, o)?,
        },
        _ => {
            // wrappers
            let f = &s.msg(&m.ty).fields[&1];
            let z = zero_of(s, &f.kind);
            canon_elem(s, &f.kind, m.fields.get(&1).unwrap_or(&z), o)?
        }
    })
}

fn snake(p: &str) -> Option<String> {
    let mut o = String::new();
    for c in p.chars() {
        if c == '_' {
            return None;
        }
        if c.is_ascii_uppercase() {
            o.push('_');
            o.push(c.to_ascii_lowercase());
        } else {
            o.push(c);
        }
    }
    Some(o)
}

pub fn ecmp(e: &E, j: &J) -> Option<String> {
    let bad = || Some(format!("expected {e:?}, printed {j:?}"));
    match (e, j) {
        (E::Null, J::Null) => None,
        (E::Bool(a), J::Bool(b)) if a == b => None,
        (E::Int(a), J::Num(n)) if n.parse::<i128>().ok() == Some(*a) && *n == a.to_string() => None,
        (E::F32(a), J::Num(n)) if n.parse::<f32>().is_ok_and(|x| x.to_bits() == *a) => None,
        (E::F64(a), J::Num(n)) if n.parse::<f64>().is_ok_and(|x| x.to_bits() == *a) => None,
        (E::Str(a), J::Str(b)) if a == b => None,
        (E::Names(a), J::Str(b)) if a.contains(b) => None,
        (E::Arr(a), J::Arr(b)) if a.len() == b.len() => {
            a.iter().zip(b).enumerate().find_map(|(i, (x, y))| ecmp(x, y).map(|d| format!("[{i}] {d}")))
        }
        (E::Obj(a), J::Obj(b)) => {
            for (k, y) in b {
                match a.get(k) {
                    None => return Some(format!("unexpected member {k:?}: {y:?}")),
                    Some(x) => {
                        if let Some(d) = ecmp(x, y) {
                            return Some(format!(".{k} {d}"));
                        }
                    }
                }
            }
            for (k, x) in a {
                if !b.iter().any(|e| e.0 == *k) {
                    return Some(format!("member {k:?} missing, expected {x:?}"));
                }
            }
            None
        }
        _ => bad(),
    }
}

/// Canonicalise what JSON cannot carry: NaN payloads, unknown fields, byte-level form of Any payloads.
pub fn norm(s: &RSchema, m: &mut RMsg) {
    m.unknown.clear();
    for v in m.fields.values_mut() {
        norm_val(s, v);
    }
    if m.ty == "google.protobuf.Any" {
        if let Ok((_, mut p)) = any_payload(s, m) {
            norm(s, &mut p);
            let b = wire::encode(s, &p);
            if b.is_empty() {
                m.fields.remove(&2);
            } else {
                m.fields.insert(2, RVal::Bytes(b));
            }
        }
    }
}

pub fn norm_val(s: &RSchema, v: &mut RVal) {
    match v {
        RVal::F32(b) if f32::from_bits(*b).is_nan() => *b = f32::NAN.to_bits(),
        RVal::F64(b) if f64::from_bits(*b).is_nan() => *b = f64::NAN.to_bits(),
        RVal::Msg(m) => norm(s, m),
        RVal::List(l) => l.iter_mut().for_each(|v| norm_val(s, v)),
        RVal::Map(l) => l.values_mut().for_each(|v| norm_val(s, v)),
        _ => {}
    }
}

// ------------------------------------------------------------------ spellings

pub struct Spell<'a> {
    pub r: &'a mut Rng,
    pub s: &'a RSchema,
    /// add unknown members and unknown enum names that must be ignored
    pub inject: bool,
    /// corrupt the n-th slot
    pub corrupt: Option<usize>,
    pub slot: usize,
    pub what: Option<String>,
    pub used: BTreeMap<String, u64>,
}

pub fn num<T: ToString>(x: T) -> J {
    J::Num(x.to_string())
}

pub fn jstr(x: &str) -> J {
    J::Str(x.to_string())
}

impl<'a> Spell<'a> {
    pub fn new(r: &'a mut Rng, s: &'a RSchema) -> Self {
        Spell { r, s, inject: false, corrupt: None, slot: 0, what: None, used: BTreeMap::new() }
    }

    fn hit(&mut self, k: &str) {
        *self.used.entry(k.to_string()).or_default() += 1;
    }

    /// Is this the slot to corrupt?
    fn here(&mut self) -> bool {
        let h = self.corrupt == Some(self.slot) && self.what.is_none();
        self.slot += 1;
        h
    }

    fn raw(&mut self, kind: &str, xs: &[&str]) -> J {
        let x = self.r.pick(xs).to_string();
        self.what = Some(format!("{kind}:{x}"));
        J::Raw(x)
    }

    pub fn int(&mut self, v: i128) -> J {
        let exact = v.unsigned_abs() < 1 << 53;
        match self.r.below(8) {
            0 | 1 => num(v),
            2 | 3 => {
                self.hit("int_string");
                J::Str(v.to_string())
            }
            4 if exact => {
                self.hit("int_point_zero");
                J::Num(format!("{v}.{}", "0".repeat(1 + self.r.below(3))))
            }
            5 if exact && v != 0 && v % 10 == 0 => {
                self.hit("int_exponent");
                let (mut m, mut e) = (v, 0);
                while m % 10 == 0 {
                    m /= 10;
                    e += 1;
                }
                let p = *self.r.pick(&["", "+", "+0"]);
                J::Num(format!("{m}{}{p}{e}", if self.r.bool() { "e" } else { "E" }))
            }
            6 if v.unsigned_abs() < 1 << 49 => {
                self.hit("int_exponent");
                J::Num(format!("{}e-1", if v == 0 { "0".into() } else { format!("{v}0") }))
            }
            7 if exact && v != 0 => {
                // d.ddd…e+n
                self.hit("int_exponent");
                let t = v.unsigned_abs().to_string();
                let sign = if v < 0 { "-" } else { "" };
                let rest = if t.len() > 1 { format!(".{}", &t[1..]) } else { String::new() };
                J::Num(format!("{sign}{}{rest}e{}", &t[..1], t.len() - 1))
            }
            7 if v == 0 => {
                self.hit("int_negative_zero");
                J::Num("-0".into())
            }
            _ => num(v),
        }
    }

    pub fn float(&mut self, forms: Vec<String>, nonfinite: Option<&str>, int: Option<i64>) -> J {
        if let Some(n) = nonfinite {
            self.hit("float_nonfinite");
            return jstr(n);
        }
        if let Some(i) = int {
            if self.r.pct(30) {
                self.hit("float_as_int");
                return if self.r.bool() { num(i) } else { jstr(&i.to_string()) };
            }
        }
        let t = self.r.pick(&forms).clone();
        if self.r.pct(30) {
            self.hit("float_string");
            J::Str(t)
        } else {
            if t.contains('e') {
                self.hit("float_exponent");
                if self.r.bool() {
                    return J::Num(t.replace('e', "E"));
                }
            }
            J::Num(t)
        }
    }

    pub fn f64(&mut self, b: u64) -> J {
        let f = f64::from_bits(b);
        let nf = if f.is_nan() {
            Some("NaN")
        } else if f.is_infinite() {
            Some(if f > 0.0 { "Infinity" } else { "-Infinity" })
        } else {
            None
        };
        let int = (f.fract() == 0.0 && f.abs() < 9e15 && f.to_bits() != 1 << 63).then_some(f as i64);
        self.float(vec![format!("{f:?}"), format!("{f}"), format!("{f:e}")], nf, int)
    }

    pub fn f32(&mut self, b: u32) -> J {
        let f = f32::from_bits(b);
        let nf = if f.is_nan() {
            Some("NaN")
        } else if f.is_infinite() {
            Some(if f > 0.0 { "Infinity" } else { "-Infinity" })
        } else {
            None
        };
        let int = (f.fract() == 0.0 && f.abs() < 1e18 && f.to_bits() != 1 << 31).then_some(f as i64);
        let d = f as f64;
        self.float(vec![format!("{f:?}"), format!("{d:?}"), format!("{f}"), format!("{d:e}")], nf, int)
    }

    pub fn bytes(&mut self, b: &[u8]) -> J {
        let (url, pad) = (self.r.bool(), self.r.bool());
        self.hit(if url { "base64_url" } else { "base64_std" });
        if !pad {
            self.hit("base64_unpadded");
        }
        J::Str(base64(b, url, pad))
    }

    fn bad_scalar(&mut self, k: &RKind) -> J {
        use RKind::*;
        match k {
            Double => self.raw("double", &["1e309", "-1e309", "true", "\"x\"", "\"\"", "{}", "[]", "[1.0]", "\"1.0 \"", "\"0x1p3\"", "NaN", "\"1,5\""]),
            Float => self.raw("float", &["1e39", "-1e39", "3.5e38", "true", "\"x\"", "\"\"", "{}", "[]", "[1.0]", "\" 1.0\"", "Infinity"]),
            Int32 | Sint32 | Sfixed32 => self.raw(
                "int32",
                &["2147483648", "-2147483649", "\"2147483648\"", "\"-2147483649\"", "1.5", "\"1.5\"", "\"\"", "\" 1\"", "\"1 \"", "\"x\"", "true", "{}", "[]", "[1]", "1e10", "\"0x1\"", "\"NaN\"", "2147483648.0", "0.1", "1e-1", "18446744073709551616", "\"Infinity\"", "9223372036854775808"],
            ),
            Uint32 | Fixed32 => self.raw(
                "uint32",
                &["4294967296", "-1", "\"4294967296\"", "\"-1\"", "1.5", "\"1.5\"", "\"\"", "\" 1\"", "\"x\"", "true", "{}", "[]", "[1]", "1e10", "-1.0", "4294967296.0", "-1e0", "18446744073709551616"],
            ),
            Int64 | Sint64 | Sfixed64 => self.raw(
                "int64",
                &["9223372036854775808", "\"9223372036854775808\"", "\"-9223372036854775809\"", "1.5", "\"1.5\"", "\"\"", "\"1 \"", "\"x\"", "true", "{}", "[]", "[1]", "1e19", "9223372036854775808.0", "-1e19", "18446744073709551615", "18446744073709551616"],
            ),
            Uint64 | Fixed64 => self.raw(
                "uint64",
                &["18446744073709551616", "-1", "\"18446744073709551616\"", "\"-1\"", "1.5", "\"1.5\"", "\"\"", "\"1 \"", "\"x\"", "true", "{}", "[]", "[1]", "1e20", "18446744073709551616.0", "-1.0", "-9223372036854775808"],
            ),
            Bool => self.raw("bool", &["0", "1", "\"true\"", "\"false\"", "\"\"", "{}", "[]", "[true]", "True", "1.0"]),
            Str => self.raw("string", &["1", "true", "{}", "[]", "[\"x\"]", "1.5", "\"\\ud800\"", "\"\\udc00\\ud800\"", "\"\u{1}\"", "'x'", "\"\\x41\""]),
            Bytes => self.raw("bytes", &["1", "true", "{}", "[]", "[1]", "\"!\"", "\"a\"", "\"QUJDR\"", "\"Q===\"", "\"====\"", "\"QQ QQ\"", "\"QQ\\n==\"", "\"QQ==QQ==\"", "\"Q=Q=\"", "\"\u{e9}\u{e9}\""]),
            Enum(e) if e == "google.protobuf.NullValue" => self.raw("nullvalue", &["\"x\"", "true", "1.5", "{}", "[]", "\"NULL_VALUE \"", "\"null\""]),
            Enum(_) => self.raw("enum", &["\"no such value\"", "\"\"", "1.5", "true", "{}", "[]", "[0]", "2147483648", "-2147483649", "\"0x0\"", "4294967296"]),
            Msg(_) | Group(_) => unreachable!(),
        }
    }

    fn bad_msg(&mut self, ty: &str) -> J {
        match ty.trim_start_matches("google.protobuf.") {
            t if !is_json_wkt(ty) => {
                let _ = t;
                self.raw("message", &["1", "\"x\"", "true", "[]", "[{}]", "1.5", "\"{}\""])
            }
            "Any" => self.raw(
                "any",
                &["1", "\"x\"", "true", "[]", "{\"@type\":1}", "{\"@type\":\"type.googleapis.com/no.such.Type\"}", "{\"value\":1}", "{\"@type\":\"\"}", "{\"@type\":null}", "{\"@type\":\"noslash\"}", "{\"@type\":\"type.googleapis.com/google.protobuf.Duration\",\"value\":\"x\"}", "{\"@type\":\"type.googleapis.com/google.protobuf.Duration\",\"value\":\"1s\",\"x\":1}", "{\"@type\":\"type.googleapis.com/google.protobuf.Duration\"}", "{\"x\":1,\"@type\":\"type.googleapis.com/google.protobuf.Duration\",\"value\":\"1s\"}"],
            ),
            "Timestamp" => self.raw("timestamp", BAD_TIMESTAMPS),
            "Duration" => self.raw("duration", BAD_DURATIONS),
            "FieldMask" => self.raw("fieldmask", &["1", "true", "{}", "[]", "[\"a\"]", "\"foo_bar\"", "\"a.b_c\"", "\"a,b_c\"", "\"_\"", "\"a_\"", "{\"paths\":[]}"]),
            "Empty" => self.raw("empty", &["1", "\"x\"", "true", "[]", "{\"a\":1}", "{\"a\":null}", "[{}]"]),
            "Struct" => self.raw("struct", &["1", "\"x\"", "true", "[]", "[{}]"]),
            "ListValue" => self.raw("listvalue", &["1", "\"x\"", "true", "{}", "{\"values\":[]}"]),
            "Value" => self.raw("value", &["1e309", "nul", "\"\\ud800\"", "[1,]", "{1:2}", "NaN"]),
            _ => {
                let k = self.s.msg(ty).fields[&1].kind.clone();
                let j = self.bad_scalar(&k);
                self.what = self.what.take().map(|w| format!("wrapper/{w}"));
                j
            }
        }
    }

    fn bad_key(&mut self, k: &RKind) -> String {
        use RKind::*;
        let xs: &[&str] = match k {
            Bool => &["True", "1", "0", "", "t", " true", "null"],
            Int32 | Sint32 | Sfixed32 => &["2147483648", "-2147483649", "", " 1", "1.5", "x", "true", "0x1", "1 "],
            Uint32 | Fixed32 => &["4294967296", "-1", "", " 1", "1.5", "x", "true"],
            Int64 | Sint64 | Sfixed64 => &["9223372036854775808", "-9223372036854775809", "", " 1", "1.5", "x"],
            _ => &["18446744073709551616", "-1", "", " 1", "1.5", "x"],
        };
        let x = self.r.pick(xs).to_string();
        self.what = Some(format!("key {k:?}:{x}"));
        x
    }

    /// Any JSON value at all.
    pub fn junk(&mut self, depth: usize) -> J {
        match self.r.below(if depth > 1 { 5 } else { 7 }) {
            0 => J::Null,
            1 => J::Bool(true),
            2 => num(gen_i64(self.r)),
            3 => jstr("junk"),
            4 => J::Num("-1.5e300".into()),
            5 => J::Arr((0..self.r.below(3)).map(|_| self.junk(depth + 1)).collect()),
            _ => J::Obj((0..self.r.below(3)).map(|i| (format!("j{i}"), self.junk(depth + 1))).collect()),
        }
    }

    /// One value: a singular field, list element or map value.
    pub fn elem(&mut self, k: &RKind, v: &RVal, in_collection: bool) -> J {
        if self.here() {
            let nullable = matches!(k, RKind::Enum(e) if e == "google.protobuf.NullValue") || k.msg() == Some("google.protobuf.Value");
            if in_collection && !nullable && self.r.pct(25) {
                self.what = Some(format!("null element of {k:?}"));
                return J::Null;
            }
            return match k {
                RKind::Msg(t) | RKind::Group(t) => self.bad_msg(&t.clone()),
                k => self.bad_scalar(k),
            };
        }
        match v {
            RVal::Bool(b) => J::Bool(*b),
            RVal::I32(x) => self.int(*x as i128),
            RVal::I64(x) => self.int(*x as i128),
            RVal::U32(x) => self.int(*x as i128),
            RVal::U64(x) => self.int(*x as i128),
            RVal::F32(x) => self.f32(*x),
            RVal::F64(x) => self.f64(*x),
            RVal::Str(x) => J::Str(x.clone()),
            RVal::Bytes(x) => self.bytes(x),
            RVal::Enum(n) => {
                let RKind::Enum(en) = k else { unreachable!() };
                if en == "google.protobuf.NullValue" {
                    return if self.r.pct(30) { jstr("NULL_VALUE") } else { J::Null };
                }
                let s = self.s;
                let names: Vec<&String> = s.enums[en].values.iter().filter(|v| v.1 == *n).map(|v| &v.0).collect();
                if names.is_empty() || self.r.pct(30) {
                    self.hit("enum_number");
                    num(n)
                } else {
                    if names.len() > 1 {
                        self.hit("enum_alias");
                    }
                    J::Str((*self.r.pick(&names)).clone())
                }
            }
            RVal::Msg(m) => self.msg(m),
            RVal::List(_) | RVal::Map(_) => unreachable!(),
        }
    }

    fn name_of(&mut self, d: &RMsgDesc, f: &RField) -> String {
        if f.is_ext {
            return f.json_name.clone();
        }
        // the proto name is only a spelling when no other field owns it as its JSON name
        let taken = d.fields.values().any(|g| g.number != f.number && g.json_name == f.name);
        if !taken && f.name != f.json_name && self.r.pct(40) {
            self.hit("proto_name");
            f.name.clone()
        } else {
            f.json_name.clone()
        }
    }

    fn members(&mut self, m: &RMsg) -> Vec<(String, J)> {
        let s = self.s;
        let d = s.msg(&m.ty);
        let mut out: Vec<(String, J)> = vec![];
        let all: Vec<&RField> = d.fields.values().chain(s.exts_of(&m.ty)).collect();
        for f in all {
            let name = self.name_of(d, f);
            match m.fields.get(&f.number) {
                Some(RVal::List(l)) => {
                    if self.here() {
                        let j = self.raw("list", &["{}", "\"x\"", "1", "true", "{\"0\":1}"]);
                        out.push((name, j));
                        continue;
                    }
                    let mut a: Vec<J> = l.iter().map(|x| self.elem(&f.kind, x, true)).collect();
                    self.inject_enum(&f.kind, &mut a);
                    out.push((name, J::Arr(a)));
                }
                Some(RVal::Map(l)) => {
                    if self.here() {
                        let j = self.raw("map", &["[]", "\"x\"", "1", "true", "[{\"key\":1}]"]);
                        out.push((name, j));
                        continue;
                    }
                    let (kf, vf) = s.map_kv(f);
                    let mut a = vec![];
                    for (k, v) in l {
                        let key = if kf.kind != RKind::Str && self.here() { self.bad_key(&kf.kind) } else { key_str(k) };
                        let v = self.elem(&vf.kind, v, true);
                        a.push((key, v));
                    }
                    if self.inject && self.droppable(&vf.kind) && self.r.pct(50) {
                        let k = ValGen::new(self.r, s, ValCfg::default()).key(&kf.kind);
                        if !l.contains_key(&k) {
                            self.hit("injected_enum_name_map");
                            a.push((key_str(&k), jstr("NO_SUCH_NAME")));
                        }
                    }
                    self.r.shuffle(&mut a);
                    out.push((name, J::Obj(a)));
                }
                Some(v) => {
                    let j = self.elem(&f.kind, v, false);
                    out.push((name, j));
                }
                None => {
                    let nullable = f.singular()
                        && (matches!(&f.kind, RKind::Enum(e) if e == "google.protobuf.NullValue")
                            || f.kind.msg() == Some("google.protobuf.Value"));
                    if self.inject && f.singular() && self.droppable(&f.kind) && self.r.pct(40) {
                        self.hit("injected_enum_name_field");
                        out.push((name, jstr("NO_SUCH_NAME")));
                        continue;
                    }
                    if self.r.pct(15) && !nullable {
                        self.hit("null_for_unset");
                        out.push((name, J::Null));
                    } else if self.r.pct(10) && f.card == Card::Rep {
                        self.hit("explicit_empty");
                        let mut a = vec![];
                        if f.is_map {
                            out.push((name, J::Obj(vec![])));
                        } else {
                            self.inject_enum(&f.kind, &mut a);
                            out.push((name, J::Arr(a)));
                        }
                    } else if self.r.pct(15) && !f.presence && f.singular() {
                        self.hit("explicit_default");
                        let z = default_of(s, f);
                        let j = self.elem(&f.kind, &z, false);
                        out.push((name, j));
                    }
                }
            }
        }
        // object-level corruptions
        if self.here() {
            let mut cands = vec![0];
            let o = d.oneofs.iter().find_map(|o| {
                let here: Vec<u32> = o.fields.iter().copied().filter(|n| m.fields.contains_key(n)).collect();
                let rest: Vec<u32> = o.fields.iter().copied().filter(|n| !here.contains(n)).collect();
                (here.len() == 1 && !rest.is_empty()).then(|| rest[0])
            });
            if o.is_some() {
                cands.push(1);
                cands.push(1);
            }
            match *self.r.pick(&cands) {
                0 => {
                    // a name that is not a field: close to one where possible
                    let base = d.fields.values().next().map(|f| f.name.clone()).unwrap_or_default();
                    let c = [format!("{base} "), format!("{base}_x_"), "no_such_member".into(), "".into(), "[no.such.ext]".into(), base.to_uppercase() + "Q", "[]".into()];
                    let k = self.r.pick(&c).clone();
                    if all_names(s, &m.ty).contains(&k) {
                        self.slot -= 1; // try a later slot
                    } else {
                        self.what = Some(format!("unknown member {k:?}"));
                        let j = self.junk(0);
                        let at = self.r.below(out.len() + 1);
                        out.insert(at, (k, j));
                    }
                }
                _ => {
                    let f = &d.fields[&o.unwrap()];
                    let z = zero_of(s, &f.kind);
                    let save = self.corrupt.take();
                    let taken = d.fields.values().any(|g| g.number != f.number && g.json_name == f.name);
                    out.retain(|e| (e.0 != f.name || taken) && e.0 != f.json_name);
                    let j = match &z {
                        // a null would not count as a second member
                        RVal::Msg(v) if v.ty == "google.protobuf.Any" => J::Raw("{\"@type\":\"t/google.protobuf.Duration\",\"value\":\"1s\"}".into()),
                        z => self.elem(&f.kind, z, false),
                    };
                    self.corrupt = save;
                    self.what = Some("second oneof member".into());
                    let name = self.name_of(d, f);
                    let at = self.r.below(out.len() + 1);
                    out.insert(at, (name, j));
                }
            }
        }
        if self.inject {
            for i in 0..self.r.below(3) {
                let k = [format!("__unknown{i}"), format!("[no.ext{i}]"), format!("X{i} y")][self.r.below(3)].clone();
                if !all_names(s, &m.ty).contains(&k) {
                    self.hit("injected_member");
                    let j = self.junk(0);
                    out.push((k, j));
                }
            }
        }
        self.r.shuffle(&mut out);
        out
    }

    fn droppable(&self, k: &RKind) -> bool {
        matches!(k, RKind::Enum(_))
    }

    fn inject_enum(&mut self, k: &RKind, a: &mut Vec<J>) {
        if self.inject && self.droppable(k) && self.r.pct(50) {
            self.hit("injected_enum_name_list");
            let at = self.r.below(a.len() + 1);
            a.insert(at, jstr("NO_SUCH_NAME"));
        }
    }

    pub fn timestamp(&mut self, t: i64, n: u32) -> String {
        let mut off = 0i64;
        if self.r.pct(50) {
            off = match self.r.below(4) {
                0 => 23 * 60 + 59,
                1 => -(23 * 60 + 59),
                2 => 330,
                _ => self.r.range(-1439, 1439),
            };
        }
        let local = t + off * 60;
        if !(-62135596800..=253402300799).contains(&local) {
            off = 0;
        }
        let local = t + off * 60;
        let z = if off == 0 && !self.r.pct(20) {
            "Z".to_string()
        } else {
            self.hit("timestamp_offset");
            let sign = if off < 0 || (off == 0 && self.r.bool()) { '-' } else { '+' };
            format!("{sign}{:02}:{:02}", off.abs() / 60, off.abs() % 60)
        };
        format!("{}{}{z}", datetime(local), self.fraction(n))
    }

    fn fraction(&mut self, n: u32) -> String {
        let full = format!("{n:09}");
        let min = full.trim_end_matches('0').len();
        let k = min + self.r.below(10 - min);
        if k == 0 {
            String::new()
        } else {
            self.hit("fraction_digits");
            format!(".{}", &full[..k])
        }
    }

    pub fn duration(&mut self, t: i64, n: i64) -> String {
        let sign = if t < 0 || n < 0 { "-" } else { "" };
        format!("{sign}{}{}s", t.unsigned_abs(), self.fraction(n.unsigned_abs() as u32))
    }

    pub fn msg(&mut self, m: &RMsg) -> J {
        if !is_json_wkt(&m.ty) {
            return J::Obj(self.members(m));
        }
        let s = self.s;
        self.hit(&m.ty);
        match m.ty.trim_start_matches("google.protobuf.") {
            "Any" => {
                let (url, v) = any_payload(s, m).unwrap_or_else(|e| panic!("HARNESS: any {e}"));
                let mut out = vec![];
                if is_json_wkt(&v.ty) {
                    let k = RKind::Msg(v.ty.clone());
                    let j = self.elem(&k, &RVal::Msg(v), true);
                    out.push(("value".to_string(), j));
                    if self.inject && self.r.bool() {
                        self.hit("injected_member_any");
                        let j = self.junk(0);
                        out.push(("other".into(), j));
                    }
                } else {
                    out = self.members(&v);
                    if out.iter().any(|e| e.0 == "@type") {
                        panic!("HARNESS: @type");
                    }
                }
                let at = if self.r.bool() { 0 } else { self.r.below(out.len() + 1) };
                if at > 0 {
                    self.hit("any_type_late");
                }
                out.insert(at, ("@type".into(), J::Str(url)));
                J::Obj(out)
            }
            "Timestamp" => J::Str(self.timestamp(i64f(m, 1), i64f(m, 2) as u32)),
            "Duration" => J::Str(self.duration(i64f(m, 1), i64f(m, 2))),
            "FieldMask" => J::Str(paths(m).iter().map(|p| camel(p)).collect::<Vec<_>>().join(",")),
            "Empty" => {
                if self.inject && self.r.bool() {
                    self.hit("injected_member_empty");
                    let j = self.junk(0);
                    J::Obj(vec![("x".into(), j)])
                } else {
                    J::Obj(vec![])
                }
            }
            "Struct" => {
                let mut out = vec![];
                if let Some(RVal::Map(l)) = m.fields.get(&1) {
                    for (k, v) in l {
                        let j = self.elem(&RKind::Msg("google.protobuf.Value".into()), v, true);
                        out.push((key_str(k), j));
                    }
                }
                self.r.shuffle(&mut out);
                J::Obj(out)
            }
            "ListValue" => match m.fields.get(&1) {
                Some(RVal::List(l)) => {
                    J::Arr(l.iter().map(|v| self.elem(&RKind::Msg("google.protobuf.Value".into()), v, true)).collect())
                }
                _ => J::Arr(vec![]),
            },
            "Value" => match m.fields.iter().next() {
                None | Some((1, _)) => J::Null,
                // strings are string values here, so numbers only
                Some((2, RVal::F64(b))) => {
                    let f = f64::from_bits(*b);
                    let forms = [format!("{f:?}"), format!("{f}"), format!("{f:e}")];
                    J::Num(self.r.pick(&forms).clone())
                }
                Some((3, RVal::Str(x))) => J::Str(x.clone()),
                Some((4, RVal::Bool(x))) => J::Bool(*x),
                Some((_, RVal::Msg(x))) => self.msg(x),
                x => panic!("HARNESS: value {x:?}"),
            },
            _ => {
                let f = &s.msg(&m.ty).fields[&1];
                let z = zero_of(s, &f.kind);
                self.elem(&f.kind, m.fields.get(&1).unwrap_or(&z), false)
            }
        }
    }
}

pub const BAD_TIMESTAMPS: &[&str] = &[
    "\"\"", "1", "true", "{}", "[]", "{\"seconds\":1}", "\"1970-01-01\"", "\"1970-01-01T00:00:00\"", "\"1970-01-01 00:00:00Z\"",
    "\"1970-01-01t00:00:00Z\"", "\"1970-01-01T00:00:00z\"", "\"1970-13-01T00:00:00Z\"", "\"1970-00-01T00:00:00Z\"",
    "\"1970-02-30T00:00:00Z\"", "\"1970-01-00T00:00:00Z\"", "\"1970-01-32T00:00:00Z\"", "\"1900-02-29T00:00:00Z\"", "\"1970-04-31T00:00:00Z\"",
    "\"1970-01-01T24:00:00Z\"", "\"1970-01-01T00:60:00Z\"", "\"1970-01-01T00:00:61Z\"", "\"1970-01-01T00:00:00.Z\"",
    "\"0000-12-31T23:59:59Z\"", "\"0001-01-01T00:00:00+00:01\"", "\"9999-12-31T23:59:59-00:01\"", "\"10000-01-01T00:00:00Z\"",
    "\" 1970-01-01T00:00:00Z\"", "\"1970-01-01T00:00:00Z \"", "\"1970-1-1T0:0:0Z\"", "\"1970-01-01T00:00:00+0000\"",
    "\"1970-01-01T00:00:00+00\"", "\"-1970-01-01T00:00:00Z\"", "\"1970-01-01T00:00Z\"", "\"1970-01-01T00:00:00,5Z\"", "\"x\"",
    "\"1970-01-01T00:00:00.5.5Z\"", "\"1970-01-01T00:00:00ZZ\"",
];

pub const BAD_DURATIONS: &[&str] = &[
    "\"\"", "1", "1.5", "true", "{}", "[]", "{\"seconds\":1}", "\"1\"", "\"s\"", "\"1S\"", "\"1 s\"", "\" 1s\"", "\"1s \"", "\"--1s\"",
    "\"1m\"", "\"1e3s\"", "\"0x1s\"", "\"1.2.3s\"", "\"1,5s\"", "\"315576000001s\"", "\"-315576000001s\"", "\"9223372036854775808s\"",
    "\"-9223372036854775809s\"", "\"99999999999999999999s\"", "\"NaNs\"", "\"-s\"", "\"1ss\"", "\"1.-5s\"", "\"1h\"", "\"\u{b9}s\"",
];

pub fn all_names(s: &RSchema, ty: &str) -> Vec<String> {
    let mut v: Vec<String> = vec!["@type".into()];
    for f in s.msg(ty).fields.values() {
        v.push(f.name.clone());
        v.push(f.json_name.clone());
    }
    for f in s.exts_of(ty) {
        v.push(f.json_name.clone());
    }
    v
}
