//! Reference text format: a parser following the text-format specification, the denotation of a document,
//! a checker of printed documents and an emitter of permitted spellings.
use crate::json::any_payload;
use crate::rmsg::*;
use crate::rng::Rng;
use crate::schema::*;
use crate::wire;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// violates the specification
    Bad(String),
    /// the specification (or its implementations) leave room: no verdict
    Unsure(String),
}

type R<T> = Result<T, V>;

fn bad<T>(m: impl Into<String>) -> R<T> {
    Err(V::Bad(m.into()))
}
fn unsure<T>(m: impl Into<String>) -> R<T> {
    Err(V::Unsure(m.into()))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Ident(String),
    /// digits without prefix, radix
    Int(String, u32),
    Float(String, bool),
    Str(Vec<u8>),
    P(char),
    /// a character that begins no token
    Odd(char),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Name {
    Id(String),
    Ext(String),
    Any(String, String),
    Num(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub name: Name,
    pub colon: bool,
    pub node: Node,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Tok(bool, Tok),
    Str(Vec<u8>),
    Msg(Vec<Item>),
    List(Vec<Node>),
}

// ------------------------------------------------------------------ lexer

fn ident_start(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}
fn ident_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}

pub fn lex(t: &str) -> R<Vec<(Tok, usize, usize)>> {
    let b = t.as_bytes();
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let s = i;
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c => {
                i += 1;
                continue;
            }
            b'#' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
                continue;
            }
            _ if ident_start(c) => {
                while ident_char(at(i)) {
                    i += 1;
                }
                out.push((Tok::Ident(t[s..i].into()), s, i));
            }
            b'0'..=b'9' => {
                if c == b'0' && matches!(at(i + 1), b'x' | b'X') {
                    i += 2;
                    let d = i;
                    while at(i).is_ascii_hexdigit() {
                        i += 1;
                    }
                    if d == i {
                        return bad("0x without digits");
                    }
                    if ident_char(at(i)) {
                        return bad("identifier directly after number");
                    }
                    out.push((Tok::Int(t[d..i].into(), 16), s, i));
                    continue;
                }
                while at(i).is_ascii_digit() {
                    i += 1;
                }
                let int_end = i;
                let mut float = false;
                if at(i) == b'.' {
                    float = true;
                    i += 1;
                    while at(i).is_ascii_digit() {
                        i += 1;
                    }
                }
                if matches!(at(i), b'e' | b'E') {
                    let mut j = i + 1;
                    if matches!(at(j), b'+' | b'-') {
                        j += 1;
                    }
                    if at(j).is_ascii_digit() {
                        float = true;
                        while at(j).is_ascii_digit() {
                            j += 1;
                        }
                        i = j;
                    }
                }
                let leading0 = c == b'0' && int_end - s > 1;
                let mut body = i;
                let mut suffix = false;
                if matches!(at(i), b'f' | b'F') {
                    if ident_char(at(i + 1)) {
                        if float || !leading0 {
                            return unsure("identifier directly after float");
                        }
                        return bad("identifier directly after number");
                    }
                    if leading0 && !float {
                        return unsure("octal-looking float");
                    }
                    float = true;
                    suffix = true;
                    body = i;
                    i += 1;
                } else if ident_char(at(i)) {
                    return if float { unsure("identifier directly after float") } else { bad("identifier directly after number") };
                }
                if float {
                    if leading0 {
                        return unsure("float with leading zeros");
                    }
                    out.push((Tok::Float(t[s..body].into(), suffix), s, i));
                } else if leading0 {
                    if t[s..i].bytes().any(|d| d > b'7') {
                        return bad("bad octal");
                    }
                    out.push((Tok::Int(t[s + 1..i].into(), 8), s, i));
                } else {
                    out.push((Tok::Int(t[s..i].into(), 10), s, i));
                }
            }
            b'.' if at(i + 1).is_ascii_digit() => {
                i += 1;
                while at(i).is_ascii_digit() {
                    i += 1;
                }
                if matches!(at(i), b'e' | b'E') {
                    let mut j = i + 1;
                    if matches!(at(j), b'+' | b'-') {
                        j += 1;
                    }
                    if at(j).is_ascii_digit() {
                        while at(j).is_ascii_digit() {
                            j += 1;
                        }
                        i = j;
                    }
                }
                let body = i;
                let suffix = matches!(at(i), b'f' | b'F');
                if suffix {
                    i += 1;
                }
                if ident_char(at(i)) {
                    return unsure("identifier directly after float");
                }
                out.push((Tok::Float(t[s..body].into(), suffix), s, i));
            }
            b'"' | b'\'' => {
                i += 1;
                let mut v = vec![];
                loop {
                    if i >= b.len() {
                        return bad("unterminated string");
                    }
                    let k = b[i];
                    i += 1;
                    if k == c {
                        break;
                    }
                    match k {
                        b'\n' | 0 => return bad("raw newline or NUL in string"),
                        b'\\' => {
                            let e = at(i);
                            i += 1;
                            match e {
                                b'a' => v.push(7),
                                b'b' => v.push(8),
                                b'f' => v.push(12),
                                b'n' => v.push(10),
                                b'r' => v.push(13),
                                b't' => v.push(9),
                                b'v' => v.push(11),
                                b'?' | b'\\' | b'\'' | b'"' => v.push(e),
                                b'0'..=b'7' => {
                                    let mut n = (e - b'0') as u32;
                                    let mut l = 1;
                                    while l < 3 && (b'0'..=b'7').contains(&at(i)) {
                                        n = n * 8 + (at(i) - b'0') as u32;
                                        i += 1;
                                        l += 1;
                                    }
                                    if n > 255 {
                                        return unsure("octal escape beyond a byte");
                                    }
                                    v.push(n as u8);
                                }
                                b'X' => return unsure("\\X escape"),
                                b'x' => {
                                    let d = i;
                                    while i - d < 2 && at(i).is_ascii_hexdigit() {
                                        i += 1;
                                    }
                                    if d == i {
                                        return bad("\\x without digits");
                                    }
                                    v.push(u8::from_str_radix(&t[d..i], 16).unwrap());
                                }
                                b'u' | b'U' => {
                                    let n = if e == b'u' { 4 } else { 8 };
                                    let d = i;
                                    while i - d < n && at(i).is_ascii_hexdigit() {
                                        i += 1;
                                    }
                                    if i - d != n {
                                        return bad("short unicode escape");
                                    }
                                    let cp = u32::from_str_radix(&t[d..i], 16).unwrap();
                                    if (0xd800..0xe000).contains(&cp) {
                                        return unsure("surrogate escape");
                                    }
                                    let Some(ch) = char::from_u32(cp) else { return bad("escape beyond Unicode") };
                                    v.extend(ch.to_string().bytes());
                                }
                                _ => return bad("unknown escape"),
                            }
                        }
                        _ => v.push(k),
                    }
                }
                out.push((Tok::Str(v), s, i));
            }
            b'-' | b'{' | b'}' | b'[' | b']' | b'<' | b'>' | b',' | b':' | b';' | b'.' | b'/' => {
                i += 1;
                out.push((Tok::P(c as char), s, i));
            }
            _ => {
                let ch = t[i..].chars().next().unwrap();
                i += ch.len_utf8();
                out.push((Tok::Odd(ch), s, i));
            }
        }
    }
    Ok(out)
}

// ------------------------------------------------------------------ parser

struct P {
    t: Vec<(Tok, usize, usize)>,
    i: usize,
    /// numeric field names are what printers emit for unknown fields; parsers refuse them
    nums: bool,
}

/// `nums`: accept numeric field names (reading printed documents).
pub fn parse(t: &str, nums: bool) -> R<Vec<Item>> {
    let mut p = P { t: lex(t)?, i: 0, nums };
    let m = p.message(None)?;
    Ok(m)
}

impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i).map(|t| &t.0)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }

    fn message(&mut self, end: Option<char>) -> R<Vec<Item>> {
        let mut out = vec![];
        loop {
            match self.peek() {
                None if end.is_none() => return Ok(out),
                None => return bad("message not closed"),
                Some(Tok::P(c)) if Some(*c) == end => {
                    self.i += 1;
                    return Ok(out);
                }
                _ => {}
            }
            out.push(self.field()?);
            if !self.eat(',') {
                self.eat(';');
            }
        }
    }

    fn dotted(&mut self) -> R<String> {
        let mut s = String::new();
        loop {
            match self.peek() {
                Some(Tok::Ident(x)) => s.push_str(x),
                _ => return bad("identifier expected"),
            }
            self.i += 1;
            if !self.eat('.') {
                return Ok(s);
            }
            s.push('.');
        }
    }

    fn bracket(&mut self) -> R<Name> {
        let start = self.i;
        let r = (|| {
            let a = self.dotted()?;
            if self.eat(']') {
                return Ok(Name::Ext(a));
            }
            if !self.eat('/') {
                return bad("']' or '/' expected");
            }
            let b = self.dotted()?;
            if !self.eat(']') {
                return bad("']' expected");
            }
            Ok(Name::Any(a, b))
        })();
        if let Err(V::Bad(e)) = &r {
            // newer implementations allow general URLs
            let mut slash = false;
            for (t, _, _) in &self.t[start..] {
                match t {
                    Tok::P(']') => break,
                    Tok::P('/') | Tok::Odd('%') => slash = true,
                    _ => {}
                }
            }
            if slash {
                return unsure(format!("URL-like name: {e}"));
            }
        }
        r
    }

    fn field(&mut self) -> R<Item> {
        let name = match self.peek().cloned() {
            Some(Tok::Ident(x)) => {
                self.i += 1;
                Name::Id(x)
            }
            Some(Tok::P('[')) => {
                self.i += 1;
                self.bracket()?
            }
            Some(Tok::Int(d, 10)) if self.nums => {
                self.i += 1;
                Name::Num(d.parse().map_err(|_| V::Bad("field number".into()))?)
            }
            t => return bad(format!("field name expected, found {t:?}")),
        };
        let colon = self.eat(':');
        if !colon && !(self.is('{') || self.is('<') || self.is('[')) {
            return bad("':' or message expected");
        }
        let node = if self.eat('[') {
            let mut l = vec![];
            if !self.eat(']') {
                loop {
                    if self.is('[') {
                        return bad("nested list");
                    }
                    l.push(self.value()?);
                    if self.eat(']') {
                        break;
                    }
                    if !self.eat(',') {
                        return bad("',' or ']' expected");
                    }
                }
            }
            if !colon && l.iter().any(|n| !matches!(n, Node::Msg(_))) {
                return bad("':' missing before scalar list");
            }
            Node::List(l)
        } else {
            self.value()?
        };
        Ok(Item { name, colon, node })
    }

    fn value(&mut self) -> R<Node> {
        if self.eat('{') {
            return Ok(Node::Msg(self.message(Some('}'))?));
        }
        if self.eat('<') {
            return Ok(Node::Msg(self.message(Some('>'))?));
        }
        if let Some(Tok::Str(_)) = self.peek() {
            let mut v = vec![];
            while let Some(Tok::Str(s)) = self.peek() {
                v.extend_from_slice(s);
                self.i += 1;
            }
            return Ok(Node::Str(v));
        }
        let neg = self.eat('-');
        match self.peek().cloned() {
            Some(t @ (Tok::Ident(_) | Tok::Int(..) | Tok::Float(..))) => {
                self.i += 1;
                Ok(Node::Tok(neg, t))
            }
            t => bad(format!("value expected, found {t:?}")),
        }
    }
}

// ------------------------------------------------------------------ denotation

fn int_of(neg: bool, d: &str, radix: u32) -> Option<i128> {
    let d = d.trim_start_matches('0');
    if d.len() > 30 {
        return None;
    }
    let v = if d.is_empty() { 0 } else { i128::from_str_radix(d, radix).ok()? };
    Some(if neg { -v } else { v })
}

fn int_node(n: &Node) -> R<(bool, Option<i128>)> {
    match n {
        Node::Tok(neg, Tok::Int(d, r)) => Ok((*neg, int_of(*neg, d, *r))),
        n => bad(format!("integer expected, found {n:?}")),
    }
}

fn ranged(n: &Node, lo: i128, hi: i128) -> R<i128> {
    let (neg, v) = int_node(n)?;
    match v {
        Some(0) if neg && lo == 0 => unsure("-0 for an unsigned field"),
        Some(v) if v >= lo && v <= hi => Ok(v),
        _ => bad("integer out of range"),
    }
}

fn float_text(n: &Node) -> R<String> {
    match n {
        Node::Tok(neg, t) => {
            let s = if *neg { "-" } else { "" };
            match t {
                Tok::Float(x, _) => Ok(format!("{s}{x}")),
                Tok::Int(x, 10) => Ok(format!("{s}{x}")),
                Tok::Int(..) => unsure("hexadecimal or octal integer for a float"),
                Tok::Ident(x) => match x.to_ascii_lowercase().as_str() {
                    "inf" | "infinity" => Ok(format!("{s}inf")),
                    "nan" => Ok("NaN".into()),
                    "inff" | "infinityf" | "nanf" => unsure("suffixed non-finite"),
                    _ => bad("float expected"),
                },
                _ => bad("float expected"),
            }
        }
        _ => bad("float expected"),
    }
}

pub fn denote_elem(s: &RSchema, k: &RKind, n: &Node) -> R<RVal> {
    use RKind::*;
    Ok(match k {
        Int32 | Sint32 | Sfixed32 => RVal::I32(ranged(n, i32::MIN as i128, i32::MAX as i128)? as i32),
        Int64 | Sint64 | Sfixed64 => RVal::I64(ranged(n, i64::MIN as i128, i64::MAX as i128)? as i64),
        Uint32 | Fixed32 => RVal::U32(ranged(n, 0, u32::MAX as i128)? as u32),
        Uint64 | Fixed64 => RVal::U64(ranged(n, 0, u64::MAX as i128)? as u64),
        Bool => match n {
            Node::Tok(false, Tok::Ident(x)) => match x.as_str() {
                "true" | "True" | "t" => RVal::Bool(true),
                "false" | "False" | "f" => RVal::Bool(false),
                _ => return bad("not a bool"),
            },
            n => RVal::Bool(ranged(n, 0, 1)? == 1),
        },
        Double => {
            let t = float_text(n)?;
            RVal::F64(t.parse::<f64>().map_err(|e| V::Unsure(format!("{t}: {e}")))?.to_bits())
        }
        Float => {
            let t = float_text(n)?;
            let a = t.parse::<f32>().map_err(|e| V::Unsure(format!("{t}: {e}")))?;
            let b = t.parse::<f64>().unwrap() as f32;
            if a.to_bits() != b.to_bits() && !a.is_nan() {
                return unsure("double rounding");
            }
            RVal::F32(a.to_bits())
        }
        Str => match n {
            Node::Str(b) => RVal::Str(String::from_utf8(b.clone()).map_err(|_| V::Bad("string is not UTF-8".into()))?),
            _ => return bad("string expected"),
        },
        Bytes => match n {
            Node::Str(b) => RVal::Bytes(b.clone()),
            _ => return bad("bytes expected"),
        },
        Enum(e) => {
            let e = &s.enums[e];
            match n {
                Node::Tok(false, Tok::Ident(x)) => match e.values.iter().find(|v| &v.0 == x) {
                    Some(v) => RVal::Enum(v.1),
                    None if e.proto.reserved_name.contains(x) => return unsure("reserved enum name"),
                    None => return bad(format!("no enum value {x}")),
                },
                n => {
                    let v = ranged(n, i32::MIN as i128, i32::MAX as i128)? as i32;
                    if !e.proto3 && e.values.iter().all(|x| x.1 != v) {
                        return unsure("unknown number of a closed enum");
                    }
                    RVal::Enum(v)
                }
            }
        }
        Msg(t) | Group(t) => match n {
            Node::Msg(items) => RVal::Msg(denote(s, t, items)?),
            _ => return bad("message expected"),
        },
    })
}

fn simple(full: &str) -> &str {
    full.rsplit('.').next().unwrap()
}

pub fn denote(s: &RSchema, ty: &str, items: &[Item]) -> R<RMsg> {
    let d = s.msg(ty);
    let mut m = RMsg::new(ty);
    let mut seen: BTreeSet<u32> = BTreeSet::new();
    let mut doubt = None;
    let mut fail = None;
    for it in items {
        let r = (|| -> R<()> {
            let f: &RField = match &it.name {
                Name::Id(x) => {
                    if let Some(f) = d.fields.values().find(|f| &f.name == x && !f.is_group()) {
                        f
                    } else if let Some(f) = d.fields.values().find(|f| f.is_group() && simple(f.kind.msg().unwrap()) == x) {
                        f
                    } else if d.fields.values().any(|f| f.name.eq_ignore_ascii_case(x)) {
                        return unsure("name differing in case, or group by field name");
                    } else if d.proto.reserved_name.contains(x) {
                        return unsure("reserved field name");
                    } else {
                        return bad(format!("no field {x} in {ty}"));
                    }
                }
                Name::Ext(x) => match s.exts_of(ty).find(|f| &f.full_name == x) {
                    Some(f) => f,
                    None => return bad(format!("no extension {x} of {ty}")),
                },
                Name::Num(n) => return unsure(format!("numeric name {n}")),
                Name::Any(dom, t) => {
                    if ty != "google.protobuf.Any" {
                        return bad("expanded Any outside Any");
                    }
                    if !s.msgs.contains_key(t) {
                        return bad(format!("no type {t}"));
                    }
                    if s.msgs[t].map_entry {
                        return unsure("Any of a map entry");
                    }
                    if !seen.is_empty() {
                        return bad("Any given twice");
                    }
                    let Node::Msg(items) = &it.node else { return bad("expanded Any without message") };
                    seen.extend([1, 2]);
                    let p = denote(s, t, items)?;
                    m.fields.insert(1, RVal::Str(format!("{dom}/{t}")));
                    let b = wire::encode(s, &p);
                    if !b.is_empty() {
                        m.fields.insert(2, RVal::Bytes(b));
                    }
                    return Ok(());
                }
            };
            let list: Vec<&Node> = match &it.node {
                Node::List(l) => {
                    if f.singular() {
                        return bad("list for a singular field");
                    }
                    l.iter().collect()
                }
                n => vec![n],
            };
            if !it.colon && f.kind.msg().is_none() {
                return bad("':' missing");
            }
            if f.is_map {
                let (kf, vf) = s.map_kv(f);
                for n in list {
                    let Node::Msg(_) = n else { return bad("map entry expected") };
                    let RVal::Msg(e) = denote_elem(s, &f.kind, n)? else { unreachable!() };
                    let k = e.fields.get(&1).cloned().unwrap_or_else(|| zero_of(s, &kf.kind));
                    let v = e.fields.get(&2).cloned().unwrap_or_else(|| zero_of(s, &vf.kind));
                    let RVal::Map(mm) = m.fields.entry(f.number).or_insert_with(|| RVal::Map(BTreeMap::new())) else {
                        unreachable!()
                    };
                    mm.insert(to_key(k), v);
                }
            } else if f.card == Card::Rep {
                for n in list {
                    let v = denote_elem(s, &f.kind, n)?;
                    let RVal::List(l) = m.fields.entry(f.number).or_insert_with(|| RVal::List(vec![])) else {
                        unreachable!()
                    };
                    l.push(v);
                }
            } else {
                let v = denote_elem(s, &f.kind, list[0])?;
                if !seen.insert(f.number) {
                    return bad(format!("{} given twice", f.name));
                }
                if let Some(o) = f.oneof {
                    if d.oneofs[o].fields.iter().any(|n| *n != f.number && seen.contains(n)) {
                        return bad("two members of a oneof");
                    }
                }
                if f.presence || !is_zero(s, f, &v) {
                    m.fields.insert(f.number, v);
                }
            }
            Ok(())
        })();
        match r {
            Ok(()) => {}
            Err(V::Bad(e)) => {
                fail.get_or_insert(e);
            }
            Err(V::Unsure(e)) => {
                doubt.get_or_insert(e);
            }
        }
    }
    if let Some(e) = doubt {
        return unsure(e);
    }
    if let Some(e) = fail {
        return bad(e);
    }
    Ok(m)
}

pub fn to_key(v: RVal) -> RKey {
    match v {
        RVal::Bool(b) => RKey::Bool(b),
        RVal::I32(b) => RKey::I32(b),
        RVal::I64(b) => RKey::I64(b),
        RVal::U32(b) => RKey::U32(b),
        RVal::U64(b) => RKey::U64(b),
        RVal::Str(b) => RKey::Str(b),
        v => panic!("bad key {v:?}"),
    }
}
pub fn from_key(k: &RKey) -> RVal {
    match k {
        RKey::Bool(b) => RVal::Bool(*b),
        RKey::I32(b) => RVal::I32(*b),
        RKey::I64(b) => RVal::I64(*b),
        RKey::U32(b) => RVal::U32(*b),
        RKey::U64(b) => RVal::U64(*b),
        RKey::Str(b) => RVal::Str(b.clone()),
    }
}

// ------------------------------------------------------------------ checking printed documents

#[derive(Clone, Copy, Debug)]
pub struct TOpts {
    pub pretty: bool,
    pub skip_unknown: bool,
    pub expand_any: bool,
    pub skip_default: bool,
    pub index_order: bool,
}

pub fn all_topts() -> Vec<TOpts> {
    (0..32u32)
        .map(|i| TOpts {
            pretty: i & 1 != 0,
            skip_unknown: i & 2 != 0,
            expand_any: i & 4 != 0,
            skip_default: i & 8 != 0,
            index_order: i & 16 != 0,
        })
        .collect()
}

pub fn is_ident(x: &str) -> bool {
    !x.is_empty() && ident_start(x.as_bytes()[0]) && x.bytes().all(ident_char)
}

/// Can this type URL be written as an expanded Any name?
pub fn any_name(url: &str) -> Option<(String, String)> {
    let i = url.rfind('/')?;
    let (d, t) = (&url[..i], &url[i + 1..]);
    (d.split('.').all(is_ident) && t.split('.').all(is_ident)).then(|| (d.into(), t.into()))
}

pub fn has_num(items: &[Item]) -> bool {
    fn node(n: &Node) -> bool {
        match n {
            Node::Msg(i) => has_num(i),
            Node::List(l) => l.iter().any(node),
            _ => false,
        }
    }
    items.iter().any(|i| matches!(i.name, Name::Num(_)) || node(&i.node))
}

pub fn check_doc(s: &RSchema, m: &RMsg, items: &[Item], o: TOpts) -> Result<(), String> {
    let d = s.msg(&m.ty);
    if o.expand_any && m.ty == "google.protobuf.Any" {
        if let Ok((url, p)) = any_payload(s, m) {
            if let Some((dom, t)) = any_name(&url) {
                let [it] = items else { return Err(format!("expanded Any expected, found {items:?}")) };
                if it.name != Name::Any(dom.clone(), t.clone()) {
                    return Err(format!("[{dom}/{t}] expected, found {:?}", it.name));
                }
                let Node::Msg(x) = &it.node else { return Err("expanded Any is not a message".into()) };
                return check_doc(s, &p, x, o);
            }
        }
    }
    let mut at = 0;
    let nums: Vec<u32> = if o.index_order { d.order.clone() } else { d.fields.keys().copied().collect() };
    for n in nums {
        let f = &d.fields[&n];
        let v = match m.fields.get(&n) {
            Some(v) => v.clone(),
            None if !o.skip_default && !f.presence => default_of(s, f),
            None => continue,
        };
        let name = Name::Id(if f.is_group() { simple(f.kind.msg().unwrap()).to_string() } else { f.name.clone() });
        check_field(s, f, &v, &name, items, &mut at, o)?;
    }
    let mut rest: BTreeMap<u32, Vec<&RUnk>> = BTreeMap::new();
    for (n, u) in &m.unknown {
        rest.entry(*n).or_default().push(u);
    }
    let mut numbers: BTreeSet<u32> = rest.keys().copied().collect();
    numbers.extend(s.exts_of(&m.ty).filter(|f| m.fields.contains_key(&f.number)).map(|f| f.number));
    for n in numbers {
        if let Some(u) = rest.get(&n) {
            if !o.skip_unknown {
                for u in u {
                    let it = items.get(at).ok_or(format!("unknown field {n} not printed"))?;
                    at += 1;
                    if it.name != Name::Num(n) {
                        return Err(format!("unknown field {n} expected, found {:?}", it.name));
                    }
                    check_unk(u, &it.node)?;
                }
            }
        } else {
            let f = s.exts_of(&m.ty).find(|f| f.number == n).unwrap();
            check_field(s, f, &m.fields[&n], &Name::Ext(f.full_name.clone()), items, &mut at, o)?;
        }
    }
    if at != items.len() {
        return Err(format!("unexpected or misplaced item {:?} in {}", items[at], m.ty));
    }
    Ok(())
}

pub fn check_field(
    s: &RSchema,
    f: &RField,
    v: &RVal,
    name: &Name,
    items: &[Item],
    at: &mut usize,
    o: TOpts,
) -> Result<(), String> {
    let mut nodes: Vec<&Node> = vec![];
    let mut n = 0;
    while let Some(it) = items.get(*at) {
        if &it.name != name {
            break;
        }
        n += 1;
        *at += 1;
        match &it.node {
            Node::List(l) if !f.singular() => nodes.extend(l),
            x => nodes.push(x),
        }
        if !it.colon && f.kind.msg().is_none() {
            return Err(format!("{name:?} printed without ':'"));
        }
    }
    if n == 0 {
        return Err(format!("{name:?} not printed at its place, found {:?}", items.get(*at)));
    }
    match v {
        RVal::List(l) => {
            if l.len() != nodes.len() {
                return Err(format!("{name:?}: {} elements printed of {}", nodes.len(), l.len()));
            }
            for (v, n) in l.iter().zip(nodes) {
                check_val(s, &f.kind, v, n, o)?;
            }
        }
        RVal::Map(mm) => {
            let (kf, vf) = s.map_kv(f);
            if mm.len() != nodes.len() {
                return Err(format!("{name:?}: {} entries printed of {}", nodes.len(), mm.len()));
            }
            let mut seen = BTreeSet::new();
            for n in nodes {
                let Node::Msg(e) = n else { return Err("map entry expected".into()) };
                let [a, b] = &e[..] else { return Err(format!("map entry with {} items", e.len())) };
                if a.name != Name::Id("key".into()) || b.name != Name::Id("value".into()) {
                    return Err("map entry items misnamed".into());
                }
                let k = to_key(denote_elem(s, &kf.kind, &a.node).map_err(|e| format!("{e:?}"))?);
                let Some(v) = mm.get(&k) else { return Err(format!("{name:?}: key {k:?} was never there")) };
                if !seen.insert(k) {
                    return Err("map key printed twice".into());
                }
                check_val(s, &vf.kind, v, &b.node, o)?;
            }
        }
        v => {
            let [n] = nodes[..] else { return Err(format!("{name:?} printed {} times", nodes.len())) };
            check_val(s, &f.kind, v, n, o)?;
        }
    }
    Ok(())
}

fn check_val(s: &RSchema, k: &RKind, v: &RVal, n: &Node, o: TOpts) -> Result<(), String> {
    match (v, n) {
        (RVal::Msg(m), Node::Msg(items)) => return check_doc(s, m, items, o),
        (RVal::Enum(x), n) => {
            let RKind::Enum(e) = k else { return Err("enum value".into()) };
            let e = &s.enums[e];
            let known = e.values.iter().any(|v| v.1 == *x);
            match n {
                Node::Tok(false, Tok::Ident(name)) => {
                    return match e.values.iter().find(|v| &v.0 == name) {
                        Some(v) if v.1 == *x => Ok(()),
                        _ => Err(format!("enum {x} printed as {name}")),
                    }
                }
                n => {
                    return match int_node(n) {
                        Ok((_, Some(y))) if y == *x as i128 && !known => Ok(()),
                        _ => Err(format!("enum {x} printed as {n:?}")),
                    }
                }
            }
        }
        _ => {}
    }
    let w = denote_elem(s, k, n).map_err(|e| format!("{e:?} printing {v:?}"))?;
    match crate::dynconv::vdiff(v, &w, crate::dynconv::LOOSE) {
        None => Ok(()),
        Some(d) => Err(format!("value vs printed: {d}")),
    }
}

fn check_unk(u: &RUnk, n: &Node) -> Result<(), String> {
    let set = |us: &[(u32, RUnk)], items: &[Item]| -> Result<(), String> {
        let mut us: Vec<&(u32, RUnk)> = us.iter().collect();
        us.sort_by_key(|u| u.0);
        let mut it = vec![];
        for i in items {
            match i.name {
                Name::Num(n) => it.push((n, &i.node)),
                _ => return Err(format!("unknown field named {:?}", i.name)),
            }
        }
        it.sort_by_key(|i| i.0);
        if us.len() != it.len() {
            return Err(format!("{} unknown fields printed of {}", it.len(), us.len()));
        }
        for (u, (n, x)) in us.iter().zip(it) {
            if u.0 != n {
                return Err(format!("unknown field {} printed as {n}", u.0));
            }
            check_unk(&u.1, x)?;
        }
        Ok(())
    };
    let hex = |n: &Node, w: usize| match n {
        Node::Tok(false, Tok::Int(d, 16)) if d.len() == w => u64::from_str_radix(d, 16).ok(),
        _ => None,
    };
    match u {
        RUnk::Varint(x) => match n {
            Node::Tok(false, Tok::Int(d, 10)) if d.parse() == Ok(*x) => Ok(()),
            n => Err(format!("unknown varint {x} printed as {n:?}")),
        },
        RUnk::F32(x) => match hex(n, 8) {
            Some(y) if y == *x as u64 => Ok(()),
            _ => Err(format!("unknown fixed32 {x:#x} printed as {n:?}")),
        },
        RUnk::F64(x) => match hex(n, 16) {
            Some(y) if y == *x => Ok(()),
            _ => Err(format!("unknown fixed64 {x:#x} printed as {n:?}")),
        },
        RUnk::Len(b) => match n {
            Node::Str(t) if t == b => Ok(()),
            Node::Msg(items) => match wire::decode_unknown(b) {
                Ok(us) => set(&us, items),
                Err(_) => Err(format!("unknown bytes {b:?} printed as a message")),
            },
            n => Err(format!("unknown bytes {b:?} printed as {n:?}")),
        },
        RUnk::Group(us) => match n {
            Node::Msg(items) => set(us, items),
            n => Err(format!("unknown group printed as {n:?}")),
        },
    }
}

// ------------------------------------------------------------------ spellings

pub struct TSpell<'a> {
    pub r: &'a mut Rng,
    pub s: &'a RSchema,
    pub used: BTreeMap<&'static str, u64>,
    /// corrupt the n-th value slot with an arbitrary token
    pub corrupt: Option<usize>,
    pub slot: usize,
    pub plain: bool,
}

const JUNK: &[&str] = &[
    "\"x\"", "'1'", "1", "-1", "0", "1.5", "1f", "1e3", "true", "false", "T", "TRUE", "tru", "foo", "{}", "<>", "[]", "[1]", "[{}]", "[[]]",
    "99999999999999999999999", "4294967296", "4294967295", "2147483648", "-2147483649", "-2147483648", "0x80000000", "-0x80000001",
    "18446744073709551616", "-9223372036854775809", "9223372036854775808", "\"\\xff\"", "'\\377\\376'", "'\\u12'", "'\\q'", "'\\U00110000'",
    "inf", "-inf", "-foo", "-true", "nan", "infi", "08", "0x", "0xg", "1foo", "-", "--1", "+1", "\"abc", "'a\nb'", "1 2", "\"a\" 1", "{", "}", "<}", "{>", ":", ",", "2",
    "1.5.2", "..5", "1.e", "1e", "0.5f.", "null", "[1,]", "[,1]", "[1 2]", "{key:1}", "{foo:1}", "{value:1 key:1 key:1}", "$", "é", "\"é\"", "'\\xc3'  '\\xa9'",
];

impl<'a> TSpell<'a> {
    pub fn new(r: &'a mut Rng, s: &'a RSchema) -> Self {
        let plain = r.pct(15);
        TSpell { r, s, used: BTreeMap::new(), corrupt: None, slot: 0, plain }
    }
    fn mark(&mut self, k: &'static str) {
        *self.used.entry(k).or_default() += 1;
    }
    fn ws(&mut self) -> &'static str {
        if self.plain || self.r.pct(70) {
            return "";
        }
        *self.r.pick(&[" ", " ", "  ", "\t", "\n", "\r\n", "\x0b\x0c", "# c {}\"'\n", " #\n", "\n  "])
    }

    fn int(&mut self, v: i128) -> String {
        let neg = v < 0;
        let a = v.unsigned_abs();
        let mut s = String::new();
        if neg {
            s.push('-');
            s.push_str(self.ws());
        }
        let k = if self.plain { 9 } else { self.r.below(8) };
        match k {
            0 => {
                self.mark("int_hex");
                let h = if self.r.bool() { format!("{a:x}") } else { format!("{a:X}") };
                s.push_str(&format!("0{}{}{h}", if self.r.bool() { "x" } else { "X" }, if self.r.pct(20) { "00" } else { "" }));
            }
            1 => {
                self.mark("int_octal");
                s.push_str(&format!("0{a:o}"));
            }
            _ => s.push_str(&a.to_string()),
        }
        s
    }

    fn float(&mut self, exact: String, f: f64, nonneg: bool) -> String {
        let _ = nonneg;
        if f.is_nan() {
            self.mark("float_nan");
            return self.r.pick(&["nan", "NaN", "NAN", "-nan", "- nan"]).to_string();
        }
        let neg = f.is_sign_negative();
        let mut s = String::new();
        if neg {
            s.push('-');
            s.push_str(self.ws());
        }
        if f.is_infinite() {
            self.mark("float_inf");
            s.push_str(*self.r.pick(&["inf", "Inf", "INF", "infinity", "Infinity", "INFINITY", "iNfInItY"]));
            return s;
        }
        let e = exact.trim_start_matches('-').to_string();
        match self.r.below(9) {
            0 if !e.contains('.') && !e.contains('e') => {
                self.mark("float_trailing_point");
                s.push_str(&format!("{e}."));
            }
            1 if e.starts_with("0.") && !e.contains('e') => {
                self.mark("float_leading_point");
                s.push_str(&e[1..]);
            }
            2 => {
                self.mark("float_suffix");
                s.push_str(&format!("{e}{}", self.r.pick(&["f", "F"])));
            }
            3 if !e.contains('e') => {
                self.mark("float_exponent");
                s.push_str(&format!("{e}{}", self.r.pick(&["e0", "E0", "e+0", "e-0", "E00"])));
            }
            4 if !e.contains('e') && e.contains('.') => s.push_str(&format!("{e}000")),
            5 if !e.contains('.') && !e.contains('e') && e.len() < 300 => {
                s.push_str(&format!("{e}.0"));
            }
            6 if e.contains("e") => {
                self.mark("float_exponent");
                let x = e.replace("e-", "\0").replace('e', "e+").replace('\0', "e-");
                s.push_str(&if self.r.bool() { x.to_uppercase() } else { x });
            }
            _ => s.push_str(&e),
        }
        s
    }

    fn f64(&mut self, b: u64) -> String {
        let f = f64::from_bits(b);
        let e = if self.r.bool() { format!("{f}") } else { format!("{f:e}") };
        self.float(e, f, true)
    }
    fn f32(&mut self, b: u32) -> String {
        let f = f32::from_bits(b);
        let mut e = if self.r.bool() { format!("{f}") } else { format!("{f:e}") };
        if f.is_finite() && e.parse::<f64>().unwrap() as f32 != f {
            e = format!("{:e}", f as f64);
        }
        self.float(e, f as f64, true)
    }

    /// A byte string as one or more adjacent literals. `utf8`: raw characters may be used.
    fn string(&mut self, b: &[u8]) -> String {
        let mut units: Vec<(Option<char>, Vec<u8>)> = vec![];
        let mut i = 0;
        while i < b.len() {
            let n = match b[i] {
                0..=0x7f => 1,
                0xc2..=0xdf => 2,
                0xe0..=0xef => 3,
                0xf0..=0xf4 => 4,
                _ => 0,
            };
            let ch = if n > 0 && i + n <= b.len() { std::str::from_utf8(&b[i..i + n]).ok().and_then(|t| t.chars().next()) } else { None };
            match ch {
                Some(c) => {
                    units.push((Some(c), b[i..i + n].to_vec()));
                    i += n;
                }
                None => {
                    units.push((None, vec![b[i]]));
                    i += 1;
                }
            }
        }
        let pieces = if self.plain { 1 } else { *self.r.pick(&[1, 1, 1, 2, 3]) };
        if pieces > 1 {
            self.mark("string_concat");
        }
        let mut cuts: Vec<usize> = (1..pieces).map(|_| self.r.below(units.len() + 1)).collect();
        cuts.sort();
        cuts.push(units.len());
        let mut out = String::new();
        let mut k = 0;
        for (pi, c) in cuts.iter().enumerate() {
            if pi > 0 {
                out.push_str(self.ws());
            }
            let q = if self.r.bool() { '"' } else { '\'' };
            if q == '\'' {
                self.mark("string_single_quote");
            }
            out.push(q);
            // when the previous escape was short, the next raw char must not extend it
            let mut guard_hex = false;
            let mut guard_oct = false;
            while k < *c {
                let (ch, raw) = units[k].clone();
                k += 1;
                let must = match ch {
                    None => true,
                    Some(c) => c == q || c == '\\' || c == '\n' || c == '\0',
                } || (guard_hex && raw[0].is_ascii_hexdigit())
                    || (guard_oct && raw[0].is_ascii_digit());
                guard_hex = false;
                guard_oct = false;
                if !must && (self.plain || self.r.pct(75)) {
                    out.push(ch.unwrap());
                    continue;
                }
                if let Some(c) = ch {
                    let e = match c {
                        '\n' => "n",
                        '\r' => "r",
                        '\t' => "t",
                        '\u{7}' => "a",
                        '\u{8}' => "b",
                        '\u{b}' => "v",
                        '\u{c}' => "f",
                        '"' => "\"",
                        '\'' => "'",
                        '\\' => "\\",
                        '?' => "?",
                        _ => "",
                    };
                    if !e.is_empty() && self.r.pct(70) {
                        out.push('\\');
                        out.push_str(e);
                        continue;
                    }
                    if self.r.pct(30) {
                        self.mark("string_unicode_escape");
                        let cp = c as u32;
                        if cp < 0x10000 && self.r.bool() {
                            out.push_str(&format!("\\u{cp:04x}"));
                        } else {
                            out.push_str(&format!("\\U{cp:08X}"));
                        }
                        continue;
                    }
                }
                for x in raw {
                    match self.r.below(4) {
                        0 => {
                            self.mark("string_hex_escape");
                            if x < 16 && self.r.bool() {
                                out.push_str(&format!("\\x{x:x}"));
                                guard_hex = true;
                                continue;
                            }
                            out.push_str(&format!("\\x{x:02x}"));
                        }
                        1 if x < 64 => {
                            self.mark("string_short_octal");
                            out.push_str(&format!("\\{x:o}"));
                            guard_oct = true;
                            continue;
                        }
                        _ => out.push_str(&format!("\\{x:03o}")),
                    }
                    guard_hex = false;
                    guard_oct = false;
                }
            }
            out.push(q);
        }
        out
    }

    pub fn elem(&mut self, k: &RKind, v: &RVal) -> String {
        self.slot += 1;
        if self.corrupt == Some(self.slot) {
            return self.r.pick(JUNK).to_string();
        }
        match v {
            RVal::Bool(b) => {
                if self.plain {
                    return b.to_string();
                }
                self.mark("bool_form");
                if *b {
                    self.r.pick(&["true", "True", "t", "1", "0x1", "01", "0x01"]).to_string()
                } else {
                    self.r.pick(&["false", "False", "f", "0", "0x0", "00"]).to_string()
                }
            }
            RVal::I32(x) => self.int(*x as i128),
            RVal::I64(x) => self.int(*x as i128),
            RVal::U32(x) => self.int(*x as i128),
            RVal::U64(x) => self.int(*x as i128),
            RVal::F32(x) => self.f32(*x),
            RVal::F64(x) => self.f64(*x),
            RVal::Str(x) => self.string(x.as_bytes()),
            RVal::Bytes(x) => self.string(x),
            RVal::Enum(x) => {
                let RKind::Enum(e) = k else { panic!() };
                let names: Vec<&str> = self.s.enums[e].values.iter().filter(|v| v.1 == *x).map(|v| v.0.as_str()).collect();
                if names.is_empty() || (!self.plain && self.r.pct(25)) {
                    self.mark("enum_number");
                    return self.int(*x as i128);
                }
                let i = self.r.below(names.len());
                if i > 0 {
                    self.mark("enum_alias");
                }
                names[i].to_string()
            }
            RVal::Msg(m) => self.braced(m),
            _ => panic!("elem {v:?}"),
        }
    }

    fn braced(&mut self, m: &RMsg) -> String {
        let (a, b) = if !self.plain && self.r.pct(30) {
            self.mark("angle");
            ('<', '>')
        } else {
            ('{', '}')
        };
        let c = self.chunks(m);
        let body = self.join(&c);
        format!("{a}{}{body}{}{b}", self.ws(), self.ws())
    }

    /// Chunks in a permitted order: each is one `name value`.
    pub fn join(&mut self, c: &[String]) -> String {
        let mut out = String::new();
        for (i, x) in c.iter().enumerate() {
            out.push_str(x);
            let last = i + 1 == c.len();
            if self.plain {
                if !last {
                    out.push('\n');
                }
                continue;
            }
            let tight = matches!(out.as_bytes().last(), Some(b'}' | b'>' | b']' | b'"' | b'\''));
            match self.r.below(6) {
                0 => {
                    self.mark("comma");
                    let w = self.ws();
                    out.push_str(&format!("{w},"));
                }
                1 => {
                    self.mark("semicolon");
                    out.push_str(&format!("{};", self.ws()));
                }
                2 if tight => {}
                _ if last => {}
                _ => out.push_str(*self.r.pick(&[" ", "\n", "\t", " # note: [x] \n"])),
            }
            out.push_str(self.ws());
        }
        out
    }

    fn name(&mut self, f: &RField) -> String {
        if f.is_ext {
            self.mark("extension");
            let mut s = String::from("[");
            for (i, p) in f.full_name.split('.').enumerate() {
                if i > 0 {
                    s.push_str(self.ws());
                    s.push('.');
                }
                s.push_str(self.ws());
                s.push_str(p);
            }
            s.push_str(self.ws());
            s.push(']');
            return s;
        }
        if f.is_group() {
            self.mark("group");
            return simple(f.kind.msg().unwrap()).to_string();
        }
        f.name.clone()
    }

    fn with_name(&mut self, f: &RField, body: String, list: bool) -> String {
        let n = self.name(f);
        let msg = f.kind.msg().is_some();
        let colon = if !msg {
            true
        } else if self.plain {
            false
        } else {
            self.r.bool()
        };
        if msg && colon {
            self.mark("message_colon");
        }
        if msg && !colon && list {
            self.mark("message_list_no_colon");
        }
        let c = if colon { ":" } else { "" };
        format!("{n}{}{c}{}{body}", self.ws(), self.ws())
    }

    pub fn chunks(&mut self, m: &RMsg) -> Vec<String> {
        let s = self.s;
        if m.ty == "google.protobuf.Any" && self.r.pct(75) {
            if let Ok((url, p)) = any_payload(s, m) {
                if let Some((d, t)) = any_name(&url) {
                    self.mark("any_expanded");
                    let b = self.braced(&p);
                    let c = if self.plain || self.r.bool() { "" } else { ":" };
                    return vec![format!("[{}{d}{}/{}{t}{}]{c}{}{b}", self.ws(), self.ws(), self.ws(), self.ws(), self.ws())];
                }
            }
        }
        let mut queues: Vec<Vec<String>> = vec![];
        for (n, v) in &m.fields {
            let f = s.field_of(&m.ty, *n).unwrap();
            let mut q = vec![];
            let mut bodies: Vec<String> = match v {
                RVal::List(l) => l.iter().map(|v| self.elem(&f.kind, v)).collect(),
                RVal::Map(mm) => {
                    let mut ents: Vec<String> = vec![];
                    let (kf, vf) = s.map_kv(f);
                    let mut keys: Vec<&RKey> = mm.keys().collect();
                    self.r.shuffle(&mut keys);
                    for k in &keys {
                        if self.r.pct(10) && !self.plain {
                            // overridden by the later entry of the same key
                            let other = mm.values().next().unwrap().clone();
                            ents.push(self.entry(f, kf, vf, k, &other));
                            self.mark("map_override");
                        }
                        ents.push(self.entry(f, kf, vf, k, &mm[*k]));
                    }
                    ents
                }
                v => {
                    let b = self.elem(&f.kind, v);
                    let t = self.with_name(f, b, false);
                    queues.push(vec![t]);
                    continue;
                }
            };
            while !bodies.is_empty() {
                let k = if self.plain { bodies.len() } else { 1 + self.r.below(bodies.len()) };
                let take: Vec<String> = bodies.drain(..k).collect();
                if take.len() == 1 && self.r.bool() {
                    let t = self.with_name(f, take.into_iter().next().unwrap(), false);
                    q.push(t);
                } else {
                    self.mark("list_form");
                    let mut b = String::from("[");
                    for (i, x) in take.iter().enumerate() {
                        if i > 0 {
                            b.push(',');
                        }
                        b.push_str(self.ws());
                        b.push_str(x);
                        b.push_str(self.ws());
                    }
                    b.push(']');
                    let t = self.with_name(f, b, true);
                    q.push(t);
                }
            }
            if !self.plain && self.r.pct(8) {
                self.mark("empty_list");
                let t = self.with_name(f, "[]".into(), true);
                let i = self.r.below(q.len() + 1);
                q.insert(i, t);
            }
            queues.push(q);
        }
        if !self.plain {
            for f in s.msg(&m.ty).fields.values() {
                if !f.presence && f.singular() && f.kind.msg().is_none() && !m.fields.contains_key(&f.number) && self.r.pct(8) {
                    self.mark("explicit_default");
                    let z = zero_of(s, &f.kind);
                    let b = self.elem(&f.kind, &z);
                    let t = self.with_name(f, b, false);
                    queues.push(vec![t]);
                }
            }
        }
        let mut out = vec![];
        let mut heads = vec![0; queues.len()];
        loop {
            let live: Vec<usize> = (0..queues.len()).filter(|i| heads[*i] < queues[*i].len()).collect();
            if live.is_empty() {
                return out;
            }
            let i = if self.plain { live[0] } else { *self.r.pick(&live) };
            out.push(queues[i][heads[i]].clone());
            heads[i] += 1;
        }
    }

    fn entry(&mut self, f: &RField, kf: &RField, vf: &RField, k: &RKey, v: &RVal) -> String {
        let _ = f;
        let kv = from_key(k);
        let mut parts = vec![];
        if kv != zero_of(self.s, &kf.kind) || self.plain || self.r.pct(60) {
            let b = self.elem(&kf.kind, &kv);
            parts.push(self.with_name(kf, b, false));
        } else {
            self.mark("map_key_omitted");
        }
        if *v != zero_of(self.s, &vf.kind) || self.plain || self.r.pct(60) {
            let b = self.elem(&vf.kind, v);
            parts.push(self.with_name(vf, b, false));
        } else {
            self.mark("map_value_omitted");
        }
        if !self.plain && self.r.bool() {
            parts.reverse();
        }
        let (a, b) = if !self.plain && self.r.pct(30) { ('<', '>') } else { ('{', '}') };
        let body = self.join(&parts);
        format!("{a}{}{body}{}{b}", self.ws(), self.ws())
    }
}
