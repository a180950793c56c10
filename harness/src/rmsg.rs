//! Reference value model and value generator.
use crate::rng::Rng;
use crate::schema::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum RKey {
    Bool(bool),
    I32(i32),
    I64(i64),
    U32(u32),
    U64(u64),
    Str(String),
}

/// Floats are kept as bits.
#[derive(Clone, Debug, PartialEq)]
pub enum RVal {
    Bool(bool),
    I32(i32),
    I64(i64),
    U32(u32),
    U64(u64),
    F32(u32),
    F64(u64),
    Str(String),
    Bytes(Vec<u8>),
    Enum(i32),
    Msg(RMsg),
    List(Vec<RVal>),
    Map(BTreeMap<RKey, RVal>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum RUnk {
    Varint(u64),
    F32(u32),
    F64(u64),
    Len(Vec<u8>),
    Group(Vec<(u32, RUnk)>),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct RMsg {
    pub ty: String,
    pub fields: BTreeMap<u32, RVal>,
    pub unknown: Vec<(u32, RUnk)>,
}

impl RMsg {
    pub fn new(ty: &str) -> RMsg {
        RMsg { ty: ty.to_string(), ..Default::default() }
    }
    /// unknown fields grouped by number, order within a number kept
    pub fn sort_unknown(&mut self) {
        self.unknown.sort_by_key(|u| u.0);
        for v in self.fields.values_mut() {
            v.for_msgs_mut(&mut |m| m.sort_unknown());
        }
    }
    pub fn strip_unknown(&mut self) {
        self.unknown.clear();
        for v in self.fields.values_mut() {
            v.for_msgs_mut(&mut |m| m.strip_unknown());
        }
    }
    pub fn size(&self) -> usize {
        1 + self.fields.values().map(|v| v.size()).sum::<usize>() + self.unknown.len()
    }
    pub fn depth(&self) -> usize {
        let mut d = 0;
        for v in self.fields.values() {
            v.for_msgs(&mut |m| d = d.max(m.depth()));
        }
        d + 1
    }
}

impl RVal {
    pub fn size(&self) -> usize {
        match self {
            RVal::Msg(m) => m.size(),
            RVal::List(l) => 1 + l.iter().map(|v| v.size()).sum::<usize>(),
            RVal::Map(l) => 1 + l.values().map(|v| v.size()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn for_msgs<'a>(&'a self, f: &mut dyn FnMut(&'a RMsg)) {
        match self {
            RVal::Msg(m) => f(m),
            RVal::List(l) => l.iter().for_each(|v| v.for_msgs(f)),
            RVal::Map(l) => l.values().for_each(|v| v.for_msgs(f)),
            _ => {}
        }
    }
    pub fn for_msgs_mut(&mut self, f: &mut dyn FnMut(&mut RMsg)) {
        match self {
            RVal::Msg(m) => f(m),
            RVal::List(l) => l.iter_mut().for_each(|v| v.for_msgs_mut(f)),
            RVal::Map(l) => l.values_mut().for_each(|v| v.for_msgs_mut(f)),
            _ => {}
        }
    }
}

/// Does this value equal what an implicit-presence field holds when absent?
pub fn is_zero(s: &RSchema, f: &RField, v: &RVal) -> bool {
    match v {
        RVal::List(l) => l.is_empty(),
        RVal::Map(m) => m.is_empty(),
        RVal::Bool(b) => !b,
        RVal::I32(x) => *x == 0,
        RVal::I64(x) => *x == 0,
        RVal::U32(x) => *x == 0,
        RVal::U64(x) => *x == 0,
        RVal::F32(x) => *x == 0,
        RVal::F64(x) => *x == 0,
        RVal::Str(x) => x.is_empty(),
        RVal::Bytes(x) => x.is_empty(),
        RVal::Enum(x) => match &f.kind {
            RKind::Enum(n) => *x == s.enum_default(n),
            _ => *x == 0,
        },
        RVal::Msg(_) => false,
    }
}

/// The zero value of a kind (what a missing map key/value means).
pub fn zero_of(s: &RSchema, k: &RKind) -> RVal {
    use RKind::*;
    match k {
        Double => RVal::F64(0),
        Float => RVal::F32(0),
        Int32 | Sint32 | Sfixed32 => RVal::I32(0),
        Int64 | Sint64 | Sfixed64 => RVal::I64(0),
        Uint32 | Fixed32 => RVal::U32(0),
        Uint64 | Fixed64 => RVal::U64(0),
        Bool => RVal::Bool(false),
        Str => RVal::Str(String::new()),
        Bytes => RVal::Bytes(vec![]),
        Enum(n) => RVal::Enum(s.enum_default(n)),
        Msg(n) | Group(n) => RVal::Msg(RMsg::new(n)),
    }
}

/// The value `get` must report for an absent field.
pub fn default_of(s: &RSchema, f: &RField) -> RVal {
    if f.is_map {
        return RVal::Map(BTreeMap::new());
    }
    if f.card == Card::Rep {
        return RVal::List(vec![]);
    }
    let Some(d) = &f.default else { return zero_of(s, &f.kind) };
    use RKind::*;
    match &f.kind {
        Double => RVal::F64(parse_float(d).to_bits()),
        Float => RVal::F32(match d.as_str() {
            "inf" | "-inf" | "nan" => parse_float(d) as f32,
            _ => d.parse::<f32>().unwrap(),
        }
        .to_bits()),
        Int32 | Sint32 | Sfixed32 => RVal::I32(d.parse().unwrap()),
        Int64 | Sint64 | Sfixed64 => RVal::I64(d.parse().unwrap()),
        Uint32 | Fixed32 => RVal::U32(d.parse().unwrap()),
        Uint64 | Fixed64 => RVal::U64(d.parse().unwrap()),
        Bool => RVal::Bool(d == "true"),
        Str => RVal::Str(d.clone()),
        Bytes => RVal::Bytes(unescape(d)),
        Enum(n) => RVal::Enum(s.enums[n].values.iter().find(|v| &v.0 == d).unwrap().1),
        Msg(_) | Group(_) => unreachable!(),
    }
}

fn parse_float(d: &str) -> f64 {
    match d {
        "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "nan" => f64::NAN,
        _ => d.parse().unwrap(),
    }
}

/// C-style unescape for the default values our generator emits.
pub fn unescape(d: &str) -> Vec<u8> {
    let b = d.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            out.push(b[i]);
            i += 1;
            continue;
        }
        i += 1;
        let c = b[i];
        i += 1;
        match c {
            b'n' => out.push(10),
            b'r' => out.push(13),
            b't' => out.push(9),
            b'a' => out.push(7),
            b'b' => out.push(8),
            b'f' => out.push(12),
            b'v' => out.push(11),
            b'x' | b'X' => {
                let mut v = 0u32;
                let mut n = 0;
                while i < b.len() && b[i].is_ascii_hexdigit() && n < 2 {
                    v = v * 16 + (b[i] as char).to_digit(16).unwrap();
                    i += 1;
                    n += 1;
                }
                out.push(v as u8);
            }
            b'0'..=b'7' => {
                let mut v = (c - b'0') as u32;
                let mut n = 1;
                while i < b.len() && (b'0'..=b'7').contains(&b[i]) && n < 3 {
                    v = v * 8 + (b[i] - b'0') as u32;
                    i += 1;
                    n += 1;
                }
                out.push(v as u8);
            }
            o => out.push(o),
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct ValCfg {
    pub max_depth: usize,
    pub max_len: usize,
    pub unknown: bool,
    pub exts: bool,
    /// keep well-known types inside their documented JSON range
    pub wkt_valid: bool,
    /// NaN allowed
    pub nan: bool,
    /// enum numbers without a declared value allowed
    pub unknown_enum: bool,
    /// fill probability of each field, percent
    pub fill: u32,
    /// only one Any nesting etc.
    pub budget: usize,
    /// empty Any messages allowed
    pub any_empty: bool,
    /// only `type.googleapis.com/` in Any
    pub one_prefix: bool,
    /// no one-letter words in field masks
    pub plain_masks: bool,
    /// types never in Any
    pub any_skip: &'static [&'static str],
}

impl Default for ValCfg {
    fn default() -> Self {
        ValCfg {
            max_depth: 4,
            max_len: 4,
            unknown: false,
            exts: true,
            wkt_valid: true,
            nan: true,
            unknown_enum: true,
            fill: 55,
            budget: 120,
            any_empty: true,
            one_prefix: false,
            any_skip: &[],
            plain_masks: false,
        }
    }
}

pub struct ValGen<'a> {
    pub r: &'a mut Rng,
    pub s: &'a RSchema,
    pub c: ValCfg,
    pub left: isize,
}

const STRS: &[&str] = &[
    "",
    "a",
    "hello world",
    "quote \" and ' and \\",
    "line\nbreak\r\ttab",
    "nul\0inside",
    "ünïcödé ✓ 🎉",
    "\u{7f}\u{80}\u{7ff}\u{ffff}\u{10ffff}",
    "</script>\u{2028}\u{2029}",
    "true",
    "123",
    "NaN",
    "\u{1}\u{1f}",
    "?? trigraph ??/",
    "\\x41\\101",
    "\u{feff}bom",
    "ends with backslash \\",
    "a\u{301}",
];

pub fn gen_f64(r: &mut Rng, nan: bool) -> u64 {
    let v = match r.below(18) {
        0 => 0.0,
        1 => -0.0,
        2 => 1.0,
        3 => f64::INFINITY,
        4 => f64::NEG_INFINITY,
        5 if nan => f64::NAN,
        6 => f64::MIN_POSITIVE,
        7 => f64::MAX,
        8 => 5e-324,
        9 => 0.1,
        10 => 9007199254740993.0,
        11 => -1.5,
        12 => (r.range(-1000000, 1000000) as f64) / 64.0,
        13 => 1e21,
        14 | 15 => {
            // around the limits of the integers
            let x = *r.pick(&[(1u64 << 63) as f64, 1.5 * (1u64 << 63) as f64, (1u64 << 32) as f64, (1u64 << 31) as f64, (1u64 << 53) as f64, u64::MAX as f64]);
            if r.bool() { x } else { -x }
        }
        _ => loop {
            let x = f64::from_bits(r.u64());
            if !x.is_nan() {
                break x;
            }
        },
    };
    v.to_bits()
}

pub fn gen_f32(r: &mut Rng, nan: bool) -> u32 {
    let v = match r.below(18) {
        0 => 0.0,
        1 => -0.0,
        2 => 1.0,
        3 => f32::INFINITY,
        4 => f32::NEG_INFINITY,
        5 if nan => f32::NAN,
        6 => f32::MIN_POSITIVE,
        7 => f32::MAX,
        8 => 1e-45,
        9 => 0.1,
        10 => 16777217.0,
        11 => -1.5,
        12 => f32::MIN,
        13 => 1e10,
        14 | 15 => {
            // around the limits of the integers
            let x = *r.pick(&[(1u64 << 63) as f32, 1.5 * (1u64 << 63) as f32, (1u64 << 32) as f32, (1u64 << 31) as f32, (1u64 << 53) as f32, u64::MAX as f32]);
            if r.bool() { x } else { -x }
        }
        _ => loop {
            let x = f32::from_bits(r.u32());
            if !x.is_nan() {
                break x;
            }
        },
    };
    v.to_bits()
}

pub fn gen_i64(r: &mut Rng) -> i64 {
    match r.below(14) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 => i64::MAX,
        4 => i64::MIN,
        5 => i32::MAX as i64 + 1,
        6 => i32::MIN as i64 - 1,
        7 => 1 << 53,
        8 => (1 << 53) + 1,
        9 => -(1 << 53) - 1,
        10 => r.range(-300, 300),
        11 => 1 << r.below(63),
        _ => r.u64() as i64,
    }
}

pub fn gen_u64(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u32::MAX as u64 + 1,
        4 => i64::MAX as u64 + 1,
        5 => 127 + r.below(3) as u64,
        6 => 1 << r.below(64),
        _ => r.u64(),
    }
}

pub fn gen_i32(r: &mut Rng) -> i32 {
    match r.below(9) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 => i32::MAX,
        4 => i32::MIN,
        5 => r.range(-300, 300) as i32,
        6 => 1 << r.below(31),
        _ => r.u32() as i32,
    }
}

pub fn gen_u32(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => u32::MAX,
        3 => i32::MAX as u32 + 1,
        4 => 127 + r.below(3) as u32,
        5 => 1 << r.below(32),
        _ => r.u32(),
    }
}

pub fn gen_str(r: &mut Rng) -> String {
    match r.below(5) {
        0 | 1 => r.pick(STRS).to_string(),
        2 => {
            let n = r.below(6);
            (0..n)
                .map(|_| loop {
                    if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                        break c;
                    }
                })
                .collect()
        }
        3 => {
            let n = r.below(12);
            (0..n).map(|_| (r.below(128) as u8) as char).collect()
        }
        _ => format!("s{}", r.below(1000)),
    }
}

/// Lengths around the limits of one- and two-byte varints.
fn long_str(r: &mut Rng) -> String {
    let n = match r.below(12) {
        0 => 16_380 + r.below(10),
        1 => 1000 + r.below(3000),
        2 => 30 + r.below(60),
        _ => 120 + r.below(16),
    };
    let c = *r.pick(&["a", "x\"", "é", "\n"]);
    let mut s = c.repeat(n / c.len());
    while s.len() < n {
        s.push('b');
    }
    s
}

pub fn gen_bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => vec![],
        1 => r.pick(STRS).as_bytes().to_vec(),
        2 => (0..=255).collect(),
        _ => {
            let n = r.below(9);
            r.bytes(n)
        }
    }
}

impl<'a> ValGen<'a> {
    pub fn new(r: &'a mut Rng, s: &'a RSchema, c: ValCfg) -> Self {
        let left = c.budget as isize;
        ValGen { r, s, c, left }
    }

    pub fn scalar(&mut self, k: &RKind) -> RVal {
        use RKind::*;
        let nan = self.c.nan;
        let r = &mut *self.r;
        match k {
            Double => RVal::F64(gen_f64(r, nan)),
            Float => RVal::F32(gen_f32(r, nan)),
            Int32 | Sint32 | Sfixed32 => RVal::I32(gen_i32(r)),
            Int64 | Sint64 | Sfixed64 => RVal::I64(gen_i64(r)),
            Uint32 | Fixed32 => RVal::U32(gen_u32(r)),
            Uint64 | Fixed64 => RVal::U64(gen_u64(r)),
            Bool => RVal::Bool(r.bool()),
            Str if self.c.max_len >= 4 && r.pct(2) => RVal::Str(long_str(r)),
            Bytes if self.c.max_len >= 4 && r.pct(2) => RVal::Bytes(long_str(r).into_bytes()),
            Str => RVal::Str(gen_str(r)),
            Bytes => RVal::Bytes(gen_bytes(r)),
            Enum(n) => {
                let e = &self.s.enums[n];
                let only_known = !self.c.unknown_enum
                    || n == "google.protobuf.NullValue";
                if !only_known && r.pct(20) {
                    RVal::Enum(gen_i32(r))
                } else {
                    RVal::Enum(r.pick(&e.values).1)
                }
            }
            Msg(_) | Group(_) => unreachable!(),
        }
    }

    pub fn key(&mut self, k: &RKind) -> RKey {
        match self.scalar(k) {
            RVal::Bool(b) => RKey::Bool(b),
            RVal::I32(b) => RKey::I32(b),
            RVal::I64(b) => RKey::I64(b),
            RVal::U32(b) => RKey::U32(b),
            RVal::U64(b) => RKey::U64(b),
            RVal::Str(b) => RKey::Str(b),
            v => panic!("bad key {v:?}"),
        }
    }

    pub fn elem(&mut self, k: &RKind, depth: usize) -> RVal {
        match k {
            RKind::Msg(n) | RKind::Group(n) => RVal::Msg(self.msg(&n.clone(), depth + 1)),
            k => self.scalar(k),
        }
    }

    /// Number of elements of a list or map: mostly small, sometimes beyond what any buffer or one-byte length holds.
    fn len(&mut self, msgs: bool) -> usize {
        if self.c.max_len >= 4 && self.left > 0 {
            if !msgs && self.r.pct(3) {
                return *self.r.pick(&[8, 9, 16, 17, 32, 33, 65, 127, 128, 130]);
            }
            if msgs && self.left > 20 && self.r.pct(2) {
                return *self.r.pick(&[8, 17, 33]);
            }
        }
        1 + self.r.below(self.c.max_len)
    }

    /// A present (non-absent) value for a field, or None when none was produced.
    pub fn field(&mut self, f: &RField, depth: usize) -> Option<RVal> {
        if f.is_map {
            let (kf, vf) = self.s.map_kv(f);
            let n = self.len(vf.kind.msg().is_some());
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = self.key(&kf.kind);
                let v = self.elem(&vf.kind, depth);
                m.insert(k, v);
            }
            return Some(RVal::Map(m));
        }
        if f.card == Card::Rep {
            let n = self.len(f.kind.msg().is_some());
            return Some(RVal::List((0..n).map(|_| self.elem(&f.kind, depth)).collect()));
        }
        let v = self.elem(&f.kind, depth);
        if !f.presence && is_zero(self.s, f, &v) {
            return None;
        }
        Some(v)
    }

    pub fn msg(&mut self, ty: &str, depth: usize) -> RMsg {
        let mut m = RMsg::new(ty);
        self.left -= 1;
        if self.c.wkt_valid && ty.starts_with("google.protobuf.") && self.wkt(ty, &mut m, depth) {
            return m;
        }
        let s = self.s;
        let d = s.msg(ty);
        let deep = depth >= self.c.max_depth || self.left <= 0;
        let mut fill = self.c.fill;
        if self.r.pct(8) {
            fill = 100;
        } else if self.r.pct(8) {
            fill = 10;
        }
        if self.left <= 0 {
            fill = fill.min(30);
        }
        let mut done_oneofs = vec![];
        for f in d.fields.values() {
            if let Some(o) = f.oneof {
                if d.oneofs[o].fields.len() > 1 {
                    if done_oneofs.contains(&o) || !self.r.pct(fill) {
                        continue;
                    }
                    // choose one member
                    let n = *self.r.pick(&d.oneofs[o].fields);
                    done_oneofs.push(o);
                    let f = &d.fields[&n];
                    if f.kind.msg().is_some() && deep {
                        continue;
                    }
                    if let Some(v) = self.field(f, depth) {
                        m.fields.insert(n, v);
                    }
                    continue;
                }
            }
            if deep && self.has_msg(f) {
                continue;
            }
            if self.r.pct(fill) {
                if let Some(v) = self.field(f, depth) {
                    m.fields.insert(f.number, v);
                }
            }
        }
        if self.c.exts {
            let exts: Vec<&RField> = s.exts_of(ty).collect();
            for f in exts {
                if deep && self.has_msg(f) {
                    continue;
                }
                if self.r.pct(fill) {
                    if let Some(v) = self.field(f, depth) {
                        m.fields.insert(f.number, v);
                    }
                }
            }
        }
        if self.c.unknown && self.r.pct(40) {
            let n = 1 + self.r.below(4);
            for _ in 0..n {
                let num = self.unknown_number(ty);
                let u = gen_unk(self.r, 2);
                m.unknown.push((num, u));
            }
            m.unknown.sort_by_key(|u| u.0);
        }
        m
    }

    fn has_msg(&self, f: &RField) -> bool {
        if f.is_map {
            self.s.map_kv(f).1.kind.msg().is_some()
        } else {
            f.kind.msg().is_some()
        }
    }

    pub fn unknown_number(&mut self, ty: &str) -> u32 {
        loop {
            let n = match self.r.below(6) {
                0 => 536_870_911,
                1 => self.r.range(19000, 19999) as u32,
                2 => self.r.range(1, 40) as u32,
                3 => self.r.range(1, 4000) as u32,
                4 => *self.r.pick(&[15, 16, 2047, 2048, 262143, 262144]),
                _ => self.r.range(1, 536_870_911) as u32,
            };
            if self.s.field_of(ty, n).is_none() {
                return n;
            }
        }
    }

    /// In-range values of the well-known types. Returns false for types without a special form.
    fn wkt(&mut self, ty: &str, m: &mut RMsg, depth: usize) -> bool {
        let put = |m: &mut RMsg, n: u32, v: RVal, zero: bool| {
            if !zero {
                m.fields.insert(n, v);
            }
        };
        match ty.trim_start_matches("google.protobuf.") {
            "Timestamp" => {
                let s = match self.r.below(6) {
                    0 => -62135596800,
                    1 => 253402300799,
                    2 => 0,
                    3 => self.r.range(-100000, 100000),
                    4 => self.r.range(0, 60000) * 86400 + *self.r.pick(&[0, 86399]),
                    _ => self.r.range(-62135596800, 253402300799),
                };
                let n = *self.r.pick(&[0, 0, 1, 999_999_999, 100_000_000, 1000, 1_000_000, 123_456_789, 10, 120_000]);
                put(m, 1, RVal::I64(s), s == 0);
                put(m, 2, RVal::I32(n), n == 0);
            }
            "Duration" => {
                let s = match self.r.below(5) {
                    0 => 315_576_000_000,
                    1 => -315_576_000_000,
                    2 => 0,
                    3 => self.r.range(-100, 100),
                    _ => self.r.range(-315_576_000_000, 315_576_000_000),
                };
                let mut n: i32 =
                    *self.r.pick(&[0, 0, 1, 999_999_999, 100_000_000, 1000, 1_000_000, 123_456_789, 10, 120_000]);
                if s.abs() == 315_576_000_000 {
                    n = 0;
                }
                if s < 0 || (s == 0 && self.r.bool()) {
                    n = -n;
                }
                put(m, 1, RVal::I64(s), s == 0);
                put(m, 2, RVal::I32(n), n == 0);
            }
            "FieldMask" => {
                let k = self.r.below(4);
                let from: &[&str] = if self.c.plain_masks {
                    &["foo", "foo_bar", "a.bc_de.d", "f.b1", "one_two.three_four", "a1_bc"]
                } else {
                    &["foo", "foo_bar", "a.b_c.d", "f.b1", "x_y_z", "one_two.three_four", "a1_b", "a_b_c_d"]
                };
                let paths: Vec<RVal> = (0..k)
                    .map(|_| RVal::Str(self.r.pick(from).to_string()))
                    .collect();
                if !paths.is_empty() {
                    m.fields.insert(1, RVal::List(paths));
                }
            }
            "Empty" => {}
            "Struct" => {
                let k = if depth > self.c.max_depth || self.left <= 0 { 0 } else { self.r.below(4) };
                let mut map = BTreeMap::new();
                for _ in 0..k {
                    let key = RKey::Str(gen_str(self.r));
                    let v = self.msg("google.protobuf.Value", depth + 1);
                    map.insert(key, RVal::Msg(v));
                }
                if !map.is_empty() {
                    m.fields.insert(1, RVal::Map(map));
                }
            }
            "ListValue" => {
                let k = if depth > self.c.max_depth || self.left <= 0 { 0 } else { self.r.below(4) };
                let l: Vec<RVal> =
                    (0..k).map(|_| RVal::Msg(self.msg("google.protobuf.Value", depth + 1))).collect();
                if !l.is_empty() {
                    m.fields.insert(1, RVal::List(l));
                }
            }
            "Value" => {
                let k = if depth > self.c.max_depth || self.left <= 0 { self.r.below(4) } else { self.r.below(6) };
                match k {
                    0 => m.fields.insert(1, RVal::Enum(0)),
                    1 => {
                        let f = loop {
                            let f = f64::from_bits(gen_f64(self.r, false));
                            if f.is_finite() {
                                break f;
                            }
                        };
                        m.fields.insert(2, RVal::F64(f.to_bits()))
                    }
                    2 => m.fields.insert(3, RVal::Str(gen_str(self.r))),
                    3 => m.fields.insert(4, RVal::Bool(self.r.bool())),
                    4 => {
                        let v = self.msg("google.protobuf.Struct", depth + 1);
                        m.fields.insert(5, RVal::Msg(v))
                    }
                    _ => {
                        let v = self.msg("google.protobuf.ListValue", depth + 1);
                        m.fields.insert(6, RVal::Msg(v))
                    }
                };
            }
            "Any" => {
                if self.c.any_empty && self.r.pct(15) {
                    return true; // empty Any
                }
                let cands: Vec<String> =
                    self.s.plain_msgs().into_iter().filter(|t| !t.starts_with("google.protobuf.") || is_json_wkt(t) && !self.c.any_skip.iter().any(|x| t.ends_with(x))).collect();
                if cands.iter().all(|t| t.ends_with(".Any")) {
                    return true;
                }
                let mut t = self.r.pick(&cands).clone();
                if (depth >= self.c.max_depth || self.left <= 0) && t.ends_with("Any") {
                    t = cands.iter().find(|t| !t.ends_with(".Any")).unwrap().clone();
                }
                let save = self.c.unknown;
                self.c.unknown = false;
                let v = self.msg(&t, depth + 1);
                self.c.unknown = save;
                let mut prefix = *self.r.pick(&["type.googleapis.com/", "type.googleapis.com/", "example.com/x/", "h/"]);
                if self.c.one_prefix {
                    prefix = "type.googleapis.com/";
                }
                m.fields.insert(1, RVal::Str(format!("{prefix}{t}")));
                let b = crate::wire::encode(self.s, &v);
                if !b.is_empty() {
                    m.fields.insert(2, RVal::Bytes(b));
                }
            }
            _ => return false,
        }
        true
    }
}

pub fn is_json_wkt(t: &str) -> bool {
    matches!(
        t,
        "google.protobuf.Any"
            | "google.protobuf.Duration"
            | "google.protobuf.Empty"
            | "google.protobuf.FieldMask"
            | "google.protobuf.Timestamp"
            | "google.protobuf.Struct"
            | "google.protobuf.Value"
            | "google.protobuf.ListValue"
            | "google.protobuf.DoubleValue"
            | "google.protobuf.FloatValue"
            | "google.protobuf.Int64Value"
            | "google.protobuf.UInt64Value"
            | "google.protobuf.Int32Value"
            | "google.protobuf.UInt32Value"
            | "google.protobuf.BoolValue"
            | "google.protobuf.StringValue"
            | "google.protobuf.BytesValue"
    )
}

pub fn gen_unk(r: &mut Rng, depth: usize) -> RUnk {
    match r.below(if depth > 0 { 6 } else { 4 }) {
        0 => RUnk::Varint(gen_u64(r)),
        1 => RUnk::F32(r.u32()),
        2 => RUnk::F64(r.u64()),
        3 => {
            let n = r.below(8);
            RUnk::Len(r.bytes(n))
        }
        _ => {
            let n = r.below(4);
            RUnk::Group((0..n).map(|_| (r.range(1, 3000) as u32, gen_unk(r, depth - 1))).collect())
        }
    }
}

pub fn gen_msg(r: &mut Rng, s: &RSchema, ty: &str, c: ValCfg) -> RMsg {
    ValGen::new(r, s, c).msg(ty, 0)
}
