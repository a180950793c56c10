//! Reference wire codec, written from the protobuf encoding specification.
use crate::rmsg::*;
use crate::rng::Rng;
use crate::schema::*;
use std::collections::BTreeMap;

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

/// A varint of value `v` padded with redundant continuation bytes up to at most `max` bytes.
pub fn put_varint_long(out: &mut Vec<u8>, v: u64, extra: usize, max: usize) {
    let start = out.len();
    put_varint(out, v);
    let have = out.len() - start;
    let n = extra.min(max.saturating_sub(have));
    if n > 0 {
        let l = out.len() - 1;
        out[l] |= 0x80;
        for i in 0..n {
            out.push(if i + 1 == n { 0 } else { 0x80 });
        }
    }
}

pub fn put_tag(out: &mut Vec<u8>, n: u32, w: u8) {
    put_varint(out, ((n as u64) << 3) | w as u64);
}

fn zz32(v: i32) -> u64 {
    (((v << 1) ^ (v >> 31)) as u32) as u64
}
fn zz64(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}

fn scalar_varint(k: &RKind, v: &RVal) -> u64 {
    use RKind::*;
    match (k, v) {
        (Int32, RVal::I32(x)) => *x as i64 as u64,
        (Enum(_), RVal::Enum(x)) => *x as i64 as u64,
        (Int64, RVal::I64(x)) => *x as u64,
        (Uint32, RVal::U32(x)) => *x as u64,
        (Uint64, RVal::U64(x)) => *x,
        (Sint32, RVal::I32(x)) => zz32(*x),
        (Sint64, RVal::I64(x)) => zz64(*x),
        (Bool, RVal::Bool(x)) => *x as u64,
        _ => panic!("not a varint: {k:?} {v:?}"),
    }
}

/// Body of a packable scalar.
pub fn put_scalar(out: &mut Vec<u8>, k: &RKind, v: &RVal) {
    match (k.wire(), v) {
        (0, _) => put_varint(out, scalar_varint(k, v)),
        (1, RVal::F64(x)) => out.extend(x.to_le_bytes()),
        (1, RVal::I64(x)) => out.extend(x.to_le_bytes()),
        (1, RVal::U64(x)) => out.extend(x.to_le_bytes()),
        (5, RVal::F32(x)) => out.extend(x.to_le_bytes()),
        (5, RVal::I32(x)) => out.extend(x.to_le_bytes()),
        (5, RVal::U32(x)) => out.extend(x.to_le_bytes()),
        _ => panic!("bad scalar {k:?} {v:?}"),
    }
}

fn put_len(out: &mut Vec<u8>, n: u32, b: &[u8]) {
    put_tag(out, n, 2);
    put_varint(out, b.len() as u64);
    out.extend(b);
}

fn put_elem(s: &RSchema, out: &mut Vec<u8>, n: u32, k: &RKind, v: &RVal) {
    match (k, v) {
        (RKind::Str, RVal::Str(x)) => put_len(out, n, x.as_bytes()),
        (RKind::Bytes, RVal::Bytes(x)) => put_len(out, n, x),
        (RKind::Msg(_), RVal::Msg(m)) => put_len(out, n, &encode(s, m)),
        (RKind::Group(_), RVal::Msg(m)) => {
            put_tag(out, n, 3);
            out.extend(encode(s, m));
            put_tag(out, n, 4);
        }
        _ => {
            put_tag(out, n, k.wire());
            put_scalar(out, k, v);
        }
    }
}

pub fn key_val(k: &RKey) -> RVal {
    match k {
        RKey::Bool(b) => RVal::Bool(*b),
        RKey::I32(b) => RVal::I32(*b),
        RKey::I64(b) => RVal::I64(*b),
        RKey::U32(b) => RVal::U32(*b),
        RKey::U64(b) => RVal::U64(*b),
        RKey::Str(b) => RVal::Str(b.clone()),
    }
}

pub fn val_key(v: RVal) -> RKey {
    match v {
        RVal::Bool(b) => RKey::Bool(b),
        RVal::I32(b) => RKey::I32(b),
        RVal::I64(b) => RKey::I64(b),
        RVal::U32(b) => RKey::U32(b),
        RVal::U64(b) => RKey::U64(b),
        RVal::Str(b) => RKey::Str(b),
        _ => panic!("bad map key"),
    }
}

pub fn put_unk(out: &mut Vec<u8>, n: u32, u: &RUnk) {
    match u {
        RUnk::Varint(v) => {
            put_tag(out, n, 0);
            put_varint(out, *v)
        }
        RUnk::F64(v) => {
            put_tag(out, n, 1);
            out.extend(v.to_le_bytes())
        }
        RUnk::F32(v) => {
            put_tag(out, n, 5);
            out.extend(v.to_le_bytes())
        }
        RUnk::Len(b) => put_len(out, n, b),
        RUnk::Group(l) => {
            put_tag(out, n, 3);
            for (m, v) in l {
                put_unk(out, *m, v);
            }
            put_tag(out, n, 4);
        }
    }
}

/// Canonical encoding: fields in number order, packed where declared, unknown fields last.
pub fn encode(s: &RSchema, m: &RMsg) -> Vec<u8> {
    let mut out = vec![];
    for (n, v) in &m.fields {
        let f = s.field_of(&m.ty, *n).unwrap_or_else(|| panic!("no field {n} in {}", m.ty));
        match v {
            RVal::Map(map) => {
                let (kf, vf) = s.map_kv(f);
                for (k, v) in map {
                    let mut e = vec![];
                    put_elem(s, &mut e, 1, &kf.kind, &key_val(k));
                    put_elem(s, &mut e, 2, &vf.kind, v);
                    put_len(&mut out, *n, &e);
                }
            }
            RVal::List(l) if f.packed => {
                if !l.is_empty() {
                    let mut b = vec![];
                    for x in l {
                        put_scalar(&mut b, &f.kind, x);
                    }
                    put_len(&mut out, *n, &b);
                }
            }
            RVal::List(l) => {
                for x in l {
                    put_elem(s, &mut out, *n, &f.kind, x);
                }
            }
            v => put_elem(s, &mut out, *n, &f.kind, v),
        }
    }
    for (n, u) in &m.unknown {
        put_unk(&mut out, *n, u);
    }
    out
}

// ---------------------------------------------------------------------------------------------
// Non-canonical encodings

pub struct Noise<'a> {
    pub r: &'a mut Rng,
    pub s: &'a RSchema,
    /// features used: for evidence
    pub used: BTreeMap<&'static str, u64>,
    /// junk may have undeclared enum values
    pub unknown_enum: bool,
}

impl<'a> Noise<'a> {
    pub fn new(r: &'a mut Rng, s: &'a RSchema) -> Self {
        Noise { r, s, used: BTreeMap::new(), unknown_enum: true }
    }

    fn hit(&mut self, k: &'static str) {
        *self.used.entry(k).or_default() += 1;
    }

    fn tag(&mut self, out: &mut Vec<u8>, n: u32, w: u8) {
        let v = ((n as u64) << 3) | w as u64;
        if self.r.pct(5) {
            self.hit("overlong_tag");
            let e = 1 + self.r.below(2);
            put_varint_long(out, v, e, 5);
        } else {
            put_varint(out, v);
        }
    }

    fn len(&mut self, out: &mut Vec<u8>, n: usize) {
        if self.r.pct(5) {
            self.hit("overlong_len");
            let e = 1 + self.r.below(3);
            put_varint_long(out, n as u64, e, 5);
        } else {
            put_varint(out, n as u64);
        }
    }

    fn scalar(&mut self, out: &mut Vec<u8>, k: &RKind, v: &RVal) {
        if k.wire() != 0 || !self.r.pct(15) {
            return put_scalar(out, k, v);
        }
        let mut x = scalar_varint(k, v);
        match k {
            RKind::Int32 | RKind::Uint32 | RKind::Enum(_) | RKind::Sint32 if self.r.bool() => {
                self.hit("garbage_high_bits");
                x = (x & 0xffff_ffff) | (self.r.u64() << 32);
            }
            RKind::Bool if x == 1 => {
                self.hit("bool_not_one");
                x = match self.r.below(4) {
                    0 => 1 << 63,
                    1 => 1 << 32,
                    2 => u64::MAX,
                    _ => 2 + self.r.below(200) as u64,
                };
            }
            _ => {}
        }
        self.hit("overlong_varint");
        let e = self.r.below(10);
        put_varint_long(out, x, e, 10);
    }

    /// One record for one element; a message may be given as its encoded body.
    fn elem(&mut self, n: u32, k: &RKind, v: &RVal) -> Vec<u8> {
        let mut out = vec![];
        match (k, v) {
            (RKind::Str, RVal::Str(x)) => {
                self.tag(&mut out, n, 2);
                self.len(&mut out, x.len());
                out.extend(x.as_bytes());
            }
            (RKind::Bytes, RVal::Bytes(x)) => {
                self.tag(&mut out, n, 2);
                self.len(&mut out, x.len());
                out.extend(x);
            }
            (RKind::Msg(_) | RKind::Group(_), RVal::Msg(m)) => {
                let b: Vec<u8> = self.records(m).concat();
                self.wrap(&mut out, n, k, &b);
            }
            _ => {
                self.tag(&mut out, n, k.wire());
                self.scalar(&mut out, k, v);
            }
        }
        out
    }

    fn wrap(&mut self, out: &mut Vec<u8>, n: u32, k: &RKind, body: &[u8]) {
        if matches!(k, RKind::Group(_)) {
            self.tag(out, n, 3);
            out.extend(body);
            self.tag(out, n, 4);
        } else {
            self.tag(out, n, 2);
            self.len(out, body.len());
            out.extend(body);
        }
    }

    /// Records for a singular value; merging them in order denotes `v`.
    fn singular(&mut self, n: u32, k: &RKind, v: &RVal) -> Vec<Vec<u8>> {
        if let RVal::Msg(m) = v {
            let recs = self.records(m);
            if self.r.pct(30) {
                self.hit("split_message");
                // the same message as several occurrences, cut at record boundaries
                let parts = 2 + self.r.below(2);
                let mut cuts: Vec<usize> = (0..parts - 1).map(|_| self.r.below(recs.len() + 1)).collect();
                cuts.sort();
                cuts.push(recs.len());
                let mut at = 0;
                let mut out = vec![];
                for c in cuts {
                    let mut o = vec![];
                    let body = recs[at..c].concat();
                    self.wrap(&mut o, n, k, &body);
                    out.push(o);
                    at = c;
                }
                return out;
            }
            let mut o = vec![];
            let body = recs.concat();
            self.wrap(&mut o, n, k, &body);
            return vec![o];
        }
        let mut out = vec![];
        if self.r.pct(15) {
            self.hit("overridden_scalar");
            for _ in 0..1 + self.r.below(2) {
                let d = self.junk(k);
                out.push(self.elem(n, k, &d));
            }
        }
        out.push(self.elem(n, k, v));
        out
    }

    fn junk(&mut self, k: &RKind) -> RVal {
        ValGen::new(self.r, self.s, ValCfg { budget: 5, unknown_enum: self.unknown_enum, ..Default::default() }).elem(k, 9)
    }

    /// Records whose in-order decoding yields exactly `m`, with field sequences interleaved.
    pub fn records(&mut self, m: &RMsg) -> Vec<Vec<u8>> {
        let s = self.s;
        let mut seqs: Vec<Vec<Vec<u8>>> = vec![];
        let desc = s.msgs.get(&m.ty).cloned();
        for (n, v) in &m.fields {
            let f = s.field_of(&m.ty, *n).unwrap().clone();
            let mut seq = vec![];
            match v {
                RVal::Map(map) => {
                    let (kf, vf) = s.map_kv(&f);
                    let (kf, vf) = (kf.clone(), vf.clone());
                    let mut entries: Vec<(&RKey, &RVal)> = map.iter().collect();
                    self.r.shuffle(&mut entries);
                    for (k, v) in entries {
                        if self.r.pct(15) {
                            self.hit("overridden_map_entry");
                            let j = self.junk(&vf.kind);
                            let e = self.entry(&kf, &vf, k, &j);
                            let mut o = vec![];
                            self.wrap(&mut o, *n, &RKind::Bytes, &e);
                            seq.push(o);
                        }
                        let e = self.entry(&kf, &vf, k, v);
                        let mut o = vec![];
                        self.wrap(&mut o, *n, &RKind::Bytes, &e);
                        seq.push(o);
                    }
                }
                RVal::List(l) if f.kind.packable() => {
                    let mut i = 0;
                    if self.r.pct(5) {
                        self.hit("empty_packed");
                        let mut o = vec![];
                        self.wrap(&mut o, *n, &RKind::Bytes, &[]);
                        seq.push(o);
                    }
                    while i < l.len() {
                        let canonical = f.packed;
                        let packed = if self.r.pct(60) { canonical } else { self.r.bool() };
                        if packed {
                            if !canonical {
                                self.hit("packed_for_unpacked");
                            }
                            let k = 1 + self.r.below(l.len() - i);
                            let mut b = vec![];
                            for x in &l[i..i + k] {
                                self.scalar(&mut b, &f.kind, x);
                            }
                            let mut o = vec![];
                            self.wrap(&mut o, *n, &RKind::Bytes, &b);
                            seq.push(o);
                            i += k;
                        } else {
                            if canonical {
                                self.hit("unpacked_for_packed");
                            }
                            seq.push(self.elem(*n, &f.kind, &l[i]));
                            i += 1;
                        }
                    }
                }
                RVal::List(l) => {
                    for x in l {
                        seq.push(self.elem(*n, &f.kind, x));
                    }
                }
                v => {
                    // earlier members of the same oneof are overridden
                    if let (Some(o), Some(d)) = (f.oneof, &desc) {
                        if d.oneofs[o].fields.len() > 1 && self.r.pct(30) {
                            self.hit("overridden_oneof");
                            let other = *self.r.pick(&d.oneofs[o].fields);
                            if other != *n {
                                let of = d.fields[&other].clone();
                                let j = self.junk(&of.kind);
                                seq.push(self.elem(other, &of.kind, &j));
                            }
                        }
                    }
                    seq.extend(self.singular(*n, &f.kind, v));
                }
            }
            seqs.push(seq);
        }
        if !m.unknown.is_empty() {
            let mut by: BTreeMap<u32, Vec<Vec<u8>>> = BTreeMap::new();
            for (n, u) in &m.unknown {
                let mut o = vec![];
                put_unk(&mut o, *n, u);
                by.entry(*n).or_default().push(o);
            }
            seqs.extend(by.into_values());
        }
        // random interleaving (or plain order)
        let mut out = vec![];
        if self.r.pct(15) {
            return seqs.concat();
        }
        self.hit("interleaved");
        let mut heads: Vec<std::collections::VecDeque<Vec<u8>>> = seqs.into_iter().map(|s| s.into()).collect();
        heads.retain(|h| !h.is_empty());
        while !heads.is_empty() {
            let i = self.r.below(heads.len());
            out.push(heads[i].pop_front().unwrap());
            if heads[i].is_empty() {
                heads.swap_remove(i);
            }
        }
        out
    }

    fn entry(&mut self, kf: &RField, vf: &RField, k: &RKey, v: &RVal) -> Vec<u8> {
        let kv = key_val(k);
        let mut ks = if is_zero(self.s, kf, &kv) && self.r.bool() {
            self.hit("missing_map_key");
            vec![]
        } else {
            self.singular(1, &kf.kind, &kv)
        };
        let empty_msg = matches!(v, RVal::Msg(m) if m.fields.is_empty() && m.unknown.is_empty());
        let vs = if (empty_msg || (!matches!(v, RVal::Msg(_)) && is_zero(self.s, vf, v)
            && !matches!(v, RVal::F32(b) if *b != 0) && !matches!(v, RVal::F64(b) if *b != 0)))
            && self.r.bool()
        {
            self.hit("missing_map_value");
            vec![]
        } else {
            self.singular(2, &vf.kind, v)
        };
        if self.r.pct(30) {
            self.hit("map_value_first");
            let mut o = vs;
            o.append(&mut ks);
            o.concat()
        } else {
            ks.extend(vs);
            ks.concat()
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Decoder

#[derive(Debug, Clone, PartialEq)]
pub enum WErr {
    /// not a valid encoding
    Bad(&'static str),
    /// a known field with an unexpected wire type: implementations differ, no verdict
    Mismatch,
    /// nested more deeply than the reference wants to judge
    Deep,
}

struct Rd<'a> {
    b: &'a [u8],
    p: usize,
}

impl<'a> Rd<'a> {
    fn varint(&mut self) -> Result<u64, WErr> {
        let mut v: u64 = 0;
        for i in 0..10 {
            let Some(&x) = self.b.get(self.p) else { return Err(WErr::Bad("truncated varint")) };
            self.p += 1;
            if i == 9 && x > 1 {
                return Err(WErr::Bad("varint overflow"));
            }
            v |= ((x & 0x7f) as u64) << (7 * i);
            if x & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err(WErr::Bad("varint too long"))
    }
    fn take(&mut self, n: u64) -> Result<&'a [u8], WErr> {
        if n > (self.b.len() - self.p) as u64 {
            return Err(WErr::Bad("truncated"));
        }
        let r = &self.b[self.p..self.p + n as usize];
        self.p += n as usize;
        Ok(r)
    }
    fn tag(&mut self) -> Result<(u32, u8), WErr> {
        let t = self.varint()?;
        if t > u32::MAX as u64 {
            return Err(WErr::Bad("tag too large"));
        }
        let w = (t & 7) as u8;
        let n = (t >> 3) as u32;
        if w > 5 {
            return Err(WErr::Bad("reserved wire type"));
        }
        if n == 0 {
            return Err(WErr::Bad("field number zero"));
        }
        Ok((n, w))
    }
    fn eof(&self) -> bool {
        self.p >= self.b.len()
    }
}

fn read_scalar(k: &RKind, w: u8, r: &mut Rd) -> Result<RVal, WErr> {
    use RKind::*;
    if w != k.wire() {
        return Err(WErr::Mismatch);
    }
    Ok(match k {
        Double => RVal::F64(u64::from_le_bytes(r.take(8)?.try_into().unwrap())),
        Fixed64 => RVal::U64(u64::from_le_bytes(r.take(8)?.try_into().unwrap())),
        Sfixed64 => RVal::I64(i64::from_le_bytes(r.take(8)?.try_into().unwrap())),
        Float => RVal::F32(u32::from_le_bytes(r.take(4)?.try_into().unwrap())),
        Fixed32 => RVal::U32(u32::from_le_bytes(r.take(4)?.try_into().unwrap())),
        Sfixed32 => RVal::I32(i32::from_le_bytes(r.take(4)?.try_into().unwrap())),
        Int32 => RVal::I32(r.varint()? as i32),
        Int64 => RVal::I64(r.varint()? as i64),
        Uint32 => RVal::U32(r.varint()? as u32),
        Uint64 => RVal::U64(r.varint()?),
        Sint32 => {
            let v = r.varint()? as u32;
            RVal::I32(((v >> 1) as i32) ^ -((v & 1) as i32))
        }
        Sint64 => {
            let v = r.varint()?;
            RVal::I64(((v >> 1) as i64) ^ -((v & 1) as i64))
        }
        Bool => RVal::Bool(r.varint()? != 0),
        Enum(_) => RVal::Enum(r.varint()? as i32),
        Str => {
            let n = r.varint()?;
            let b = r.take(n)?;
            RVal::Str(std::str::from_utf8(b).map_err(|_| WErr::Bad("utf8"))?.to_string())
        }
        Bytes => {
            let n = r.varint()?;
            RVal::Bytes(r.take(n)?.to_vec())
        }
        Msg(_) | Group(_) => unreachable!(),
    })
}

fn read_unknown(n: u32, w: u8, r: &mut Rd, depth: usize) -> Result<RUnk, WErr> {
    if depth > 90 {
        return Err(WErr::Deep);
    }
    Ok(match w {
        0 => RUnk::Varint(r.varint()?),
        1 => RUnk::F64(u64::from_le_bytes(r.take(8)?.try_into().unwrap())),
        5 => RUnk::F32(u32::from_le_bytes(r.take(4)?.try_into().unwrap())),
        2 => {
            let l = r.varint()?;
            RUnk::Len(r.take(l)?.to_vec())
        }
        3 => {
            let mut g = vec![];
            loop {
                let (m, w) = r.tag()?;
                if w == 4 {
                    if m != n {
                        return Err(WErr::Bad("mismatched end group"));
                    }
                    return Ok(RUnk::Group(g));
                }
                g.push((m, read_unknown(m, w, r, depth + 1)?));
            }
        }
        _ => return Err(WErr::Bad("unexpected end group")),
    })
}

/// Merge `b` into `m`, with protobuf merge semantics.
pub fn merge(s: &RSchema, m: &mut RMsg, b: &[u8]) -> Result<(), WErr> {
    let mut r = Rd { b, p: 0 };
    merge_until(s, m, &mut r, None, 0)
}

pub fn decode(s: &RSchema, ty: &str, b: &[u8]) -> Result<RMsg, WErr> {
    let mut m = RMsg::new(ty);
    merge(s, &mut m, b)?;
    Ok(m)
}

/// Decoding for the "is this malformed?" question: any wire-type mismatch makes the answer unknown.
fn merge_until(s: &RSchema, m: &mut RMsg, r: &mut Rd, end: Option<u32>, depth: usize) -> Result<(), WErr> {
    if depth > 90 {
        return Err(WErr::Deep);
    }
    loop {
        if r.eof() {
            return if end.is_some() { Err(WErr::Bad("missing end group")) } else { Ok(()) };
        }
        let (n, w) = r.tag()?;
        if w == 4 {
            return if end == Some(n) { Ok(()) } else { Err(WErr::Bad("unexpected end group")) };
        }
        let Some(f) = s.field_of(&m.ty, n) else {
            let u = read_unknown(n, w, r, depth)?;
            m.unknown.push((n, u));
            continue;
        };
        let f = f.clone();
        if f.is_map {
            if w != 2 {
                return Err(WErr::Mismatch);
            }
            let l = r.varint()?;
            let b = r.take(l)?;
            let (kf, vf) = s.map_kv(&f);
            let (k, v) = read_entry(s, kf, vf, b, depth + 1)?;
            match m.fields.entry(n).or_insert_with(|| RVal::Map(BTreeMap::new())) {
                RVal::Map(map) => {
                    map.insert(k, v);
                }
                _ => unreachable!(),
            }
            continue;
        }
        if f.card == Card::Rep {
            let mut items = vec![];
            if f.kind.packable() && w == 2 {
                let l = r.varint()?;
                let b = r.take(l)?;
                let mut pr = Rd { b, p: 0 };
                while !pr.eof() {
                    items.push(read_scalar(&f.kind, f.kind.wire(), &mut pr)?);
                }
            } else {
                items.push(read_value(s, n, &f.kind, w, r, None, depth)?);
            }
            if !items.is_empty() {
                match m.fields.entry(n).or_insert_with(|| RVal::List(vec![])) {
                    RVal::List(l) => l.extend(items),
                    _ => unreachable!(),
                }
            }
            continue;
        }
        let prev = match m.fields.get(&n) {
            Some(RVal::Msg(p)) => Some(p.clone()),
            _ => None,
        };
        let v = read_value(s, n, &f.kind, w, r, prev, depth)?;
        if let Some(o) = f.oneof {
            if let Some(d) = s.msgs.get(&m.ty) {
                for other in &d.oneofs[o].fields {
                    if *other != n {
                        m.fields.remove(other);
                    }
                }
            }
        }
        if !f.presence && is_zero(s, &f, &v) {
            m.fields.remove(&n);
        } else {
            m.fields.insert(n, v);
        }
    }
}

fn read_value(s: &RSchema, n: u32, k: &RKind, w: u8, r: &mut Rd, prev: Option<RMsg>, depth: usize) -> Result<RVal, WErr> {
    match k {
        RKind::Msg(t) => {
            if w != 2 {
                return Err(WErr::Mismatch);
            }
            let l = r.varint()?;
            let b = r.take(l)?;
            let mut m = prev.unwrap_or_else(|| RMsg::new(t));
            merge_until(s, &mut m, &mut Rd { b, p: 0 }, None, depth + 1)?;
            Ok(RVal::Msg(m))
        }
        RKind::Group(t) => {
            if w != 3 {
                return Err(WErr::Mismatch);
            }
            let mut m = prev.unwrap_or_else(|| RMsg::new(t));
            merge_until(s, &mut m, r, Some(n), depth + 1)?;
            Ok(RVal::Msg(m))
        }
        k => read_scalar(k, w, r),
    }
}

fn read_entry(s: &RSchema, kf: &RField, vf: &RField, b: &[u8], depth: usize) -> Result<(RKey, RVal), WErr> {
    let mut r = Rd { b, p: 0 };
    let mut k = zero_of(s, &kf.kind);
    let mut v = zero_of(s, &vf.kind);
    while !r.eof() {
        let (n, w) = r.tag()?;
        match n {
            1 => k = read_value(s, 1, &kf.kind, w, &mut r, None, depth)?,
            2 => {
                let prev = match v {
                    RVal::Msg(ref m) => Some(m.clone()),
                    _ => None,
                };
                v = read_value(s, 2, &vf.kind, w, &mut r, prev, depth)?
            }
            _ => {
                if w == 4 {
                    return Err(WErr::Bad("unexpected end group"));
                }
                read_unknown(n, w, &mut r, depth)?;
            }
        }
    }
    Ok((val_key(k), v))
}

/// A flat view of the top-level records of a valid encoding: (number, wire type, bytes of the record).
pub fn split_records(b: &[u8]) -> Result<Vec<(u32, u8, Vec<u8>)>, WErr> {
    let mut r = Rd { b, p: 0 };
    let mut out = vec![];
    while !r.eof() {
        let at = r.p;
        let (n, w) = r.tag()?;
        read_unknown(n, w, &mut r, 0)?;
        out.push((n, w, b[at..r.p].to_vec()));
    }
    Ok(out)
}

/// Body of a length-delimited record.
pub fn len_body(rec: &[u8]) -> Option<&[u8]> {
    let mut r = Rd { b: rec, p: 0 };
    let (_, w) = r.tag().ok()?;
    if w != 2 {
        return None;
    }
    let l = r.varint().ok()?;
    r.take(l).ok()
}

pub fn decode_unknown(b: &[u8]) -> Result<Vec<(u32, RUnk)>, WErr> {
    let mut r = Rd { b, p: 0 };
    let mut out = vec![];
    while !r.eof() {
        let (n, w) = r.tag()?;
        out.push((n, read_unknown(n, w, &mut r, 0)?));
    }
    Ok(out)
}

/// Checks a library-produced encoding for form: declared wire types, packedness, one record per
/// singular field, nothing for absent fields. Returns the first deviation.
pub fn check_form(s: &RSchema, ty: &str, b: &[u8]) -> Result<(), String> {
    check_form_in(s, ty, b)
}

fn check_form_in(s: &RSchema, ty: &str, b: &[u8]) -> Result<(), String> {
    let recs = split_records(b).map_err(|e| format!("{ty}: output is not a valid encoding: {e:?}"))?;
    let mut seen: BTreeMap<u32, usize> = BTreeMap::new();
    for (n, w, rec) in &recs {
        let Some(f) = s.field_of(ty, *n) else { continue };
        *seen.entry(*n).or_default() += 1;
        let want = if f.packed { 2 } else { f.kind.wire() };
        if *w != want {
            return Err(format!("{}: wire type {w}, declared form needs {want}", f.full_name));
        }
        if f.packed && len_body(rec).is_some_and(|b| b.is_empty()) {
            return Err(format!("{}: empty packed record written", f.full_name));
        }
        if seen[n] > 1 && (f.singular() || f.packed) {
            return Err(format!("{}: written more than once", f.full_name));
        }
        match &f.kind {
            RKind::Msg(t) if f.is_map => {
                let (kf, vf) = s.map_kv(f);
                let b = len_body(rec).ok_or("bad entry")?;
                for (en, ew, erec) in split_records(b).map_err(|e| format!("entry: {e:?}"))? {
                    let ef = match en {
                        1 => kf,
                        2 => vf,
                        _ => return Err(format!("{}: stray field {en} in map entry", f.full_name)),
                    };
                    if ew != ef.kind.wire() {
                        return Err(format!("{}: bad wire type {ew} in map entry", f.full_name));
                    }
                    if let RKind::Msg(t) = &ef.kind {
                        check_form_in(s, t, len_body(&erec).ok_or("bad value")?)?;
                    }
                }
                let _ = t;
            }
            RKind::Msg(t) => check_form_in(s, t, len_body(rec).ok_or("bad message record")?)?,
            RKind::Group(t) => {
                let mut r = Rd { b: rec, p: 0 };
                r.tag().map_err(|e| format!("{e:?}"))?;
                // strip the end tag
                let mut end = vec![];
                put_tag(&mut end, *n, 4);
                let body = &rec[r.p..rec.len() - end.len()];
                check_form_in(s, t, body)?;
            }
            _ => {}
        }
    }
    Ok(())
}

/// A buffer in pieces.
pub struct Frag<'a> {
    parts: Vec<&'a [u8]>,
    left: usize,
}

impl<'a> Frag<'a> {
    pub fn new(r: &mut crate::rng::Rng, b: &'a [u8]) -> Self {
        let max = *r.pick(&[1, 2, 5, 20, b.len().max(1)]);
        let (mut parts, mut rest) = (vec![], b);
        while !rest.is_empty() {
            let k = (1 + r.below(max)).min(rest.len());
            parts.push(&rest[..k]);
            rest = &rest[k..];
        }
        parts.reverse();
        Frag { parts, left: b.len() }
    }
}

impl prost::bytes::Buf for Frag<'_> {
    fn remaining(&self) -> usize {
        self.left
    }
    fn chunk(&self) -> &[u8] {
        self.parts.last().copied().unwrap_or(&[])
    }
    fn advance(&mut self, mut n: usize) {
        self.left -= n;
        while n > 0 {
            let p = self.parts.last_mut().expect("advanced beyond the end");
            let k = n.min(p.len());
            *p = &p[k..];
            n -= k;
            if p.is_empty() {
                self.parts.pop();
            }
        }
    }
}
