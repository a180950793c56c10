//! C14–C16: the text format.
use super::wirep::{feat, pick_type};
use super::*;
use crate::dynconv::*;
use crate::gen::*;
use crate::json::norm;
use crate::rmsg::*;
use crate::run::{CaseResult, Ctx, Prop};
use crate::schema::*;
use crate::text::*;
use prost_reflect::text_format::{FormatOptions, ParseError};
use prost_reflect::*;

pub static PROPS: &[&Prop] = &[&C14, &C15, &C16];

fn cfg(ctx: &mut Ctx) -> GenCfg {
    GenCfg {
        wkt: ctx.r.pct(55),
        max_files: 1 + ctx.r.below(2),
        max_msgs: 1 + ctx.r.below(4),
        max_fields: 3 + ctx.r.below(8),
        ..Default::default()
    }
}

fn text_msg(ctx: &mut Ctx, s: &RSchema, unknown: bool) -> RMsg {
    let mut ty = pick_type(ctx, s);
    if ctx.r.pct(8) && s.msgs.contains_key("google.protobuf.Any") {
        ty = "google.protobuf.Any".into();
    }
    let budget = 8 + ctx.r.below(60);
    let wkt_valid = ctx.r.pct(70);
    let mut m = gen_msg(&mut ctx.r, s, &ty, ValCfg { unknown, max_depth: 3, budget, wkt_valid, ..Default::default() });
    if ctx.r.pct(30) {
        odd_urls(ctx, &mut m);
    }
    m
}

/// Any type URLs that cannot (or can only just) be written as an expanded name.
fn odd_urls(ctx: &mut Ctx, m: &mut RMsg) {
    if m.ty == "google.protobuf.Any" {
        if let Some(RVal::Str(u)) = m.fields.get_mut(&1) {
            if let Some(i) = u.rfind('/') {
                let d = *ctx.r.pick(&["", "https://x.com", "a-b.com", "1.2.3.4", "a..b", "x y", "a]b", "_", "h.i", "é", "a/b/c", "a.b.", "%20"]);
                *u = format!("{d}{}", &u[i..]);
            }
        }
    }
    for v in m.fields.values_mut() {
        v.for_msgs_mut(&mut |m| odd_urls(ctx, m));
    }
}

pub fn lib_topts(o: TOpts) -> FormatOptions {
    FormatOptions::new()
        .pretty(o.pretty)
        .skip_unknown_fields(o.skip_unknown)
        .expand_any(o.expand_any)
        .skip_default_fields(o.skip_default)
        .print_message_fields_in_index_order(o.index_order)
}

pub fn same_text(s: &RSchema, want: &RMsg, got: &DynamicMessage) -> Option<String> {
    let mut g = match from_dyn(got) {
        Ok(g) => g,
        Err(e) => return Some(e),
    };
    let mut w = want.clone();
    norm(s, &mut w);
    norm(s, &mut g);
    diff(&w, &g, LOOSE)
}

pub static C14: Prop = Prop {
    id: "C14",
    quick: 6000,
    thorough: 300_000,
    rule: "random schemas and messages (with unknown fields and Any), printed under all 32 option combinations, the document parsed by an independent parser, checked item by item, and parsed back by the library; distinct by (options, field shapes)",
    case: c14,
    directed: None,
    extra: None,
    need: &["documents", "reparsed", "unknown_printed", "any_expanded", "any_raw", "group", "extension", "values", "lists_and_maps", "unknown_alone"],
    level: "exploration",
};

fn c14(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let c = cfg(ctx);
    let s = gen_schema(&mut ctx.r, c);
    let pool = mkpool(&s);
    for _ in 0..2 {
        let unknown = ctx.r.pct(40);
        let m = text_msg(ctx, &s, unknown);
        let x = to_dyn(&s, &pool, &m);
        let f = feat(&s, &m);
        for o in all_topts() {
            let t = x.to_text_format_with_options(&lib_topts(o));
            let fail = |w: &str, d: String| Err(format!("{w} with {o:?}: {d}\n printed {t:?}\n message {m:?}\n{}", show_files(&s.files)));
            if !o.pretty && t.contains('\n') {
                return fail("compact", "more than one line".into());
            }
            let items = match parse(&t, true) {
                Ok(i) => i,
                Err(e) => return fail("not text format", format!("{e:?}")),
            };
            if let Err(e) = check_doc(&s, &m, &items, o) {
                return fail("wrong document", e);
            }
            ctx.count("documents", 1);
            if t.contains("[") && items.iter().any(|i| matches!(i.name, Name::Any(..))) {
                ctx.count("any_expanded", 1);
            }
            if has_num(&items) {
                ctx.count("unknown_printed", 1);
            } else {
                match DynamicMessage::parse_text_format(desc(&pool, &m.ty), &t) {
                    Err(e) => return fail("own output rejected", e.to_string()),
                    Ok(y) => {
                        if let Some(d) = same_text(&s, &m, &y) {
                            return fail("own output read differently", d);
                        }
                    }
                }
                ctx.count("reparsed", 1);
            }
            let mut k = f.clone();
            k.extend(format!("{o:?}").bytes());
            ctx.feature(&k);
        }
        let d = TOpts { pretty: false, skip_unknown: true, expand_any: true, skip_default: true, index_order: false };
        let plain = x.to_text_format();
        let explicit = x.to_text_format_with_options(&FormatOptions::new());
        let items = parse(&explicit, true).map_err(|e| format!("{e:?}"))?;
        check_doc(&s, &m, &items, d)?;
        if plain.contains('\n') {
            return Err(format!("default options: {plain}"));
        }
        let items = parse(&plain, true).map_err(|e| format!("{e:?}"))?;
        check_doc(&s, &m, &items, d)?;
        for (w, t, pretty) in [("{}", format!("{x}"), false), ("{:#}", format!("{x:#}"), true)] {
            let items = parse(&t, true).map_err(|e| format!("Display {w}: {e:?}: {t}"))?;
            check_doc(&s, &m, &items, TOpts { pretty, ..d }).map_err(|e| format!("Display {w}: {e}: {t}\n{m:?}\n{}", show_files(&s.files)))?;
        }
        // values on their own
        for (n, v) in &m.fields {
            let f = s.field_of(&m.ty, *n).unwrap();
            let int = |v: &RVal| if let RVal::Enum(x) = v { RVal::I32(*x) } else { v.clone() };
            // without the field's type, enum values are printed as numbers
            let mut g = f.clone();
            if let RKind::Enum(_) = f.kind {
                g.kind = RKind::Int32;
            }
            let want = match v {
                RVal::Map(_) if matches!(s.map_kv(f).1.kind, RKind::Enum(_)) => continue,
                RVal::List(l) => RVal::List(l.iter().map(int).collect()),
                v => int(v),
            };
            let val = val_to(&s, &pool, v);
            for pretty in [false, true] {
                let t = if pretty { format!("v: {val:#}") } else { format!("v: {val}") };
                if !pretty && t.contains('\n') {
                    return Err(format!("Value display: more than one line: {t:?}"));
                }
                let items = parse(&t, true).map_err(|e| format!("Value display {t:?}: {e:?}"))?;
                let mut at = 0;
                check_field(&s, &g, &want, &Name::Id("v".into()), &items, &mut at, TOpts { pretty, ..d })
                    .map_err(|e| format!("Value display {t:?}: {e}: {v:?}\n{}", show_files(&s.files)))?;
                if at != items.len() {
                    return Err(format!("Value display {t:?}: more than one value"));
                }
                ctx.count(if f.singular() { "values" } else { "lists_and_maps" }, 1);
            }
        }
        // unknown fields on their own
        if !m.unknown.is_empty() {
            let only = RMsg { ty: m.ty.clone(), unknown: m.unknown.clone(), ..Default::default() };
            for pretty in [false, true] {
                let t: Vec<String> = x.unknown_fields().map(|u| if pretty { format!("{u:#}") } else { format!("{u}") }).collect();
                let t = t.join(if pretty { "\n" } else { "," });
                let items = parse(&t, true).map_err(|e| format!("UnknownField display {t:?}: {e:?}"))?;
                check_doc(&s, &only, &items, TOpts { pretty, skip_unknown: false, ..d }).map_err(|e| format!("UnknownField display {t:?}: {e}"))?;
                ctx.count("unknown_alone", items.len() as u64);
            }
        }
        let fs = String::from_utf8_lossy(&f).into_owned();
        if fs.contains("group") {
            ctx.count("group", 1);
        }
        if fs.contains("Any/") && !plain.contains("/") {
            ctx.count("any_raw", 1);
        }
        if plain.contains("type_url") {
            ctx.count("any_raw", 1);
        }
        if s.exts_of(&m.ty).any(|f| m.fields.contains_key(&f.number)) {
            ctx.count("extension", 1);
        }
        ctx.sample(|| plain.clone());
    }
    Ok(())
}

/// What may follow the last item of a document.
fn tail(r: &mut crate::rng::Rng) -> &'static str {
    if r.pct(85) {
        return "";
    }
    *r.pick(&["#", " # end", "\n# end: 1 {\"", "\n#\r", "\t", "\r\n", " # \u{e9}\n", "\n#\n#", " \n \x0b\x0c"])
}

pub static C15: Prop = Prop {
    id: "C15",
    quick: 60_000,
    thorough: 2_000_000,
    rule: "random messages spelled in random permitted ways (item order, separators, comments, brackets, list forms, number bases, float and string forms, Any forms), parsed whole, merged into an empty message, and merged in two halves; distinct by set of spellings and field shapes",
    case: c15,
    directed: None,
    extra: None,
    need: &[
        "accepted", "merged_halves", "spelling:int_hex", "spelling:int_octal", "spelling:float_trailing_point", "spelling:float_leading_point",
        "spelling:float_suffix", "spelling:float_exponent", "spelling:float_inf", "spelling:float_nan", "spelling:string_concat",
        "spelling:string_single_quote", "spelling:string_unicode_escape", "spelling:string_hex_escape", "spelling:string_short_octal",
        "spelling:bool_form", "spelling:enum_number", "spelling:enum_alias", "spelling:angle", "spelling:comma", "spelling:semicolon",
        "spelling:extension", "spelling:group", "spelling:message_colon", "spelling:message_list_no_colon", "spelling:any_expanded",
        "spelling:list_form", "spelling:empty_list", "spelling:explicit_default", "spelling:map_override", "spelling:map_key_omitted",
        "spelling:map_value_omitted", "spelling:ends_in_comment",
    ],
    level: "exploration",
};

fn c15(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let c = cfg(ctx);
    let s = gen_schema(&mut ctx.r, c);
    let pool = mkpool(&s);
    for _ in 0..5 {
        let m = text_msg(ctx, &s, false);
        let d = desc(&pool, &m.ty);
        let (chunks, doc, a, b, used) = {
            let mut sp = TSpell::new(&mut ctx.r, &s);
            let c = sp.chunks(&m);
            let lead = if sp.r.pct(20) { " # c\n" } else { "" };
            let tail = tail(sp.r);
            let doc = format!("{lead}{}{tail}", sp.join(&c));
            let k = sp.r.below(c.len() + 1);
            let a = sp.join(&c[..k]) + tail;
            let b = sp.join(&c[k..]);
            if !tail.trim().is_empty() {
                sp.used.insert("ends_in_comment", 1);
            }
            (c.len(), doc, a, b, std::mem::take(&mut sp.used))
        };
        let _ = chunks;
        // the generator and the reference parser must agree before the library is judged
        match parse(&doc, false).and_then(|i| denote(&s, &m.ty, &i)) {
            Ok(g) => {
                let (mut g, mut w) = (g, m.clone());
                norm(&s, &mut g);
                norm(&s, &mut w);
                if let Some(d) = diff(&w, &g, LOOSE) {
                    return Err(format!("HARNESS: emitter and reference parser disagree: {d}: {doc:?}"));
                }
            }
            Err(V::Unsure(_)) => {
                ctx.count("no_verdict", 1);
                continue;
            }
            Err(V::Bad(e)) => return Err(format!("HARNESS: emitter produced an invalid document: {e}: {doc:?}")),
        }
        let fail = |w: &str, d: String| Err(format!("{w}: {d}\n document {doc:?}\n halves {a:?} | {b:?}\n message {m:?}\n{}", show_files(&s.files)));
        match DynamicMessage::parse_text_format(d.clone(), &doc) {
            Err(e) => return fail("valid document rejected", e.to_string()),
            Ok(x) => {
                if let Some(e) = same_text(&s, &m, &x) {
                    return fail("denoted vs parsed", e);
                }
            }
        }
        ctx.count("accepted", 1);
        let mut x = DynamicMessage::new(d);
        for h in [&a, &b] {
            if let Err(e) = x.merge_text_format(h) {
                return fail("merging a half was rejected", e.to_string());
            }
        }
        if let Some(e) = same_text(&s, &m, &x) {
            return fail("denoted vs merged halves", e);
        }
        ctx.count("merged_halves", 1);
        let mut k = feat(&s, &m);
        for (n, c) in &used {
            ctx.count(&format!("spelling:{n}"), *c);
            k.extend(n.bytes());
        }
        ctx.feature(&k);
        ctx.sample(|| doc.clone());
    }
    Ok(())
}

pub static C16: Prop = Prop {
    id: "C16",
    quick: 60_000,
    thorough: 2_000_000,
    rule: "valid documents with one value slot, item or character changed, and random token sequences; each judged by the independent parser (invalid, valid with its denotation, or no verdict); distinct by (reason for rejection, change)",
    case: c16,
    directed: None,
    extra: None,
    need: &["rejected", "accepted_agreeing", "spans_checked", "soup", "change:slot", "change:char", "change:item", "change:token"],
    level: "exploration",
};

fn c16(ctx: &mut Ctx, _i: u64) -> CaseResult {
    let c = cfg(ctx);
    let s = gen_schema(&mut ctx.r, c);
    let pool = mkpool(&s);
    for _ in 0..3 {
        let m = text_msg(ctx, &s, false);
        let slots = {
            let mut sp = TSpell::new(&mut ctx.r, &s);
            sp.chunks(&m);
            sp.slot
        };
        for _ in 0..6 {
            let (doc, what) = match ctx.r.below(10) {
                0..=3 if slots > 0 => {
                    let at = 1 + ctx.r.below(slots);
                    let mut sp = TSpell::new(&mut ctx.r, &s);
                    sp.corrupt = Some(at);
                    let c = sp.chunks(&m);
                    (sp.join(&c), "slot")
                }
                4 | 5 => {
                    let mut sp = TSpell::new(&mut ctx.r, &s);
                    let c = sp.chunks(&m);
                    let all = sp.join(&c);
                    (item_change(ctx, &s, &m.ty, c, all), "item")
                }
                6 | 7 => {
                    let d = {
                        let mut sp = TSpell::new(&mut ctx.r, &s);
                        let c = sp.chunks(&m);
                        sp.join(&c)
                    };
                    (char_change(ctx, &d), "char")
                }
                8 => {
                    let d = {
                        let mut sp = TSpell::new(&mut ctx.r, &s);
                        let c = sp.chunks(&m);
                        sp.join(&c)
                    };
                    (token_change(ctx, &d), "token")
                }
                _ => (soup(ctx, &s, &m.ty), "soup"),
            };
            if what == "soup" {
                ctx.count("soup", 1);
            }
            ctx.count(&format!("change:{what}"), 1);
            judge(ctx, &s, &pool, &m.ty, &doc, what)?;
        }
    }
    Ok(())
}

pub fn judge(ctx: &mut Ctx, s: &RSchema, pool: &DescriptorPool, ty: &str, doc: &str, what: &str) -> CaseResult {
    let want = parse(doc, false).and_then(|i| denote(s, ty, &i));
    let got = DynamicMessage::parse_text_format(desc(pool, ty), doc);
    let fail = |d: String| Err(format!("{d}\n change {what}, type {ty}, document {doc:?}\n{}", show_files(&s.files)));
    if let Err(e) = &got {
        check_error(doc, e).or_else(|e| fail(e))?;
        ctx.count("spans_checked", 1);
    }
    match (want, got) {
        (Err(V::Bad(e)), Ok(x)) => return fail(format!("invalid document accepted ({e}) as {x}")),
        (Err(V::Bad(e)), Err(_)) => {
            ctx.count("rejected", 1);
            let short: String = e.chars().filter(|c| !c.is_ascii_digit()).take(24).collect();
            ctx.feature(format!("{what}/{short}").as_bytes());
            ctx.sample(|| format!("[{e}] {doc}"));
        }
        (Ok(m), Err(e)) => return fail(format!("valid document {m:?} rejected: {e}")),
        (Ok(m), Ok(x)) => {
            if let Some(e) = same_text(s, &m, &x) {
                return fail(format!("denoted vs parsed: {e}"));
            }
            ctx.count("accepted_agreeing", 1);
        }
        (Err(V::Unsure(e)), r) => {
            ctx.count("no_verdict", 1);
            if let Ok(x) = &r {
                if let Err(d) = from_dyn(x) { return fail(format!("{e}: {d}")); }
            }
        }
    }
    Ok(())
}

/// The message and the labelled spans of a parse error.
pub fn check_error(doc: &str, e: &ParseError) -> Result<(), String> {
    use miette::Diagnostic;
    let msg = e.to_string();
    if msg.is_empty() {
        return Err("empty error message".into());
    }
    let labels: Vec<_> = e.labels().map(|l| l.collect()).unwrap_or_default();
    for l in &labels {
        let (a, b) = (l.offset(), l.offset() + l.len());
        if b > doc.len() || a > b {
            return Err(format!("label {a}..{b} of {msg:?} outside the {} byte input", doc.len()));
        }
        if !doc.is_char_boundary(a) || !doc.is_char_boundary(b) {
            return Err(format!("label {a}..{b} of {msg:?} splits a character"));
        }
        if a == b && !doc.is_empty() {
            return Err(format!("label {a}..{b} of {msg:?} covers nothing"));
        }
    }
    if !labels.is_empty() && !doc.is_empty() {
        let src = e.source_code().ok_or("error has labels but no source")?;
        for l in &labels {
            let c = src.read_span(l.inner(), 0, 0).map_err(|x| format!("source cannot be read at {l:?}: {x}"))?;
            let want = &doc.as_bytes()[l.offset()..l.offset() + l.len()];
            if !c.data().windows(want.len().max(1)).any(|w| w == want) {
                return Err(format!("source at {l:?} is not the input"));
            }
        }
    }
    Ok(())
}

fn item_change(ctx: &mut Ctx, s: &RSchema, ty: &str, mut c: Vec<String>, all: String) -> String {
    let d = s.msg(ty);
    match ctx.r.below(9) {
        0 if !c.is_empty() => {
            // repeat an item
            let i = ctx.r.below(c.len());
            let x = c[i].clone();
            let at = ctx.r.below(c.len() + 1);
            c.insert(at, x);
            c.join("\n")
        }
        1 => {
            // a second item for a random field, possibly of the same oneof
            let mut fields: Vec<&RField> = d.fields.values().collect();
            fields.extend(s.exts_of(ty));
            if fields.is_empty() {
                return all;
            }
            let mut out = c;
            for _ in 0..2 {
                let f = *ctx.r.pick(&fields);
                let b = match &f.kind {
                    k if k.msg().is_some() => "{}".into(),
                    RKind::Str | RKind::Bytes => "\"\"".into(),
                    RKind::Enum(e) => s.enums[e].values[0].0.clone(),
                    RKind::Bool => "false".to_string(),
                    _ => ctx.r.pick(&["0", "1"]).to_string(),
                };
                let n = if f.is_ext {
                    format!("[{}]", f.full_name)
                } else if f.is_group() {
                    f.kind.msg().unwrap().rsplit('.').next().unwrap().to_string()
                } else {
                    f.name.clone()
                };
                let b = if ctx.r.pct(15) { format!("[{b}]") } else { b };
                let at = ctx.r.below(out.len() + 1);
                out.insert(at, format!("{n}: {b}"));
            }
            out.join(" ")
        }
        2 if !c.is_empty() => {
            // misspell a name
            let i = ctx.r.below(c.len());
            let t = c[i].clone();
            c[i] = match ctx.r.below(6) {
                0 => format!("x{t}"),
                1 => t.to_uppercase(),
                2 => format!("[{t}"),
                3 => format!("[a.b.c]: {t}"),
                4 => format!("[type.googleapis.com/{ty}]: {{}} {t}"),
                _ => t.replacen(':', "", 1),
            };
            c.join(" ")
        }
        3 => format!("{all} }}"),
        4 => format!("{{ {all} }}"),
        5 if !c.is_empty() => c.join(*ctx.r.pick(&[",,", ";;", ",;", " ; , ", ".", "/", ":"])),
        6 => format!("{}{all}", ctx.r.pick(&[",", ";", ":", "-", "[", "]"])),
        7 => {
            // names by number, JSON name or full name
            let mut out = c;
            let fs: Vec<&RField> = d.fields.values().collect();
            if let Some(f) = (!fs.is_empty()).then(|| *ctx.r.pick(&fs)) {
                let n = match ctx.r.below(5) {
                    0 => f.number.to_string(),
                    1 => f.json_name.clone(),
                    2 => f.full_name.clone(),
                    3 => format!("[{}]", f.full_name),
                    _ => format!("[{}]", f.name),
                };
                out.push(format!("{n}: 1"));
            }
            out.join("\n")
        }
        _ => {
            // an extension of another message, or Any syntax where it does not belong
            let mut out = c;
            if let Some(e) = (!s.exts.is_empty()).then(|| ctx.r.pick(&s.exts)) {
                out.push(format!("[{}]: {}", e.field.full_name, ctx.r.pick(&["1", "{}", "\"\"", "true", "[]"])));
            } else {
                out.push(format!("[{}]: {{}}", ctx.r.pick(&["type.googleapis.com/no.Such", "no.such.ext", "a/b/c", "/a", "a/"])));
            }
            let k = ctx.r.below(out.len());
            out.swap(0, k);
            out.join("\n")
        }
    }
}

const ODD: &[&str] = &[
    "{", "}", "[", "]", "<", ">", ":", ",", ";", ".", "/", "-", "\"", "'", "\\", "#", "\n", " ", "0", "1", "9", "f", "e", "x", "a", "_", "é", "\u{1F389}", "$", "\0", "+", "\u{feff}", "%", "\r", "\u{2028}", "*",
];

fn char_change(ctx: &mut Ctx, d: &str) -> String {
    let mut ch: Vec<char> = d.chars().collect();
    for _ in 0..1 + ctx.r.below(2) {
        let i = ctx.r.below(ch.len() + 1);
        match ctx.r.below(5) {
            0 if i < ch.len() => {
                ch.remove(i);
            }
            1 => {
                for (k, c) in ctx.r.pick(ODD).chars().enumerate() {
                    ch.insert(i + k, c);
                }
            }
            2 if i < ch.len() => {
                ch[i] = ctx.r.pick(ODD).chars().next().unwrap();
            }
            3 if i < ch.len() => ch.truncate(i),
            _ if ch.len() > 1 => {
                let j = ctx.r.below(ch.len());
                let i = i.min(ch.len() - 1);
                ch.swap(i, j);
            }
            _ => {}
        }
    }
    ch.into_iter().collect()
}

fn token_change(ctx: &mut Ctx, d: &str) -> String {
    let Ok(toks) = lex(d) else { return d.to_string() };
    if toks.is_empty() {
        return ",".into();
    }
    let mut ts: Vec<String> = toks.iter().map(|t| d[t.1..t.2].to_string()).collect();
    for _ in 0..1 + ctx.r.below(2) {
        let i = ctx.r.below(ts.len());
        match ctx.r.below(4) {
            0 => {
                ts.remove(i);
            }
            1 => {
                let x = ts[i].clone();
                ts.insert(i, x);
            }
            2 => {
                let j = ctx.r.below(ts.len());
                ts.swap(i, j);
            }
            _ => ts[i] = ctx.r.pick(&["{", "}", "<", ">", "[", "]", ":", ",", ";", "-", "1", "a", "\"s\"", "1.5", "inf", "true", "0x1", "/", "."]).to_string(),
        }
        if ts.is_empty() {
            break;
        }
    }
    ts.join(*ctx.r.pick(&[" ", "", "\n"]))
}

fn soup(ctx: &mut Ctx, s: &RSchema, ty: &str) -> String {
    let d = s.msg(ty);
    let mut words: Vec<String> = d.fields.values().map(|f| f.name.clone()).collect();
    words.extend(s.exts_of(ty).map(|f| format!("[{}]", f.full_name)));
    for w in ["{", "}", "<", ">", "[", "]", ":", ",", ";", "-", "1", "\"s\"", "1.5", "true", "0x1", "/", ".", "#", "\n", "\\", "'", "é"] {
        words.push(w.into());
    }
    let n = ctx.r.below(12);
    (0..n).map(|_| ctx.r.pick(&words).clone()).collect::<Vec<_>>().join(*ctx.r.pick(&[" ", ""]))
}
