//! C29: where descriptor errors point.
use crate::faults::{self, Fault};
use crate::gen::*;
use crate::props::desc::{add, cfg};
use crate::props::*;
use crate::rng::Rng;
use crate::run::*;
use miette::Diagnostic;
use prost_reflect::DescriptorPool;
use prost_types::source_code_info::Location;
use prost_types::{FileDescriptorProto, SourceCodeInfo};
use std::collections::BTreeMap;

type R = Result<(), String>;

/// Source text of a file and the span recorded for each path.
struct Src {
    text: String,
    /// byte offset of each line
    lines: Vec<usize>,
    spans: BTreeMap<Vec<i32>, [i32; 4]>,
}

/// Every path an error might be about.
pub(crate) fn paths(files: &[FileDescriptorProto], i: usize) -> Vec<Vec<i32>> {
    let mut out: Vec<Vec<i32>> = vec![vec![], vec![1], vec![2], vec![12], vec![8]];
    for k in 0..files[i].dependency.len() {
        out.push(vec![3, k as i32]);
    }
    for (e, _) in faults::named(files) {
        if e.file == i {
            for k in 1..=10 {
                out.push([&e.path[..], &[k]].concat());
            }
            out.push(e.path);
        }
    }
    for m in faults::msgs(files) {
        if m.file == i {
            let d = faults::msg(files, &m);
            for k in 0..d.extension_range.len() {
                out.push([&m.path[..], &[5, k as i32]].concat());
            }
            for k in 0..d.reserved_range.len() {
                out.push([&m.path[..], &[9, k as i32]].concat());
            }
        }
    }
    let mut fs = files.to_vec();
    for e in faults::enums(files) {
        if e.file == i {
            for k in 0..faults::enum_of(files, i, &e.path).reserved_range.len() {
                out.push([&e.path[..], &[4, k as i32]].concat());
            }
        }
    }
    for (f, p) in faults::option_carriers(files) {
        if f == i {
            let (slot, op, _) = faults::options_slot(&mut fs, f, &p);
            for k in 0..slot.len() {
                out.push([&op[..], &[999, k as i32]].concat());
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

fn attach(r: &mut Rng, files: &mut [FileDescriptorProto], i: usize) -> Src {
    let mut ps = paths(files, i);
    r.shuffle(&mut ps);
    let eol = if r.bool() { "\n" } else { "\r\n" };
    let skip = r.below(30);
    let mut text = String::new();
    for k in 0..skip {
        text.push_str(&format!("// header {k}{eol}"));
    }
    let mut line = skip as i32;
    let mut spans = BTreeMap::new();
    let mut info = SourceCodeInfo::default();
    let omit = *r.pick(&[0, 10, 40]);
    for p in ps {
        // one or two lines of text for each
        let two = r.pct(20);
        let w = 8 + r.below(30) as i32;
        let l: String = (0..w).map(|k| (b'a' + ((k + line) % 26) as u8) as char).collect();
        text.push_str(&l);
        text.push_str(eol);
        let c = r.below(w as usize - 2) as i32;
        let mut span;
        if two {
            let e = 1 + r.below(5) as i32;
            text.push_str("second line");
            text.push_str(eol);
            span = vec![line, c, line + 1, e];
            line += 2;
        } else {
            let e = c + 1 + r.below((w - c - 1) as usize) as i32;
            span = if r.bool() { vec![line, c, e] } else { vec![line, c, line, e] };
            line += 1;
        }
        if r.pct(omit) {
            continue;
        }
        if r.pct(2) {
            // not a span
            span.truncate(2);
        } else {
            spans.insert(p.clone(), if span.len() == 3 { [span[0], span[1], span[0], span[2]] } else { [span[0], span[1], span[2], span[3]] });
        }
        info.location.push(Location { path: p, span, ..Default::default() });
    }
    text.push_str("// end");
    files[i].source_code_info = Some(info);
    let mut lines = vec![0];
    lines.extend(text.match_indices('\n').map(|x| x.0 + 1));
    Src { text, lines, spans }
}

/// Byte range of a span in the text.
fn bytes(src: &Src, s: [i32; 4]) -> (usize, usize) {
    let at = |l: i32, c: i32| src.lines[l as usize] + c as usize;
    (at(s[0], s[1]), at(s[2], s[3]))
}

fn c29(ctx: &mut Ctx, _: u64) -> R {
    let c = cfg(ctx);
    let nw = if c.wkt { 7 } else { 0 };
    let files = gen_files(&mut ctx.r, c);
    let base = files.len().min(nw + if ctx.r.bool() { 0 } else { ctx.r.below(files.len() - nw) });
    for _ in 0..8 {
        let kind = *ctx.r.pick(faults::KINDS);
        let mut fs = files.clone();
        let n = fs.len();
        let Some(ft) = faults::inject(&mut ctx.r, &mut fs, kind, &|i| i >= base.max(nw) && i < n) else { continue };
        let mut srcs = BTreeMap::new();
        let with = ctx.r.pct(90);
        for i in nw..fs.len() {
            if with {
                let s = attach(&mut ctx.r, &mut fs, i);
                srcs.insert(fs[i].name().to_string(), s);
            }
        }
        let mut pool = DescriptorPool::new();
        if base > 0 {
            pool.add_file_descriptor_protos(fs[..base].iter().cloned()).map_err(|e| format!("valid definitions were rejected: {e:?}\n{}", show_files(&files[..base])))?;
        }
        let mut batch = fs[base..].to_vec();
        if ctx.r.bool() {
            ctx.r.shuffle(&mut batch);
        }
        let Err(e) = add(ctx, &mut pool, &batch) else { continue };
        let name = fs[ft.file].name().to_string();
        let text = format!("{e}");
        check(ctx, e, &ft, &name, &srcs, with).map_err(|m| {
            format!(
                "fault {kind} ({}) in {name}, places {:?}, related {:?}: {m}; message {text:?}\n{}",
                ft.what,
                ft.places,
                ft.related,
                show_files(&fs.iter().map(|f| FileDescriptorProto { source_code_info: None, ..f.clone() }).collect::<Vec<_>>())
            )
        })?;
    }
    Ok(())
}

fn check(ctx: &mut Ctx, e: prost_reflect::DescriptorError, ft: &Fault, name: &str, srcs: &BTreeMap<String, Src>, with: bool) -> R {
    let text = format!("{e}");
    if !ft.mention.is_empty() && !ft.mention.iter().any(|m| text.contains(m.as_str())) {
        return Err(format!("the message names none of {:?}", ft.mention));
    }
    if let Some(f) = e.file() {
        let p = e.path().ok_or("a file without a path")?.to_vec();
        if ft.places.is_empty() {
            if f != name && !ft.related.iter().any(|x| x.0 == f) {
                return Err(format!("points at {f}"));
            }
        } else if !ft.places.iter().any(|(a, b)| a == f && *b == p) {
            return Err(format!("points at {f} {p:?}"));
        }
        let at = srcs.get(f).and_then(|s| s.spans.get(&p)).copied();
        let got = (e.line(), e.column());
        let want = (at.map(|s| s[0] as usize), at.map(|s| s[1] as usize));
        if got != want {
            return Err(format!("position {got:?}, recorded for {p:?} is {want:?}"));
        }
        let dbg = format!("{e:?}");
        let head = match at {
            Some(s) => format!("{f}:{}:{}: ", s[0] + 1, s[1] + 1),
            None => format!("{f}: "),
        };
        if dbg != format!("{head}{text}") {
            return Err(format!("debug text is {dbg:?}"));
        }
        ctx.count(&format!("placed: {}", ft.kind), 1);
        ctx.feature(format!("{} {} {}", ft.kind, p.iter().enumerate().map(|(i, x)| if i % 2 == 0 { format!("{x}.") } else { "*.".into() }).collect::<String>(), at.is_some()).as_bytes());
        let f = f.to_string();
        // without source no snippet
        if e.labels().is_some_and(|mut l| l.next().is_some()) || e.source_code().is_some() {
            return Err("labels before any source is attached".into());
        }
        let Some(src) = srcs.get(&f) else { return Ok(()) };
        let e = e.with_source_code(&src.text);
        if format!("{e}") != text || e.file() != Some(&f) || e.path() != Some(&p[..]) || (e.line(), e.column()) != want {
            return Err("attaching source changed the error".into());
        }
        let spans: Vec<(usize, usize)> = e.labels().map(|l| l.map(|l| (l.offset(), l.offset() + l.len())).collect()).unwrap_or_default();
        let mut fine: Vec<(usize, usize)> = vec![];
        for (a, b) in ft.places.iter().chain(&ft.related) {
            if *a == f {
                if let Some(s) = src.spans.get(b) {
                    fine.push(bytes(src, *s));
                }
            }
        }
        let prim = at.map(|s| bytes(src, s));
        if let Some(p) = prim {
            fine.push(p);
            if !spans.contains(&p) {
                return Err(format!("labels {spans:?} do not cover the element's {p:?}"));
            }
        }
        for s in &spans {
            // the related places of dropped imports are the lost definitions: in other files, never labelled
            if !fine.contains(s) {
                return Err(format!("a label covers {s:?}, none of the places involved ({fine:?})"));
            }
        }
        // errors about two elements show both
        let others: Vec<(usize, usize)> = ft
            .related
            .iter()
            .filter(|x| x.0 == f && x.1 != p && (ft.kind != "duplicate-json-name" || x.1.last() == Some(&1)))
            .filter_map(|x| src.spans.get(&x.1))
            .map(|s| bytes(src, *s))
            .filter(|s| s.0 < s.1)
            .collect();
        if !others.is_empty() && ft.kind != "dropped-import" {
            if !others.iter().any(|o| spans.contains(o)) {
                return Err(format!("labels {spans:?} do not show the other element ({others:?})"));
            }
            ctx.count("other element labelled", 1);
        }
        let known: Vec<(usize, usize)> = src.spans.values().map(|s| bytes(src, *s)).collect();
        for d in e.related().into_iter().flatten() {
            for l in d.labels().into_iter().flatten() {
                if !known.contains(&(l.offset(), l.offset() + l.len())) {
                    return Err(format!("a label of a further error covers {}+{}, which no element has", l.offset(), l.len()));
                }
            }
            ctx.count("further errors", 1);
        }
        let sc = e.source_code().ok_or("no source code after attaching it")?;
        for s in &spans {
            let c = sc.read_span(&(s.0, s.1 - s.0).into(), 0, 0).map_err(|x| format!("{x}"))?;
            if c.name() != Some(&f) {
                return Err(format!("the snippet is of {:?}", c.name()));
            }
            let t = &src.text[s.0..s.1];
            if !String::from_utf8_lossy(c.data()).contains(t) {
                return Err(format!("the snippet shows {:?}, not {t:?}", String::from_utf8_lossy(c.data())));
            }
        }
        ctx.count("labelled snippets", spans.len() as u64);
    } else {
        if !ft.places.is_empty() {
            return Err("reports no file".into());
        }
        if e.line().is_some() || e.column().is_some() || e.path().is_some() {
            return Err("a position without a file".into());
        }
        let _ = with;
        let e = e.with_source_code("text");
        if e.labels().is_some_and(|mut l| l.next().is_some()) {
            return Err("labels without a place".into());
        }
        ctx.count(&format!("unplaced: {}", ft.kind), 1);
    }
    Ok(())
}

pub static PROPS: &[Prop] = &[Prop {
    id: "C29",
    quick: 8_000,
    thorough: 400_000,
    rule: "case i: valid definition set drawn from hash(seed, id, i), single faults at random applicable elements, and synthetic source information with a span of its own for every path",
    case: c29,
    directed: None,
    extra: None,
    need: &["placed: unnamed", "placed: bad-default", "placed: duplicate-json-name", "labelled snippets", "further errors"],
    level: "fault injection with recorded positions",
}];
