//! Parent/worker runner: cases, journals, verdicts, evidence.
use crate::rng::{hash_bytes, mix, Rng};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type CaseResult = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub case: fn(&mut Ctx, u64) -> CaseResult,
    /// fixed cases run once per run, by worker 0
    pub directed: Option<fn(&mut Ctx) -> CaseResult>,
    /// run in the parent after the workers (sanitizer builds and the like); returns extra evidence
    pub extra: Option<fn(&mut Extra)>,
    /// counters that must be non-zero, or the run is inconclusive
    pub need: &'static [&'static str],
    pub level: &'static str,
}

#[derive(Default)]
pub struct Extra {
    pub seed: u64,
    pub thorough: bool,
    pub violations: Vec<(String, String)>,
    pub inconclusive: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub notes: Vec<(String, J)>,
}

pub struct Ctx {
    pub r: Rng,
    pub seed: u64,
    pub thorough: bool,
    pub counters: BTreeMap<String, u64>,
    pub features: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeSet<String>,
    pub known_list: Vec<(String, String)>,
    pub prop: String,
    pub replay: bool,
    pub case: u64,
}

impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn feature(&mut self, b: &[u8]) {
        if self.features.len() < 400_000 {
            self.features.insert(hash_bytes(b));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
    /// A deviation with an exact signature: allowed only if the known-findings file lists it.
    pub fn known_or(&mut self, sig: &str, msg: String) -> CaseResult {
        let id = self.prop.clone();
        if self.known_list.iter().any(|(p, s)| *p == id && s == sig) {
            self.known.insert(format!("{sig}: {msg}"));
            Ok(())
        } else {
            Err(format!("[{sig}] {msg}"))
        }
    }
}

pub fn root() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

fn load_known() -> Vec<(String, String)> {
    let p = root().join("known_findings.txt");
    let mut out = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        // finding: property=C26 sig=<signature> | text
        if let Some(rest) = l.strip_prefix("finding: property=") {
            if let Some((id, rest)) = rest.split_once(" sig=") {
                let sig = rest.split(" | ").next().unwrap().trim();
                out.push((id.to_string(), sig.to_string()));
            }
        }
    }
    out
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

/// Run `f`, turning a panic into an error message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(id.as_bytes())).wrapping_add(i))
}

fn run_case(p: &Prop, ctx: &mut Ctx, seed: u64, i: u64) -> CaseResult {
    ctx.case = i;
    ctx.r = Rng::new(case_seed(seed, p.id, i));
    match guard(|| (p.case)(ctx, i)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

fn new_ctx(p: &Prop, seed: u64, thorough: bool) -> Ctx {
    Ctx {
        r: Rng::new(seed),
        seed,
        thorough,
        counters: BTreeMap::new(),
        features: HashSet::new(),
        samples: vec![],
        known: BTreeSet::new(),
        known_list: load_known(),
        prop: p.id.to_string(),
        replay: false,
        case: 0,
    }
}

/// A context for cases that run outside the workers.
pub fn plain_ctx(id: &str, seed: u64) -> Ctx {
    let p = crate::props::all().into_iter().find(|p| p.id == id).unwrap();
    new_ctx(p, seed, false)
}

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
const DIRECTED: u64 = u64::MAX - 1;
const STACK: usize = 64 << 20;

fn cpu_time() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    let u: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    (t + u) / 100.0
}

pub fn worker(p: &'static Prop, seed: u64, thorough: bool, shard: u64, nshards: u64, out: &Path) {
    install_hook();
    let total = if thorough { p.thorough } else { p.quick };
    let cap = cap_secs(thorough);
    let start = Instant::now();
    let cur_path = out.with_extension("cur");
    // watchdog
    {
        let cur_path = cur_path.clone();
        std::thread::spawn(move || {
            let mut last = CUR.load(Ordering::SeqCst);
            let mut cpu0 = cpu_time();
            let mut wall0 = Instant::now();
            let mut idle_cpu = cpu0;
            let mut idle_wall = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let c = CUR.load(Ordering::SeqCst);
                let cpu = cpu_time();
                if c != last {
                    last = c;
                    cpu0 = cpu;
                    wall0 = Instant::now();
                    idle_cpu = cpu;
                    idle_wall = Instant::now();
                    continue;
                }
                if cpu - idle_cpu > 0.2 {
                    idle_cpu = cpu;
                    idle_wall = Instant::now();
                }
                if cpu - cpu0 > 90.0 {
                    let _ = std::fs::write(cur_path.with_extension("hang"), "no termination within 90 CPU-seconds");
                    std::process::exit(97);
                }
                if idle_wall.elapsed() > Duration::from_secs(90) {
                    let _ = std::fs::write(
                        cur_path.with_extension("hang"),
                        "deadlock: no CPU consumed for 90 seconds inside one case",
                    );
                    std::process::exit(97);
                }
                if wall0.elapsed() > Duration::from_secs(600) {
                    std::process::exit(98);
                }
            }
        });
    }
    let out = out.to_path_buf();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut ctx = new_ctx(p, seed, thorough);
            let mut cur = std::fs::File::create(&cur_path).unwrap();
            let mut viol: Vec<(u64, String)> = vec![];
            let mark = |cur: &mut std::fs::File, i: u64| {
                use std::os::unix::fs::FileExt;
                CUR.store(i, Ordering::SeqCst);
                let _ = cur.write_all_at(&i.to_le_bytes(), 0);
            };
            let mut done = 0u64;
            if shard == 0 {
                if let Some(d) = p.directed {
                    mark(&mut cur, DIRECTED);
                    ctx.r = Rng::new(case_seed(seed, p.id, DIRECTED));
                    match guard(|| d(&mut ctx)) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) | Err(e) => viol.push((DIRECTED, e)),
                    }
                    done += 1;
                }
            }
            let mut i = shard;
            let mut capped = false;
            while i < total {
                if start.elapsed() > cap {
                    capped = true;
                    break;
                }
                mark(&mut cur, i);
                if let Err(e) = run_case(p, &mut ctx, seed, i) {
                    viol.push((i, e));
                    if viol.len() >= 3 {
                        break;
                    }
                }
                done += 1;
                i += nshards;
            }
            let res = json!({
                "done": done,
                "capped": capped,
                "counters": ctx.counters,
                "features": ctx.features.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>(),
                "samples": ctx.samples,
                "known": ctx.known,
                "violations": viol.iter().map(|(i, m)| json!([i, m])).collect::<Vec<_>>(),
            });
            std::fs::write(&out, serde_json::to_vec(&res).unwrap()).unwrap();
        })
        .unwrap();
    h.join().unwrap();
    std::process::exit(0);
}

fn cap_secs(thorough: bool) -> Duration {
    Duration::from_secs(
        std::env::var("PRMON_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 240 }),
    )
}

/// The same program built without debug assertions and overflow checks.
fn plain_exe() -> Option<PathBuf> {
    let exe = std::env::current_exe().ok()?;
    let p = exe.parent()?.parent()?.join("plain").join(exe.file_name()?);
    (p != exe && p.exists()).then_some(p)
}

pub fn replay(p: &'static Prop, seed: u64, i: u64) -> i32 {
    let r = replay_here(p, seed, i);
    if let (0, Some(exe)) = (r, plain_exe()) {
        print!("without debug assertions: ");
        let _ = std::io::stdout().flush();
        let st = std::process::Command::new(exe).args(["replay", p.id, &seed.to_string(), &i.to_string()]).status();
        return st.ok().and_then(|s| s.code()).unwrap_or(2);
    }
    r
}

fn replay_here(p: &'static Prop, seed: u64, i: u64) -> i32 {
    install_hook();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut ctx = new_ctx(p, seed, false);
            ctx.replay = true;
            let r = if i == DIRECTED {
                match guard(|| (p.directed.unwrap())(&mut ctx)) {
                    Ok(r) => r,
                    Err(e) => Err(e),
                }
            } else {
                run_case(p, &mut ctx, seed, i)
            };
            match r {
                Ok(()) => {
                    println!("held; counters {:?}", ctx.counters);
                    0
                }
                Err(e) => {
                    println!("VIOLATION property={} replay=- {e}", p.id);
                    1
                }
            }
        })
        .unwrap();
    h.join().unwrap_or(1)
}

fn set_limits() {
    extern "C" {
        fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    }
    unsafe {
        // address space: 12 GiB, so that a runaway allocation ends the worker, not the sandbox
        setrlimit(9, &[12u64 << 30, 12u64 << 30]);
        // no core files
        setrlimit(4, &[0, 0]);
    }
}

pub fn set_worker_limits() {
    set_limits();
}

pub fn run(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let exe = std::env::current_exe().unwrap();
    let n: u64 = 8;
    let tmp = std::env::temp_dir().join(format!("prmon-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let mut kids = vec![];
    let plain = plain_exe();
    for s in 0..n {
        let exe = match &plain {
            Some(p) if s % 4 == 3 => p,
            _ => &exe,
        };
        let out = tmp.join(format!("w{s}.json"));
        let err = std::fs::File::create(tmp.join(format!("w{s}.err"))).unwrap();
        let c = std::process::Command::new(exe)
            .args(["worker", p.id, &seed.to_string(), tier, &s.to_string(), &n.to_string()])
            .arg(&out)
            .stderr(err)
            .stdin(std::process::Stdio::null())
            .spawn()
            .unwrap();
        kids.push((s, out, c));
    }
    let mut evals = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut features: HashSet<String> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut known: BTreeSet<String> = BTreeSet::new();
    let mut viol: Vec<(u64, String)> = vec![];
    let mut incon: Vec<String> = vec![];
    let mut capped = false;
    for (s, out, mut c) in kids {
        let st = c.wait().unwrap();
        match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<J>(&b).ok()) {
            Some(j) if st.success() => {
                evals += j["done"].as_u64().unwrap_or(0);
                capped |= j["capped"].as_bool().unwrap_or(false);
                for (k, v) in j["counters"].as_object().unwrap() {
                    *counters.entry(k.clone()).or_default() += v.as_u64().unwrap();
                }
                for f in j["features"].as_array().unwrap() {
                    features.insert(f.as_str().unwrap().into());
                }
                for x in j["samples"].as_array().unwrap() {
                    if samples.len() < 6 {
                        samples.push(x.as_str().unwrap().into());
                    }
                }
                for x in j["known"].as_array().unwrap() {
                    known.insert(x.as_str().unwrap().into());
                }
                for v in j["violations"].as_array().unwrap() {
                    viol.push((v[0].as_u64().unwrap(), v[1].as_str().unwrap().into()));
                }
            }
            _ => {
                let cur = std::fs::read(out.with_extension("cur"))
                    .ok()
                    .and_then(|b| b.try_into().ok())
                    .map(u64::from_le_bytes);
                let hang = std::fs::read_to_string(out.with_extension("cur").with_extension("hang")).ok();
                let err = std::fs::read_to_string(tmp.join(format!("w{s}.err"))).unwrap_or_default();
                let tail: String = err.lines().rev().take(4).collect::<Vec<_>>().join(" | ");
                use std::os::unix::process::ExitStatusExt;
                match (cur, hang, st.signal()) {
                    (Some(i), Some(h), _) => viol.push((i, h)),
                    // killed from outside (out of memory, time limit of the caller): no verdict
                    (_, _, Some(9)) | (_, _, Some(15)) => incon.push(format!("worker {s} was killed")),
                    (Some(i), None, Some(sig)) => {
                        viol.push((i, format!("the process died with signal {sig} during this case: {tail}")))
                    }
                    (c, _, _) => incon.push(format!("worker {s} ended with {st} at {c:?}: {tail}")),
                }
            }
        }
    }
    let mut extra = Extra { seed, thorough, ..Default::default() };
    if viol.is_empty() {
        if let Some(x) = p.extra {
            x(&mut extra);
        }
    }
    for (k, v) in &extra.counters {
        *counters.entry(k.clone()).or_default() += v;
    }
    incon.extend(extra.inconclusive.iter().cloned());
    let rdir = root().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let mut lines = vec![];
    viol.sort();
    for (i, m) in viol.iter().take(5) {
        let path = rdir.join(format!("{}-{seed}-{i}.txt", p.id));
        let mut f = std::fs::File::create(&path).unwrap();
        let _ = writeln!(f, "property {}\nseed {seed}\ncase {i}\nreplay: ./check.sh replay {} {seed} {i}\n\n{m}", p.id, p.id);
        let mut short: String = m.replace('\n', " ");
        if short.len() > 700 {
            let mut k = 700;
            while !short.is_char_boundary(k) {
                k -= 1;
            }
            short.truncate(k);
        }
        lines.push(format!("VIOLATION property={} replay={} {short}", p.id, path.display()));
    }
    for (name, m) in extra.violations.iter().take(3) {
        let path = rdir.join(format!("{}-{seed}-{name}.txt", p.id));
        let _ = std::fs::write(&path, m);
        let short: String = m.lines().take(3).collect::<Vec<_>>().join(" ");
        lines.push(format!("VIOLATION property={} replay={} {short}", p.id, path.display()));
    }
    let nv = viol.len() + extra.violations.len();
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k.replace('\n', " "));
    }
    if nv == 0 {
        for need in p.need {
            if counters.get(*need).copied().unwrap_or(0) == 0 {
                incon.push(format!("the monitor never observed '{need}'"));
            }
        }
        if evals == 0 {
            incon.push("no case was executed".into());
        }
    }
    let mut cov = json!({
        "evaluations": evals,
        "workers_without_debug_assertions": plain.map_or(0, |_| n / 4),
        "distinct_nontrivial": features.len(),
        "rule": p.rule,
        "samples": samples,
        "monitor_events": counters,
        "time_capped": capped,
        "known_findings_seen": known,
    });
    for (k, v) in &extra.notes {
        cov[k] = v.clone();
    }
    if !incon.is_empty() {
        cov["inconclusive"] = json!(incon);
    }
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": p.level,
        "coverage": cov,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nv,
        "assumptions": ["the reference models in harness/src are right where they agree with the library on every explored case",
                         "nothing is claimed beyond the executions observed"],
    });
    let edir = root().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    let _ = std::fs::remove_dir_all(&tmp);
    for l in &lines {
        println!("{l}");
    }
    println!(
        "{} {tier} seed={seed}: {evals} cases, {} distinct, {nv} violations, {:.1}s{}",
        p.id,
        features.len(),
        t0.elapsed().as_secs_f64(),
        if capped { " (time-capped)" } else { "" }
    );
    if nv > 0 {
        return 1;
    }
    if !incon.is_empty() {
        for i in incon {
            println!("INCONCLUSIVE {}: {i}", p.id);
        }
        return 2;
    }
    0
}
