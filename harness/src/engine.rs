//! Case runner: deterministic cases on all cores, panic capture, supervisor for aborts and hangs,
//! evidence.

use crate::rng::{fnv, Rng};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Outcome = Result<(), String>;

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    /// run on one thread only (the case inspects or uses the whole process)
    pub single: bool,
    pub exhaustive: bool,
    pub case: fn(&mut Ctx) -> Outcome,
}

pub struct Ctx {
    pub idx: u64,
    pub r: Rng,
    pub thorough: bool,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    pub evaluations: u64,
    /// what a replay file should hold: (label, bytes)
    pub artifacts: Vec<(String, Vec<u8>)>,
    pub note: String,
}

impl Ctx {
    fn new(thorough: bool) -> Ctx {
        Ctx {
            idx: 0,
            r: Rng::new(0),
            thorough,
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            evaluations: 0,
            artifacts: vec![],
            note: String::new(),
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_owned(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        if let Some(c) = self.maxima.get_mut(k) {
            *c = (*c).max(n);
        } else {
            self.maxima.insert(k.to_owned(), n);
        }
    }
    /// one evaluation of the property on a case identified by `h`
    pub fn eval(&mut self, h: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn artifact(&mut self, label: &str, bytes: &[u8]) {
        self.artifacts.push((label.to_owned(), bytes.to_vec()));
    }
}

pub fn repo_dir() -> PathBuf {
    PathBuf::from(std::env::var("MON_REPO").unwrap_or_else(|_| "/repo".into()))
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("MON_VERIF").unwrap_or_else(|_| "/verif".into()))
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panicked at {loc}: {msg}");
        let _ = PANIC.try_with(|p| *p.borrow_mut() = text);
    }));
}

/// Runs an operation of the library; a panic is reported as an error.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(format!("{what} {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

fn case_rng(prop: &str, seed: u64, idx: u64) -> Rng {
    let mut b = prop.as_bytes().to_vec();
    b.extend_from_slice(&seed.to_le_bytes());
    b.extend_from_slice(&idx.to_le_bytes());
    Rng::new(fnv(0, &b))
}

fn run_case(p: &Prop, ctx: &mut Ctx, seed: u64, idx: u64) -> Outcome {
    ctx.idx = idx;
    ctx.r = case_rng(p.id, seed, idx);
    ctx.artifacts.clear();
    ctx.note.clear();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(ctx))) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub thorough: bool,
}

pub fn opts() -> Opts {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1);
    Opts { tier: tier.into(), seed: seed as u64, thorough: tier == "thorough" }
}

fn threads() -> usize {
    std::env::var("MON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map_or(4, |n| n.get()).min(8)
    })
}

struct Violation {
    idx: u64,
    msg: String,
    artifacts: Vec<(String, Vec<u8>)>,
    note: String,
}

fn replay_dir() -> PathBuf {
    verif_dir().join("evidence/replay")
}

fn hexdump(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, c) in b.chunks(32).enumerate().take(2048) {
        s += &format!("{:06x} ", i * 32);
        for x in c {
            s += &format!("{:02x}", x);
        }
        s += "\n";
    }
    if b.len() > 65536 {
        s += "...\n";
    }
    s
}

fn write_replay(p: &Prop, o: &Opts, v: &Violation) -> PathBuf {
    let dir = replay_dir();
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}-seed{}-case{}.txt", p.id, o.seed, v.idx));
    let mut s = format!(
        "property {}\n{}\nreplay: cd /verif && VERIF_SEED={} VERIF_TIER={} ./check.sh {} --case {}\n{}\n",
        p.id, v.msg, o.seed, o.tier, p.id, v.idx, v.note
    );
    for (l, b) in &v.artifacts {
        s += &format!("--- {} ({} bytes)\n{}", l, b.len(), hexdump(b));
    }
    let _ = std::fs::write(&f, s);
    f
}

/// findings recorded as genuine and unrepaired: lines `known: property=<id> <text that the report contains>`
fn known(p: &Prop) -> Vec<String> {
    let s = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let pre = format!("known: property={} ", p.id);
    s.lines().filter_map(|l| l.strip_prefix(&pre)).map(|l| l.trim().to_owned()).filter(|l| !l.is_empty()).collect()
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
pub struct Totals {
    pub evaluations: u64,
    pub distinct: u64,
    pub cases: u64,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

/// Adds what a further stage observed (a file with one JSON object) to the evidence of a property.
pub fn add_stage(id: &str, file: &str) -> i32 {
    let ev = verif_dir().join(format!("evidence/{id}.json"));
    let (Ok(s), Ok(x)) = (std::fs::read_to_string(&ev), std::fs::read_to_string(file)) else { return 3 };
    let x = x.trim();
    let _ = std::fs::remove_file(file);
    let s = if s.contains("  \"stages\": [\n") {
        s.replacen("  \"stages\": [\n", &format!("  \"stages\": [\n   {x},\n"), 1)
    } else {
        s.replacen(" \"coverage\": {\n", &format!(" \"coverage\": {{\n  \"stages\": [\n   {x}\n  ],\n"), 1)
    };
    std::fs::write(ev, s).map_or(3, |_| 0)
}

fn write_evidence(p: &Prop, o: &Opts, t: &Totals, wall: f64, violations: usize) {
    if let Ok(f) = std::env::var("MON_STAGE") {
        let kind = Path::new(&f).file_stem().map(|x| x.to_string_lossy().rsplit('-').next().unwrap_or("").to_string()).unwrap_or_default();
        let s = format!(
            "{{\"stage\": {}, \"cases_run\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.2}, \"violations\": {}}}\n",
            json_str(&kind), t.cases, t.evaluations, t.distinct, wall, violations
        );
        let _ = std::fs::write(f, s);
        return;
    }
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::from("{\n");
    s += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n", json_str(p.id), json_str(&o.tier), o.seed as i64);
    s += &format!(" \"level\": {},\n \"coverage\": {{\n", json_str(p.level));
    s += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"cases_run\": {},\n", t.evaluations, t.distinct, t.cases);
    s += &format!("  \"rule\": {},\n", json_str(p.rule));
    if p.exhaustive {
        s += "  \"exhaustive\": true,\n";
    }
    s += "  \"observed\": {";
    let mut first = true;
    for (k, v) in t.counters.iter() {
        s += &format!("{}\n   {}: {}", if first { "" } else { "," }, json_str(k), v);
        first = false;
    }
    for (k, v) in t.maxima.iter() {
        s += &format!("{}\n   {}: {}", if first { "" } else { "," }, json_str(&format!("max {k}")), v);
        first = false;
    }
    s += "\n  },\n  \"samples\": [";
    for (i, x) in t.samples.iter().enumerate() {
        s += &format!("{}\n   {}", if i > 0 { "," } else { "" }, json_str(x));
    }
    s += "\n  ]\n },\n \"assumptions\": [";
    for (i, x) in p.assumptions.iter().enumerate() {
        s += &format!("{}\n  {}", if i > 0 { "," } else { "" }, json_str(x));
    }
    s += &format!("\n ],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, violations);
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), s);
}

/// Worker: runs all cases. Exit code 0 clean, 1 violations, 86 hang.
pub fn worker(p: &Prop) -> i32 {
    install_hook();
    let o = opts();
    let start = Instant::now();
    let total: u64 = std::env::var("MON_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let soft: u64 = std::env::var("MON_SOFT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if o.thorough { 540 } else { 60 });
    let hang_ms: u64 = std::env::var("MON_HANG_S").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(60) * 1000;
    let n = if p.single { 1 } else { threads() };
    let status = std::env::var("MON_STATUS").ok().and_then(|f| std::fs::OpenOptions::new().write(true).open(f).ok());
    let first = std::env::var("MON_FIRST").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let total = first + total;
    let next = AtomicU64::new(first);
    let stop = AtomicBool::new(false);
    let finished = AtomicBool::new(false);
    let began: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let violations: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let totals: Mutex<(Totals, HashSet<u64>)> = Mutex::new(Default::default());
    let kn = known(p);
    let known_hits: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| {
        let watch = std::thread::Builder::new();
        let (began_r, finished_r) = (&began, &finished);
        let _ = watch.spawn_scoped(sc, move || {
            while !finished_r.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                let now = start.elapsed().as_millis() as u64 + 1;
                for b in began_r.iter() {
                    let t = b.load(SeqCst);
                    if t != 0 && now.saturating_sub(t) > hang_ms {
                        eprintln!("a case did not finish within {} s", hang_ms / 1000);
                        std::process::exit(86);
                    }
                }
            }
        });
        let mut hs = vec![];
        for k in 0..n {
            let (next, stop, began, violations, totals, status, o, kn, known_hits) =
                (&next, &stop, &began[k], &violations, &totals, &status, &o, &kn, &known_hits);
            let b = std::thread::Builder::new().stack_size(8 << 20);
            hs.push(
                b.spawn_scoped(sc, move || {
                    let mut ctx = Ctx::new(o.thorough);
                    let mut cases = 0;
                    while !stop.load(SeqCst) {
                        let idx = next.fetch_add(1, SeqCst);
                        if idx >= total || start.elapsed().as_secs() >= soft {
                            break;
                        }
                        if let Some(f) = status {
                            let _ = f.write_all_at(&(idx + 1).to_le_bytes(), k as u64 * 8);
                        }
                        began.store(start.elapsed().as_millis() as u64 + 1, SeqCst);
                        let r = run_case(p, &mut ctx, o.seed, idx);
                        began.store(0, SeqCst);
                        cases += 1;
                        if let Err(msg) = r {
                            if let Some(x) = kn.iter().find(|x| msg.contains(x.as_str())) {
                                known_hits.lock().unwrap().entry(x.clone()).or_insert(msg);
                                continue;
                            }
                            let mut v = violations.lock().unwrap();
                            v.push(Violation { idx, msg, artifacts: std::mem::take(&mut ctx.artifacts), note: ctx.note.clone() });
                            if v.len() >= 4 {
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                    if let Some(f) = status {
                        let _ = f.write_all_at(&0u64.to_le_bytes(), k as u64 * 8);
                    }
                    let mut t = totals.lock().unwrap();
                    t.0.cases += cases;
                    t.0.evaluations += ctx.evaluations;
                    for (k, v) in ctx.counters {
                        *t.0.counters.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in ctx.maxima {
                        let e = t.0.maxima.entry(k).or_insert(0);
                        *e = (*e).max(v);
                    }
                    if t.0.samples.len() < 6 {
                        let mut s = ctx.samples;
                        t.0.samples.append(&mut s);
                    }
                    t.1.extend(ctx.distinct);
                })
                .unwrap(),
            );
        }
        for h in hs {
            let _ = h.join();
        }
        finished.store(true, SeqCst);
    });
    let (mut t, d) = totals.into_inner().unwrap();
    t.distinct = d.len() as u64;
    t.samples.truncate(6);
    let mut vs = violations.into_inner().unwrap();
    vs.sort_by_key(|v| v.idx);
    for (k, m) in known_hits.into_inner().unwrap() {
        println!("KNOWN-FINDING: property={} {} ({})", p.id, k, m);
    }
    let wall = start.elapsed().as_secs_f64();
    write_evidence(p, &o, &t, wall, vs.len());
    println!("{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s", p.id, t.cases, t.evaluations, t.distinct, wall);
    for v in vs.iter().take(4) {
        let f = write_replay(p, &o, v);
        println!("{} case {}: {}", p.id, v.idx, v.msg.lines().next().unwrap_or(""));
        println!("VIOLATION property={} replay={}", p.id, f.display());
    }
    if !vs.is_empty() {
        1
    } else if t.evaluations == 0 {
        eprintln!("{}: nothing was observed", p.id);
        3
    } else {
        0
    }
}

/// A single case in this process: 0 held, 1 violated.
pub fn single(p: &Prop, idx: u64) -> i32 {
    install_hook();
    let o = opts();
    let mut ctx = Ctx::new(o.thorough);
    match run_case(p, &mut ctx, o.seed, idx) {
        Ok(()) => {
            println!("case {idx}: held");
            0
        }
        Err(msg) => {
            println!("case {idx}: {msg}");
            let v = Violation { idx, msg, artifacts: ctx.artifacts, note: ctx.note };
            let f = write_replay(p, &o, &v);
            println!("VIOLATION property={} replay={}", p.id, f.display());
            1
        }
    }
}

fn died(s: &std::process::ExitStatus) -> Option<String> {
    if let Some(sig) = s.signal() {
        let n = match sig {
            6 => " (abort)",
            9 => " (killed)",
            11 => " (segmentation fault)",
            _ => "",
        };
        return Some(format!("died of signal {sig}{n}"));
    }
    match s.code() {
        Some(0) | Some(1) => None,
        Some(86) => Some("hung".into()),
        Some(c) => Some(format!("exited with code {c}")),
        None => Some("ended abnormally".into()),
    }
}

/// Supervisor: runs the worker and turns aborts and hangs into confirmed violations.
pub fn supervise(p: &Prop) -> i32 {
    let o = opts();
    let exe = std::env::current_exe().unwrap();
    let dir = scratch_root();
    let status = dir.join(format!("mon-status-{}-{}", p.id, std::process::id()));
    for attempt in 0..2 {
        let _ = std::fs::write(&status, vec![0u8; 64 * 8]);
        let st = std::process::Command::new(&exe)
            .arg("--worker")
            .arg(p.id)
            .env("MON_STATUS", &status)
            .env("MON_SUPER", "1")
            .status();
        let st = match st {
            Ok(s) => s,
            Err(e) => {
                eprintln!("cannot start the worker: {e}");
                return 3;
            }
        };
        let Some(how) = died(&st) else {
            let _ = std::fs::remove_file(&status);
            return st.code().unwrap_or(3);
        };
        eprintln!("the worker {how}; re-running the cases it was in");
        let b = std::fs::read(&status).unwrap_or_default();
        let cases: Vec<u64> =
            b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|x| *x > 0).map(|x| x - 1).collect();
        let mut confirmed = vec![];
        for idx in cases {
            let mut c = match std::process::Command::new(&exe).arg(p.id).arg("--case").arg(idx.to_string()).env("MON_SUPER", "1").stderr(std::process::Stdio::null()).spawn() {
                Ok(c) => c,
                Err(_) => continue,
            };
            let t0 = Instant::now();
            let out = loop {
                match c.try_wait() {
                    Ok(Some(s)) => break died(&s).map(|h| (h, false)).or(if s.code() == Some(1) { Some(("failed".into(), true)) } else { None }),
                    Ok(None) if t0.elapsed() > Duration::from_secs(90) => {
                        let _ = c.kill();
                        let _ = c.wait();
                        break Some(("did not finish within 90 s".into(), false));
                    }
                    Ok(None) => std::thread::sleep(Duration::from_millis(5)),
                    Err(_) => break None,
                }
            };
            if let Some((h, _)) = out {
                confirmed.push((idx, h));
                if confirmed.len() >= 2 {
                    break;
                }
            }
        }
        if confirmed.is_empty() && attempt == 1 {
            confirmed.push((0, format!("(unattributed) the worker {how} twice")));
        }
        if !confirmed.is_empty() {
            let t = Totals { evaluations: confirmed.len() as u64, cases: confirmed.len() as u64, ..Default::default() };
            write_evidence(p, &o, &t, 0.0, confirmed.len());
            for (idx, h) in confirmed {
                let v = Violation { idx, msg: format!("the process running this case {h}"), artifacts: vec![], note: String::new() };
                let f = write_replay(p, &o, &v);
                println!("{} case {}: the process {}", p.id, idx, h);
                println!("VIOLATION property={} replay={}", p.id, f.display());
            }
            let _ = std::fs::remove_file(&status);
            return 1;
        }
    }
    let _ = std::fs::remove_file(&status);
    3
}

pub fn scratch_root() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = Path::new(d);
        let t = p.join(format!(".mon-probe-{}", std::process::id()));
        if std::fs::write(&t, b"x").is_ok() {
            let _ = std::fs::remove_file(&t);
            return p.to_path_buf();
        }
    }
    std::env::temp_dir()
}

/// A scratch directory that is removed when dropped.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = scratch_root().join(format!("mon-{}-{}-{}", tag, std::process::id(), N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
