//! Runs checks: worker processes, failure confirmation, shrinking, evidence,
//! replay files and known findings.

use crate::alloc;
use crate::tape::{Tape, hash64, shrink};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Tape, &mut Ctx) -> Res,
    /// Deterministic cases run before the generated ones (regressions,
    /// boundary tables): number and runner.
    pub fixed: Option<(u64, fn(u64, &mut Ctx) -> Res)>,
    /// Reproducers of recorded findings: (key, still fails?).
    pub known: &'static [(&'static str, fn(&mut Ctx) -> bool)],
    /// Allocations one case may make.
    pub budget: u64,
    pub assumptions: &'static [&'static str],
}

pub struct Ctx {
    pub labels: BTreeSet<String>,
    pub nontrivial: bool,
    pub text: String,
    pub thorough: bool,
    dir: Option<PathBuf>,
}
static mut DIR_NO: u64 = 0;
impl Ctx {
    pub fn new(thorough: bool) -> Self {
        Ctx { labels: BTreeSet::new(), nontrivial: false, text: String::new(), thorough, dir: None }
    }
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.insert(s.into());
    }
    pub fn label_if(&mut self, b: bool, s: &str) {
        if b {
            self.labels.insert(s.to_string());
        }
    }
    pub fn show(&mut self, s: impl AsRef<str>) {
        if std::env::var_os("VH_ECHO").is_some() {
            eprintln!("{}", s.as_ref());
        }
        self.text.push_str(s.as_ref());
        if !self.text.ends_with('\n') {
            self.text.push('\n');
        }
    }
    /// A fresh scratch directory, removed with the context.
    pub fn dir(&mut self) -> PathBuf {
        if self.dir.is_none() {
            let n = unsafe {
                DIR_NO += 1;
                DIR_NO
            };
            let d = scratch_root().join(format!("c{n}"));
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir_all(&d).expect("create scratch directory");
            let d = d.canonicalize().expect("canonical scratch directory");
            self.dir = Some(d);
        }
        self.dir.clone().unwrap()
    }
}
impl Drop for Ctx {
    fn drop(&mut self) {
        if let Some(d) = &self.dir {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}

pub fn scratch_root() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    base.join(format!("avdl-vh-{}", std::process::id()))
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
}
pub fn env() -> Env {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    Env { seed, thorough }
}
pub fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub enum Outcome {
    Pass,
    Fail(String),
    /// A defect of the harness itself.
    Broken(String),
}

pub fn guarded(f: impl FnOnce() -> Res) -> Outcome {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(e)) => match e.strip_prefix("HARNESS: ") {
            Some(b) => Outcome::Broken(b.to_string()),
            None => Outcome::Fail(e),
        },
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("panic".into(), String::new()));
            // harness sources are compiled with relative paths
            if loc.starts_with("src/") {
                Outcome::Broken(format!("harness panicked at {loc}: {msg}"))
            } else {
                let loc = loc.replace("/repo/", "");
                Outcome::Fail(format!("panic at {loc}: {msg}"))
            }
        }
    }
}

fn run_tape(c: &Check, tape: &mut Tape, ctx: &mut Ctx) -> Outcome {
    alloc::allow(c.budget);
    alloc::limit_cpu(alloc::CPU_LIMIT);
    let r = guarded(|| (c.run)(tape, ctx));
    alloc::unlimited();
    alloc::limit_cpu(0);
    r
}
fn run_fixed(c: &Check, i: u64, ctx: &mut Ctx) -> Outcome {
    alloc::allow(c.budget);
    alloc::limit_cpu(alloc::CPU_LIMIT);
    let r = guarded(|| (c.fixed.unwrap().1)(i, ctx));
    alloc::unlimited();
    alloc::limit_cpu(0);
    r
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    hash64(&[&seed.to_le_bytes(), id.as_bytes(), &idx.to_le_bytes()])
}

/// Runs `f` on a thread with the stack size of a usual main thread.
pub fn on_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).expect("spawn").join().expect("worker thread")
}

fn n_fixed(c: &Check) -> u64 {
    c.fixed.map(|f| f.0).unwrap_or(0)
}

/// Case numbers below the number of fixed cases are the fixed ones.
fn run_index(c: &Check, e: &Env, idx: u64, ctx: &mut Ctx) -> (Outcome, Vec<u32>) {
    if idx < n_fixed(c) {
        (run_fixed(c, idx, ctx), vec![])
    } else {
        let mut t = Tape::fresh(case_seed(e.seed, c.id, idx - n_fixed(c)));
        let r = run_tape(c, &mut t, ctx);
        (r, t.data)
    }
}

// ---------------------------------------------------------------- worker

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}… ({} bytes in all)", &s[..i], s.len())
}

pub fn worker(c: &'static Check, start: u64, stride: u64, total: u64, out: PathBuf) {
    install_hook();
    let e = env();
    let v = on_stack(move || {
        let prog = std::fs::File::create(out.with_extension("progress")).expect("progress file");
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut hashes: Vec<u64> = vec![];
        let mut samples: Vec<Value> = vec![];
        let mut n = 0u64;
        let mut idx = start;
        let mut result = json!(null);
        let t0 = Instant::now();
        while idx < total {
            // on a slow or busy machine: answer with what was explored so far
            if !e.thorough && t0.elapsed() > Duration::from_secs(500) {
                labels.insert("stopped-early".into(), 1);
                break;
            }
            let _ = prog.write_all_at(&idx.to_le_bytes(), 0);
            let mut ctx = Ctx::new(e.thorough);
            let (r, tape) = run_index(c, &e, idx, &mut ctx);
            n += 1;
            match r {
                Outcome::Pass => {}
                Outcome::Fail(m) => {
                    result = json!({"idx": idx, "message": m});
                    break;
                }
                Outcome::Broken(m) => {
                    result = json!({"idx": idx, "broken": format!("{m}\n--- case ---\n{}", clip(&ctx.text, 4000))});
                    break;
                }
            }
            for l in std::mem::take(&mut ctx.labels) {
                *labels.entry(l).or_default() += 1;
            }
            if ctx.nontrivial {
                let h = if ctx.text.is_empty() {
                    let b: Vec<u8> = tape.iter().flat_map(|v| v.to_le_bytes()).collect();
                    hash64(&[&b])
                } else {
                    hash64(&[ctx.text.as_bytes()])
                };
                hashes.push(h);
                let want = if n < 40 { samples.len() < 1 } else { samples.len() < 2 };
                if want && ctx.text.len() < 2500 && !ctx.text.is_empty() {
                    samples.push(json!({"case": idx, "input": clip(&ctx.text, 1500)}));
                }
            }
            idx += stride;
        }
        json!({"n": n, "labels": labels, "hashes": hashes, "samples": samples, "failure": result})
    });
    let _ = std::fs::remove_dir_all(scratch_root());
    let args: Vec<String> = std::env::args().collect();
    std::fs::write(&args[args.len() - 1], serde_json::to_vec(&v).unwrap()).expect("write worker result");
}

/// Runs one generated case alone; exit 0 pass, 10 fail (message on stdout),
/// 11 harness defect.
pub fn one(c: &'static Check, tape_file: Option<PathBuf>, idx: u64) -> i32 {
    install_hook();
    let e = env();
    let code = on_stack(move || {
        let mut ctx = Ctx::new(e.thorough);
        let r = match tape_file {
            Some(f) => {
                let data: Vec<u32> = serde_json::from_slice(&std::fs::read(f).unwrap()).unwrap();
                let mut t = Tape::replay(data);
                run_tape(c, &mut t, &mut ctx)
            }
            None => run_index(c, &e, idx, &mut ctx).0,
        };
        match r {
            Outcome::Pass => 0,
            Outcome::Fail(m) => {
                println!("{}\n--- case ---\n{}", m, ctx.text);
                10
            }
            Outcome::Broken(m) => {
                println!("{}\n--- case ---\n{}", m, ctx.text);
                11
            }
        }
    });
    let _ = std::fs::remove_dir_all(scratch_root());
    code
}

/// Shrinks a failing case in this process; prints {tape, message, text}.
pub fn shrink_case(c: &'static Check, idx: u64) {
    install_hook();
    let e = env();
    let v = on_stack(move || {
        let first = Tape::fresh(case_seed(e.seed, c.id, idx - n_fixed(c)));
        let mut first = first;
        let mut ctx = Ctx::new(e.thorough);
        let _ = run_tape(c, &mut first, &mut ctx);
        drop(ctx);
        let t0 = Instant::now();
        let best = shrink(first.data, 3000, |cand| {
            if t0.elapsed() > Duration::from_secs(40) {
                return None;
            }
            let mut t = Tape::replay(cand.to_vec());
            let mut ctx = Ctx::new(e.thorough);
            match run_tape(c, &mut t, &mut ctx) {
                Outcome::Fail(_) => {
                    let n = t.used();
                    let mut d = t.data;
                    d.truncate(n);
                    Some(d)
                }
                _ => None,
            }
        });
        let mut t = Tape::replay(best);
        let mut ctx = Ctx::new(e.thorough);
        let m = match run_tape(c, &mut t, &mut ctx) {
            Outcome::Fail(m) => m,
            _ => "not reproduced".into(),
        };
        json!({"tape": t.data, "message": m, "input": ctx.text})
    });
    let _ = std::fs::remove_dir_all(scratch_root());
    println!("{v}");
}

// ---------------------------------------------------------------- parent

struct Death {
    what: String,
}
fn death_of(st: std::process::ExitStatus) -> Option<Death> {
    use std::os::unix::process::ExitStatusExt;
    if let Some(s) = st.signal() {
        // 9 may be the sandbox running out of memory: never a verdict
        if s == 9 || s == 15 {
            return None;
        }
        return Some(Death { what: format!("the process died with signal {s} (stack overflow or abort)") });
    }
    match st.code() {
        Some(alloc::EXIT_WORK) => Some(Death { what: "the case exceeded its allocation budget (runaway work)".into() }),
        Some(alloc::EXIT_CPU) => Some(Death { what: format!("the case took more than {} s of processor time", alloc::CPU_LIMIT) }),
        Some(alloc::EXIT_MEM) => Some(Death { what: "the case exceeded its memory budget (3 GiB live)".into() }),
        _ => None,
    }
}

fn me() -> PathBuf {
    std::env::current_exe().expect("current exe")
}

fn wait_timeout(ch: &mut std::process::Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = ch.try_wait() {
            return Some(s);
        }
        if t0.elapsed() > d {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn save_replay(id: &str, tier: &str, seed: u64, v: Value) -> PathBuf {
    let dir = verif_root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let h = hash64(&[v.to_string().as_bytes()]);
    let p = dir.join(format!("{id}-{h:016x}.json"));
    let mut o = v;
    o["property"] = json!(id);
    o["tier"] = json!(tier);
    o["seed"] = json!(seed);
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&o).unwrap());
    p
}

pub fn known_list() -> Vec<Value> {
    let p = verif_root().join("known_findings.json");
    match std::fs::read(&p) {
        Ok(b) => serde_json::from_slice::<Value>(&b)
            .ok()
            .and_then(|v| v.get("findings").and_then(|f| f.as_array().cloned()))
            .unwrap_or_default(),
        Err(_) => vec![],
    }
}

pub fn check(c: &'static Check) -> i32 {
    let t0 = Instant::now();
    let e = env();
    let tier = if e.thorough { "thorough" } else { "quick" };
    let gen_n = std::env::var("VH_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if e.thorough { c.thorough } else { c.quick });
    let total = gen_n + n_fixed(c);
    let work = scratch_root();
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).expect("work directory");
    let mut violations: Vec<(String, PathBuf)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut known_lines = vec![];

    // Recorded findings first.
    let listed = known_list();
    for (key, f) in c.known {
        let entry = listed.iter().find(|v| v["property"] == c.id && v["key"] == *key);
        let fails = on_stack({
            let thorough = e.thorough;
            let f = *f;
            move || {
                install_hook();
                let mut ctx = Ctx::new(thorough);
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ctx))).unwrap_or(true)
            }
        });
        if !fails {
            continue;
        }
        match entry {
            Some(v) => known_lines.push(format!(
                "KNOWN-FINDING: property={} {}",
                c.id,
                v["what"].as_str().unwrap_or("").replace('\n', " ")
            )),
            None => {
                let p = save_replay(c.id, tier, e.seed, json!({"known": key, "message": "recorded reproducer fails"}));
                violations.push((format!("reproducer {key} fails"), p));
            }
        }
    }

    let nw = std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64).min(total.max(1));
    let mut kids = vec![];
    for w in 0..nw {
        let out = work.join(format!("w{w}.json"));
        let ch = Command::new(me())
            .args(["worker", c.id, &w.to_string(), &nw.to_string(), &total.to_string()])
            .arg(&out)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        kids.push((ch, out, false));
    }
    let stall = Duration::from_secs(if e.thorough { 300 } else { 120 });
    let mut last: Vec<(u64, Instant)> = kids.iter().map(|_| (u64::MAX, Instant::now())).collect();
    loop {
        let mut alive = false;
        for (i, (ch, out, done)) in kids.iter_mut().enumerate() {
            if *done {
                continue;
            }
            match ch.try_wait() {
                Ok(Some(_)) => *done = true,
                _ => {
                    alive = true;
                    let cur = progress(out);
                    if cur != last[i].0 {
                        last[i] = (cur, Instant::now());
                    } else if last[i].1.elapsed() > stall {
                        let _ = ch.kill();
                        errors.push(format!("worker {i} made no progress on case {cur} for {stall:?} (inconclusive)"));
                        *done = true;
                    }
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }

    let mut evaluations = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut failures: Vec<(u64, String)> = vec![];
    let mut deaths: Vec<u64> = vec![];
    for (ch, out, _) in kids.iter_mut() {
        let st = ch.wait().expect("wait");
        if st.success() {
            let v: Value = match std::fs::read(&*out).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                Some(v) => v,
                None => {
                    errors.push("worker left no result".into());
                    continue;
                }
            };
            evaluations += v["n"].as_u64().unwrap_or(0);
            for (k, n) in v["labels"].as_object().unwrap() {
                *labels.entry(k.clone()).or_default() += n.as_u64().unwrap();
            }
            for h in v["hashes"].as_array().unwrap() {
                hashes.insert(h.as_u64().unwrap());
            }
            samples.extend(v["samples"].as_array().unwrap().iter().cloned());
            if let Some(f) = v["failure"].as_object() {
                let idx = f["idx"].as_u64().unwrap();
                match f.get("broken") {
                    Some(b) => errors.push(format!("case {idx}: {}", b.as_str().unwrap_or(""))),
                    None => failures.push((idx, f["message"].as_str().unwrap_or("").to_string())),
                }
            }
        } else if death_of(st).is_some() {
            let idx = progress(out);
            evaluations += idx / nw + 1;
            deaths.push(idx);
        } else {
            errors.push(format!("worker ended with {st}"));
        }
    }

    failures.sort();
    if let Some((idx, msg)) = failures.first() {
        let mut v = json!({"message": msg, "case": idx});
        if *idx >= n_fixed(c) {
            let o = Command::new(me()).args(["shrink", c.id, &idx.to_string()]).stderr(Stdio::null()).output();
            if let Ok(o) = o
                && let Ok(s) = serde_json::from_slice::<Value>(&o.stdout)
            {
                v = s;
                v["case"] = json!(idx);
            }
        } else {
            v["fixed"] = json!(idx);
        }
        let m = v["message"].as_str().unwrap_or(msg).to_string();
        let p = save_replay(c.id, tier, e.seed, v);
        violations.push((m, p));
    }
    deaths.sort();
    for idx in deaths {
        // Confirm alone.
        let spawn = || {
            Command::new(me())
                .args(["one", c.id, &idx.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
        };
        let mut ch = spawn().expect("spawn");
        match wait_timeout(&mut ch, Duration::from_secs(200)).and_then(death_of) {
            Some(d) => {
                let mut v = json!({"message": d.what, "case": idx});
                if idx < n_fixed(c) {
                    v["fixed"] = json!(idx);
                } else {
                    // the tape as far as generation is independent of execution
                    let tape = tape_of(c, &e, idx);
                    let best = shrink_deaths(c, tape, &work);
                    v["tape"] = json!(best);
                }
                let p = save_replay(c.id, tier, e.seed, v);
                violations.push((d.what, p));
                break;
            }
            None => errors.push(format!("a worker died on case {idx}, but the case alone did not")),
        }
    }
    let _ = std::fs::remove_dir_all(&work);

    samples.truncate(4);
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": c.id, "tier": tier, "seed": e.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": hashes.len(),
            "rule": c.rule,
            "samples": samples,
            "fixed_cases": n_fixed(c),
            "labels": labels,
        },
        "assumptions": c.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations.len(),
    });
    let edir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if let Err(x) = std::fs::write(edir.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        errors.push(format!("cannot write evidence: {x}"));
    }
    for l in &known_lines {
        println!("{l}");
    }
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s ({tier}, seed {})", c.id, evaluations, hashes.len(), wall, e.seed);
    for (m, p) in &violations {
        println!("{}", clip(m, 3000));
        println!("VIOLATION property={} replay={}", c.id, p.display());
    }
    if !violations.is_empty() {
        return 1;
    }
    for x in &errors {
        println!("ERROR: {}", clip(x, 6000));
    }
    if errors.is_empty() { 0 } else { 2 }
}

fn progress(out: &Path) -> u64 {
    std::fs::read(out.with_extension("progress"))
        .ok()
        .filter(|b| b.len() >= 8)
        .map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()))
        .unwrap_or(u64::MAX)
}

/// The tape of a case that kills its process: replayed with growing prefixes
/// is not possible in-process, so the raw generator stream is used.
fn tape_of(c: &Check, e: &Env, idx: u64) -> Vec<u32> {
    // An over-long raw stream: replay mode clamps each value to its bound,
    // which differs from `% n`; so the stream is recorded by the case itself.
    let p = scratch_root().join("tape.json");
    let st = Command::new(me())
        .args(["tape", c.id, &idx.to_string()])
        .arg(&p)
        .env("VERIF_SEED", (e.seed as i64).to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    let _ = st;
    std::fs::read(&p).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default()
}

fn shrink_deaths(c: &Check, tape: Vec<u32>, work: &Path) -> Vec<u32> {
    let f = work.join("cand.json");
    let t0 = Instant::now();
    shrink(tape, 250, |cand| {
        if t0.elapsed() > Duration::from_secs(60) {
            return None;
        }
        std::fs::write(&f, serde_json::to_vec(cand).unwrap()).ok()?;
        let mut ch = Command::new(me())
            .args(["onetape", c.id])
            .arg(&f)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let st = wait_timeout(&mut ch, Duration::from_secs(60))?;
        death_of(st).map(|_| cand.to_vec())
    })
}

/// Records the tape of case `idx`, writing it out as it grows (for cases that
/// kill the process).
pub fn record(c: &'static Check, idx: u64, out: PathBuf) {
    install_hook();
    let e = env();
    on_stack(move || {
        crate::tape::set_log(out);
        let mut ctx = Ctx::new(e.thorough);
        let _ = run_index(c, &e, idx, &mut ctx);
    });
}

pub fn replay(checks: &[&'static Check], file: &Path) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(file).expect("read replay")).expect("replay JSON");
    let id = v["property"].as_str().unwrap_or("").to_string();
    let Some(c) = checks.iter().find(|c| c.id == id).copied() else {
        println!("unknown property {id}");
        return 2;
    };
    install_hook();
    let fixed = v["fixed"].as_u64();
    let known = v["known"].as_str().map(|s| s.to_string());
    let data: Vec<u32> =
        v["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
    let thorough = v["tier"] == "thorough";
    on_stack(move || {
        let mut ctx = Ctx::new(thorough);
        let r = if let Some(k) = known {
            let f = c.known.iter().find(|x| x.0 == k).expect("known key").1;
            if f(&mut ctx) { Outcome::Fail("recorded reproducer fails".into()) } else { Outcome::Pass }
        } else if let Some(i) = fixed {
            run_fixed(c, i, &mut ctx)
        } else {
            run_tape(c, &mut Tape::replay(data), &mut ctx)
        };
        let _ = std::io::stdout().flush();
        let text = ctx.text.clone();
        drop(ctx);
        let _ = std::fs::remove_dir_all(scratch_root());
        match r {
            Outcome::Pass => {
                println!("passes\n--- case ---\n{text}");
                0
            }
            Outcome::Fail(m) => {
                println!("{m}\n--- case ---\n{text}");
                1
            }
            Outcome::Broken(m) => {
                println!("HARNESS DEFECT: {m}\n--- case ---\n{text}");
                2
            }
        }
    })
}
