//! Exhaustive-enumeration engine.
//!
//! A check is a deterministic enumerator of cases.  The parent process spawns
//! worker processes; worker `i` of `n` runs the cases whose index hashes to
//! `i`.  Every case is executed against the real code and judged by the check's
//! oracle.  A panic, an abort, a crash or a hang of the code under test inside
//! a case is itself a violation (re-confirmed in a fresh process first).

use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Check {
    pub id: &'static str,
    /// "model_checking" | "exploration" | "fault_enumeration"
    pub level: &'static str,
    /// How cases are made and what makes one non-trivial; bounds.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// A case that runs for longer than this is a hang.
    pub case_timeout_s: u64,
    /// Number of worker processes (0: one per core, at most 8).
    pub workers: usize,
    /// Run the worker inside a one-thread rayon pool (nested parallel
    /// iterators then execute inline and deterministically).
    pub single_thread: bool,
}

impl Check {
    pub const DEFAULT: Check = Check {
        id: "",
        level: "model_checking",
        rule: "",
        assumptions: &[],
        case_timeout_s: 120,
        workers: 0,
        single_thread: true,
    };
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What one case observed.
#[derive(Default)]
pub struct Obs {
    states: Vec<u64>,
    trans: u64,
    outcomes: Vec<u64>,
    traces: u64,
    sample: Option<String>,
}

impl Obs {
    /// A (model) state visited by this case.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.push(h64(t));
    }
    /// Model transitions (operations, rounds, scheduling steps) taken.
    pub fn trans(&mut self, n: usize) {
        self.trans += n as u64;
    }
    /// A non-trivial outcome of the case.
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        self.outcomes.push(h64(t));
    }
    /// Executions of the real code compared with the model.
    pub fn traces(&mut self, n: usize) {
        self.traces += n as u64;
    }
    /// What to show if this case is picked as a sample.
    pub fn show(&mut self, s: impl Into<String>) {
        self.sample = Some(s.into());
    }
}

pub struct Ctx {
    pub tier: Tier,
    shard: u64,
    nshards: u64,
    only: Option<u64>,
    next: u64,
    progress: Option<std::fs::File>,
    known: HashSet<String>,
    // results
    run: u64,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    trans: u64,
    traces: u64,
    samples: Vec<(u64, String)>,
    violation: Option<(u64, String, String)>,
    known_hit: Vec<(u64, String)>,
    deadline: Instant,
    truncated: bool,
    counters: std::collections::BTreeMap<String, u64>,
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

/// Message of the most recent panic in this process.
pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
}

/// Run code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(format!("panicked: {}", last_panic())),
    }
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Pick a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn stopped(&self) -> bool {
        self.violation.is_some() || self.truncated
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_default() += n;
    }

    /// Next case: does it belong to this worker?
    fn mine(&mut self) -> Option<u64> {
        let idx = self.next;
        self.next += 1;
        if self.violation.is_some() {
            return None;
        }
        if let Some(o) = self.only {
            return if o == idx { Some(idx) } else { None };
        }
        if mix(idx) % self.nshards != self.shard {
            return None;
        }
        if self.truncated || (self.run % 16 == 0 && Instant::now() > self.deadline) {
            self.truncated = true;
            return None;
        }
        Some(idx)
    }

    /// Execute one case (if it is this worker's).  `desc` identifies the input
    /// precisely; `f` runs the code and judges it.
    pub fn case<D, F>(&mut self, desc: D, f: F)
    where
        D: Fn() -> String,
        F: FnOnce(&mut Obs) -> Result<(), String>,
    {
        let idx = match self.mine() {
            Some(i) => i,
            None => return,
        };
        if let Some(p) = &mut self.progress {
            use std::os::unix::fs::FileExt;
            let _ = p.write_at(&(idx + 1).to_le_bytes(), 0);
        }
        self.run += 1;
        let mut obs = Obs::default();
        let res = match catch_unwind(AssertUnwindSafe(|| f(&mut obs))) {
            Ok(r) => r,
            Err(_) => Err(format!("unexpected panic: {}", last_panic())),
        };
        self.trans += obs.trans;
        self.traces += if obs.traces == 0 { 1 } else { obs.traces };
        self.states.extend(obs.states);
        self.outcomes.extend(obs.outcomes);
        let r = self.run;
        if self.samples.len() < 24 && (r <= 2 || (r & (r - 1)) == 0 || r % 977 == 0) {
            let s = match &obs.sample {
                Some(s) => format!("{} => {}", desc(), s),
                None => desc(),
            };
            self.samples.push((idx, s.chars().take(600).collect()));
        }
        if let Err(msg) = res {
            let d = desc();
            if self.known.contains(&d) {
                self.known_hit.push((idx, d));
            } else {
                self.violation = Some((idx, d, msg));
            }
        }
    }
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// known-findings.txt: `known: property=<id> case=<desc> ## <what fails>`
fn load_known(id: &str) -> HashSet<String> {
    let mut res = HashSet::new();
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
        let pre = format!("known: property={} case=", id);
        for line in s.lines() {
            if let Some(rest) = line.strip_prefix(&pre) {
                res.insert(rest.split(" ## ").next().unwrap().to_string());
            }
        }
    }
    res
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{} at {}", msg.chars().take(500).collect::<String>(), loc);
        }
    }));
}

fn rlimit_as(bytes: u64) {
    #[repr(C)]
    struct R {
        cur: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(r: i32, l: *const R) -> i32;
    }
    let r = R {
        cur: bytes,
        max: bytes,
    };
    unsafe {
        setrlimit(9, &r); // RLIMIT_AS
        let z = R { cur: 0, max: 0 };
        setrlimit(4, &z); // RLIMIT_CORE
    }
}

fn worker(check: &Check, explore: fn(&mut Ctx), a: &[String]) -> i32 {
    // a: tier shard nshards only(-1) resultfile budget_s
    let tier = if a[0] == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let shard: u64 = a[1].parse().unwrap();
    let nshards: u64 = a[2].parse().unwrap();
    let only: i64 = a[3].parse().unwrap();
    let base = PathBuf::from(&a[4]);
    let budget: u64 = a[5].parse().unwrap();
    rlimit_as(6 << 30);
    install_panic_hook();
    std::env::remove_var("RUST_LOG");
    let progress = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(base.with_extension("progress"))
        .unwrap();
    let mut ctx = Ctx {
        tier,
        shard,
        nshards,
        only: if only >= 0 { Some(only as u64) } else { None },
        next: 0,
        progress: Some(progress),
        known: load_known(check.id),
        run: 0,
        states: HashSet::new(),
        outcomes: HashSet::new(),
        trans: 0,
        traces: 0,
        samples: vec![],
        violation: None,
        known_hit: vec![],
        deadline: Instant::now() + Duration::from_secs(budget),
        truncated: false,
        counters: Default::default(),
    };
    let body = |ctx: &mut Ctx| {
        if let Err(_) = catch_unwind(AssertUnwindSafe(|| explore(ctx))) {
            eprintln!("enumerator panicked: {}", last_panic());
            std::process::exit(3);
        }
    };
    if check.single_thread {
        let pool = rayon::ThreadPoolBuilder::new()
            .num_threads(1)
            .stack_size(256 << 20)
            .build()
            .unwrap();
        pool.install(|| body(&mut ctx));
    } else {
        let ctxr = &mut ctx;
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || body(ctxr))
                .unwrap();
        });
    }
    let out = json!({
        "run": ctx.run, "enumerated": ctx.next, "trans": ctx.trans, "traces": ctx.traces,
        "samples": ctx.samples, "violation": ctx.violation, "known": ctx.known_hit,
        "truncated": ctx.truncated, "counters": ctx.counters,
    });
    let dump = |set: &HashSet<u64>, ext: &str| {
        let mut v = Vec::with_capacity(set.len() * 8);
        for x in set {
            v.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(base.with_extension(ext), v).unwrap();
    };
    dump(&ctx.states, "states");
    dump(&ctx.outcomes, "outcomes");
    std::fs::write(base.with_extension("json"), out.to_string()).unwrap();
    0
}

struct W {
    child: Child,
    base: PathBuf,
    last: u64,
    since: Instant,
    done: bool,
}

fn spawn(tier: &str, i: usize, n: usize, only: i64, base: &Path, budget: u64) -> Child {
    let err = std::fs::File::create(base.with_extension("stderr")).unwrap();
    Command::new(std::env::current_exe().unwrap())
        .args([
            "--worker",
            tier,
            &i.to_string(),
            &n.to_string(),
            &only.to_string(),
            base.to_str().unwrap(),
            &budget.to_string(),
        ])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .unwrap()
}

fn read_progress(base: &Path) -> u64 {
    let mut b = [0u8; 8];
    match std::fs::File::open(base.with_extension("progress")) {
        Ok(mut f) => {
            if f.read_exact(&mut b).is_ok() {
                u64::from_le_bytes(b)
            } else {
                0
            }
        }
        Err(_) => 0,
    }
}

fn wait_child(c: &mut Child, timeout: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return Some(st);
        }
        if t.elapsed() > timeout {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A fresh scratch directory for a case or worker (removed by the caller).
pub fn scratch_root() -> PathBuf {
    let d = std::env::temp_dir().join(format!("mc-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// Re-run one case alone; Some(violation message) if it fails again.
fn confirm(
    check: &Check,
    tier: &str,
    idx: u64,
    base: &Path,
) -> Result<Option<(String, String)>, String> {
    let _ = std::fs::remove_file(base.with_extension("json"));
    let mut c = spawn(tier, 0, 1, idx as i64, base, 100_000);
    // enumeration up to idx without executing is quick
    let st = wait_child(&mut c, Duration::from_secs(check.case_timeout_s + 60));
    match st {
        None => Ok(Some((
            format!("case #{}", idx),
            format!("does not terminate within {} s", check.case_timeout_s),
        ))),
        Some(st) if st.success() => {
            let v: Value =
                serde_json::from_str(&std::fs::read_to_string(base.with_extension("json")).unwrap())
                    .unwrap();
            if v["violation"].is_null() {
                Ok(None)
            } else {
                Ok(Some((
                    v["violation"][1].as_str().unwrap().to_string(),
                    v["violation"][2].as_str().unwrap().to_string(),
                )))
            }
        }
        Some(st) => {
            use std::os::unix::process::ExitStatusExt;
            if st.signal().is_some() {
                let err =
                    std::fs::read_to_string(base.with_extension("stderr")).unwrap_or_default();
                let tail: String = err.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
                Ok(Some((
                    format!("case #{}", idx),
                    format!("process died with signal {:?}: {}", st.signal(), tail),
                )))
            } else {
                Err(format!("worker exited with {:?}", st))
            }
        }
    }
}

pub fn main(check: Check, explore: fn(&mut Ctx)) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("--worker") {
        std::process::exit(worker(&check, explore, &args[1..]));
    }
    let t0 = Instant::now();
    let dir = verif_dir();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);

    let scratch = Scratch(scratch_root());
    if args.first().map(|s| s.as_str()) == Some("--replay") {
        let v: Value =
            serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).unwrap();
        let tier = v["tier"].as_str().unwrap();
        let idx = v["case"].as_u64().unwrap();
        let r = confirm(&check, tier, idx, &scratch.0.join("replay"));
        drop(scratch);
        match r {
            Ok(Some((d, m))) => {
                println!("case: {}\n{}", d, m);
                println!("VIOLATION property={} replay={}", check.id, args[1]);
                std::process::exit(1);
            }
            Ok(None) => {
                println!("case #{} of {} passes on this tree", idx, check.id);
                std::process::exit(0);
            }
            Err(e) => {
                eprintln!("engine error: {}", e);
                std::process::exit(2);
            }
        }
    }
    let tier = args.first().cloned().unwrap_or_else(|| "quick".into());
    let budget: u64 = std::env::var("MC_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { 7200 } else { 600 });
    let n = if check.workers > 0 {
        check.workers
    } else {
        std::thread::available_parallelism()
            .map(|x| x.get())
            .unwrap_or(8)
            .clamp(1, 8)
    };
    let mut ws: Vec<W> = (0..n)
        .map(|i| {
            let base = scratch.0.join(format!("w{}", i));
            W {
                child: spawn(&tier, i, n, -1, &base, budget),
                base,
                last: 0,
                since: Instant::now(),
                done: false,
            }
        })
        .collect();

    // (case index, desc, message)
    let mut viol: Option<(u64, String, String)> = None;
    let mut suspects: Vec<(usize, u64)> = vec![];
    let mut errors: Vec<String> = vec![];
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(15));
        for (i, w) in ws.iter_mut().enumerate() {
            if w.done {
                continue;
            }
            if let Some(st) = w.child.try_wait().unwrap() {
                w.done = true;
                if !st.success() {
                    use std::os::unix::process::ExitStatusExt;
                    let p = read_progress(&w.base);
                    if st.signal().is_some() && p > 0 {
                        suspects.push((i, p - 1));
                    } else {
                        errors.push(format!(
                            "worker {} ended with {:?}: {}",
                            i,
                            st,
                            std::fs::read_to_string(w.base.with_extension("stderr"))
                                .unwrap_or_default()
                        ));
                    }
                }
                continue;
            }
            let p = read_progress(&w.base);
            if p != w.last {
                w.last = p;
                w.since = Instant::now();
            } else if w.since.elapsed() > Duration::from_secs(check.case_timeout_s) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
                if p > 0 {
                    suspects.push((i, p - 1));
                } else {
                    errors.push(format!("worker {} made no progress", i));
                }
            }
        }
    }

    let mut run = 0;
    let mut enumerated = 0;
    let mut trans = 0;
    let mut traces = 0;
    let mut truncated = false;
    let mut samples: Vec<(u64, String)> = vec![];
    let mut states: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut known: Vec<String> = vec![];
    let mut counters: std::collections::BTreeMap<String, u64> = Default::default();
    for w in &ws {
        let s = match std::fs::read_to_string(w.base.with_extension("json")) {
            Ok(s) => s,
            Err(_) => continue,
        };
        let v: Value = serde_json::from_str(&s).unwrap();
        run += v["run"].as_u64().unwrap();
        enumerated = enumerated.max(v["enumerated"].as_u64().unwrap());
        trans += v["trans"].as_u64().unwrap();
        traces += v["traces"].as_u64().unwrap();
        truncated |= v["truncated"].as_bool().unwrap();
        for s in v["samples"].as_array().unwrap() {
            samples.push((s[0].as_u64().unwrap(), s[1].as_str().unwrap().to_string()));
        }
        for k in v["known"].as_array().unwrap() {
            known.push(k[1].as_str().unwrap().to_string());
        }
        if let Some(c) = v["counters"].as_object() {
            for (k, x) in c {
                *counters.entry(k.clone()).or_default() += x.as_u64().unwrap();
            }
        }
        for (ext, set) in [("states", &mut states), ("outcomes", &mut outcomes)] {
            let b = std::fs::read(w.base.with_extension(ext)).unwrap();
            set.extend(
                b.chunks_exact(8)
                    .map(|c| u64::from_le_bytes(c.try_into().unwrap())),
            );
        }
        if !v["violation"].is_null() {
            let idx = v["violation"][0].as_u64().unwrap();
            if viol.as_ref().map_or(true, |x| idx < x.0) {
                viol = Some((
                    idx,
                    v["violation"][1].as_str().unwrap().to_string(),
                    v["violation"][2].as_str().unwrap().to_string(),
                ));
            }
        }
    }
    if viol.is_none() {
        suspects.sort_by_key(|s| s.1);
        for (i, idx) in suspects {
            match confirm(&check, &tier, idx, &scratch.0.join(format!("confirm{}", i))) {
                Ok(Some((d, m))) => {
                    viol = Some((idx, d, m));
                    break;
                }
                Ok(None) => errors.push(format!(
                    "worker {} died or hung at case {} but the case passes alone",
                    i, idx
                )),
                Err(e) => errors.push(e),
            }
        }
    }

    samples.sort();
    let pick: Vec<String> = {
        let k = samples.len();
        let step = (k / 8).max(1);
        samples
            .iter()
            .step_by(step)
            .take(9)
            .map(|(i, s)| format!("#{}: {}", i, s))
            .collect()
    };
    let mut cov = serde_json::Map::new();
    match check.level {
        "model_checking" => {
            cov.insert("states".into(), json!(states.len()));
            cov.insert("transitions".into(), json!(trans));
            cov.insert("traces_validated_against_impl".into(), json!(traces));
        }
        _ => {
            cov.insert("evaluations".into(), json!(traces));
            cov.insert("distinct_nontrivial".into(), json!(outcomes.len()));
        }
    }
    cov.insert("rule".into(), json!(check.rule));
    cov.insert("samples".into(), json!(pick));
    cov.insert("exhaustive".into(), json!(!truncated && errors.is_empty() && viol.is_none()));
    if !counters.is_empty() {
        cov.insert("breakdown".into(), json!(counters));
    }
    let ev = json!({
        "property": check.id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": check.level,
        "coverage": cov,
        "assumptions": check.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": if viol.is_some() { 1 } else { 0 },
    });
    std::fs::create_dir_all(dir.join("evidence")).unwrap();
    let mut f = std::fs::File::create(dir.join("evidence").join(format!("{}.json", check.id))).unwrap();
    writeln!(f, "{}", serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    drop(scratch);

    known.sort();
    known.dedup();
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", check.id, k);
    }
    if let Some((idx, d, m)) = viol {
        let rdir = dir.join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}.json", check.id));
        let r = json!({
            "property": check.id, "tier": tier, "case": idx, "input": d, "what": m,
            "replay": format!("cd /verif && ./check.sh {} --replay {}", check.id, path.display()),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        println!("case #{}: {}", idx, d);
        println!("{}", m);
        println!("VIOLATION property={} replay={}", check.id, path.display());
        std::process::exit(1);
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("engine error: {}", e);
        }
        std::process::exit(2);
    }
    println!(
        "{}: held on all {} cases ({} states, {} transitions, {} outcomes{}) in {:.1} s",
        check.id,
        run,
        states.len(),
        trans,
        outcomes.len(),
        if truncated { "; TRUNCATED by time budget" } else { "" },
        t0.elapsed().as_secs_f64()
    );
    if enumerated > run && !truncated {
        eprintln!("engine error: {} cases enumerated but {} run", enumerated, run);
        std::process::exit(2);
    }
}
