//! Shared plumbing of the checks: tiers, counters, violation reports, known findings, evidence.
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    violations: Mutex<Vec<(String, String)>>,
    n_violations: AtomicUsize,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    extra: Mutex<Map<String, Value>>,
    assumptions: Mutex<Vec<String>>,
    sets: Mutex<BTreeMap<String, std::collections::BTreeSet<u64>>>,
}

impl Ctx {
    pub fn new(id: &str) -> Ctx {
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = vec![];
        let path = verif_dir().join("known-findings.json");
        if let Ok(text) = std::fs::read_to_string(&path) {
            let v: Value = serde_json::from_str(&text).expect("known-findings.json is not JSON");
            for f in v["findings"].as_array().cloned().unwrap_or_default() {
                if f["property"] == id {
                    known.push((
                        f["key"].as_str().expect("key").to_string(),
                        f["what"].as_str().expect("what").to_string(),
                    ));
                }
            }
        }
        Ctx {
            id: id.into(),
            thorough: tier == "thorough",
            seed,
            start: Instant::now(),
            known,
            known_hit: Default::default(),
            violations: Default::default(),
            n_violations: AtomicUsize::new(0),
            counters: Default::default(),
            samples: Default::default(),
            extra: Default::default(),
            assumptions: Default::default(),
            sets: Default::default(),
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// `key` identifies the specific failing input / history; `detail` is written to the replay file.
    pub fn violation(&self, key: &str, detail: impl FnOnce() -> String) {
        if self.known.iter().any(|(k, _)| k == key) {
            *self.known_hit.lock().unwrap_or_else(|e| e.into_inner()).entry(key.into()).or_insert(0) += 1;
            return;
        }
        self.n_violations.fetch_add(1, Ordering::Relaxed);
        let mut v = self.violations.lock().unwrap_or_else(|e| e.into_inner());
        // Keep the smallest counterexamples: the alphabet is ordered simplest first.
        if v.len() < 40 {
            let d = detail();
            v.push((key.into(), d));
        }
    }
    pub fn violated(&self) -> bool {
        self.n_violations.load(Ordering::Relaxed) > 0
    }
    pub fn n_violations(&self) -> usize {
        self.n_violations.load(Ordering::Relaxed)
    }
    pub fn add(&self, counter: &str, n: u64) {
        *self.counters.lock().unwrap_or_else(|e| e.into_inner()).entry(counter.into()).or_insert(0) += n;
    }
    pub fn get(&self, counter: &str) -> u64 {
        self.counters.lock().unwrap_or_else(|e| e.into_inner()).get(counter).copied().unwrap_or(0)
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap_or_else(|e| e.into_inner());
        if s.len() < 24 {
            s.push(v);
        }
    }
    pub fn n_samples(&self) -> usize {
        self.samples.lock().unwrap_or_else(|e| e.into_inner()).len()
    }
    pub fn set(&self, k: &str, v: Value) {
        self.extra.lock().unwrap_or_else(|e| e.into_inner()).insert(k.into(), v);
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap_or_else(|e| e.into_inner()).push(s.into());
    }

    /// In a worker process: hand everything to the parent.
    pub fn export(self) -> ! {
        let v = json!({
            "violations": *self.violations.lock().unwrap_or_else(|e| e.into_inner()),
            "n": self.n_violations(),
            "known": *self.known_hit.lock().unwrap_or_else(|e| e.into_inner()),
            "counters": *self.counters.lock().unwrap_or_else(|e| e.into_inner()),
            "samples": *self.samples.lock().unwrap_or_else(|e| e.into_inner()),
            "sets": *self.sets.lock().unwrap_or_else(|e| e.into_inner()),
        });
        println!("MC_SHARD_RESULT {v}");
        std::process::exit(0);
    }
    fn absorb(&self, v: &Value) {
        for x in v["violations"].as_array().unwrap() {
            self.violations.lock().unwrap_or_else(|e| e.into_inner()).push((x[0].as_str().unwrap().into(), x[1].as_str().unwrap().into()));
        }
        self.n_violations.fetch_add(v["n"].as_u64().unwrap() as usize, Ordering::Relaxed);
        for (k, n) in v["known"].as_object().unwrap() {
            *self.known_hit.lock().unwrap_or_else(|e| e.into_inner()).entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        for (k, n) in v["counters"].as_object().unwrap() {
            self.add(k, n.as_u64().unwrap());
        }
        for s in v["samples"].as_array().unwrap() {
            self.sample(s.clone());
        }
        for (k, l) in v["sets"].as_object().unwrap() {
            for x in l.as_array().unwrap() {
                self.distinct(k, x.as_u64().unwrap());
            }
        }
    }
    /// Remembers a distinct observation (by hash) under a name; the sizes end up in the evidence.
    pub fn distinct(&self, set: &str, hash: u64) {
        self.sets.lock().unwrap_or_else(|e| e.into_inner()).entry(set.into()).or_default().insert(hash);
    }
    /// Splits the work over worker processes: each runs this binary again with MC_SHARD=k/n.
    pub fn run_shards(&self, n: usize) {
        let exe = std::env::current_exe().unwrap();
        let args: Vec<_> = std::env::args_os().skip(1).collect();
        let kids: Vec<_> = (0..n)
            .map(|k| {
                std::process::Command::new(&exe)
                    .args(&args)
                    .env("MC_SHARD", format!("{k}/{n}"))
                    .stdout(std::process::Stdio::piped())
                    .spawn()
                    .expect("worker")
            })
            .collect();
        for k in kids {
            let o = k.wait_with_output().expect("worker output");
            let text = String::from_utf8_lossy(&o.stdout).to_string();
            let Some(line) = text.lines().find_map(|l| l.strip_prefix("MC_SHARD_RESULT ")) else {
                panic!("worker ended without a result ({}):\n{text}", o.status);
            };
            self.absorb(&serde_json::from_str(line).expect("worker result"));
        }
    }
    pub fn shard() -> Option<(u64, u64)> {
        let s = std::env::var("MC_SHARD").ok()?;
        let (a, b) = s.split_once('/')?;
        Some((a.parse().ok()?, b.parse().ok()?))
    }

    /// Writes evidence, prints findings and violations, and exits.
    pub fn finish(self, level: &str) -> ! {
        let mut cov = self.extra.lock().unwrap_or_else(|e| e.into_inner()).clone();
        for (k, v) in self.counters.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            cov.insert(k.clone(), json!(v));
        }
        for (k, v) in self.sets.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            cov.insert(k.clone(), json!(v.len()));
        }
        let mut samples = self.samples.lock().unwrap_or_else(|e| e.into_inner()).clone();
        samples.truncate(24);
        cov.insert("samples".into(), Value::Array(samples));
        let nv = self.n_violations();
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": level,
            "coverage": Value::Object(cov.clone()),
            "assumptions": *self.assumptions.lock().unwrap_or_else(|e| e.into_inner()),
            "wall_s": self.elapsed(),
            "violations": nv,
        });
        let dir = verif_dir().join("evidence");
        std::fs::create_dir_all(&dir).expect("evidence dir");
        std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("evidence file");
        for (k, what) in &self.known {
            if let Some(n) = self.known_hit.lock().unwrap_or_else(|e| e.into_inner()).get(k) {
                println!("KNOWN-FINDING: property={} {} [key {}; seen {} times]", self.id, what, k, n);
            }
        }
        cov.remove("samples");
        cov.retain(|_, v| v.is_number());
        println!("{} coverage: {}", self.id, Value::Object(cov));
        if nv == 0 {
            println!("{}: held on everything explored ({:.1}s)", self.id, self.elapsed());
            std::process::exit(0);
        }
        let rdir = verif_dir().join("replays").join(&self.id);
        let _ = std::fs::create_dir_all(&rdir);
        let mut v = self.violations.lock().unwrap_or_else(|e| e.into_inner()).clone();
        v.sort_by_key(|(k, d)| (d.len(), k.clone()));
        for (i, (key, detail)) in v.iter().take(5).enumerate() {
            let p = rdir.join(format!("{i}.txt"));
            std::fs::write(&p, format!("property: {}\nkey: {key}\n{detail}\n", self.id)).expect("replay file");
            println!("VIOLATION property={} replay={}", self.id, p.display());
            let short: String = detail.chars().take(600).collect();
            println!("  {key}: {short}");
        }
        println!("{}: {} violation(s)", self.id, nv);
        std::process::exit(1);
    }
}

/// Runs `f(i)` for every i in 0..n on all cores; results are merged by the callbacks themselves.
pub fn par(n: u64, f: impl Fn(u64) + Sync) {
    let next = AtomicU64::new(0);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let chunk = (n / (threads as u64 * 64)).clamp(1, 4096);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(chunk, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    for j in i..(i + chunk).min(n) {
                        f(j);
                    }
                })
                .unwrap();
        }
    });
}

/// Mixed radix decoding: digits of `i` for the given radices (first digit varies slowest).
pub fn digits(mut i: u64, radices: &[u64]) -> Vec<usize> {
    let mut d = vec![0; radices.len()];
    for k in (0..radices.len()).rev() {
        d[k] = (i % radices[k]) as usize;
        i /= radices[k];
    }
    d
}

/// All sequences over 0..k with length in lo..=hi, shortest first.
pub fn sequences(k: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for len in lo..=hi {
        let n = (k as u64).pow(len as u32);
        for i in 0..n {
            out.push(digits(i, &vec![k as u64; len]));
        }
    }
    out
}

/// Turns a panic into Err(message).
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}
/// One execution of the code under test: a panic becomes Err(message), and one that does not end is noticed.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_on(b"", f)
}
/// The same, with the input it is given.
pub fn catch_on<T>(input: &[u8], f: impl FnOnce() -> T) -> Result<T, String> {
    SLOT.with(|s| {
        s.at.store(input.as_ptr() as usize, Ordering::Relaxed);
        s.len.store(input.len(), Ordering::Relaxed);
        s.since.store(now_ms(), Ordering::Release);
        let r = caught(f);
        s.since.store(0, Ordering::Release);
        r
    })
}
/// What a thread is running.
#[derive(Default)]
struct Slot {
    /// In milliseconds of the process; 0: nothing.
    since: AtomicU64,
    at: AtomicUsize,
    len: AtomicUsize,
}
static SLOTS: Mutex<Vec<std::sync::Arc<Slot>>> = Mutex::new(vec![]);
thread_local! {
    static SLOT: std::sync::Arc<Slot> = {
        let s = std::sync::Arc::<Slot>::default();
        let mut all = SLOTS.lock().unwrap_or_else(|e| e.into_inner());
        // those of threads that ended
        all.retain(|s| std::sync::Arc::strong_count(s) > 1);
        all.push(s.clone());
        s
    };
}
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}
fn now_ms() -> u64 {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
/// No execution on an input of the checks takes more than seconds.
const HANGS_MS: u64 = 240_000;
/// No check needs more than a fraction of this.
fn too_much() -> u64 {
    let quick = std::env::var("VERIF_TIER").map_or(true, |t| t != "thorough");
    match (Ctx::shard(), quick) {
        (Some(_), _) => 3 << 30,
        (None, true) => 8 << 30,
        (None, false) => 20 << 30,
    }
}
fn resident() -> u64 {
    let text = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    text.split(' ').nth(1).and_then(|n| n.parse::<u64>().ok()).unwrap_or(0) * 4096
}
/// Ends the process with a violation if one execution does not end, or fills the memory.
pub fn watch(ctx: &Ctx) {
    let id = ctx.id.clone();
    now_ms();
    // Some checks silence the standard output while they run.
    let out = unsafe { dup(1) };
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = now_ms();
        let slots = SLOTS.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let running = |s: &&std::sync::Arc<Slot>| s.since.load(Ordering::Acquire) > 0;
        let longest = slots.iter().filter(running).min_by_key(|s| s.since.load(Ordering::Acquire));
        let Some(slot) = longest else { continue };
        let ran = now.saturating_sub(slot.since.load(Ordering::Acquire));
        let why = if ran > HANGS_MS {
            format!("the execution did not end within {} s", HANGS_MS / 1000)
        } else if ran > 1000 && resident() > too_much() {
            format!("the execution did not end within {ran} ms, and {} GiB of memory are in use", too_much() >> 30)
        } else {
            continue;
        };
        // The input is borrowed for as long as the execution runs, which has not ended.
        let (at, len) = (slot.at.load(Ordering::Relaxed), slot.len.load(Ordering::Relaxed));
        let input = if len == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(at as *const u8, len) }.to_vec() };
        let shown = match String::from_utf8(input) {
            Ok(t) if t.is_empty() => "(input not known)".to_string(),
            Ok(t) => t,
            Err(e) => e.as_bytes().iter().map(|b| format!("{b:02x}")).collect(),
        };
        let key: String = shown.chars().take(200).collect();
        let detail = format!("{why}; input:\n{shown}");
        if Ctx::shard().is_some() {
            println!("MC_SHARD_RESULT {}", json!({"violations": [[key, detail]], "n": 1, "known": {}, "counters": {"executions_that_did_not_end": 1}, "samples": [], "sets": {}}));
            std::process::exit(0);
        }
        if out >= 0 {
            unsafe { dup2(out, 1) };
        }
        let ctx = Ctx::new(&id);
        ctx.add("executions_that_did_not_end", 1);
        ctx.violation(&key, || detail);
        ctx.finish("exploration");
    });
}

static PANICS: Mutex<Vec<String>> = Mutex::new(vec![]);
/// Panics of the code under test are part of what is observed; the last few are kept for `decide`.
pub fn quiet_panics() {
    if std::env::var_os("MC_LOUD").is_none() {
        std::panic::set_hook(Box::new(|p| {
            let mut v = PANICS.lock().unwrap_or_else(|e| e.into_inner());
            if v.len() >= 16 {
                v.remove(0);
            }
            v.push(p.to_string());
        }));
    }
}
/// Runs a check. What the code under test produced may be such that the exploration cannot go on (nothing of the kind
/// happens on a tree where the property holds); that is reported as a violation, unless the sandbox ran out of something.
pub fn decide(ctx: &Ctx, check: impl FnOnce(&Ctx)) {
    watch(ctx);
    if caught(|| check(ctx)).is_err() {
        let last = PANICS.lock().unwrap_or_else(|e| e.into_inner()).join("\n");
        if last.contains("os error") || last.contains("OsError") || last.contains("failed to spawn") {
            eprintln!("the exploration could not go on:\n{last}");
            std::process::exit(3);
        }
        ctx.violation("the exploration cannot go on", || format!("the code under test produced something unusable; last messages:\n{last}"));
    }
}

pub fn hash_of(x: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    // SipHash with fixed keys: the same on every run
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}
