//! Monitor context: runs sections of cases on worker threads, traps panics, watches progress,
//! counts what was observed and collects violations.
use crate::rng::{fnv, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

pub struct Violation {
    pub section: String,
    pub idx: u64,
    pub what: String,
    pub detail: Value,
}

#[derive(Default)]
struct Inner {
    distinct: HashSet<u64>,
    events: BTreeMap<String, u64>,
    sections: BTreeMap<String, u64>,
    samples: BTreeMap<String, Vec<Value>>,
    violations: Vec<Violation>,
}

pub struct Mon {
    pub pid: String,
    pub thorough: bool,
    pub seed: u64,
    pub scale: f64,
    pub only: Option<(String, u64)>,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    evals: AtomicU64,
    inner: Mutex<Inner>,
    pub scratch: PathBuf,
    journal: Option<std::fs::File>,
    pub start: Instant,
    pub replay_dir: PathBuf,
}

pub struct Case<'a> {
    pub mon: &'a Mon,
    pub section: &'a str,
    pub idx: u64,
    pub rng: Rng,
}

pub struct Panicked(pub String);

// ---- progress watchdog ----
const SLOTS: usize = 64;
struct Slot {
    active: AtomicBool,
    clock: AtomicI32,
    cpu0: AtomicU64,
    serial: AtomicU64,
    what: Mutex<(String, u64, String)>,
}
static SLOT: [Slot; SLOTS] = [const {
    Slot {
        active: AtomicBool::new(false),
        clock: AtomicI32::new(0),
        cpu0: AtomicU64::new(0),
        serial: AtomicU64::new(0),
        what: Mutex::new((String::new(), 0, String::new())),
    }
}; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MY_SLOT: usize = NEXT_SLOT.fetch_add(1, SeqCst) % SLOTS;
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn clock_ns(c: i32) -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(c, &mut t) } != 0 {
        return 0;
    }
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
pub fn my_clock() -> i32 {
    let mut c: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    c
}

/// CPU seconds one library call may take before it counts as not terminating.
const CPU_LIMIT_S: u64 = 40;
/// Wall seconds without any CPU progress inside a call before it counts as stuck.
const STUCK_LIMIT_S: u64 = 90;

pub fn start_watchdog(mon: &'static Mon) {
    std::thread::spawn(move || {
        let mut last: Vec<(u64, u64, Instant)> = (0..SLOTS).map(|_| (0, 0, Instant::now())).collect();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for (i, s) in SLOT.iter().enumerate() {
                if !s.active.load(SeqCst) {
                    last[i] = (0, 0, Instant::now());
                    continue;
                }
                let serial = s.serial.load(SeqCst);
                let now = clock_ns(s.clock.load(SeqCst));
                let used = now.saturating_sub(s.cpu0.load(SeqCst));
                if last[i].0 != serial || now > last[i].1 + 5_000_000 {
                    last[i] = (serial, now, Instant::now());
                }
                let stuck = last[i].2.elapsed().as_secs() > STUCK_LIMIT_S;
                if (used > CPU_LIMIT_S * 1_000_000_000 || stuck)
                    && s.active.load(SeqCst)
                    && s.serial.load(SeqCst) == serial
                {
                    let w = s.what.lock().unwrap_or_else(|e| e.into_inner()).clone();
                    mon.record(Violation {
                        section: w.0,
                        idx: w.1,
                        what: format!(
                            "{}: call did not return ({})",
                            w.2,
                            if stuck { "blocked without progress" } else { "CPU limit exceeded" }
                        ),
                        detail: json!({"cpu_s": used as f64 / 1e9}),
                    });
                    std::process::exit(mon.finish());
                }
            }
        }
    });
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info).replace('\n', " ");
        LAST_PANIC.with(|l| *l.borrow_mut() = msg);
    }));
}

impl Mon {
    pub fn new(pid: &str, thorough: bool, seed: u64, replay_dir: PathBuf) -> Mon {
        let scratch = std::env::temp_dir().join(format!("monitor-{}-{}", pid, std::process::id()));
        let _ = std::fs::create_dir_all(&scratch);
        Mon {
            pid: pid.to_string(),
            thorough,
            seed,
            // cheap properties get more cases for the same time
            scale: (if thorough { 12.0 } else { 1.0 })
                * match pid {
                    "C10" | "C20" | "C26" => 10.0,
                    "C08" | "C09" => 8.0,
                    "C02" | "C03" | "C12" => 5.0,
                    "C07" | "C14" | "C29" => 4.0,
                    "C17" | "C18" => 3.0,
                    "C01" | "C05" | "C06" | "C13" | "C16" | "C19" => 2.0,
                    _ => 1.0,
                },
            only: None,
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(vec![]),
            evals: AtomicU64::new(0),
            inner: Mutex::new(Inner::default()),
            scratch,
            journal: std::env::var_os("MON_JOURNAL").and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()),
            start: Instant::now(),
            replay_dir,
        }
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    /// Number of cases for this tier.
    pub fn n(&self, quick: u64) -> u64 {
        ((quick as f64) * self.scale) as u64
    }
    pub fn record(&self, v: Violation) {
        let mut i = self.inner.lock().unwrap_or_else(|e| e.into_inner());
        i.violations.push(v);
    }
    pub fn violations(&self) -> usize {
        self.inner.lock().unwrap_or_else(|e| e.into_inner()).violations.len()
    }
    pub fn event(&self, name: &str, n: u64) {
        let mut i = self.inner.lock().unwrap_or_else(|e| e.into_inner());
        *i.events.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn event_max(&self, name: &str, n: u64) {
        let mut i = self.inner.lock().unwrap_or_else(|e| e.into_inner());
        let e = i.events.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// Runs `n` independent cases on all cores; case i has its own generator derived from
    /// (seed, property, section, i), so it can be replayed alone.
    pub fn section<F: Fn(&mut Case<'_>) + Sync>(&self, name: &str, n: u64, f: F) {
        self.section_threads(name, n, 8, f)
    }
    pub fn section_threads<F: Fn(&mut Case<'_>) + Sync>(&self, name: &str, n: u64, threads: usize, f: F) {
        let t0 = Instant::now();
        if let Some((s, i)) = &self.only {
            if s == name {
                // on a thread like those of a full run (the size of its stack matters)
                std::thread::scope(|sc| {
                    sc.spawn(|| self.run_case(name, *i, &f));
                });
            }
            return;
        }
        let next = AtomicU64::new(0);
        let before = self.violations();
        std::thread::scope(|sc| {
            for _ in 0..threads.min(n as usize).max(1) {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n || self.violations() > before + 10 {
                        break;
                    }
                    self.run_case(name, i, &f);
                });
            }
        });
        let mut i = self.inner.lock().unwrap_or_else(|e| e.into_inner());
        *i.sections.entry(name.to_string()).or_insert(0) += n;
        if std::env::var("MON_TIMES").is_ok() {
            eprintln!("section {:<28} n={:<7} {:.2}s", name, n, t0.elapsed().as_secs_f64());
        }
    }
    fn run_case<F: Fn(&mut Case<'_>) + Sync>(&self, name: &str, i: u64, f: &F) {
        if let Some(j) = &self.journal {
            use std::os::unix::fs::FileExt;
            let line = format!("{:<40}{:<24}", name, i);
            let _ = j.write_all_at(&line.as_bytes()[..64], 64 * MY_SLOT.with(|s| *s) as u64);
        }
        let mut c = Case {
            mon: self,
            section: name,
            idx: i,
            rng: Rng::new(self.seed, &format!("{}/{}", self.pid, name), i),
        };
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
        if r.is_err() {
            // A panic of the harness itself (library calls are trapped in `call`).
            let m = LAST_PANIC.with(|l| l.borrow().clone());
            eprintln!("HARNESS-ERROR property={} section={} case={}: {}", self.pid, name, i, m);
            self.event("harness_errors", 1);
        }
    }
    /// Writes replay files and evidence; returns the exit code.
    pub fn finish(&self) -> i32 {
        let _ = std::fs::remove_dir_all(&self.scratch);
        let inner = self.inner.lock().unwrap_or_else(|e| e.into_inner());
        let known = crate::known_findings(&self.pid);
        let mut lines = vec![];
        let mut real = 0;
        for v in &inner.violations {
            if let Some(k) = known.iter().find(|k| v.what.contains(k.as_str())) {
                let l = format!("KNOWN-FINDING: property={} {}", self.pid, k);
                if !lines.contains(&l) {
                    lines.push(l);
                }
                continue;
            }
            real += 1;
            if real > 5 {
                continue;
            }
            let _ = std::fs::create_dir_all(&self.replay_dir);
            let p = self.replay_dir.join(format!("{}-{}-{}-{}.json", self.pid, v.section.replace(|c: char| !c.is_ascii_alphanumeric(), "-"), v.idx, real));
            let j = json!({"property": self.pid, "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"},
                "section": v.section, "case": v.idx, "what": v.what, "detail": v.detail,
                "replay": format!("monitor replay {}", p.display())});
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap_or_default());
            lines.push(format!("# {}/{}#{}: {}", self.pid, v.section, v.idx, v.what.chars().take(400).collect::<String>()));
            lines.push(format!("VIOLATION property={} replay={}", self.pid, p.display()));
        }
        let evals = self.evals.load(SeqCst);
        let samples: Vec<Value> = inner
            .samples
            .iter()
            .flat_map(|(s, v)| v.iter().map(move |x| json!({"section": s, "case": x})))
            .collect();
        let ev = json!({
            "property": self.pid, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed,
            "level": "exploration",
            "coverage": {"evaluations": evals, "distinct_nontrivial": inner.distinct.len(),
                "rule": *self.rule.lock().unwrap(), "samples": samples,
                "observed_events": inner.events, "sections": inner.sections},
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": real});
        if self.only.is_none() {
            let dir = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../evidence");
            let _ = std::fs::create_dir_all(&dir);
            let _ = std::fs::write(dir.join(format!("{}.json", self.pid)), serde_json::to_string_pretty(&ev).unwrap());
        }
        let harness_errors = inner.events.get("harness_errors").copied().unwrap_or(0);
        for l in &lines {
            println!("{}", l);
        }
        println!(
            "{} {}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s",
            self.pid,
            if self.thorough { "thorough" } else { "quick" },
            evals,
            inner.distinct.len(),
            real,
            self.start.elapsed().as_secs_f64()
        );
        if real > 0 {
            return 1;
        }
        if self.only.is_none() && (evals == 0 || harness_errors > 0) {
            println!("INCONCLUSIVE property={}: observed {} evaluations, {} harness errors", self.pid, evals, harness_errors);
            return 2;
        }
        0
    }
}

impl<'a> Case<'a> {
    /// Calls into the library with panics trapped and progress watched.
    pub fn call<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, Panicked> {
        let slot = MY_SLOT.with(|s| *s);
        let s = &SLOT[slot];
        let clock = my_clock();
        *s.what.lock().unwrap_or_else(|e| e.into_inner()) = (self.section.to_string(), self.idx, what.to_string());
        s.clock.store(clock, SeqCst);
        s.cpu0.store(clock_ns(clock), SeqCst);
        s.serial.fetch_add(1, SeqCst);
        s.active.store(true, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        s.active.store(false, SeqCst);
        r.map_err(|_| Panicked(LAST_PANIC.with(|l| l.borrow().clone())))
    }
    /// Counts one evaluation; `key` identifies the (non-trivial) case for the distinct count.
    pub fn eval(&mut self, key: &[u8]) {
        self.mon.evals.fetch_add(1, SeqCst);
        let h = fnv(key) ^ fnv(self.section.as_bytes()).rotate_left(32);
        self.mon.inner.lock().unwrap_or_else(|e| e.into_inner()).distinct.insert(h);
    }
    /// Counts a trivial evaluation.
    pub fn eval_trivial(&mut self) {
        self.mon.evals.fetch_add(1, SeqCst);
    }
    pub fn ev(&mut self, name: &str) {
        self.mon.event(name, 1);
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        let mut i = self.mon.inner.lock().unwrap_or_else(|e| e.into_inner());
        let e = i.samples.entry(self.section.to_string()).or_default();
        if e.len() < 2 {
            let mut x = v();
            trim(&mut x);
            e.push(x);
        }
    }
    pub fn fail(&mut self, what: impl Into<String>, detail: Value) {
        self.mon.record(Violation {
            section: self.section.to_string(),
            idx: self.idx,
            what: what.into(),
            detail,
        });
    }
}

fn trim(v: &mut Value) {
    match v {
        Value::String(s) if s.len() > 600 => {
            let mut e = 560;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            *s = format!("{}...({} chars)", &s[..e], s.len());
        }
        Value::Array(a) => a.iter_mut().for_each(trim),
        Value::Object(o) => o.values_mut().for_each(trim),
        _ => (),
    }
}
