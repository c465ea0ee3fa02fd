//! Case runner, verdicts, evidence.
//!
//! A check is a list of phases; a phase is a number of cases, each a deterministic function of
//! (property, phase, case index, seed). Every case runs in a thread of its own whose random
//! stream (for the code under test, too) is seeded from that tuple, so a violation is replayed by
//! `--phase P --case I` with the same seed.
use crate::rng::{hash_bytes, mix, Rng};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Opts {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub verif: String,
    pub walky: String,
    pub walky_mpi: String,
    pub walky_bench: String,
    pub gen_fast: String,
    pub shim: String,
    pub evidence: String,
    pub only_phase: Option<String>,
    pub only_case: Option<u64>,
    pub t0: f64,
    pub scale: f64,
    pub repo: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub samples: Vec<String>,
    pub sampled: HashSet<String>,
    pub violations: Vec<(String, u64, String)>,
    pub inconclusive: Vec<String>,
    pub skipped: u64,
    pub cases: u64,
    pub sets: BTreeMap<String, HashSet<u64>>,
}

pub struct Ctx {
    pub o: Opts,
    pub stats: Mutex<Stats>,
    pub deadline: Instant,
    pub stop: AtomicBool,
    inflight: Mutex<BTreeMap<u64, InFlight>>,
    serial: AtomicBool,
    next_token: AtomicU64,
    completed: AtomicU64,
}

struct InFlight {
    phase: String,
    idx: u64,
    started: Instant,
    clock: libc::clockid_t,
    proc_cpu0: f64,
    last_cpu: f64,
    last_progress: Instant,
    what: String,
}

fn clock(c: libc::clockid_t) -> Option<f64> {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(c, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9)
    }
}

pub fn thread_cpu() -> f64 {
    clock(libc::CLOCK_THREAD_CPUTIME_ID).unwrap_or(0.0)
}

pub fn process_cpu() -> f64 {
    clock(libc::CLOCK_PROCESS_CPUTIME_ID).unwrap_or(0.0)
}

/// CPU seconds one case may use before it counts as not terminating (legitimate cases need well
/// under a second).
pub const CPU_LIMIT: f64 = 90.0;
/// The same for threads started by the code under test, all cases together.
pub const POOL_CPU_LIMIT: f64 = 240.0;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static GLOBAL_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = s.clone());
        if let Ok(mut g) = GLOBAL_PANIC.lock() {
            *g = s;
        }
    }));
}

fn panic_text(p: &(dyn Any + Send)) -> String {
    let local = LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()));
    if !local.is_empty() {
        return local;
    }
    let glob = GLOBAL_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
    if !glob.is_empty() {
        return glob;
    }
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// `Err(message)` if the code under test panicked.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => Err(panic_text(&*p)),
    }
}

pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub phase: &'a str,
    pub idx: u64,
    pub rng: Rng,
    pub failed: bool,
    token: u64,
}

impl<'a> Case<'a> {
    /// Report a violation of the property under check.
    pub fn fail(&mut self, msg: impl Into<String>) {
        if self.failed {
            return;
        }
        self.failed = true;
        let mut s = self.ctx.stats.lock().unwrap();
        s.violations.push((self.phase.to_string(), self.idx, msg.into()));
        if s.violations.len() >= 8 {
            self.ctx.stop.store(true, Ordering::Relaxed);
        }
    }
    /// Name what is running, for the watchdog.
    pub fn what(&self, what: &str) {
        let mut m = self.ctx.inflight.lock().unwrap();
        if let Some(i) = m.get_mut(&self.token) {
            i.what = what.to_string();
        }
    }
    /// Run code under test; a panic on this (valid) input is a violation.
    pub fn call<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        self.what(what);
        match guarded(f) {
            Ok(r) => Some(r),
            Err(p) => {
                self.fail(format!("{what} panicked on a valid input: {p}"));
                None
            }
        }
    }
    /// Count one oracle evaluation. `key` identifies the case's content; `nontrivial` says whether
    /// it counts as non-trivial by the check's rule.
    pub fn eval(&mut self, class: &str, key: u64, nontrivial: bool) {
        let mut s = self.ctx.stats.lock().unwrap();
        s.evaluations += 1;
        *s.classes.entry(class.to_string()).or_default() += 1;
        if nontrivial {
            s.distinct.insert(key);
        }
    }
    pub fn count(&self, name: &str, by: u64) {
        let mut s = self.ctx.stats.lock().unwrap();
        *s.counters.entry(name.to_string()).or_default() += by;
    }
    pub fn max(&self, name: &str, v: f64) {
        let mut s = self.ctx.stats.lock().unwrap();
        let e = s.maxima.entry(name.to_string()).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v;
        }
    }
    /// Record a member of a named set of observed states (e.g. distinct schedules).
    pub fn observe(&self, set: &str, h: u64) {
        let mut s = self.ctx.stats.lock().unwrap();
        s.sets.entry(set.to_string()).or_default().insert(h);
    }
    /// Keep at most one sample per `kind` (and 24 overall).
    pub fn sample(&self, kind: &str, f: impl FnOnce() -> String) {
        let mut s = self.ctx.stats.lock().unwrap();
        if s.samples.len() < 24 && !s.sampled.contains(kind) {
            s.sampled.insert(kind.to_string());
            let mut t = f();
            if t.len() > 1200 {
                let mut e = 1200;
                while !t.is_char_boundary(e) {
                    e -= 1;
                }
                t.truncate(e);
                t.push_str("...");
            }
            let t = format!("[{} {}/{}] {}", kind, self.phase, self.idx, t);
            s.samples.push(t);
        }
    }
    pub fn inconclusive(&self, msg: impl Into<String>) {
        self.ctx.stats.lock().unwrap().inconclusive.push(msg.into());
    }
}

impl Ctx {
    pub fn new(o: Opts, budget: Duration) -> Self {
        Ctx {
            o,
            stats: Mutex::new(Stats::default()),
            deadline: Instant::now() + budget,
            stop: AtomicBool::new(false),
            inflight: Mutex::new(BTreeMap::new()),
            serial: AtomicBool::new(false),
            next_token: AtomicU64::new(1),
            completed: AtomicU64::new(0),
        }
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let base = if self.o.thorough { thorough } else { quick };
        ((base as f64) * self.o.scale).ceil() as u64
    }
    /// A number of cases that is not scaled (few, large cases).
    pub fn m(&self, quick: u64, thorough: u64) -> u64 {
        if self.o.thorough {
            thorough
        } else {
            quick
        }
    }
    fn case_seed(&self, phase: &str, idx: u64) -> u64 {
        let h = hash_bytes(format!("{}/{}", self.o.id, phase).as_bytes());
        mix(h ^ mix(self.o.seed.wrapping_mul(0x1000_0000_01b3) ^ mix(idx)))
    }

    /// Run `n` cases of a phase on `workers` case threads.
    pub fn phase<F>(&self, phase: &str, n: u64, workers: usize, f: F)
    where
        F: Fn(&mut Case) + Sync,
    {
        if let Some(p) = &self.o.only_phase {
            if p != phase {
                return;
            }
        }
        let only = self.o.only_case;
        let next = AtomicU64::new(0);
        let workers = if only.is_some() { 1 } else { workers };
        self.serial.store(workers == 1, Ordering::SeqCst);
        let done = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..workers {
                s.spawn(|| {
                    loop {
                        let idx = match only {
                            Some(i) => {
                                if next.fetch_add(1, Ordering::SeqCst) > 0 {
                                    break;
                                }
                                i
                            }
                            None => next.fetch_add(1, Ordering::SeqCst),
                        };
                        if only.is_none() && idx >= n {
                            break;
                        }
                        if self.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if only.is_none() && Instant::now() > self.deadline {
                            self.stats.lock().unwrap().skipped += 1;
                            continue;
                        }
                        self.one(phase, idx, &f);
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                });
            }
        });
    }

    fn one<F>(&self, phase: &str, idx: u64, f: &F)
    where
        F: Fn(&mut Case) + Sync,
    {
        let token = self.next_token.fetch_add(1, Ordering::SeqCst);
        let seed = self.case_seed(phase, idx);
        std::thread::scope(|s| {
            let h = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || {
                    getrandom::det_seed(seed);
                    let mut clk: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
                    let now = Instant::now();
                    self.inflight.lock().unwrap().insert(
                        token,
                        InFlight {
                            phase: phase.into(),
                            idx,
                            started: now,
                            clock: clk,
                            proc_cpu0: process_cpu(),
                            last_cpu: process_cpu(),
                            last_progress: now,
                            what: String::new(),
                        },
                    );
                    let mut c = Case {
                        ctx: self,
                        phase,
                        idx,
                        rng: Rng::new(seed),
                        failed: false,
                        token,
                    };
                    let r = guarded(|| f(&mut c));
                    self.inflight.lock().unwrap().remove(&token);
                    self.completed.fetch_add(1, Ordering::SeqCst);
                    let mut st = self.stats.lock().unwrap();
                    st.cases += 1;
                    if let Err(p) = r {
                        // outside `call`: the harness itself is at fault, that is no verdict
                        st.inconclusive
                            .push(format!("harness panic in {phase}/{idx}: {p}"));
                    }
                });
            match h {
                Ok(h) => {
                    let _ = h.join();
                }
                Err(e) => self
                    .stats
                    .lock()
                    .unwrap()
                    .inconclusive
                    .push(format!("cannot start case thread: {e}")),
            }
        });
    }

    /// Detects cases that burn CPU without end, or that sleep forever. Runs in its own thread.
    pub fn watchdog(&self) {
        // CPU of the process when a case last ended, and how many cases had ended then
        let mut mark = (0u64, process_cpu());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let mut hit: Option<(String, u64, String)> = None;
            {
                let mut m = self.inflight.lock().unwrap();
                let now_cpu = process_cpu();
                let serial = self.serial.load(Ordering::SeqCst);
                let completed = self.completed.load(Ordering::SeqCst);
                if completed != mark.0 || m.is_empty() {
                    mark = (completed, now_cpu);
                }
                // work of threads that the code under test started itself
                let own: f64 = m.values().map(|i| clock(i.clock).unwrap_or(0.0)).sum();
                let pool = now_cpu - mark.1 - own;
                for i in m.values_mut() {
                    let used = if serial {
                        now_cpu - i.proc_cpu0
                    } else {
                        clock(i.clock).unwrap_or(0.0)
                    };
                    if now_cpu - i.last_cpu > 0.05 {
                        i.last_cpu = now_cpu;
                        i.last_progress = Instant::now();
                    }
                    if used > CPU_LIMIT && i.started.elapsed().as_secs_f64() > 20.0 {
                        hit = Some((
                            i.phase.clone(),
                            i.idx,
                            format!("{} does not terminate: {used:.0} s of CPU used", i.what),
                        ));
                    } else if pool > POOL_CPU_LIMIT && i.started.elapsed().as_secs_f64() > 30.0 {
                        hit = Some((
                            i.phase.clone(),
                            i.idx,
                            format!(
                                "{} does not terminate: its own threads used {pool:.0} s of CPU and no case ended meanwhile",
                                i.what
                            ),
                        ));
                        break;
                    } else if i.last_progress.elapsed().as_secs_f64() > 60.0
                        && i.what != "child process"
                    {
                        hit = Some((
                            i.phase.clone(),
                            i.idx,
                            format!(
                                "{} is deadlocked: unfinished after {:.0} s and the process used no CPU for 60 s",
                                i.what,
                                i.started.elapsed().as_secs_f64()
                            ),
                        ));
                    }
                }
            }
            if let Some(v) = hit {
                self.stats.lock().unwrap().violations.push(v);
                let code = self.finish("stopped by the watchdog", &[]);
                std::process::exit(code);
            }
        }
    }

    /// Write evidence and replays, print the verdict, return the exit code.
    pub fn finish(&self, rule: &str, assumptions: &[&str]) -> i32 {
        let s = self.stats.lock().unwrap();
        let wall = now_epoch() - self.o.t0;
        let mut j = String::new();
        j.push_str("{\n");
        j.push_str(&format!("  \"property\": {},\n", js(&self.o.id)));
        j.push_str(&format!(
            "  \"tier\": \"{}\",\n",
            if self.o.thorough { "thorough" } else { "quick" }
        ));
        j.push_str(&format!("  \"seed\": {},\n", self.o.seed));
        j.push_str("  \"level\": \"exploration\",\n");
        j.push_str("  \"coverage\": {\n");
        j.push_str(&format!("    \"evaluations\": {},\n", s.evaluations));
        j.push_str(&format!("    \"distinct_nontrivial\": {},\n", s.distinct.len()));
        j.push_str(&format!("    \"rule\": {},\n", js(rule)));
        j.push_str(&format!("    \"cases_run\": {},\n", s.cases));
        j.push_str(&format!("    \"cases_skipped_for_time\": {},\n", s.skipped));
        j.push_str(&format!(
            "    \"random_requests_served_deterministically\": {},\n",
            getrandom::det_requests()
        ));
        j.push_str("    \"classes\": {");
        j.push_str(
            &s.classes
                .iter()
                .take(400)
                .map(|(k, v)| format!("{}: {}", js(k), v))
                .collect::<Vec<_>>()
                .join(", "),
        );
        j.push_str("},\n    \"observed\": {");
        j.push_str(
            &s.counters
                .iter()
                .map(|(k, v)| format!("{}: {}", js(k), v))
                .chain(s.sets.iter().map(|(k, v)| format!("{}: {}", js(k), v.len())))
                .chain(s.maxima.iter().map(|(k, v)| {
                    format!("{}: {}", js(k), if v.is_finite() { format!("{v:e}") } else { js(&v.to_string()) })
                }))
                .collect::<Vec<_>>()
                .join(", "),
        );
        j.push_str("},\n    \"samples\": [");
        j.push_str(&s.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n      "));
        j.push_str("]\n  },\n");
        j.push_str("  \"assumptions\": [");
        j.push_str(&assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
        j.push_str("],\n");
        j.push_str(&format!("  \"wall_s\": {wall:.2},\n"));
        j.push_str(&format!("  \"violations\": {}\n}}\n", s.violations.len()));
        let _ = std::fs::write(&self.o.evidence, j);

        if !s.violations.is_empty() {
            let dir = format!("{}/replays", self.o.verif);
            let _ = std::fs::create_dir_all(&dir);
            for (k, (phase, idx, msg)) in s.violations.iter().take(3).enumerate() {
                let path = format!("{dir}/{}-{}.txt", self.o.id, k);
                let text = format!(
                    "property: {}\nphase: {}\ncase: {}\nseed: {}\ntier: {}\nviolation: {}\n\nreplay:\n  cd {} && VERIF_SEED={} VERIF_TIER={} ./check.sh {} --phase {} --case {}\n",
                    self.o.id, phase, idx, self.o.seed,
                    if self.o.thorough { "thorough" } else { "quick" },
                    msg, self.o.verif, self.o.seed,
                    if self.o.thorough { "thorough" } else { "quick" },
                    self.o.id, phase, idx
                );
                let _ = std::fs::write(&path, text);
                println!("VIOLATION property={} replay={}", self.o.id, path);
                println!("  {}/{}: {}", phase, idx, truncate(msg, 900));
            }
            return 1;
        }
        println!(
            "{} {} seed={}: {} cases, {} oracle evaluations, {} distinct non-trivial, {} skipped, {:.1} s",
            self.o.id,
            if self.o.thorough { "thorough" } else { "quick" },
            self.o.seed,
            s.cases,
            s.evaluations,
            s.distinct.len(),
            s.skipped,
            wall
        );
        for m in s.inconclusive.iter().take(5) {
            println!("INCONCLUSIVE: {}", truncate(m, 600));
        }
        if self.o.only_case.is_none() {
            if s.evaluations == 0 || s.distinct.is_empty() {
                println!("INCONCLUSIVE: nothing observed");
                return 3;
            }
            if !s.inconclusive.is_empty() && s.inconclusive.len() as u64 * 2 > s.cases {
                return 3;
            }
            if s.inconclusive.iter().any(|m| m.starts_with("harness panic")) {
                return 3;
            }
        }
        0
    }
}

pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...", &s[..e])
}

pub fn now_epoch() -> f64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map(|d| d.as_secs_f64())
        .unwrap_or(0.0)
}

/// JSON string literal
pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
