//! Runs cases exhaustively on all cores, captures panics of the code under test, turns hangs and process
//! deaths into reproducible violations, compares failures with the committed list of known findings and
//! writes the evidence file.
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub msg: String,
    pub file: String,
    pub line: u32,
}
thread_local! {
    static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
    static GUARDED: Cell<u32> = const { Cell::new(0) };
}

pub fn install_quiet_hook() {
    install_hook()
}
fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        if GUARDED.with(|g| g.get()) == 0 {
            eprintln!("ENGINE PANIC {file}:{line}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(PanicInfo { msg, file, line }));
    }));
}

/// Runs code under test; a panic inside becomes an Err that says where.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, PanicInfo> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap())
}
impl std::fmt::Display for PanicInfo {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "panicked at {}:{}: {}", self.file.rsplit("aftermath-core/").next().unwrap_or(""), self.line, self.msg)
    }
}

#[derive(Clone, Debug)]
struct Fail {
    key: String,
    msg: String,
    phase: String,
    index: u64,
    case: Value,
}

/// Per-thread counters and failures.
#[derive(Default)]
pub struct Local {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub counters: BTreeMap<String, u64>,
    fails: Vec<(String, String)>,
    pub stop: bool,
}
impl Local {
    /// Reports a failure. `key` names the class (for known findings), `msg` says what was expected and what happened.
    pub fn fail(&mut self, key: &str, msg: impl Into<String>) {
        if self.fails.iter().filter(|f| f.0 == key).count() < 3 {
            self.fails.push((key.to_string(), msg.into()));
        }
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
    pub fn count(&mut self, name: &str, n: u64) {
        match self.counters.get_mut(name) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(name.to_string(), n);
            }
        }
    }
    /// Keeps the maximum
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.counters.entry(format!("max_{name}")).or_insert(0);
        *e = (*e).max(n);
    }
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    root: PathBuf,
    seed: i64,
    started: Instant,
    only: Option<u64>,
    next: Cell<u64>,
    known: Vec<(String, String)>, // key, text
    totals: Mutex<Local>,
    fails: Mutex<BTreeMap<String, Fail>>,
    samples: RefCell<Vec<Value>>,
    phases: RefCell<Vec<Value>>,
    assumptions: RefCell<Vec<String>>,
    case_limit_s: Cell<u64>,
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
const SLOTS: usize = 64;
static PROGRESS: OnceLock<usize> = OnceLock::new();
static STARTS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];

fn progress_slot(i: usize) -> Option<&'static AtomicU64> {
    PROGRESS.get().map(|p| unsafe { &*((*p + i * 8) as *const AtomicU64) })
}

impl Ctx {
    pub fn threads(&self) -> usize {
        std::env::var("VC_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8)
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// q on the quick tier, t on the thorough tier
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.borrow_mut().push(s.to_string());
    }
    pub fn case_limit(&self, s: u64) {
        self.case_limit_s.set(s);
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.borrow_mut();
        if s.len() < 12 {
            s.push(v);
        }
    }
    fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|(k, _)| k == key)
    }

    /// Explores every case. `init` builds per-thread state.
    pub fn run<C: Sync, S>(
        &self,
        phase: &str,
        cases: &[C],
        show: impl Fn(&C) -> Value + Sync,
        init: impl Fn() -> S + Sync,
        f: impl Fn(&mut S, &C, &mut Local) + Sync,
    ) {
        let base = self.next.get();
        self.next.set(base + cases.len() as u64);
        if self.only.is_none() && !self.fails.lock().unwrap().keys().all(|k| self.is_known(k)) {
            return; // an earlier phase already found a violation
        }
        if let Some(o) = self.only {
            if o < base || o >= base + cases.len() as u64 {
                return;
            }
        }
        let t0 = Instant::now();
        let counter = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let done_cases = AtomicU64::new(0);
        let n = self.threads().min(SLOTS);
        let limit = self.case_limit_s.get() * 1000;
        let started = self.started;
        let prop = self.prop.clone();
        let root = self.root.clone();
        let tier = self.tier;
        let only = self.only;
        let known: HashSet<&str> = self.known.iter().map(|k| k.0.as_str()).collect();
        std::thread::scope(|sc| {
            // watchdog
            {
                let (stop, done, show, prop, root) = (&stop, &done, &show, &prop, &root);
                sc.spawn(move || {
                    while !done.load(SeqCst) {
                        std::thread::sleep(std::time::Duration::from_millis(20));
                        let now = started.elapsed().as_millis() as u64;
                        for i in 0..n {
                            let s = STARTS[i].load(SeqCst);
                            let idx = progress_slot(i).map(|p| p.load(SeqCst)).unwrap_or(0);
                            if s != 0 && now > s + limit && idx > base {
                                let case = show(&cases[(idx - 1 - base) as usize]);
                                let f = Fail {
                                    key: "hang".into(),
                                    msg: format!("no result within {} s (the code under test does not terminate, or takes explosively long)", limit / 1000),
                                    phase: phase.to_string(),
                                    index: idx - 1,
                                    case,
                                };
                                report_violation(root, prop, tier, &f);
                                std::process::exit(1);
                            }
                        }
                        if stop.load(SeqCst) && done.load(SeqCst) {
                            break;
                        }
                    }
                });
            }
            let mut handles = vec![];
            for i in 0..n {
                let (counter, stop, done_cases, show, init, f, known, fails, totals) =
                    (&counter, &stop, &done_cases, &show, &init, &f, &known, &self.fails, &self.totals);
                handles.push(
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(sc, move || {
                            let mut l = Local::default();
                            let broken = |p: PanicInfo, index: u64, case: Value| {
                                let key = "crash".to_string();
                                stop.store(true, SeqCst);
                                fails.lock().unwrap().entry(key.clone()).or_insert(Fail { key, msg: format!("{p}"), phase: phase.to_string(), index, case });
                            };
                            // the code under test has to be usable in the first place
                            let mut st = match guard(init) {
                                Ok(st) => st,
                                Err(p) => return broken(p, base, json!("setting up")),
                            };
                            loop {
                                let k = counter.fetch_add(1, SeqCst);
                                if k >= cases.len() as u64 || stop.load(SeqCst) {
                                    break;
                                }
                                if let Some(o) = only {
                                    if base + k != o {
                                        continue;
                                    }
                                }
                                if let Some(p) = progress_slot(i) {
                                    p.store(base + k + 1, SeqCst);
                                }
                                STARTS[i].store(started.elapsed().as_millis().max(1) as u64, SeqCst);
                                let c = &cases[k as usize];
                                let r = guard(|| f(&mut st, c, &mut l));
                                STARTS[i].store(0, SeqCst);
                                if let Some(p) = progress_slot(i) {
                                    p.store(0, SeqCst);
                                }
                                if let Err(p) = r {
                                    // Panics of the harness count, too: it never does on the committed tree, so something
                                    // came back that it has no name for.
                                    l.fail("crash", format!("{p}"));
                                    st = match guard(init) {
                                        Ok(st) => st,
                                        Err(p) => return broken(p, base + k, show(c)),
                                    };
                                }
                                done_cases.fetch_add(1, SeqCst);
                                if !l.fails.is_empty() {
                                    let mut m = fails.lock().unwrap();
                                    for (key, msg) in l.fails.drain(..) {
                                        let known = known.contains(key.as_str());
                                        let fl = Fail { key: key.clone(), msg, phase: phase.to_string(), index: base + k, case: show(c) };
                                        if !known {
                                            stop.store(true, SeqCst);
                                        }
                                        let better = m.get(&key).map(|o| fl.index < o.index).unwrap_or(true);
                                        if better {
                                            m.insert(key, fl);
                                        }
                                    }
                                }
                            }
                            let mut t = totals.lock().unwrap();
                            t.states += l.states;
                            t.transitions += l.transitions;
                            t.traces += l.traces;
                            for (k, v) in l.counters {
                                let e = t.counters.entry(k.clone()).or_insert(0);
                                if k.starts_with("max_") {
                                    *e = (*e).max(v);
                                } else {
                                    *e += v;
                                }
                            }
                        })
                        .unwrap(),
                );
            }
            for h in handles {
                if h.join().is_err() {
                    eprintln!("engine failure in phase {phase}: a worker died, no verdict");
                    std::process::exit(2);
                }
            }
            done.store(true, SeqCst);
        });
        for q in 1..=3usize {
            if !cases.is_empty() {
                let idx = (cases.len() - 1) * q / 3;
                self.sample(json!({"phase": phase, "case": show(&cases[idx])}));
            }
        }
        let wall = t0.elapsed().as_secs_f64();
        eprintln!("[{}] phase {}: {}/{} cases, {:.1}s", self.prop, phase, done_cases.load(SeqCst), cases.len(), wall);
        self.phases
            .borrow_mut()
            .push(json!({"phase": phase, "cases": cases.len(), "explored": done_cases.load(SeqCst), "wall_s": wall}));
    }

    fn finish(self) -> i32 {
        let t = self.totals.into_inner().unwrap();
        let fails = self.fails.into_inner().unwrap();
        let mut violations = 0;
        for (k, text) in &self.known {
            if let Some(f) = fails.get(k) {
                println!("KNOWN-FINDING: property={} {}", self.prop, text);
                eprintln!("  ({}: {} | case {})", k, f.msg, f.case);
            } else if self.only.is_none() {
                eprintln!("note: known finding {k} of {} was not reached in this run", self.prop);
            }
        }
        for (k, f) in &fails {
            if !self.known.iter().any(|(kk, _)| kk == k) {
                violations += 1;
                report_violation(&self.root, &self.prop, self.tier, f);
            }
        }
        if self.only.is_none() {
            let mut cov = serde_json::Map::new();
            cov.insert("states".into(), json!(t.states));
            cov.insert("transitions".into(), json!(t.transitions));
            cov.insert("traces_validated_against_impl".into(), json!(t.traces));
            cov.insert("exhaustive".into(), json!(violations == 0));
            cov.insert("counters".into(), json!(t.counters));
            cov.insert("phases".into(), Value::Array(self.phases.into_inner()));
            cov.insert("samples".into(), Value::Array(self.samples.into_inner()));
            cov.insert(
                "known_findings_seen".into(),
                json!(fails.keys().filter(|k| self.known.iter().any(|(kk, _)| kk == *k)).collect::<Vec<_>>()),
            );
            let ev = json!({
                "property": self.prop,
                "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
                "seed": self.seed,
                "level": "model_checking",
                "coverage": cov,
                "assumptions": self.assumptions.into_inner(),
                "wall_s": self.started.elapsed().as_secs_f64(),
                "violations": violations,
            });
            let dir = self.root.join("evidence");
            std::fs::create_dir_all(&dir).ok();
            std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        }
        eprintln!(
            "[{}] states={} transitions={} traces={} wall={:.1}s {:?}",
            self.prop,
            t.states,
            t.transitions,
            t.traces,
            self.started.elapsed().as_secs_f64(),
            t.counters
        );
        if violations > 0 {
            1
        } else {
            0
        }
    }
}

fn report_violation(root: &PathBuf, prop: &str, tier: Tier, f: &Fail) {
    let dir = root.join("replays");
    std::fs::create_dir_all(&dir).ok();
    let safe: String = f.key.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).take(40).collect();
    let path = dir.join(format!("{prop}-{safe}.json"));
    let v = json!({"property": prop, "tier": if tier == Tier::Quick {"quick"} else {"thorough"}, "phase": f.phase,
        "index": f.index, "key": f.key, "what": f.msg, "case": f.case});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok();
    eprintln!("violated: [{}] {}\n  phase {} case {}", f.key, f.msg, f.phase, f.case);
    println!("VIOLATION property={} replay={}", prop, path.display());
}

/// A property's check.
pub type Check = fn(&Ctx);

/// `<bin> <ID> [quick|thorough]` or `<bin> <ID> replay <file>`.
/// The exploration itself runs in a child process, so that a stack overflow or abort of the code under test can be
/// attributed to the case that caused it.
pub fn main_with(checks: &[(&str, Check)]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let Some((_, check)) = checks.iter().find(|(p, _)| *p == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2)
    };
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut only: Option<u64> = std::env::var("VC_ONLY").ok().and_then(|v| v.parse().ok());
    if let Some(a) = args.get(2) {
        if a == "replay" {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[3]).expect("replay file")).expect("json");
            tier = v["tier"].as_str().unwrap().into();
            only = v["index"].as_u64();
        } else {
            tier = a.clone();
        }
    }
    if std::env::var("VC_CHILD").is_err() {
        std::process::exit(parent(&root, &prop, &tier, only));
    }
    install_hook();
    map_progress(&std::env::var("VC_CHILD").unwrap());
    let known = read_known(&root, &prop);
    let ctx = Ctx {
        prop,
        tier: if tier == "thorough" { Tier::Thorough } else { Tier::Quick },
        root,
        seed: std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1),
        started: Instant::now(),
        only,
        next: Cell::new(0),
        known,
        totals: Default::default(),
        fails: Default::default(),
        samples: Default::default(),
        phases: Default::default(),
        assumptions: Default::default(),
        case_limit_s: Cell::new(120),
    };
    if let Err(p) = guard(|| check(&ctx)) {
        let key = "crash".to_string();
        let f = Fail { key: key.clone(), msg: format!("{p}"), phase: "setup".into(), index: ctx.next.get(), case: json!("outside of any case") };
        ctx.fails.lock().unwrap().entry(key).or_insert(f);
    }
    std::process::exit(ctx.finish())
}

fn map_progress(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("progress file");
    let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * 8, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    PROGRESS.set(p as usize).ok();
}

fn read_known(root: &PathBuf, prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let (p, rest) = l.strip_prefix("property=")?.split_once(' ')?;
            let (k, text) = rest.strip_prefix("key=")?.split_once(' ')?;
            (p == prop).then(|| (k.to_string(), text.to_string()))
        })
        .collect()
}

fn spawn(root: &PathBuf, prop: &str, tier: &str, only: Option<u64>, slots: &PathBuf) -> std::process::ExitStatus {
    std::fs::write(slots, vec![0u8; SLOTS * 8]).expect("progress file");
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg(prop).arg(tier).env("VC_CHILD", slots).env("VERIF_ROOT", root);
    if let Some(o) = only {
        c.env("VC_ONLY", o.to_string());
    }
    c.status().expect("spawn")
}

fn parent(root: &PathBuf, prop: &str, tier: &str, only: Option<u64>) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let dir = std::env::temp_dir().join(format!("vc-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).expect("tmp");
    let slots = dir.join("slots");
    let st = spawn(root, prop, tier, only, &slots);
    let cleanup = || {
        std::fs::remove_file(&slots).ok();
        std::fs::remove_dir(&dir).ok();
    };
    if let Some(c) = st.code() {
        cleanup();
        return if c == 0 || c == 1 { c } else { 2 };
    }
    // Died from a signal: find out which of the cases in progress does that on its own.
    eprintln!("[{prop}] exploration died: {:?}; isolating", st.signal());
    let bytes = std::fs::read(&slots).unwrap_or_default();
    let mut idx: Vec<u64> = bytes.chunks(8).map(|c| u64::from_ne_bytes(c.try_into().unwrap())).filter(|v| *v != 0).map(|v| v - 1).collect();
    idx.sort();
    if idx.is_empty() {
        idx.push(u64::MAX); // it may not have come as far as the first case
    }
    for i in idx {
        let s = spawn(root, prop, tier, Some(i), &slots);
        match (s.code(), s.signal()) {
            (Some(1), _) => {
                cleanup();
                return 1; // the child reported it
            }
            (None, Some(sig)) if sig == 11 || sig == 6 || sig == 7 || sig == 4 || sig == 8 => {
                let f = Fail {
                    key: "process-death".into(),
                    msg: format!("the process running this case dies with signal {sig} (stack overflow, abort or memory exhaustion)"),
                    phase: "".into(),
                    index: i,
                    case: json!({"case_index": i}),
                };
                report_violation(root, prop, if tier == "thorough" { Tier::Thorough } else { Tier::Quick }, &f);
                cleanup();
                return 1;
            }
            _ => {}
        }
    }
    cleanup();
    eprintln!("[{prop}] the death could not be reproduced on a single case: engine failure, no verdict");
    2
}
