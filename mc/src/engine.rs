//! Exhaustive, parallel, replayable enumeration of indexed families of executions.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

/// Per-thread accumulator
#[derive(Default)]
pub struct Ctx {
    /// distinct situations explored (inputs, configurations, choice prefixes, histories)
    pub states: u64,
    /// operations of the real code executed and compared
    pub transitions: u64,
    /// complete executions compared with the reference model
    pub traces: u64,
    /// hashes of distinct observed outcomes
    pub outcomes: HashSet<u64>,
    pub nontrivial: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    /// known findings met in this run
    pub known: BTreeMap<String, String>,
}
impl Ctx {
    pub fn op(&mut self) {
        self.transitions += 1;
    }
    pub fn ops(&mut self, k: u64) {
        self.transitions += k;
    }
    pub fn outcome<T: std::hash::Hash>(&mut self, t: &T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(h.finish());
        }
    }
    pub fn count(&mut self, k: &'static str, by: u64) {
        *self.counters.entry(k).or_insert(0) += by;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s.chars().take(1500).collect());
        }
    }
    fn absorb(&mut self, o: Ctx) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.nontrivial += o.nontrivial;
        self.outcomes.extend(o.outcomes);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
        self.known.extend(o.known);
    }
}

pub struct Fail {
    /// identifies the failing input (used to match known findings)
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

pub struct Family {
    pub name: String,
    pub len: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Res + Send + Sync>,
    pub describe: Box<dyn Fn(u64) -> String + Send + Sync>,
    pub threads: usize,
    /// indices handed out at a time
    pub chunk: u64,
}
impl Family {
    pub fn new(
        name: impl Into<String>,
        len: u64,
        run: impl Fn(u64, &mut Ctx) -> Res + Send + Sync + 'static,
        describe: impl Fn(u64) -> String + Send + Sync + 'static,
    ) -> Family {
        Family { name: name.into(), len, run: Box::new(run), describe: Box::new(describe), threads: 0, chunk: 0 }
    }
    pub fn threads(mut self, n: usize) -> Family {
        self.threads = n;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    /// what is enumerated, and against what
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Family>,
    /// seconds one case may take before it counts as a hang
    pub hang_s: u64,
}

// ---- slots: which case is running in which thread, visible to the parent even if we are killed ----
const SLOTS: usize = 64;
struct Slots(*mut AtomicU64);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
static SLOT_PTR: Mutex<Option<Slots>> = Mutex::new(None);
fn map_slots(path: &str) -> *mut AtomicU64 {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slots file");
    let len = SLOTS * 16;
    f.set_len(len as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut AtomicU64
}
fn slot(base: *mut AtomicU64, i: usize) -> (&'static AtomicU64, &'static AtomicU64) {
    unsafe { (&*base.add(2 * i), &*base.add(2 * i + 1)) }
}
const IDLE: u64 = 0;

pub fn panic_message(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
thread_local! { pub static PANIC_AT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

fn run_one(fam: &Family, i: u64, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (fam.run)(i, ctx))) {
        Ok(r) => r,
        Err(e) => {
            rand::mc::uninstall();
            let at = PANIC_AT.with(|p| p.borrow().clone());
            let m = panic_message(e);
            fail(format!("panic@{}", (fam.describe)(i)), format!("panicked at {}: {}", at, m))
        }
    }
}
/// The sandbox, not the code under test, failed us: no verdict.
pub fn infra(msg: impl std::fmt::Display) -> ! {
    eprintln!("INFRASTRUCTURE ERROR: {}", msg);
    std::process::exit(3)
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub verif: String,
    pub only: Option<(usize, u64)>,
    pub family_filter: Option<String>,
    pub slots: String,
}

fn known_findings(verif: &str, id: &str) -> BTreeMap<String, String> {
    let p = format!("{}/known_findings.json", verif);
    let mut r = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(p) {
        let v: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json");
        for e in v["findings"].as_array().cloned().unwrap_or_default() {
            if e["property"] == id && e["status"] == "open" {
                r.insert(e["key"].as_str().unwrap().to_string(), e["what"].as_str().unwrap().to_string());
            }
        }
    }
    r
}

/// Runs in the child. Exit codes: 0 held, 1 violation, 99 hang (slots say where).
pub fn explore(prop: Property, o: &Opts) -> i32 {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = at);
    }));
    let t0 = Instant::now();
    let base = map_slots(&o.slots);
    *SLOT_PTR.lock().unwrap() = Some(Slots(base));
    let slot_refs: Vec<(&'static AtomicU64, &'static AtomicU64)> = (0..SLOTS).map(|i| slot(base, i)).collect();
    for i in 0..SLOTS {
        slot(base, i).0.store(IDLE, SeqCst);
    }
    let known = known_findings(&o.verif, prop.id);
    let ncpu = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8);
    // hang watchdog
    let beat: &'static [AtomicU64] = Box::leak((0..SLOTS).map(|_| AtomicU64::new(0)).collect::<Vec<_>>().into_boxed_slice());
    let hang = prop.hang_s;
    std::thread::spawn(move || {
        let mut last = vec![(0u64, Instant::now()); SLOTS];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for i in 0..SLOTS {
                let b = beat[i].load(SeqCst);
                if b != last[i].0 || b % 2 == 0 {
                    last[i] = (b, Instant::now());
                } else if last[i].1.elapsed() > Duration::from_secs(hang) {
                    let base = SLOT_PTR.lock().unwrap().as_ref().unwrap().0;
                    // keep only the hanging one
                    for j in 0..SLOTS {
                        if j != i {
                            slot(base, j).0.store(IDLE, SeqCst);
                        }
                    }
                    unsafe { libc::_exit(99) };
                }
            }
        }
    });

    let mut total = Ctx::default();
    let mut fams_report = vec![];
    let mut violation: Option<(usize, u64, Fail)> = None;
    for (fi, fam) in prop.families.iter().enumerate() {
        if let Some((of, _)) = o.only {
            if of != fi {
                continue;
            }
        }
        if let Some(ff) = &o.family_filter {
            if !fam.name.contains(ff.as_str()) {
                continue;
            }
        }
        let tf = Instant::now();
        let next = AtomicU64::new(0);
        let best = AtomicU64::new(u64::MAX); // smallest failing index so far
        let found: Mutex<Vec<(u64, Fail)>> = Mutex::new(vec![]);
        let ctxs: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
        let executed = AtomicU64::new(0);
        let nt = if fam.threads > 0 { fam.threads } else { ncpu };
        let chunk = if fam.chunk > 0 { fam.chunk } else { (fam.len / (nt as u64 * 64)).clamp(1, 256) };
        let (from, to) = match o.only {
            Some((_, i)) => (i, i + 1),
            None => (0, fam.len),
        };
        next.store(from, SeqCst);
        std::thread::scope(|s| {
            for th in 0..nt {
                let slot_refs = &slot_refs;
                let (next, best, found, ctxs, known, executed) = (&next, &best, &found, &ctxs, &known, &executed);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut ctx = Ctx::default();
                        let (sf, si) = slot_refs[th];
                        loop {
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= to || a > best.load(SeqCst) {
                                break;
                            }
                            for i in a..(a + chunk).min(to) {
                                si.store(i, SeqCst);
                                sf.store(fi as u64 + 1, SeqCst);
                                beat[th].fetch_add(1, SeqCst);
                                let r = run_one(fam, i, &mut ctx);
                                beat[th].fetch_add(1, SeqCst);
                                sf.store(IDLE, SeqCst);
                                executed.fetch_add(1, Relaxed);
                                if let Err(f) = r {
                                    if let Some(w) = known.get(&f.key) {
                                        ctx.known.insert(f.key.clone(), w.clone());
                                        continue;
                                    }
                                    best.fetch_min(i, SeqCst);
                                    found.lock().unwrap().push((i, f));
                                    break;
                                }
                            }
                        }
                        ctxs.lock().unwrap().push(ctx);
                    })
                    .unwrap();
            }
        });
        let mut c = Ctx::default();
        for x in ctxs.into_inner().unwrap() {
            c.absorb(x);
        }
        fams_report.push(serde_json::json!({
            "family": fam.name, "size": fam.len, "executed": executed.load(SeqCst),
            "states": c.states, "transitions": c.transitions, "traces": c.traces,
            "distinct_outcomes": c.outcomes.len(), "wall_s": (tf.elapsed().as_secs_f64()*100.0).round()/100.0,
        }));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{}", fams_report.last().unwrap());
        }
        let mut fs = found.into_inner().unwrap();
        fs.sort_by_key(|f| f.0);
        total.absorb(c);
        if !fs.is_empty() {
            let (i, f) = fs.remove(0);
            violation = Some((fi, i, f));
            break;
        }
    }
    for (k, w) in &total.known {
        println!("KNOWN-FINDING: property={} {} [{}]", prop.id, w, k);
    }
    crate::p_io::remove_scratch_dir();
    let complete = violation.is_none() && o.only.is_none() && o.family_filter.is_none();
    // spread the samples over the families
    let ns = total.samples.len();
    let samples: Vec<String> = if ns <= 6 { total.samples.clone() } else { (0..6).map(|k| total.samples[k * (ns - 1) / 5].clone()).collect() };
    let mut cov = serde_json::json!({
        "samples": samples,
        "exhaustive": complete,
        "families": fams_report,
    });
    if prop.level == "model_checking" {
        // the explored state space: every enumerated situation, and every different result reached from one
        cov["states"] = (total.states + total.outcomes.len() as u64).into();
        cov["transitions"] = total.transitions.into();
        cov["traces_validated_against_impl"] = total.traces.into();
        cov["distinct_results"] = total.outcomes.len().into();
        cov["how"] = format!("{} states = enumerated situations plus distinct results reached from them (results are told apart by hash, at most 200000 kept per thread and family); transitions = operations of the real code executed and compared; traces = complete executions compared with the reference model.", prop.rule).into();
    } else {
        cov["evaluations"] = total.traces.into();
        cov["distinct_nontrivial"] = total.outcomes.len().into();
        cov["rule"] = prop.rule.into();
        cov["fault_points"] = total.states.into();
    }
    for (k, v) in &total.counters {
        cov[*k] = serde_json::json!(v);
    }
    let ev = serde_json::json!({
        "property": prop.id, "tier": if o.tier == Tier::Quick {"quick"} else {"thorough"}, "seed": o.seed,
        "level": prop.level, "coverage": cov, "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": if violation.is_some() {1} else {0},
        "known_findings_met": total.known.len(),
    });
    if o.only.is_none() && o.family_filter.is_none() {
        let _ = std::fs::create_dir_all(format!("{}/evidence", o.verif));
        std::fs::write(format!("{}/evidence/{}.json", o.verif, prop.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    if let Some((fi, i, f)) = violation {
        let path = write_replay(&o.verif, prop.id, o.tier, fi, &prop.families[fi], i, &f.key, &f.msg);
        println!("--- {} : family {} index {}", prop.id, prop.families[fi].name, i);
        println!("{}", (prop.families[fi].describe)(i).chars().take(4000).collect::<String>());
        println!("{}", f.msg.chars().take(6000).collect::<String>());
        println!("VIOLATION property={} replay={}", prop.id, path);
        std::io::stdout().flush().unwrap();
        return 1;
    }
    println!(
        "HELD property={} tier={:?} states={} transitions={} traces={} distinct_outcomes={} wall={:.1}s",
        prop.id, o.tier, total.states, total.transitions, total.traces, total.outcomes.len(), t0.elapsed().as_secs_f64()
    );
    0
}

pub fn write_replay(verif: &str, id: &str, tier: Tier, fi: usize, fam: &Family, i: u64, key: &str, msg: &str) -> String {
    let dir = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.json", dir, id);
    let v = serde_json::json!({
        "property": id, "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "family_index": fi, "family": fam.name, "index": i,
        "input": (fam.describe)(i), "key": key, "message": msg,
        "replay_with": format!("bash /verif/run.sh {} --replay {}", id, path),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

/// Runs in the parent: supervises the exploring child, and turns reproducible crashes and hangs of the
/// code under test into verdicts.
pub fn supervise(prop: Property, o: &Opts, args: &[String]) -> i32 {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let exe = std::env::current_exe().unwrap();
    let spawn = |extra: &[String], slots: &str, mem: u64| {
        let mut c = std::process::Command::new(&exe);
        c.args(args).args(extra).env("MC_CHILD", slots).env("MC_TIER", if o.tier == Tier::Quick { "quick" } else { "thorough" });
        unsafe {
            c.pre_exec(move || {
                let r = libc::rlimit { rlim_cur: mem, rlim_max: mem };
                libc::setrlimit(libc::RLIMIT_AS, &r);
                let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &z);
                Ok(())
            });
        }
        c.status().expect("cannot start myself")
    };
    let slots = format!("{}/build/slots.{}", o.verif, std::process::id());
    let _ = std::fs::create_dir_all(format!("{}/build", o.verif));
    let st = spawn(&[], &slots, 24 << 30);
    let code = st.code();
    if code == Some(0) || code == Some(1) || code == Some(3) {
        let _ = std::fs::remove_file(&slots);
        return if code == Some(3) { 2 } else { code.unwrap() };
    }
    // died: hang (99) or signal. Re-run each case that was in flight on its own.
    let base = map_slots(&slots);
    let mut cases = vec![];
    for i in 0..SLOTS {
        let (f, x) = slot(base, i);
        let f = f.load(SeqCst);
        if f != IDLE {
            cases.push((f as usize - 1, x.load(SeqCst)));
        }
    }
    let _ = std::fs::remove_file(&slots);
    eprintln!("explorer ended abnormally ({:?}); re-running {} case(s) one by one", st, cases.len());
    cases.sort_unstable();
    for (fi, i) in cases {
        let s2 = format!("{}.re", slots);
        let extra = vec!["--only".to_string(), format!("{}:{}", fi, i)];
        let a = spawn(&extra, &s2, 6 << 30);
        let b = spawn(&extra, &s2, 6 << 30);
        let _ = std::fs::remove_file(&s2);
        let bad = |s: &std::process::ExitStatus| s.signal().is_some() || s.code() == Some(99) || s.code() == Some(101) || s.code() == Some(134);
        if a.code() == Some(1) {
            return 1; // the child printed the violation
        }
        if bad(&a) && bad(&b) {
            let msg = if a.code() == Some(99) {
                format!("did not finish within {} s (reproduced twice)", prop.hang_s)
            } else {
                format!("crashed the process: {:?} (reproduced twice)", a)
            };
            let path = write_replay(&o.verif, prop.id, o.tier, fi, &prop.families[fi], i, "crash", &msg);
            println!("--- {} : family {} index {}", prop.id, prop.families[fi].name, i);
            println!("{}\n{}", (prop.families[fi].describe)(i).chars().take(4000).collect::<String>(), msg);
            println!("VIOLATION property={} replay={}", prop.id, path);
            return 1;
        }
    }
    eprintln!("could not reproduce the abnormal ending");
    2
}
