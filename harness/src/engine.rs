//! Generated-case engine: deterministic cases from (seed, property, index), parallel execution,
//! shrinking, replay files, known findings, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// quick count, times `k` in the thorough tier
    pub fn n(self, quick: u64, k: u64) -> u64 {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => quick * k,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub what: String,
    /// identifies a listed finding exactly
    pub sig: Option<String>,
    /// the machinery could not decide (never a violation)
    pub inconclusive: bool,
}
impl From<String> for Fail {
    fn from(what: String) -> Fail {
        Fail { what, sig: None, inconclusive: false }
    }
}
impl From<&str> for Fail {
    fn from(what: &str) -> Fail {
        what.to_string().into()
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail::from(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::fail!($($t)*) } };
}
pub fn same<A: Debug + PartialEq>(what: &str, got: &A, want: &A) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {} expected {}", cut(&format!("{got:?}"), 600), cut(&format!("{want:?}"), 600)).into())
    }
}
pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}... ({} bytes)", &s[..k], s.len())
}

/// Per-case observations.
#[derive(Default)]
pub struct Cx {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    /// further executions inside this case
    pub inner: u64,
    /// listed findings seen while the case went on
    pub known: Vec<Fail>,
    pub dir: PathBuf,
    pub slot: usize,
    /// how application processes run: "trace" or "storm"
    pub extra: &'static str,
}
impl Cx {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.into());
        }
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send + Sync;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u64;
    fn fixed(&self, _tier: Tier) -> Vec<Self::Case> {
        vec![]
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn run(&self, c: &Self::Case, cx: &mut Cx) -> R;
    /// how long a case may make no progress before it is looked at
    fn patience(&self) -> Duration {
        Duration::from_secs(20)
    }
    fn threads(&self) -> usize {
        8
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// sleeping threads do not mean stuck: library timers run
    fn exhaustive(&self) -> bool {
        false
    }
}

/// Object-safe face of a property.
pub trait AnyProp: Sync {
    fn id(&self) -> &'static str;
    fn worker(&self, a: &Args) -> i32;
    fn case_json(&self, a: &Args, index: u64) -> Value;
    fn replay(&self, case: &Value, dir: &Path) -> i32;
    fn info(&self) -> (&'static str, Vec<&'static str>, bool);
    fn total(&self, tier: Tier) -> u64;
    /// one case in this process, for another process that asked for it
    fn alone(&self, dir: &Path, slot: usize);
}

#[derive(Clone, Debug)]
pub struct Args {
    pub tier: Tier,
    pub seed: u64,
    pub dir: PathBuf,
    pub only: Option<u64>,
}

fn fnv(bytes: &[u8], mut h: u64) -> u64 {
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn runner(seed: u64, id: &str, index: u64) -> TestRunner {
    let mut k = [0u8; 32];
    let mut h = mix(seed ^ fnv(id.as_bytes(), 0xcbf29ce484222325)) ^ mix(index);
    for c in k.chunks_mut(8) {
        h = mix(h);
        c.copy_from_slice(&h.to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, max_local_rejects: 1_000_000, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &k))
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = format!("{i}");
        PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}
/// Runs library code; a panic becomes an error text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = last_panic();
        if !m.is_empty() {
            return m;
        }
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}

pub struct Known {
    /// (property, signature) -> description
    pub findings: HashMap<(String, String), String>,
}
pub fn known() -> &'static Known {
    static K: std::sync::OnceLock<Known> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let mut findings = HashMap::new();
        let text = fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
        for l in text.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                let mut p = r.splitn(3, ' ');
                let (id, sig, what) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
                if let Some(s) = sig.strip_prefix("sig=") {
                    findings.insert((id.to_string(), s.to_string()), what.to_string());
                }
            }
        }
        Known { findings }
    })
}
pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

#[derive(Serialize, Deserialize, Default)]
pub struct Summary {
    pub evaluations: u64,
    pub inner: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
    pub inconclusive: Vec<String>,
}
#[derive(Serialize, Deserialize)]
pub struct Violation {
    pub index: u64,
    pub what: String,
    pub case: Value,
    pub shrunk: bool,
}

pub struct Wrap<P: Prop>(pub P);

impl<P: Prop> Wrap<P> {
    fn exec(&self, c: &P::Case, cx: &mut Cx) -> R {
        match guard(|| self.0.run(c, cx)) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {p}").into()),
        }
    }
    /// Splits listed findings from real failures.
    fn judge(&self, c: &P::Case, cx: &mut Cx) -> R {
        let r = self.exec(c, cx);
        if let Err(f) = &r {
            if let Some(s) = &f.sig {
                if known().findings.contains_key(&(self.0.id().to_string(), s.clone())) {
                    cx.known.push(f.clone());
                    return Ok(());
                }
            }
        }
        r
    }
    fn write_violation(&self, a: &Args, index: u64, f: &Fail, c: &P::Case, shrunk: bool) {
        let v = Violation { index, what: f.what.clone(), case: serde_json::to_value(c).unwrap_or(Value::Null), shrunk };
        let tmp = a.dir.join("violation.tmp");
        fs::write(&tmp, serde_json::to_vec(&v).unwrap()).unwrap();
        fs::rename(tmp, a.dir.join("violation.json")).unwrap();
    }
    fn tree(&self, a: &Args, strat: &BoxedStrategy<P::Case>, index: u64) -> Box<dyn ValueTree<Value = P::Case>> {
        let mut r = runner(a.seed, self.0.id(), index);
        strat.new_tree(&mut r).expect("generator")
    }
    fn fresh_cx(&self, a: &Args, slot: usize) -> Cx {
        Cx { dir: a.dir.clone(), slot, ..Cx::default() }
    }
}

struct Slot {
    index: AtomicU64,
    since: AtomicU64,
}
const IDLE: u64 = u64::MAX;

impl<P: Prop> AnyProp for Wrap<P> {
    fn id(&self) -> &'static str {
        self.0.id()
    }
    fn info(&self) -> (&'static str, Vec<&'static str>, bool) {
        (self.0.rule(), self.0.assumptions(), self.0.exhaustive())
    }
    fn total(&self, tier: Tier) -> u64 {
        self.0.cases(tier) + self.0.fixed(tier).len() as u64
    }

    fn case_json(&self, a: &Args, index: u64) -> Value {
        let fixed = self.0.fixed(a.tier);
        let c = match fixed.get(index as usize) {
            Some(c) => c.clone(),
            None => self.tree(a, &self.0.strategy(a.tier), index - fixed.len() as u64).current(),
        };
        serde_json::to_value(&c).unwrap_or(Value::Null)
    }

    fn alone(&self, dir: &Path, slot: usize) {
        // never outlive the process that asked
        extern "C" {
            fn prctl(what: i32, sig: u64) -> i32;
        }
        unsafe { prctl(1, 9) };
        let text = fs::read(dir.join("case")).expect("case");
        let c: P::Case = serde_json::from_slice(&text).expect("case");
        let mut cx = Cx { dir: dir.to_path_buf(), slot, ..Cx::default() };
        let r = self.exec(&c, &mut cx);
        let out = crate::props::more::Alone { fail: r.err().map(|f| (f.what, f.inconclusive)), labels: cx.labels, nontrivial: cx.nontrivial };
        fs::write(dir.join("out"), serde_json::to_vec(&out).unwrap()).unwrap();
    }
    fn replay(&self, case: &Value, dir: &Path) -> i32 {
        let c: P::Case = match serde_json::from_value(case.clone()) {
            Ok(c) => c,
            Err(e) => {
                println!("replay file does not hold a case of {}: {e}", self.0.id());
                return 2;
            }
        };
        let mut cx = Cx { dir: dir.to_path_buf(), ..Cx::default() };
        match self.judge(&c, &mut cx) {
            Ok(()) => {
                for k in cx.known {
                    println!("KNOWN-FINDING: property={} {}", self.0.id(), k.what);
                }
                0
            }
            Err(f) if f.inconclusive => {
                println!("inconclusive: {}", f.what);
                2
            }
            Err(f) => {
                println!("reproduced: {}", f.what);
                1
            }
        }
    }

    fn worker(&self, a: &Args) -> i32 {
        let fixed = self.0.fixed(a.tier);
        let total = fixed.len() as u64 + self.0.cases(a.tier);
        let (lo, hi) = match a.only {
            Some(i) => (i, i + 1),
            None => (0, total),
        };
        let next = AtomicU64::new(lo);
        let limit = AtomicU64::new(hi);
        let failure: Mutex<Option<(u64, Fail)>> = Mutex::new(None);
        let pause = (Mutex::new(false), Condvar::new());
        let done = AtomicBool::new(false);
        let n = if a.only.is_some() { 1 } else { self.0.threads() };
        let slots: Vec<Slot> = (0..n + 1).map(|_| Slot { index: AtomicU64::new(IDLE), since: AtomicU64::new(0) }).collect();
        let t0 = Instant::now();
        let total_sum: Mutex<(Summary, HashSet<u64>, BTreeMap<u64, Value>)> = Default::default();

        let mark = |slot: usize, index: u64, file: &fs::File| {
            let _ = file.write_all_at(&index.to_le_bytes(), 0);
            slots[slot].since.store(t0.elapsed().as_millis() as u64, SeqCst);
            slots[slot].index.store(index, SeqCst);
        };

        let code = std::thread::scope(|sc| {
            let mut hs = vec![];
            for k in 0..n {
                let (next, limit, failure, pause, total_sum, fixed, mark) =
                    (&next, &limit, &failure, &pause, &total_sum, &fixed, &mark);
                let slots = &slots;
                let h = std::thread::Builder::new().stack_size(16 << 20).name(format!("case{k}"));
                hs.push(
                    h.spawn_scoped(sc, move || {
                        let strat = self.0.strategy(a.tier);
                        let file = fs::File::create(a.dir.join(format!("slot{k}"))).unwrap();
                        mark(k, IDLE, &file);
                        let mut sum = Summary::default();
                        let mut seen = HashSet::new();
                        let mut samples: BTreeMap<u64, Value> = BTreeMap::new();
                        loop {
                            {
                                let mut p = pause.0.lock().unwrap();
                                while *p {
                                    p = pause.1.wait(p).unwrap();
                                }
                            }
                            let i = next.fetch_add(1, SeqCst);
                            if i >= limit.load(SeqCst) {
                                break;
                            }
                            mark(k, i, &file);
                            let c = match fixed.get(i as usize) {
                                Some(c) => c.clone(),
                                None => self.tree(a, &strat, i - fixed.len() as u64).current(),
                            };
                            let mut cx = self.fresh_cx(a, k);
                            let r = self.judge(&c, &mut cx);
                            mark(k, IDLE, &file);
                            sum.evaluations += 1;
                            sum.inner += cx.inner;
                            for l in cx.labels {
                                *sum.labels.entry(l).or_default() += 1;
                            }
                            for f in cx.known {
                                *sum.known.entry(f.sig.unwrap_or_default()).or_default() += 1;
                            }
                            if cx.nontrivial {
                                let text = serde_json::to_string(&c).unwrap_or_default();
                                if seen.insert(fnv(text.as_bytes(), 0xcbf29ce484222325)) && i >= fixed.len() as u64 {
                                    // the first few of every power-of-four band, so that samples are spread out
                                    samples.insert(i, Value::String(cut(&text, 1500)));
                                    if samples.len() > 3 {
                                        let last = *samples.keys().next_back().unwrap();
                                        samples.remove(&last);
                                    }
                                }
                            }
                            match r {
                                Ok(()) => {}
                                Err(f) if f.inconclusive => sum.inconclusive.push(cut(&f.what, 500)),
                                Err(f) => {
                                    let mut g = failure.lock().unwrap();
                                    if g.as_ref().map_or(true, |(j, _)| i < *j) {
                                        *g = Some((i, f.clone()));
                                        limit.fetch_min(i, SeqCst);
                                        self.write_violation(a, i, &f, &c, false);
                                    }
                                }
                            }
                        }
                        let _ = slots;
                        let mut t = total_sum.lock().unwrap();
                        t.0.evaluations += sum.evaluations;
                        t.0.inner += sum.inner;
                        for (l, n) in sum.labels {
                            *t.0.labels.entry(l).or_default() += n;
                        }
                        for (l, n) in sum.known {
                            *t.0.known.entry(l).or_default() += n;
                        }
                        t.0.inconclusive.extend(sum.inconclusive);
                        t.1.extend(seen);
                        t.2.extend(samples);
                    })
                    .unwrap(),
                );
            }
            // watchdog
            let (slots, pause, done, failure) = (&slots, &pause, &done, &failure);
            let dog = sc.spawn(move || {
                let me = fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().to_string()));
                let patience = self.0.patience().as_millis() as u64;
                let mut last_ctx = None;
                loop {
                    std::thread::sleep(Duration::from_millis(100));
                    if done.load(SeqCst) {
                        return;
                    }
                    let now = t0.elapsed().as_millis() as u64;
                    let busy: Vec<(u64, u64)> = slots
                        .iter()
                        .map(|s| (s.index.load(SeqCst), now.saturating_sub(s.since.load(SeqCst))))
                        .filter(|(i, _)| *i != IDLE)
                        .collect();
                    let stuck: Vec<u64> = busy.iter().filter(|(_, d)| *d > patience).map(|(i, _)| *i).collect();
                    if stuck.is_empty() {
                        let mut p = pause.0.lock().unwrap();
                        if *p {
                            *p = false;
                            pause.1.notify_all();
                        }
                        last_ctx = None;
                        continue;
                    }
                    *pause.0.lock().unwrap() = true;
                    let oldest = busy.iter().map(|(_, d)| *d).max().unwrap();
                    if stuck.len() == busy.len() {
                        // everything else has come to rest: is anything still moving?
                        let snap = quiescence(me.as_deref());
                        if let (Some(a1), Some((t1, b1))) = (&snap, &last_ctx) {
                            if a1 == b1 {
                                if now - t1 >= 3000u64 {
                                    let mut st = stuck.clone();
                                    st.sort();
                                    fs::write(a.dir.join("hang.json"), serde_json::to_vec(&st).unwrap()).unwrap();
                                    let code = if failure.lock().unwrap().is_some() { 1 } else { 77 };
                                    std::process::exit(code);
                                }
                            } else {
                                last_ctx = None;
                            }
                        }
                        if last_ctx.is_none() || snap.is_none() {
                            last_ctx = snap.map(|s| (now, s));
                        }
                    }
                    if oldest > if a.only.is_some() { patience * 2 + 30_000 } else { patience * 6 + 60_000 } || (a.tier == Tier::Quick && now > 780_000) {
                        let _ = fs::write(a.dir.join("slow.json"), serde_json::to_vec(&stuck).unwrap());
                        std::process::exit(if failure.lock().unwrap().is_some() { 1 } else { 78 });
                    }
                }
            });
            for h in hs {
                h.join().unwrap();
            }
            // shrink the failure with the lowest index
            let first = failure.lock().unwrap().clone();
            let code = if let Some((i, f)) = first {
                if i >= fixed.len() as u64 && a.only.is_none() {
                    let file = fs::File::create(a.dir.join("slot-shrink")).unwrap();
                    let strat = self.0.strategy(a.tier);
                    let mut tree = self.tree(a, &strat, i - fixed.len() as u64);
                    let mut best = (f, tree.current());
                    let start = Instant::now();
                    let mut steps = 0;
                    let mut go = tree.simplify();
                    while go && steps < 3000 && start.elapsed() < Duration::from_secs(60) {
                        steps += 1;
                        let c = tree.current();
                        let mut cx = self.fresh_cx(a, n);
                        mark(n, i, &file);
                        let r = self.judge(&c, &mut cx);
                        mark(n, IDLE, &file);
                        go = match r {
                            Err(f) if !f.inconclusive => {
                                self.write_violation(a, i, &f, &c, true);
                                best = (f, c);
                                tree.simplify()
                            }
                            _ => tree.complicate(),
                        };
                    }
                    self.write_violation(a, i, &best.0, &best.1, true);
                }
                1
            } else {
                0
            };
            done.store(true, SeqCst);
            dog.join().unwrap();
            code
        });
        let (mut sum, seen, samples) = total_sum.into_inner().unwrap();
        sum.distinct_nontrivial = seen.len() as u64;
        sum.samples = samples.into_values().take(5).collect();
        fs::write(a.dir.join("summary.json"), serde_json::to_vec(&sum).unwrap()).unwrap();
        if code == 0 && !sum.inconclusive.is_empty() {
            return 79;
        }
        code
    }
}

/// (tid, context switches) of every thread of this process and its children, if all of them sleep.
fn quiescence(skip: Option<&str>) -> Option<Vec<(String, u64)>> {
    let mut out = vec![];
    let mut pids = vec!["self".to_string()];
    let mut i = 0;
    while i < pids.len() {
        let tasks = fs::read_dir(format!("/proc/{}/task", pids[i])).ok()?;
        for t in tasks.flatten() {
            let name = t.file_name().to_string_lossy().to_string();
            if let Ok(c) = fs::read_to_string(t.path().join("children")) {
                pids.extend(c.split_whitespace().map(String::from));
            }
            if i == 0 && skip == Some(&name) {
                continue;
            }
            let st = fs::read_to_string(t.path().join("status")).ok()?;
            let mut sw = 0;
            for l in st.lines() {
                if let Some(s) = l.strip_prefix("State:") {
                    let s = s.trim();
                    if !(s.starts_with('S') || s.starts_with('Z')) {
                        return None;
                    }
                } else if let Some(v) = l.strip_prefix("voluntary_ctxt_switches:") {
                    sw += v.trim().parse::<u64>().unwrap_or(0);
                } else if let Some(v) = l.strip_prefix("nonvoluntary_ctxt_switches:") {
                    sw += v.trim().parse::<u64>().unwrap_or(0);
                }
            }
            out.push((name, sw));
        }
        i += 1;
    }
    out.sort();
    Some(out)
}

// ---------------------------------------------------------------- supervisor

fn save_replay(id: &str, case: &Value, what: &str) -> PathBuf {
    let dir = verif().join("replays");
    let _ = fs::create_dir_all(&dir);
    let body = json!({"property": id, "what": what, "case": case});
    let text = serde_json::to_string(&body).unwrap();
    let h = fnv(serde_json::to_string(case).unwrap().as_bytes(), 0xcbf29ce484222325);
    let p = dir.join(format!("{id}-{h:016x}.json"));
    let _ = fs::write(&p, text);
    p
}

fn spawn_worker(id: &str, a: &Args, sub: &str, extra: &[String]) -> std::process::ExitStatus {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new("bash");
    // address space limit: runaway allocation ends the worker, not the sandbox
    c.arg("-c").arg("ulimit -v 12000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(exe).arg(sub).arg(id);
    c.arg(a.tier.name()).arg(a.seed.to_string()).arg(&a.dir);
    c.args(extra);
    c.env("MALLOC_ARENA_MAX", "4").stdin(Stdio::null());
    let log = fs::OpenOptions::new().create(true).append(true).open(a.dir.join("stderr")).unwrap();
    c.stderr(log.try_clone().unwrap());
    c.stdout(log);
    c.status().unwrap()
}

fn describe(st: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match st.signal() {
        Some(6) => "the process aborted".into(),
        Some(11) => "the process crashed (SIGSEGV)".into(),
        Some(s) => format!("the process was ended by signal {s}"),
        None => format!("exit {:?}", st.code()),
    }
}
fn crash(st: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    matches!(st.signal(), Some(6) | Some(11) | Some(7) | Some(4) | Some(8))
}

pub fn check(p: &dyn AnyProp, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let id = p.id();
    let dir = PathBuf::from(format!("/tmp/bspv-{id}-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let a = Args { tier, seed, dir: dir.clone(), only: None };
    let st = spawn_worker(id, &a, "worker", &[]);
    let mut violation: Option<(String, Value, bool)> = None; // what, case, shrunk
    let mut error: Option<String> = None;
    let read = |f: &str| fs::read(dir.join(f)).ok();
    let found: Option<Violation> = read("violation.json").and_then(|b| serde_json::from_slice(&b).ok());
    if let Some(v) = found {
        violation = Some((v.what, v.case, v.shrunk));
    } else if st.code() == Some(77) {
        let st: Vec<u64> = read("hang.json").and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
        // every participant asleep with nothing left to wake it: a deadlock. Say whether it recurs.
        if let Some(i) = st.first() {
            let mut again = 0;
            for _ in 0..2 {
                let s = spawn_worker(id, &a, "worker", &["--only".into(), i.to_string()]);
                if s.code() == Some(77) {
                    again += 1;
                }
            }
            violation = Some((
                format!("no progress: every thread of the application and its peer sleeps forever (recurred in {again} of 2 further runs)"),
                p.case_json(&a, *i),
                false,
            ));
        }
    } else if st.code() == Some(78) {
        let st: Vec<u64> = read("slow.json").and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
        error = Some("a case neither finished nor came to rest in time; inconclusive".into());
        // alone it has the machine to itself: does it finish then?
        if let Some(i) = st.first() {
            let s = spawn_worker(id, &a, "worker", &["--only".into(), i.to_string()]);
            if matches!(s.code(), Some(77) | Some(78)) {
                error = None;
                violation = Some(("no progress: the application and its peer keep running without ever finishing".into(), p.case_json(&a, *i), false));
            } else if let Some(v) = read("violation.json").and_then(|b| serde_json::from_slice::<Violation>(&b).ok()) {
                error = None;
                violation = Some((v.what, v.case, v.shrunk));
            }
        }
    } else if crash(&st) {
        let mut idx: Vec<u64> = vec![];
        for e in fs::read_dir(&dir).unwrap().flatten() {
            if e.file_name().to_string_lossy().starts_with("slot") {
                if let Ok(b) = fs::read(e.path()) {
                    if b.len() == 8 {
                        let i = u64::from_le_bytes(b.try_into().unwrap());
                        if i != IDLE {
                            idx.push(i);
                        }
                    }
                }
            }
        }
        idx.sort();
        for i in &idx {
            let s = spawn_worker(id, &a, "worker", &["--only".into(), i.to_string()]);
            if crash(&s) {
                violation = Some((describe(&s), p.case_json(&a, *i), false));
                break;
            }
        }
        if violation.is_none() {
            error = Some(format!("{} while running cases {idx:?}, none of which does it alone", describe(&st)));
        }
    } else if !(st.code() == Some(0) || st.code() == Some(79)) {
        error = Some(format!("worker ended: {}; {}", describe(&st), cut(&String::from_utf8_lossy(&read("stderr").unwrap_or_default()), 2000)));
    }
    let sum: Summary = read("summary.json").and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
    if violation.is_none() && error.is_none() && !sum.inconclusive.is_empty() {
        error = Some(format!("{} cases undecided, first: {}", sum.inconclusive.len(), sum.inconclusive[0]));
    }
    if violation.is_none() && error.is_none() && sum.evaluations != p.total(tier) {
        error = Some(format!("{} of {} cases ran", sum.evaluations, p.total(tier)));
    }
    let (rule, assumptions, exhaustive) = p.info();
    let mut cov = json!({
        "evaluations": sum.evaluations,
        "distinct_nontrivial": sum.distinct_nontrivial,
        "rule": rule,
        "samples": sum.samples,
        "classes": sum.labels,
        "known_finding_hits": sum.known,
    });
    if sum.inner > 0 {
        cov["inner_executions"] = sum.inner.into();
    }
    if exhaustive {
        cov["exhaustive"] = true.into();
    }
    let ev = json!({
        "property": id, "tier": tier.name(), "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violation.is_some() as i32,
    });
    let edir = verif().join("evidence");
    let _ = fs::create_dir_all(&edir);
    fs::write(edir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();

    let mut out = std::io::stdout();
    for ((pid, sig), what) in &known().findings {
        if pid == id && sum.known.contains_key(sig) {
            let _ = writeln!(out, "KNOWN-FINDING: property={id} {what} [{sig}]");
        }
    }
    let _ = writeln!(
        out,
        "{id} {} seed={seed}: {} cases, {} distinct non-trivial, {:.1}s",
        tier.name(),
        sum.evaluations,
        sum.distinct_nontrivial,
        t0.elapsed().as_secs_f64()
    );
    let code = if let Some((what, case, shrunk)) = violation {
        let path = save_replay(id, &case, &what);
        let _ = writeln!(out, "{}{}", what, if shrunk { " (shrunk)" } else { "" });
        let _ = writeln!(out, "VIOLATION property={id} replay={}", path.display());
        1
    } else if let Some(e) = error {
        let _ = writeln!(out, "ERROR {id}: {e}");
        2
    } else {
        0
    };
    let _ = fs::remove_dir_all(&dir);
    code
}
