//! Explicit-choice model checker used by every check in this directory.
//!
//! A *family* is a closure that drives the real code of the crate under test and compares every
//! step with a reference model.  Every nondeterministic decision (which operation comes next,
//! which configuration, which value of a finite domain, which 64-bit number the random number
//! generator returns, where a write is cut short) is made through `Run::pick`, so one execution is
//! exactly one sequence of choices.  `explore` enumerates *all* choice sequences of a family
//! (stateless depth-first search, work shared between threads); `bfs` does an explicit-state
//! breadth-first search over operation histories with state deduplication.  A violation is written
//! as (family, choice sequence) and replayed with `--replay FILE`.

use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub use rand_pcg::script;

/// Where the check itself writes once the standard output of the code under test is muted.
static OUT: std::sync::OnceLock<Mutex<std::fs::File>> = std::sync::OnceLock::new();

pub fn say_line(s: &str) {
    use std::io::Write;
    match OUT.get() {
        Some(f) => {
            let _ = writeln!(f.lock().unwrap(), "{}", s);
        }
        None => println!("{}", s),
    }
}
#[macro_export]
macro_rules! say {
    ($($t:tt)*) => { $crate::say_line(&format!($($t)*)) };
}

/// From now on what the code under test prints is dropped; `say!` still reaches the real output.
pub fn mute_stdout() {
    use std::os::fd::{AsRawFd, FromRawFd};
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("HARNESS: /dev/null");
    // SAFETY: plain descriptor duplication at program start, before any thread exists
    unsafe {
        let keep = dup(1);
        assert!(keep >= 0, "HARNESS: dup");
        let _ = OUT.set(Mutex::new(std::fs::File::from_raw_fd(keep)));
        dup2(null.as_raw_fd(), 1);
    }
}

pub mod agents;
pub mod ana;
pub mod geo;
pub mod kinds;
pub mod util;

// ------------------------------------------------------------------------------------------------
// choices
// ------------------------------------------------------------------------------------------------

#[derive(Default)]
pub struct Chooser {
    prefix: Vec<u32>,
    taken: Vec<u32>,
    arity: Vec<u32>,
    /// choices beyond the prefix are not allowed (replay of a complete sequence)
    strict: bool,
    live: Option<Arc<Mutex<Vec<u32>>>>,
}

impl Chooser {
    fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "HARNESS: pick from an empty set");
        let at = self.taken.len();
        let c = if at < self.prefix.len() {
            let c = self.prefix[at];
            if c as usize >= n {
                panic!("HARNESS: divergence: choice {} of {} at depth {}", c, n, at);
            }
            c
        } else {
            if self.strict && n > 1 {
                panic!("HARNESS: divergence: execution is longer than the recorded one");
            }
            0
        };
        self.taken.push(c);
        self.arity.push(n as u32);
        if let Some(l) = &self.live {
            l.lock().unwrap().push(c);
        }
        c as usize
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}

/// The interface a family has to the explorer during one execution.
pub struct Run {
    chooser: Rc<RefCell<Chooser>>,
    pub thorough: bool,
    describe: bool,
    desc: Vec<String>,
    fails: Vec<Fail>,
    steps: u64,
    checks: u64,
    states: Vec<u64>,
    outcome: DefaultHasher,
    stop_expand: bool,
}

impl Run {
    fn new(chooser: Rc<RefCell<Chooser>>, thorough: bool, describe: bool) -> Self {
        Run {
            chooser,
            thorough,
            describe,
            desc: vec![],
            fails: vec![],
            steps: 0,
            checks: 0,
            states: vec![],
            outcome: DefaultHasher::new(),
            stop_expand: false,
        }
    }
    /// One of `0..n`; every value is explored.
    pub fn pick(&mut self, n: usize) -> usize {
        self.chooser.borrow_mut().pick(n)
    }
    /// One of the elements of `list`; every one is explored.
    pub fn of<T: Clone>(&mut self, list: &[T]) -> T {
        let i = self.pick(list.len());
        list[i].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Text that describes the case (only evaluated for samples and violations).
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.describe {
            let s = f();
            self.desc.push(s);
        }
    }
    /// The execution reached this (canonical) state.
    pub fn state<H: Hash + ?Sized>(&mut self, h: &H) {
        let mut s = DefaultHasher::new();
        h.hash(&mut s);
        self.states.push(s.finish());
    }
    /// One operation of the real code was executed (a transition).
    pub fn step(&mut self) {
        self.steps += 1;
    }
    /// What was observed (must be a function of the choices; used to count distinct outcomes and to
    /// prove that the harness owns all nondeterminism).
    pub fn observe<H: Hash + ?Sized>(&mut self, h: &H) {
        h.hash(&mut self.outcome);
    }
    pub fn observe_f64(&mut self, x: f64) {
        x.to_bits().hash(&mut self.outcome);
    }
    pub fn fail(&mut self, key: &str, mut msg: String) {
        if let Some((i, _)) = msg.char_indices().nth(4000) {
            msg.truncate(i);
            msg.push_str(" ...");
        }
        if self.fails.len() < 4 {
            self.fails.push(Fail { key: key.to_string(), msg });
        }
    }
    /// The comparison of an observation with the model.
    pub fn ensure<F: FnOnce() -> String>(&mut self, ok: bool, key: &str, msg: F) -> bool {
        self.checks += 1;
        if !ok {
            let m = msg();
            self.fail(key, m);
        }
        ok
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
    /// The last operation was not enabled: the history is not extended (bfs only).
    pub fn disabled(&mut self) {
        self.stop_expand = true;
    }
    /// Let the explorer choose the next `horizon` 64-bit draws of the random number generator from
    /// `alphabet`; later draws come from the real generator; more than `limit` draws panic.
    pub fn script_rng(&mut self, alphabet: &[u64], horizon: usize, limit: u64) {
        script::reset();
        script::limit(limit);
        let ch = self.chooser.clone();
        let alphabet = alphabet.to_vec();
        let mut left = horizon;
        script::install(Box::new(move || {
            if left == 0 {
                return None;
            }
            left -= 1;
            let i = ch.borrow_mut().pick(alphabet.len());
            Some(alphabet[i])
        }));
    }
    /// The generator returns exactly `seq` and then falls back to the real generator.
    pub fn fixed_rng(&mut self, seq: Vec<u64>, limit: u64) {
        script::reset();
        script::limit(limit);
        let mut it = seq.into_iter();
        script::install(Box::new(move || it.next()));
    }
    pub fn free_rng(&mut self) {
        script::reset();
    }
}

// ------------------------------------------------------------------------------------------------
// panics of the code under test
// ------------------------------------------------------------------------------------------------

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = Cell::new(false);
}

fn install_hook() {
    let default = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        if !QUIET.with(|q| q.get()) {
            default(info);
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Runs code under test; `Err(message)` if it panicked.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        if m.starts_with("HARNESS:") {
            eprintln!("{}", m);
            exit(2);
        }
        m
    })
}

// ------------------------------------------------------------------------------------------------
// check runner
// ------------------------------------------------------------------------------------------------

pub type Body = Box<dyn Fn(&mut Run) + Sync + Send>;

enum Kind {
    Dfs,
    /// explicit-state search: the body reads operations with `pick(ops)` until `len` operations are
    /// consumed; see `Check::bfs`.
    Bfs { ops: usize, depth: usize, max_states: usize, body: Box<dyn Fn(&mut Run, &[u32]) -> u64 + Sync + Send> },
}

struct Family {
    name: String,
    bound: String,
    kind: Kind,
    body: Body,
    keep_going: bool,
}

#[derive(Default, Clone)]
struct Stats {
    executions: u64,
    transitions: u64,
    checks: u64,
    states: u64,
    outcomes: u64,
    max_len: usize,
    exhaustive: bool,
    samples: Vec<String>,
    wall: f64,
    cap: String,
}

#[derive(Clone)]
struct Violation {
    family: String,
    key: String,
    msg: String,
    choices: Vec<u32>,
    desc: Vec<String>,
}

pub struct Check {
    pub id: &'static str,
    pub thorough: bool,
    seed: i64,
    start: Instant,
    families: Vec<Family>,
    assumptions: Vec<String>,
    workers: usize,
    timeout: Duration,
    replay: Option<(String, Vec<u32>)>,
    only: Option<String>,
    abort_families_on_violation: bool,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static SCRATCH: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();

/// A directory of this process, removed at the end of the check.
pub fn scratch() -> std::path::PathBuf {
    SCRATCH
        .get_or_init(|| {
            let d = std::env::temp_dir().join(format!("mcheck-{}", std::process::id()));
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir_all(&d).expect("HARNESS: scratch directory");
            d
        })
        .clone()
}

/// A path of the current thread inside the scratch directory.
pub fn thread_scratch(name: &str) -> std::path::PathBuf {
    let id = format!("{:?}", std::thread::current().id());
    let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
    let d = scratch().join(id);
    std::fs::create_dir_all(&d).expect("HARNESS: scratch directory");
    d.join(name)
}

fn exit(code: i32) -> ! {
    if let Some(d) = SCRATCH.get() {
        let _ = std::fs::remove_dir_all(d);
    }
    std::process::exit(code)
}

pub fn root() -> String {
    std::env::var("MCHECK_ROOT").unwrap_or_else(|_| "/verif".to_string())
}

impl Check {
    pub fn new(id: &'static str) -> Self {
        install_hook();
        let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut replay = None;
        let mut only = None;
        let args: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < args.len() {
            match args[i].as_str() {
                "thorough" => thorough = true,
                "quick" => thorough = false,
                "--replay" => {
                    let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                    let get = |k: &str| -> String {
                        text.lines()
                            .find(|l| l.starts_with(&format!("{}: ", k)))
                            .map(|l| l[k.len() + 2..].to_string())
                            .expect("replay field")
                    };
                    thorough = get("tier") == "thorough";
                    let ch = get("choices").split_whitespace().map(|x| x.parse().unwrap()).collect();
                    replay = Some((get("family"), ch));
                    i += 1;
                }
                "--family" => {
                    only = Some(args[i + 1].clone());
                    i += 1;
                }
                other => {
                    eprintln!("unknown argument {}", other);
                    exit(2);
                }
            }
            i += 1;
        }
        Check {
            id,
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            families: vec![],
            assumptions: vec![],
            workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
            timeout: Duration::from_secs(60),
            replay,
            only,
            abort_families_on_violation: true,
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// All choice sequences of `body`.
    pub fn family(&mut self, name: &str, bound: &str, body: impl Fn(&mut Run) + Sync + Send + 'static) {
        self.families.push(Family {
            name: name.to_string(),
            bound: bound.to_string(),
            kind: Kind::Dfs,
            body: Box::new(body),
            keep_going: false,
        });
    }
    /// Explicit-state breadth-first search: `body(run, history)` replays a history of operations on a
    /// fresh real object, checks it, and returns the canonical hash of the state reached.  Histories
    /// are extended with every operation in `0..ops`; states already seen are not expanded again.
    pub fn bfs(
        &mut self,
        name: &str,
        bound: &str,
        ops: usize,
        depth: usize,
        max_states: usize,
        body: impl Fn(&mut Run, &[u32]) -> u64 + Sync + Send + 'static,
    ) {
        self.families.push(Family {
            name: name.to_string(),
            bound: bound.to_string(),
            kind: Kind::Bfs { ops, depth, max_states, body: Box::new(body) },
            body: Box::new(|_| ()),
            keep_going: false,
        });
    }

    pub fn finish(mut self) -> ! {
        let families = std::mem::replace(&mut self.families, vec![]);
        if let Some((fam, choices)) = self.replay.clone() {
            let f = match families.iter().find(|f| f.name == fam) {
                Some(f) => f,
                None => {
                    eprintln!("no family {}", fam);
                    exit(2);
                }
            };
            let (r1, d1) = self.run_once(f, &choices, true);
            let (r2, _) = self.run_once(f, &choices, true);
            say!("replay of {}:{} ({} choices)", self.id, fam, choices.len());
            for d in &d1 {
                say!("  {}", d);
            }
            let k1: Vec<String> = r1.iter().map(|f| f.key.clone()).collect();
            let k2: Vec<String> = r2.iter().map(|f| f.key.clone()).collect();
            if k1 != k2 {
                eprintln!("replay is not deterministic: {:?} / {:?}", k1, k2);
                exit(2);
            }
            for f in &r1 {
                say!("  violated [{}]: {}", f.key, f.msg);
            }
            exit(if r1.is_empty() { 0 } else { 1 });
        }

        let known = load_known(self.id);
        let mut all: Vec<(String, String, Stats)> = vec![];
        let mut violations: Vec<Violation> = vec![];
        let mut known_hit: HashMap<String, String> = HashMap::new();
        for f in &families {
            if let Some(o) = &self.only {
                if !f.name.contains(o.as_str()) {
                    continue;
                }
            }
            let t0 = Instant::now();
            let (mut st, vs) = match &f.kind {
                Kind::Dfs => self.explore(f, &known),
                Kind::Bfs { ops, depth, max_states, body } => self.explore_bfs(f, *ops, *depth, *max_states, body.as_ref(), &known),
            };
            st.wall = t0.elapsed().as_secs_f64();
            say!(
                "{} {}: executions={} states={} transitions={} comparisons={} outcomes={} longest={} exhaustive={} {:.1}s{}",
                self.id, f.name, st.executions, st.states, st.transitions, st.checks, st.outcomes, st.max_len, st.exhaustive, st.wall,
                if st.cap.is_empty() { String::new() } else { format!(" ({})", st.cap) }
            );
            all.push((f.name.clone(), f.bound.clone(), st));
            for v in vs {
                let id = format!("{}/{}", v.family, v.key);
                if known.contains_key(&id) {
                    known_hit.entry(id).or_insert(v.msg.clone());
                } else {
                    violations.push(v);
                }
            }
            if !violations.is_empty() && self.abort_families_on_violation {
                break;
            }
        }
        for (id, what) in &known {
            if known_hit.contains_key(id) {
                say!("KNOWN-FINDING: property={} {}", self.id, what);
            }
        }
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        for (i, v) in violations.iter().enumerate().take(5) {
            let path = self.write_replay(&dir, i, v);
            say!("--- violated: {} [{}]", v.family, v.key);
            for d in &v.desc {
                say!("    {}", d);
            }
            say!("    {}", v.msg);
            say!("VIOLATION property={} replay={}", self.id, path);
        }
        self.write_evidence(&all, violations.len());
        exit(if violations.is_empty() { 0 } else { 1 });
    }

    fn write_replay(&self, dir: &str, i: usize, v: &Violation) -> String {
        let path = format!("{}/{}-{}.txt", dir, self.id, i);
        let ch: Vec<String> = v.choices.iter().map(|c| c.to_string()).collect();
        let mut s = String::new();
        let _ = writeln!(s, "property: {}", self.id);
        let _ = writeln!(s, "tier: {}", if self.thorough { "thorough" } else { "quick" });
        let _ = writeln!(s, "family: {}", v.family);
        let _ = writeln!(s, "key: {}", v.key);
        let _ = writeln!(s, "choices: {}", ch.join(" "));
        let _ = writeln!(s, "message: {}", v.msg.replace('\n', "\\n"));
        for d in &v.desc {
            let _ = writeln!(s, "case: {}", d.replace('\n', "\\n"));
        }
        let _ = writeln!(s, "# replay with: bash /verif/run.sh {} --replay {}", self.id, path);
        let _ = std::fs::write(&path, s);
        path
    }

    fn run_once(&self, f: &Family, choices: &[u32], describe: bool) -> (Vec<Fail>, Vec<String>) {
        match &f.kind {
            Kind::Dfs => {
                let r = one(f.body.as_ref(), choices.to_vec(), self.thorough, describe, None, true);
                (r.fails, r.desc)
            }
            Kind::Bfs { body, .. } => {
                let r = one_bfs(body.as_ref(), choices, self.thorough, describe);
                (r.fails, r.desc)
            }
        }
    }

    fn explore(&self, f: &Family, known: &HashMap<String, String>) -> (Stats, Vec<Violation>) {
        let shared = Arc::new(Shared::default());
        shared.queue.lock().unwrap().push(vec![]);
        let lives: Vec<Arc<Mutex<Vec<u32>>>> = (0..self.workers).map(|_| Arc::new(Mutex::new(vec![]))).collect();
        let starts: Vec<Arc<AtomicU64>> = (0..self.workers).map(|_| Arc::new(AtomicU64::new(0))).collect();
        let result: Mutex<(Stats, HashSet<u64>, HashSet<u64>)> = Mutex::new(Default::default());
        let found: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        let seen_keys: Mutex<HashMap<String, u64>> = Mutex::new(HashMap::new());
        let stop = AtomicBool::new(false);
        let samples: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![]);
        let done = AtomicBool::new(false);
        let epoch = Instant::now();
        let thorough = self.thorough;
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..self.workers {
                let shared = shared.clone();
                let live = lives[w].clone();
                let startc = starts[w].clone();
                let (result, found, stop, samples, seen_keys) = (&result, &found, &stop, &samples, &seen_keys);
                hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    let mut states: HashSet<u64> = HashSet::new();
                    let mut outcomes: HashSet<u64> = HashSet::new();
                    let mut local: Vec<Vec<u32>> = vec![];
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let prefix = match local.pop() {
                            Some(p) => p,
                            None => match shared.take() {
                                Some(p) => p,
                                None => break,
                            },
                        };
                        let plen = prefix.len();
                        live.lock().unwrap().clear();
                        startc.store(epoch.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let r = one(f.body.as_ref(), prefix, thorough, false, Some(live.clone()), false);
                        startc.store(0, Ordering::Relaxed);
                        st.executions += 1;
                        st.transitions += r.steps;
                        st.checks += r.checks;
                        st.max_len = st.max_len.max(r.taken.len());
                        if outcomes.len() < 4_000_000 {
                            outcomes.insert(r.outcome);
                        }
                        for s in r.states {
                            if states.len() < 8_000_000 {
                                states.insert(s);
                            }
                        }
                        if st.executions.is_power_of_two() {
                            let mut s = samples.lock().unwrap();
                            if s.len() < 400 {
                                s.push(r.taken.clone());
                            }
                        }
                        for fl in &r.fails {
                            let id = format!("{}/{}", f.name, fl.key);
                            let mut sk = seen_keys.lock().unwrap();
                            let n = sk.entry(id.clone()).or_insert(0);
                            *n += 1;
                            if *n <= 1 {
                                found.lock().unwrap().push(Violation {
                                    family: f.name.clone(),
                                    key: fl.key.clone(),
                                    msg: fl.msg.clone(),
                                    choices: r.taken.clone(),
                                    desc: vec![],
                                });
                            }
                            if !known.contains_key(&id) && !f.keep_going {
                                stop.store(true, Ordering::Relaxed);
                                shared.wake();
                            }
                        }
                        for i in (plen..r.taken.len()).rev() {
                            for alt in (1..r.arity[i]).rev() {
                                let mut p = r.taken[..i].to_vec();
                                p.push(alt);
                                local.push(p);
                            }
                        }
                        // the deepest sibling is explored first: keep the simplest on top
                        shared.balance(&mut local);
                    }
                    shared.leave();
                    let mut g = result.lock().unwrap();
                    g.0.executions += st.executions;
                    g.0.transitions += st.transitions;
                    g.0.checks += st.checks;
                    g.0.max_len = g.0.max_len.max(st.max_len);
                    g.1.extend(states);
                    g.2.extend(outcomes);
                }).unwrap());
            }
            // watchdog
            let timeout = self.timeout;
            let done_ref = &done;
            let lives2 = lives.clone();
            let starts2 = starts.clone();
            let me = self;
            let wd = sc.spawn(move || loop {
                if done_ref.load(Ordering::Relaxed) {
                    return;
                }
                std::thread::sleep(Duration::from_millis(20));
                let now = epoch.elapsed().as_millis() as u64;
                let rss = rss_mb();
                for w in 0..starts2.len() {
                    let s = starts2[w].load(Ordering::Relaxed);
                    let hung = s != 0 && now > s && now - s > timeout.as_millis() as u64;
                    let big = rss > 14_000 && s != 0 && now > s + 300;
                    if hung || big {
                        let choices = lives2[w].lock().unwrap().clone();
                        let v = Violation {
                            family: f.name.clone(),
                            key: if hung { "no-termination".into() } else { "unbounded-memory".into() },
                            msg: if hung {
                                format!("the execution did not end within {} s", timeout.as_secs())
                            } else {
                                format!("the process grew to {} MB", rss)
                            },
                            choices,
                            desc: vec![],
                        };
                        let id = format!("{}/{}", v.family, v.key);
                        if known.contains_key(&id) {
                            say!("KNOWN-FINDING: property={} {}", me.id, known[&id]);
                        }
                        let dir = format!("{}/replays", root());
                        let _ = std::fs::create_dir_all(&dir);
                        let path = me.write_replay(&dir, 0, &v);
                        say!("--- violated: {} [{}] {}", v.family, v.key, v.msg);
                        say!("VIOLATION property={} replay={}", me.id, path);
                        me.write_evidence(&[(f.name.clone(), f.bound.clone(), Stats { executions: 1, samples: vec![format!("{:?}", v.choices)], ..Default::default() })], 1);
                        exit(1);
                    }
                }
            });
            for h in hs {
                if h.join().is_err() {
                    eprintln!("worker failed");
                    exit(2);
                }
            }
            done.store(true, Ordering::Relaxed);
            let _ = wd.join();
        });
        let (mut st, states, outcomes) = result.into_inner().unwrap();
        st.states = states.len() as u64;
        st.outcomes = outcomes.len() as u64;
        let mut vs = found.into_inner().unwrap();
        vs.sort_by_key(|v| (v.choices.len(), v.choices.clone()));
        for v in vs.iter_mut() {
            let (f1, d1) = self.run_once(f, &v.choices, true);
            v.desc = d1;
            if !f1.iter().any(|x| x.key == v.key) {
                eprintln!("HARNESS: violation {} {} {:?} not reproduced by replay (got {:?}): {}", v.family, v.key, v.choices, f1, v.msg);
                exit(2);
            }
        }
        st.exhaustive = !stop.load(Ordering::Relaxed);
        // samples: replay, check determinism
        let smp = samples.into_inner().unwrap();
        let picked: Vec<&Vec<u32>> = {
            let mut v: Vec<&Vec<u32>> = vec![];
            if !smp.is_empty() {
                v.push(&smp[0]);
                v.push(&smp[smp.len() / 2]);
                v.push(&smp[smp.len() - 1]);
            }
            v.dedup();
            v
        };
        for s in smp.iter() {
            let a = one(f.body.as_ref(), s.clone(), self.thorough, false, None, true);
            let b = one(f.body.as_ref(), s.clone(), self.thorough, false, None, true);
            if a.outcome != b.outcome || a.taken != b.taken {
                eprintln!("HARNESS: {} {:?} is not deterministic", f.name, s);
                exit(2);
            }
        }
        for s in picked {
            let r = one(f.body.as_ref(), s.clone(), self.thorough, true, None, true);
            st.samples.push(format!("choices {:?}: {}", s, r.desc.join("; ")));
        }
        (st, vs)
    }

    fn explore_bfs(
        &self,
        f: &Family,
        ops: usize,
        depth: usize,
        max_states: usize,
        body: &(dyn Fn(&mut Run, &[u32]) -> u64 + Sync + Send),
        known: &HashMap<String, String>,
    ) -> (Stats, Vec<Violation>) {
        let mut st = Stats { exhaustive: true, ..Default::default() };
        let mut vs: Vec<Violation> = vec![];
        let mut outcomes: HashSet<u64> = HashSet::new();
        let mut seen: HashSet<u64> = HashSet::new();
        let r0 = one_bfs(body, &[], self.thorough, false);
        seen.insert(r0.state);
        st.executions += 1;
        let mut frontier: Vec<Vec<u32>> = vec![vec![]];
        if !r0.fails.is_empty() {
            vs.push(Violation { family: f.name.clone(), key: r0.fails[0].key.clone(), msg: r0.fails[0].msg.clone(), choices: vec![], desc: vec![] });
            frontier.clear();
        }
        let mut level = 0;
        let mut last: Vec<u32> = vec![];
        while !frontier.is_empty() && level < depth {
            level += 1;
            let next_idx = AtomicUsize::new(0);
            let fr = &frontier;
            let thorough = self.thorough;
            let results: Mutex<Vec<(Vec<u32>, OneBfs)>> = Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for _ in 0..self.workers {
                    let (next_idx, results) = (&next_idx, &results);
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                        let mut out = vec![];
                        loop {
                            let i = next_idx.fetch_add(1, Ordering::Relaxed);
                            if i >= fr.len() {
                                break;
                            }
                            for o in 0..ops as u32 {
                                let mut h = fr[i].clone();
                                h.push(o);
                                let r = one_bfs(body, &h, thorough, false);
                                out.push((h, r));
                            }
                        }
                        results.lock().unwrap().extend(out);
                    }).unwrap();
                }
            });
            let mut results = results.into_inner().unwrap();
            results.sort_by(|a, b| a.0.cmp(&b.0));
            let mut next = vec![];
            let mut bad = false;
            for (h, r) in results {
                if r.disabled {
                    continue;
                }
                st.executions += 1;
                st.transitions += 1;
                st.checks += r.checks;
                outcomes.insert(r.outcome);
                st.max_len = st.max_len.max(h.len());
                for fl in &r.fails {
                    let id = format!("{}/{}", f.name, fl.key);
                    if !vs.iter().any(|v| v.key == fl.key) {
                        vs.push(Violation { family: f.name.clone(), key: fl.key.clone(), msg: fl.msg.clone(), choices: h.clone(), desc: vec![] });
                    }
                    if !known.contains_key(&id) {
                        bad = true;
                    }
                }
                if r.fails.is_empty() && seen.insert(r.state) {
                    last = h.clone();
                    next.push(h);
                }
            }
            if bad {
                st.exhaustive = false;
                break;
            }
            if seen.len() > max_states {
                st.exhaustive = false;
                st.cap = format!("stopped at the cap of {} states; all histories up to length {} were explored", max_states, level);
                break;
            }
            frontier = next;
        }
        if st.exhaustive && frontier.is_empty() {
            st.cap = "closed: no new state is reachable".into();
        }
        for v in vs.iter_mut() {
            let r = one_bfs(body, &v.choices, self.thorough, true);
            v.desc = r.desc;
            if !r.fails.iter().any(|x| x.key == v.key) {
                eprintln!("HARNESS: violation not reproduced by replay");
                exit(2);
            }
        }
        for h in [vec![], last] {
            let a = one_bfs(body, &h, self.thorough, true);
            let b = one_bfs(body, &h, self.thorough, false);
            if a.outcome != b.outcome || a.state != b.state {
                eprintln!("HARNESS: {} {:?} is not deterministic", f.name, h);
                exit(2);
            }
            st.samples.push(format!("history {:?}: {}", h, a.desc.join("; ")));
        }
        st.states = seen.len() as u64;
        st.outcomes = outcomes.len() as u64;
        (st, vs)
    }

    fn write_evidence(&self, all: &[(String, String, Stats)], violations: usize) {
        let sum = |g: &dyn Fn(&Stats) -> u64| -> u64 { all.iter().map(|a| g(&a.2)).sum() };
        let mut s = String::from("{\n");
        let _ = writeln!(s, "  \"property\": {},", json_str(self.id));
        let _ = writeln!(s, "  \"tier\": \"{}\",", if self.thorough { "thorough" } else { "quick" });
        let _ = writeln!(s, "  \"seed\": {},", self.seed);
        let _ = writeln!(s, "  \"level\": \"model_checking\",");
        let _ = writeln!(s, "  \"coverage\": {{");
        let _ = writeln!(s, "    \"states\": {},", sum(&|x| x.states));
        let _ = writeln!(s, "    \"transitions\": {},", sum(&|x| x.transitions));
        let _ = writeln!(s, "    \"traces_validated_against_impl\": {},", sum(&|x| x.executions));
        let _ = writeln!(s, "    \"comparisons_with_model\": {},", sum(&|x| x.checks));
        let _ = writeln!(s, "    \"distinct_outcomes\": {},", sum(&|x| x.outcomes));
        let _ = writeln!(s, "    \"exhaustive\": {},", !all.is_empty() && all.iter().all(|x| x.2.exhaustive));
        let _ = writeln!(s, "    \"families\": [");
        for (i, (n, b, st)) in all.iter().enumerate() {
            let _ = writeln!(
                s,
                "      {{\"name\": {}, \"bound\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"comparisons\": {}, \"distinct_outcomes\": {}, \"longest_choice_sequence\": {}, \"exhaustive\": {}, \"cap\": {}, \"wall_s\": {:.3}}}{}",
                json_str(n), json_str(b), st.executions, st.states, st.transitions, st.checks, st.outcomes, st.max_len, st.exhaustive, json_str(&st.cap), st.wall,
                if i + 1 < all.len() { "," } else { "" }
            );
        }
        let _ = writeln!(s, "    ],");
        let smp: Vec<String> = all
            .iter()
            .flat_map(|(n, _, st)| st.samples.iter().map(move |x| json_str(&clip(&format!("{}: {}", n, x), 600))))
            .collect();
        let _ = writeln!(s, "    \"samples\": [\n      {}\n    ]", smp.join(",\n      "));
        let _ = writeln!(s, "  }},");
        let a: Vec<String> = self.assumptions.iter().map(|x| json_str(x)).collect();
        let _ = writeln!(s, "  \"assumptions\": [{}],", a.join(", "));
        let _ = writeln!(s, "  \"wall_s\": {:.3},", self.start.elapsed().as_secs_f64());
        let _ = writeln!(s, "  \"violations\": {}", violations);
        s.push_str("}\n");
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{}/{}.json", dir, self.id), s).expect("evidence file");
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}…", t)
    }
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4096 / (1 << 20))
        .unwrap_or(0)
}

/// `known_findings.txt`: lines `KNOWN property=<id> id=<family>/<key> <what fails>`; lines that start
/// with `fixed:` or `#` suppress nothing.
fn load_known(id: &str) -> HashMap<String, String> {
    let mut m = HashMap::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", root())) {
        for l in t.lines() {
            let p = format!("KNOWN property={} id=", id);
            if let Some(rest) = l.strip_prefix(p.as_str()) {
                let mut it = rest.splitn(2, ' ');
                let key = it.next().unwrap_or("").to_string();
                m.insert(key, it.next().unwrap_or("").to_string());
            }
        }
    }
    m
}

#[derive(Default)]
struct Shared {
    queue: Mutex<Vec<Vec<u32>>>,
    cv: Condvar,
    idle: AtomicUsize,
    workers: AtomicUsize,
    stopped: AtomicBool,
}

impl Shared {
    fn take(&self) -> Option<Vec<u32>> {
        let mut q = self.queue.lock().unwrap();
        self.idle.fetch_add(1, Ordering::SeqCst);
        loop {
            if self.stopped.load(Ordering::SeqCst) {
                return None;
            }
            if let Some(p) = q.pop() {
                self.idle.fetch_sub(1, Ordering::SeqCst);
                self.workers.fetch_add(1, Ordering::SeqCst);
                // `workers` counts takes minus returns: see `release`
                BUSY.with(|b| {
                    if b.replace(true) {
                        self.workers.fetch_sub(1, Ordering::SeqCst);
                    }
                });
                return Some(p);
            }
            BUSY.with(|b| {
                if b.replace(false) {
                    self.workers.fetch_sub(1, Ordering::SeqCst);
                }
            });
            if self.workers.load(Ordering::SeqCst) == 0 {
                self.stopped.store(true, Ordering::SeqCst);
                self.cv.notify_all();
                return None;
            }
            q = self.cv.wait_timeout(q, Duration::from_millis(5)).unwrap().0;
        }
    }
    fn balance(&self, local: &mut Vec<Vec<u32>>) {
        if local.len() > 1 && self.idle.load(Ordering::Relaxed) > 0 {
            let mut q = self.queue.lock().unwrap();
            if q.len() < 64 {
                let n = local.len() / 2;
                q.extend(local.drain(..n));
                self.cv.notify_all();
            }
        }
    }
    fn wake(&self) {
        self.stopped.store(true, Ordering::SeqCst);
        self.cv.notify_all();
    }
    fn leave(&self) {
        BUSY.with(|b| {
            if b.replace(false) {
                self.workers.fetch_sub(1, Ordering::SeqCst);
            }
        });
        self.cv.notify_all();
    }
}

thread_local! {
    static BUSY: Cell<bool> = Cell::new(false);
}

struct One {
    taken: Vec<u32>,
    arity: Vec<u32>,
    fails: Vec<Fail>,
    desc: Vec<String>,
    steps: u64,
    checks: u64,
    states: Vec<u64>,
    outcome: u64,
}

fn one(body: &(dyn Fn(&mut Run) + Sync + Send), prefix: Vec<u32>, thorough: bool, describe: bool, live: Option<Arc<Mutex<Vec<u32>>>>, strict: bool) -> One {
    let ch = Rc::new(RefCell::new(Chooser { prefix, taken: vec![], arity: vec![], strict, live }));
    let mut run = Run::new(ch.clone(), thorough, describe);
    let r = catch(|| body(&mut run));
    script::reset();
    if let Err(m) = r {
        run.fail("panic", format!("the code under test panicked: {}", m));
    }
    if run.states.is_empty() {
        run.states.push(run.outcome.finish()); // the final observation is the (only) state
    }
    let c = ch.borrow();
    if c.taken.len() < c.prefix.len() {
        eprintln!("HARNESS: divergence: the execution is shorter than its prefix");
        exit(2);
    }
    One {
        taken: c.taken.clone(),
        arity: c.arity.clone(),
        fails: std::mem::replace(&mut run.fails, vec![]),
        desc: std::mem::replace(&mut run.desc, vec![]),
        steps: run.steps,
        checks: run.checks,
        states: std::mem::replace(&mut run.states, vec![]),
        outcome: run.outcome.finish(),
    }
}

struct OneBfs {
    fails: Vec<Fail>,
    desc: Vec<String>,
    checks: u64,
    state: u64,
    outcome: u64,
    disabled: bool,
}

fn one_bfs(body: &(dyn Fn(&mut Run, &[u32]) -> u64 + Sync + Send), hist: &[u32], thorough: bool, describe: bool) -> OneBfs {
    let ch = Rc::new(RefCell::new(Chooser { strict: true, ..Default::default() }));
    let mut run = Run::new(ch, thorough, describe);
    let r = catch(|| body(&mut run, hist));
    let state = match r {
        Ok(s) => s,
        Err(m) => {
            run.fail("panic", format!("the code under test panicked: {}", m));
            0
        }
    };
    OneBfs {
        fails: std::mem::replace(&mut run.fails, vec![]),
        desc: std::mem::replace(&mut run.desc, vec![]),
        checks: run.checks,
        state,
        outcome: run.outcome.finish(),
        disabled: run.stop_expand,
    }
}

pub fn hash_of<H: Hash + ?Sized>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

#[allow(dead_code)]
type Unused = VecDeque<u8>;
