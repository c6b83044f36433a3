//! What every monitor shares: a seeded generator, the event counters that become the
//! evidence file, violation and known-finding reporting, and a parallel case runner.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random numbers
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % (hi - lo + 1) as u64) as i64
    }
    /// true in `num` of `den` draws
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- arguments
#[derive(Clone, Debug)]
pub struct Args {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    /// Run only the case with this number
    pub replay: Option<u64>,
    pub only: Option<String>,
}
pub fn args() -> Args {
    let mut a = Args {
        property: String::new(),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        replay: None,
        only: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--tier" => a.thorough = it.next().as_deref() == Some("thorough"),
            "--seed" => a.seed = it.next().and_then(|s| s.parse().ok()).expect("--seed N"),
            "--replay" => a.replay = it.next().and_then(|s| s.parse().ok()),
            "--only" => a.only = it.next(),
            p => a.property = p.to_string(),
        }
    }
    a
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

// ---------------------------------------------------------------- panics of the code under test
thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<u32> = const { RefCell::new(0) };
}
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = payload(info.payload());
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let quiet = QUIET.with(|q| *q.borrow() > 0);
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, at)));
        if !quiet && !QUIET_ALL.load(Ordering::Relaxed) {
            default(info);
        }
    }));
}
static QUIET_ALL: AtomicBool = AtomicBool::new(false);
/// Also silences panics on threads the code under test starts
pub fn quiet_everywhere(b: bool) {
    QUIET_ALL.store(b, Ordering::Relaxed);
}
fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}
/// Runs code under test; a panic becomes `Err(message and place)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    r.map_err(|p| {
        LAST_PANIC
            .with(|l| l.borrow_mut().take())
            .unwrap_or_else(|| payload(p.as_ref()))
    })
}

// ---------------------------------------------------------------- observations of one case
#[derive(Default)]
pub struct Case {
    pub index: u64,
    fingerprint: Option<u64>,
    sample: Option<String>,
    evals: u64,
    counts: BTreeMap<String, u64>,
    distinct: BTreeMap<String, HashSet<u64>>,
    violations: Vec<(String, String)>,
}
impl Case {
    /// The case was non-trivial; equal fingerprints are counted once.
    pub fn nontrivial<T: Hash>(&mut self, t: T) {
        self.fingerprint = Some(hash_of(&t));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    /// One observation compared with the oracle
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    pub fn count(&mut self, k: &str) {
        self.count_n(k, 1)
    }
    pub fn count_n(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_default() += n;
    }
    /// Counts different values seen under `k`
    pub fn seen<T: Hash>(&mut self, k: &str, t: T) {
        self.distinct.entry(k.to_string()).or_default().insert(hash_of(&t));
    }
    /// `key` names what failed in a way that is stable across runs
    pub fn violation(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        self.violations.push((key.into(), detail.into()));
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }
    /// Runs code under test that must not panic
    pub fn must<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(t) => Some(t),
            Err(e) => {
                self.violation(format!("panic:{}", what), format!("{} panicked: {}", what, e));
                None
            }
        }
    }
}

// ---------------------------------------------------------------- the run
/// How many cases of a run may be left without an answer
const STUCK: usize = 3;
struct Pool {
    next: AtomicU64,
    running: Vec<Mutex<Slot>>,
}
#[derive(Clone, Copy)]
enum Slot {
    Free,
    Idle,
    On(u64, Instant),
    Stuck,
}
pub struct Run {
    pub args: Args,
    rule: String,
    start: Instant,
    state: Mutex<State>,
    assumptions: Vec<String>,
}
#[derive(Default)]
struct State {
    cases: u64,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    counts: BTreeMap<String, u64>,
    seen: BTreeMap<String, HashSet<u64>>,
    violations: BTreeMap<String, (u64, String)>,
    violation_count: u64,
    /// Cases left behind
    stuck: u64,
    /// Longest case in milliseconds
    slowest: (u64, String),
}

fn known_findings(property: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut p = r.splitn(3, ' ');
            let prop = p.next().unwrap_or("");
            let key = p.next().unwrap_or("");
            if prop == format!("property={}", property) {
                out.push((
                    key.trim_start_matches("key=").to_string(),
                    p.next().unwrap_or("").to_string(),
                ));
            }
        }
    }
    out
}

impl Run {
    pub fn new(args: Args, rule: &str) -> &'static mut Self {
        Box::leak(Box::new(Run {
            args,
            rule: rule.to_string(),
            start: Instant::now(),
            state: Mutex::new(State::default()),
            assumptions: vec![],
        }))
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    fn absorb(&self, c: Case) {
        let mut s = self.state.lock().unwrap();
        s.cases += 1;
        s.evals += c.evals;
        if let Some(f) = c.fingerprint {
            s.distinct.insert(f);
        }
        if let Some(t) = c.sample {
            if s.samples.len() < 4 {
                s.samples.push(t);
            }
        }
        for (k, n) in c.counts {
            *s.counts.entry(k).or_default() += n;
        }
        for (k, h) in c.distinct {
            s.seen.entry(k).or_default().extend(h);
        }
        for (k, d) in c.violations {
            s.violation_count += 1;
            let e = s.violations.entry(k).or_insert((c.index, d.clone()));
            // keep the smallest case of each kind: the run is then reproducible
            if c.index < e.0 || (c.index == e.0 && d.len() < e.1.len()) {
                *e = (c.index, d);
            }
        }
    }
    /// A single case outside the numbered ones
    pub fn one(&self, f: impl FnOnce(&mut Case)) {
        let mut c = Case { index: u64::MAX, ..Default::default() };
        f(&mut c);
        self.absorb(c);
    }
    /// Runs cases `0..quick` (or `0..thorough`) on all cores, each with a generator derived
    /// from the seed and its own number, within the time limit of the tier.
    pub fn cases(
        &'static self,
        stream: &'static str,
        quick: (u64, u64),
        thorough: (u64, u64),
        f: impl Fn(&mut Rng, &mut Case) + Send + Sync + 'static,
    ) {
        if let Some(o) = &self.args.only {
            if o != stream {
                return;
            }
        }
        let (n, secs) = if self.args.thorough { thorough } else { quick };
        let salt = hash_of(stream);
        let seed = self.args.seed;
        let run_one = move |i: u64| {
            let mut rng = Rng::new(seed.wrapping_mul(0x1000_0000_01B3) ^ salt ^ i.wrapping_mul(0xA24B_AED4_963E_E407));
            let mut c = Case { index: i, ..Default::default() };
            note_current(stream, i);
            let begun = Instant::now();
            f(&mut rng, &mut c);
            let spent = begun.elapsed().as_millis() as u64;
            {
                let mut s = self.state.lock().unwrap();
                if spent > s.slowest.0 {
                    s.slowest = (spent, format!("{} {}", stream, i));
                }
            }
            if self.args.replay.is_some() {
                for (k, d) in &c.violations {
                    println!("[{}] {}", k, d);
                }
            }
            for (k, d) in c.violations.iter_mut() {
                *d = format!("{} case {} of stream {:?} (seed {})\n{}", k, i, stream, seed, d);
            }
            self.absorb(c);
        };
        if let Some(i) = self.args.replay {
            run_one(i);
            return;
        }
        let begin = Instant::now();
        let limit = Duration::from_secs(secs);
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        let workers = (workers as u64).min(n.max(1)) as usize;
        let pool = Arc::new(Pool {
            next: AtomicU64::new(0),
            running: (0..workers + STUCK).map(|_| Mutex::new(Slot::Free)).collect(),
        });
        let run_one = Arc::new(run_one);
        let spawn = |w: usize| {
            let (pool, run_one) = (pool.clone(), run_one.clone());
            *pool.running[w].lock().unwrap() = Slot::Idle;
            std::thread::Builder::new()
                .name(format!("w{}", w))
                .stack_size(512 << 20)
                .spawn(move || loop {
                    let i = pool.next.fetch_add(1, Ordering::Relaxed);
                    {
                        let mut slot = pool.running[w].lock().unwrap();
                        // given up on, and another has taken its place
                        if let Slot::Stuck = *slot {
                            return;
                        }
                        if i >= n || begin.elapsed() > limit {
                            *slot = Slot::Free;
                            return;
                        }
                        *slot = Slot::On(i, Instant::now());
                    }
                    // A panic here is the harness's own: no verdict may come of it.
                    if let Err(e) = catch_unwind(AssertUnwindSafe(|| run_one(i))) {
                        eprintln!("harness error in {} case {}: {}", stream, i, payload(e.as_ref()));
                        std::process::exit(2);
                    }
                })
                .unwrap();
        };
        (0..workers).for_each(spawn);
        // Every case ends in seconds. Which zones a search meets first is a matter of chance, and
        // now and then one takes minutes: such a case is left behind. Several are no accident.
        let hang = Duration::from_secs(if self.args.thorough { 600 } else { 100 });
        let mut fresh = workers;
        loop {
            std::thread::sleep(Duration::from_millis(20));
            let on = |m: &Mutex<Slot>| if let Slot::On(i, t) = *m.lock().unwrap() { Some((i, t.elapsed())) } else { None };
            let (big, huge) = (rss() > 14 << 30, rss() > 20 << 30);
            let late: Vec<(usize, u64, Duration)> = (0..fresh)
                .filter_map(|w| on(&pool.running[w]).map(|(i, t)| (w, i, t)))
                .filter(|(_, _, t)| *t > if huge { Duration::from_secs(2) } else if big { Duration::from_secs(10) } else { hang })
                .collect();
            for (w, i, t) in &late {
                let mut slot = pool.running[*w].lock().unwrap();
                match *slot {
                    Slot::On(j, _) if j == *i => *slot = Slot::Stuck,
                    _ => continue,
                }
                drop(slot);
                let mut c = Case { index: *i, ..Default::default() };
                c.count("left behind without an answer");
                println!("left behind: case {} of stream {:?} after {:?}, memory in use {} MB", i, stream, t, rss() >> 20);
                let stuck = {
                    let mut s = self.state.lock().unwrap();
                    s.stuck += 1;
                    s.stuck
                };
                if stuck > STUCK as u64 {
                    c.violation(
                        if big { "memory" } else { "no answer" },
                        format!("case {} of stream {:?} (seed {}) is the fourth without an answer, after {:?}; memory in use {} MB", i, stream, seed, t, rss() >> 20),
                    );
                    self.absorb(c);
                    self.finish();
                }
                self.absorb(c);
                spawn(fresh);
                fresh += 1;
            }
            if big && !late.is_empty() || huge {
                // the memory does not come back
                self.finish();
            }
            if pool.running.iter().all(|m| matches!(*m.lock().unwrap(), Slot::Free | Slot::Stuck)) {
                return;
            }
        }
    }
    pub fn finish(&self) -> ! {
        let s = self.state.lock().unwrap();
        let id = &self.args.property;
        let known = known_findings(id);
        let mut bad = 0;
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(dir.join("replay"));
        for (k, (case, d)) in &s.violations {
            if let Some((_, text)) = known.iter().find(|(kk, _)| kk == k) {
                println!("KNOWN-FINDING: property={} {}", id, text);
                continue;
            }
            let name: String = k
                .chars()
                .map(|c| if c.is_ascii_alphanumeric() { c } else { '-' })
                .take(60)
                .collect();
            let path = dir.join("replay").join(format!("{}-{}.txt", id, name));
            let _ = std::fs::write(
                &path,
                format!(
                    "property {}\nseed {} tier {} case {}\nkey {}\n\n{}\n",
                    id,
                    self.args.seed,
                    if self.args.thorough { "thorough" } else { "quick" },
                    case,
                    k,
                    d
                ),
            );
            bad += 1;
            if bad <= 20 {
                println!("{}", d.chars().take(3000).collect::<String>());
                println!("VIOLATION property={} replay={}", id, path.display());
            }
        }
        let mut j = String::new();
        j.push_str(&format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
            js(id),
            js(if self.args.thorough { "thorough" } else { "quick" }),
            self.args.seed
        ));
        j.push_str(&format!("  \"evaluations\": {},\n", s.evals));
        j.push_str(&format!("  \"distinct_nontrivial\": {},\n", s.distinct.len()));
        j.push_str(&format!("  \"cases\": {},\n", s.cases));
        j.push_str(&format!("  \"slowest_case_ms\": {},\n", s.slowest.0));
        for (k, n) in &s.counts {
            j.push_str(&format!("  {}: {},\n", js(k), n));
        }
        for (k, h) in &s.seen {
            j.push_str(&format!("  {}: {},\n", js(&format!("distinct {}", k)), h.len()));
        }
        j.push_str(&format!("  \"rule\": {},\n", js(&self.rule)));
        j.push_str(&format!(
            "  \"samples\": [{}]\n }},\n",
            s.samples.iter().map(|t| js(t)).collect::<Vec<_>>().join(", ")
        ));
        j.push_str(&format!(
            " \"assumptions\": [{}],\n",
            self.assumptions.iter().map(|t| js(t)).collect::<Vec<_>>().join(", ")
        ));
        j.push_str(&format!(
            " \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            self.start.elapsed().as_secs_f64(),
            bad
        ));
        let path = dir.join(format!("{}.json", id));
        if let Err(e) = std::fs::write(&path, j) {
            eprintln!("cannot write {}: {}", path.display(), e);
            std::process::exit(2);
        }
        println!(
            "{}: {} cases, {} observations, {} distinct non-trivial, {} violations ({} kinds), {:.1}s",
            id,
            s.cases,
            s.evals,
            s.distinct.len(),
            s.violation_count,
            s.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        println!("  slowest case: {} ms ({})", s.slowest.0, s.slowest.1);
        for (k, n) in &s.counts {
            println!("  {}: {}", k, n);
        }
        for (k, h) in &s.seen {
            println!("  distinct {}: {}", k, h.len());
        }
        if s.evals == 0 || s.distinct.is_empty() && self.args.replay.is_none() {
            eprintln!("nothing was observed");
            std::process::exit(2);
        }
        std::process::exit(if bad > 0 { 1 } else { 0 })
    }
}

/// Memory in use, in bytes
fn rss() -> u64 {
    let t = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    t.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}

/// The case being run by this thread, for the case that ends the process.
fn note_current(stream: &str, i: u64) {
    use std::io::{Seek, Write};
    thread_local! {
        static FILE: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
    }
    FILE.with(|f| {
        let mut f = f.borrow_mut();
        if f.is_none() {
            if let Ok(dir) = std::env::var("MONITOR_CURRENT") {
                let n = std::thread::current().name().unwrap_or("main").to_string();
                *f = std::fs::File::create(PathBuf::from(dir).join(n)).ok();
            }
        }
        if let Some(f) = f.as_mut() {
            let _ = f.rewind();
            let _ = f.write_all(format!("{} {}            \n", stream, i).as_bytes());
        }
    })
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
