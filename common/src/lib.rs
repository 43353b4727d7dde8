//! Shared reporting machinery of the checks: counters, violations, known findings,
//! evidence files, panic capture, a hang watchdog and a tiny work-sharing loop.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const MAX_VIOLATIONS: usize = 12;
/// No single explored case takes longer than a few milliseconds on the unchanged tree;
/// one that is still running after this long does not terminate for practical purposes.
const HANG_SECONDS: u64 = 100;

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub root: String,
    start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    violations: Mutex<Vec<(String, String, String)>>,
    known: BTreeMap<String, String>,
    known_hit: Mutex<BTreeSet<String>>,
    notes: Mutex<Vec<(String, String)>>,
    assumptions: Mutex<Vec<String>>,
    stop: AtomicBool,
    capped: AtomicBool,
    slots: Vec<Slot>,
}

struct Slot {
    since_ms: AtomicU64, // 0: idle
    case: Mutex<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// The last panic of any thread, for what escapes the guarded regions.
static ANY_PANIC: Mutex<String> = Mutex::new(String::new());
thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Runs `f`, turning a panic of the code under test into Err(message).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let msg: String = msg.chars().take(300).collect();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var("VERIF_DEBUG").is_ok() {
            eprintln!("panic: {} at {}", msg, loc);
        }
        let text = format!("{} at {}", msg, loc);
        *ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = text.clone();
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
}

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier) -> Ctx {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let mut known = BTreeMap::new();
        if let Ok(txt) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
            for l in txt.lines() {
                // known: property=T01 key=<key> :: description
                if let Some(rest) = l.strip_prefix("known: property=") {
                    if let Some((p, rest)) = rest.split_once(" key=") {
                        if p == prop {
                            if let Some((k, d)) = rest.split_once(" :: ") {
                                known.insert(k.trim().to_string(), d.trim().to_string());
                            }
                        }
                    }
                }
            }
        }
        Ctx {
            prop,
            tier,
            root,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            outcomes: Mutex::new(BTreeMap::new()),
            violations: Mutex::new(vec![]),
            known,
            known_hit: Mutex::new(BTreeSet::new()),
            notes: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            slots: (0..33).map(|_| Slot { since_ms: AtomicU64::new(0), case: Mutex::new(String::new()) }).collect(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn states_add(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trans_add(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn traces_add(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    /// One exhaustively enumerated case = one state of the input space, one transition
    /// (call of the implementation), one trace replayed against the implementation.
    pub fn case(&self) {
        self.states_add(1);
        self.trans_add(1);
        self.traces_add(1);
    }
    pub fn cases(&self, n: u64) {
        self.states_add(n);
        self.trans_add(n);
        self.traces_add(n);
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 16 {
            v.push(s.into());
        }
    }
    pub fn want_sample(&self) -> bool {
        self.samples.lock().unwrap().len() < 16
    }
    pub fn outcome(&self, s: &str) {
        *self.outcomes.lock().unwrap().entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn outcome_add(&self, s: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(s.to_string()).or_insert(0) += n;
    }
    pub fn note(&self, k: &str, v: impl Into<String>) {
        self.notes.lock().unwrap().push((k.into(), v.into()));
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn cap_hit(&self, what: &str) {
        self.capped.store(true, Ordering::Relaxed);
        self.note("cap_hit", what);
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    /// `key` identifies the failing input / call site / history; known findings match on it exactly.
    pub fn violation(&self, key: &str, detail: impl Into<String>) {
        if self.known.contains_key(key) {
            self.known_hit.lock().unwrap().insert(key.to_string());
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.iter().any(|x| x.0 == key) {
            return;
        }
        if v.len() < MAX_VIOLATIONS {
            let path = format!("{}/replay/{}-{}.txt", self.root, self.prop, v.len());
            let _ = std::fs::create_dir_all(format!("{}/replay", self.root));
            let detail = detail.into();
            let _ = std::fs::write(
                &path,
                format!(
                    "property: {}\nkey: {}\n{}\n\nre-run: {}/run.sh {} {}\n",
                    self.prop,
                    key,
                    detail,
                    self.root,
                    self.prop,
                    if self.thorough() { "thorough" } else { "quick" }
                ),
            );
            v.push((key.to_string(), detail, path));
        }
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    /// Marks the calling worker as busy with a case (for the hang watchdog).
    pub fn begin(&self, case: impl FnOnce() -> String) {
        let s = &self.slots[SLOT.with(|s| s.get())];
        *s.case.lock().unwrap() = case();
        s.since_ms.store(self.start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
    }
    pub fn end(&self) {
        let s = &self.slots[SLOT.with(|s| s.get())];
        s.since_ms.store(0, Ordering::Relaxed);
    }
    /// begin + panic capture + end; a panic is reported as violation of `key`.
    pub fn run<R>(&self, key: impl Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
        self.begin(&key);
        let r = guarded(f);
        self.end();
        match r {
            Ok(r) => Some(r),
            Err(e) => {
                self.violation(&key(), e);
                None
            }
        }
    }

    /// Runs f(i) for every i in 0..n on all cores.
    pub fn par_for(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            let next = &next;
            let f = &f;
            for t in 0..threads().min(n.max(1)) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        SLOT.with(|s| s.set(t + 1));
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || self.stopped() {
                                break;
                            }
                            f(i);
                        }
                    })
                    .unwrap();
            }
        });
    }

    fn report(&self) -> i32 {
        let v = self.violations.lock().unwrap();
        for k in self.known_hit.lock().unwrap().iter() {
            say(&format!("KNOWN-FINDING: property={} {}", self.prop, self.known[k]));
        }
        for (k, d, p) in v.iter() {
            let d: String = d.chars().take(400).collect();
            say(&format!("  [{}] {}", k, d.replace('\n', " | ")));
            say(&format!("VIOLATION property={} replay={}", self.prop, p));
        }
        self.write_evidence(v.len());
        if v.is_empty() { 0 } else { 1 }
    }

    fn write_evidence(&self, nviol: usize) {
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut cov = vec![
            format!("\"states\": {}", self.states.load(Ordering::Relaxed)),
            format!("\"transitions\": {}", self.transitions.load(Ordering::Relaxed)),
            format!("\"traces_validated_against_impl\": {}", self.traces.load(Ordering::Relaxed)),
            format!("\"exhaustive\": {}", !self.capped.load(Ordering::Relaxed) && !self.stopped()),
        ];
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|s| json_str(s)).collect();
        cov.push(format!("\"samples\": [{}]", samples.join(", ")));
        let oc: Vec<String> =
            self.outcomes.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        cov.push(format!("\"distinct_outcomes\": {{{}}}", oc.join(", ")));
        for (k, n) in self.notes.lock().unwrap().iter() {
            cov.push(format!("{}: {}", json_str(k), json_str(n)));
        }
        let kf: Vec<String> = self.known_hit.lock().unwrap().iter().map(|s| json_str(s)).collect();
        cov.push(format!("\"known_findings_reproduced\": [{}]", kf.join(", ")));
        let ass: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| json_str(s)).collect();
        let body = format!(
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{{}}},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
            self.prop,
            if self.thorough() { "thorough" } else { "quick" },
            seed,
            cov.join(",\n  "),
            ass.join(", "),
            nviol,
            self.elapsed()
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
        let path = format!("{}/evidence/{}.json", self.root, self.prop);
        if let Err(e) = std::fs::write(&path, body) {
            eprintln!("cannot write {path}: {e}");
            std::process::exit(3);
        }
    }
}

pub type Check = fn(&Ctx);

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}
static REPORT: Mutex<Option<std::fs::File>> = Mutex::new(None);
/// What the code under test prints to standard output goes to /dev/null; reports go to the real one.
fn mute_stdout() {
    use std::os::fd::{AsRawFd, FromRawFd};
    if let Ok(null) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
        unsafe {
            let keep = dup(1);
            if keep >= 0 && dup2(null.as_raw_fd(), 1) >= 0 {
                *REPORT.lock().unwrap() = Some(std::fs::File::from_raw_fd(keep));
            }
        }
    }
}
fn say(line: &str) {
    use std::io::Write;
    match REPORT.lock().unwrap().as_mut() {
        Some(f) => {
            let _ = f.write_all(format!("{line}\n").as_bytes());
        }
        None => println!("{line}"),
    }
}

/// Entry point: <bin> <property> <quick|thorough>
pub fn main(checks: &[(&'static str, Check)]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: {} PROPERTY quick|thorough; properties:", args[0]);
        for c in checks {
            eprintln!("  {}", c.0);
        }
        std::process::exit(2);
    }
    let tier = match args[2].as_str() {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    };
    let Some((name, f)) = checks.iter().find(|c| c.0 == args[1]).copied() else {
        eprintln!("unknown property {}", args[1]);
        std::process::exit(2);
    };
    mute_stdout();
    install_panic_hook();
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(name, tier)));
    // Hang watchdog: a case that never ends is itself a violation.
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = ctx.start.elapsed().as_millis() as u64;
        for s in &ctx.slots {
            let t = s.since_ms.load(Ordering::Relaxed);
            if t != 0 && now > t + HANG_SECONDS * 1000 {
                let case = s.case.lock().unwrap().clone();
                if s.since_ms.load(Ordering::Relaxed) == t {
                    ctx.violation(&case, format!("does not terminate (still running after {HANG_SECONDS} s): {case}"));
                    let rc = ctx.report();
                    std::process::exit(rc);
                }
            }
        }
    });
    // The harness itself must not die of a panic: that would be an error of the check.
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || f(ctx)).unwrap();
    if h.join().is_err() {
        // What the checks are set up from works on the tree they were written for: valid inputs
        // that are no longer accepted are a violation like any other.
        let what = ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
        ctx.violation("set-up of the check", format!("valid input ends in a panic: {what}"));
        std::process::exit(ctx.report());
    }
    let rc = ctx.report();
    say(&format!(
        "{} {:?}: states={} transitions={} traces={} violations={} wall={:.1}s",
        ctx.prop,
        ctx.tier,
        ctx.states.load(Ordering::Relaxed),
        ctx.transitions.load(Ordering::Relaxed),
        ctx.traces.load(Ordering::Relaxed),
        ctx.violations.lock().unwrap().len(),
        ctx.elapsed()
    ));
    std::process::exit(rc)
}

/// Calls f with every tuple of `lens.len()` indices, index k ranging over 0..lens[k].
pub fn product(lens: &[usize], mut f: impl FnMut(&[usize])) {
    if lens.iter().any(|l| *l == 0) {
        return;
    }
    let mut ix = vec![0usize; lens.len()];
    loop {
        f(&ix);
        let mut k = lens.len();
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            ix[k] += 1;
            if ix[k] < lens[k] {
                break;
            }
            ix[k] = 0;
        }
    }
}
