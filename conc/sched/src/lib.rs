//! Controlled scheduler: runs a closure and the threads it spawns as coroutines, and explores every
//! interleaving of their synchronisation operations (depth-first, optionally within a preemption bound),
//! together with every value a weakly ordered atomic load may return under release/acquire semantics.
//! Happens-before is tracked with vector clocks; unsynchronised accesses to `Tracked` data are data races.
//!
//! One explorer per process (state is a process-wide singleton used from one OS thread only).

#![allow(deprecated)]
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub mod fs;
pub mod sync;
pub mod thread;
pub mod tls;
pub mod time;

pub const MAXT: usize = 8;
pub type VC = [u32; MAXT];

pub fn join(a: &mut VC, b: &VC) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

/// What a thread is about to do; decides whether it can be scheduled and which operations commute.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Start,
    Load(usize),
    Write(usize),
    Lock(usize),
    RdLock(usize),
    WrLock(usize),
    CondWait(usize),
    Notify(usize),
    Send(usize),
    Recv(usize),
    Chan(usize),
    Once(usize),
    Join(usize),
    Spawn,
    Yield,
    Await,
    Quiesce,
    Fs,
    Local,
}

impl Op {
    fn obj(&self) -> Option<usize> {
        match *self {
            Op::Load(o) | Op::Write(o) | Op::Lock(o) | Op::RdLock(o) | Op::WrLock(o) | Op::CondWait(o)
            | Op::Notify(o) | Op::Send(o) | Op::Recv(o) | Op::Chan(o) | Op::Once(o) => Some(o),
            _ => None,
        }
    }
    fn is_read(&self) -> bool {
        matches!(self, Op::Load(_) | Op::RdLock(_))
    }
    /// May the order of the two operations (of different threads) matter?
    fn dependent(&self, other: &Op) -> bool {
        match (self, other) {
            (Op::Local, _) | (_, Op::Local) | (Op::Await, _) | (_, Op::Await) | (Op::Start, _) | (_, Op::Start) => false,
            (Op::Spawn, _) | (_, Op::Spawn) => false,
            (Op::Join(_), _) | (_, Op::Join(_)) => false,
            (Op::Yield, _) | (_, Op::Yield) | (Op::Quiesce, _) | (_, Op::Quiesce) => true,
            (Op::Fs, Op::Fs) => true,
            (Op::Fs, _) | (_, Op::Fs) => false,
            (a, b) => a.obj() == b.obj() && !(a.is_read() && b.is_read()),
        }
    }
}

pub struct Store {
    pub val: u64,
    pub by: usize,
    pub at: u32,
    pub rel: Option<VC>,
    pub sc: bool,
}

pub enum Obj {
    Atomic { stores: Vec<Store>, seen: [usize; MAXT] },
    Mutex { owner: Option<usize>, clock: VC },
    Rw { writer: Option<usize>, readers: Vec<usize>, clock: VC },
    Cond { waiters: Vec<(usize, bool)> },
    Chan { len: usize, cap: Option<usize>, senders: usize, receivers: usize, clocks: std::collections::VecDeque<VC>, back: VC },
    Once { state: OnceState, clock: VC },
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OnceState {
    Empty,
    Running(usize),
    Done,
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Done,
}

struct Thr {
    st: St,
    op: Op,
    clock: VC,
    rel_fence: Option<VC>,
    acq_pending: VC,
    /// modification count when the thread's current polling round began
    poll_start: u64,
    stale: bool,
    /// since the last await: loads done, anything else done
    loads: u32,
    dirty: bool,
    /// the thread stands right behind an await point, switching away from it is free
    fresh: bool,
    /// the thread polled in vain and nothing has changed since
    wasted: bool,
    panic: Option<String>,
    finish_clock: VC,
}

#[derive(Clone, Copy, Debug)]
struct Choice {
    n: u32,
    pick: u32,
    /// for thread choices: the alternatives, else empty
    threads: [u8; MAXT],
    is_thread: bool,
}

type Job = Box<dyn FnOnce()>;

struct Coro {
    gen: generator::Generator<'static, (), ()>,
}

pub struct Config {
    /// None: every interleaving (with sleep sets); Some(k): at most k preemptions
    pub preemptions: Option<u32>,
    pub sleep_sets: bool,
    pub max_steps: u64,
    pub max_execs: u64,
}

impl Default for Config {
    fn default() -> Self {
        Config { preemptions: None, sleep_sets: true, max_steps: 2_000_000, max_execs: u64::MAX }
    }
}

#[derive(Default, Debug)]
pub struct Outcome {
    pub execs: u64,
    pub pruned: u64,
    pub steps: u64,
    pub max_depth: usize,
    pub choices: u64,
    pub max_threads: usize,
    pub complete: bool,
    pub failure: Option<(String, String)>, // (kind, text), with the schedule in `schedule`
    pub schedule: Vec<u32>,
    pub trace: Vec<String>,
    pub outcomes: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
}

struct Eng {
    active: bool,
    exec: u64,
    thr: Vec<Thr>,
    cur: usize,
    objs: Vec<Obj>,
    path: Vec<Choice>,
    pos: usize,
    preempt_used: u32,
    cfg: Config,
    steps: u64,
    mods: u64,
    aborting: bool,
    failure: Option<(String, String)>,
    pruned: bool,
    jobs: Vec<Option<Job>>,
    out: Outcome,
    exec_cleanup: Vec<Box<dyn FnOnce()>>,
    slots: HashMap<usize, usize>,
    idle: (u64, u32),
    pub(crate) tls: Vec<tls::Local>,
    pub(crate) parks: HashMap<usize, std::sync::Arc<sync::AtomicBool>>,
    sleep: u16,
    forced_local: bool,
    wasted: bool,
    now: u64,
    nondet: bool,
    trace: Option<Vec<String>>,
    forced: std::collections::VecDeque<u32>,
}

struct G(UnsafeCell<Option<Eng>>);
unsafe impl Sync for G {}
static ENG: G = G(UnsafeCell::new(None));
std::thread_local! { static OWNER: Cell<bool> = const { Cell::new(false) }; }

#[allow(static_mut_refs)]
fn eng() -> &'static mut Eng {
    unsafe { (*ENG.0.get()).as_mut().expect("engine") }
}

/// Is the calling code running as one of the explored threads?
pub fn active() -> bool {
    OWNER.with(|o| o.get()) && unsafe { (*ENG.0.get()).as_ref().is_some_and(|e| e.active) }
}

pub fn exec_no() -> u64 {
    if OWNER.with(|o| o.get()) {
        unsafe { (*ENG.0.get()).as_ref().map_or(0, |e| e.exec) }
    } else {
        0
    }
}

struct Abort;

/// A failed check inside an explored thread: ends the execution and is reported with its schedule.
pub fn fail(kind: &str, text: String) -> ! {
    let e = eng();
    if e.failure.is_none() {
        e.failure = Some((kind.to_string(), text));
    }
    e.aborting = true;
    std::panic::resume_unwind(Box::new(Abort));
}

pub fn check(cond: bool, kind: &str, text: impl FnOnce() -> String) {
    if !cond {
        fail(kind, text());
    }
}

/// Records one observed end result of an execution.
pub fn outcome(s: String) {
    *eng().out.outcomes.entry(s).or_insert(0) += 1;
}

pub fn note(k: &str) {
    *eng().out.notes.entry(k.to_string()).or_insert(0) += 1;
}

pub fn cur() -> usize {
    eng().cur
}

pub fn is_aborting() -> bool {
    !active() || eng().aborting
}

/// Virtual time in nanoseconds since the epoch.
pub fn now() -> u64 {
    if active() {
        eng().now
    } else {
        1_700_000_000_000_000_000
    }
}

pub fn advance(ns: u64) {
    eng().now += ns;
}

static CLOCK_POINTS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
/// Is reading the clock a scheduling point? (Pointless where time passes only at points of the scenario's choosing.)
pub fn clock_points(on: bool) {
    CLOCK_POINTS.store(on, std::sync::atomic::Ordering::Relaxed);
}
pub fn clock_read() -> u64 {
    if !is_aborting() && CLOCK_POINTS.load(std::sync::atomic::Ordering::Relaxed) {
        point(Op::Fs);
    }
    now()
}

/// A choice the environment makes (explored exhaustively): a value below n.
pub fn choose(n: u32) -> u32 {
    eng().choice(n)
}

impl Eng {
    fn choice(&mut self, n: u32) -> u32 {
        if n <= 1 || self.aborting {
            return 0;
        }
        if self.pos < self.path.len() {
            let c = self.path[self.pos];
            if c.is_thread || c.n != n {
                self.nondet = true;
                return 0;
            }
            self.pos += 1;
            return c.pick;
        }
        let pick = self.forced.pop_front().unwrap_or(0).min(n - 1);
        self.path.push(Choice { n, pick, threads: [0; MAXT], is_thread: false });
        self.pos += 1;
        pick
    }

    fn enabled(&self, t: usize) -> bool {
        let th = &self.thr[t];
        if th.st == St::Done {
            return false;
        }
        match th.op {
            Op::Lock(o) => matches!(&self.objs[o], Obj::Mutex { owner: None, .. }),
            Op::RdLock(o) => matches!(&self.objs[o], Obj::Rw { writer: None, .. }),
            Op::WrLock(o) => matches!(&self.objs[o], Obj::Rw { writer: None, readers, .. } if readers.is_empty()),
            Op::CondWait(o) => match &self.objs[o] {
                Obj::Cond { waiters } => waiters.iter().any(|w| w.0 == t && w.1),
                _ => false,
            },
            Op::Send(o) => match &self.objs[o] {
                Obj::Chan { len, cap, receivers, .. } => *receivers == 0 || cap.map_or(true, |c| *len < c),
                _ => true,
            },
            Op::Recv(o) => match &self.objs[o] {
                Obj::Chan { len, senders, .. } => *len > 0 || *senders == 0,
                _ => true,
            },
            Op::Once(o) => match &self.objs[o] {
                Obj::Once { state: OnceState::Running(r), .. } => *r == t,
                _ => true,
            },
            Op::Join(u) => self.thr[u].st == St::Done,
            Op::Yield => th.stale || self.mods > th.poll_start,
            Op::Await => !th.wasted || th.stale || self.mods > th.poll_start,
            Op::Quiesce => (0..self.thr.len()).all(|u| u == t || self.thr[u].op == Op::Quiesce || !self.enabled(u)),
            _ => true,
        }
    }

    /// Picks the next thread to run, or None if all are finished or stuck.
    fn pick(&mut self, from: usize) -> Option<usize> {
        let mut en: Vec<usize> = (0..self.thr.len()).filter(|&t| self.enabled(t)).collect();
        if en.is_empty() {
            // a pause is not a wait: whoever merely yielded goes on, and is stuck if nothing comes of it
            if self.idle.0 != self.mods {
                self.idle = (self.mods, 0);
            }
            self.idle.1 += 1;
            if self.idle.1 <= 8 {
                for t in &mut self.thr {
                    t.stale = t.st != St::Done && t.op == Op::Yield;
                }
                en = (0..self.thr.len()).filter(|&t| self.enabled(t)).collect();
            }
        }
        if en.is_empty() {
            return None;
        }
        // purely local steps never need to be interleaved and are not switches
        if let Some(&t) = en.iter().find(|&&t| matches!(self.thr[t].op, Op::Local | Op::Start | Op::Spawn | Op::Await)) {
            self.forced_local = true;
            return Some(t);
        }
        // default: go on with the running thread unless it polls or waits
        let cont = en.contains(&from) && !matches!(self.thr[from].op, Op::Yield | Op::Quiesce | Op::Local);
        let fresh = cont && self.thr[from].fresh;
        let mut cand: Vec<usize> = Vec::new();
        if cont {
            cand.push(from);
            let bound = fresh || self.cfg.preemptions.map_or(true, |b| self.preempt_used < b);
            if bound {
                cand.extend(en.iter().copied().filter(|&t| t != from));
            }
        } else {
            // the yielding thread last
            cand.extend(en.iter().copied().filter(|&t| t != from));
            if en.contains(&from) {
                if cand.is_empty() || self.cfg.preemptions.is_none() {
                    cand.push(from);
                }
            }
        }
        let use_sleep = self.cfg.preemptions.is_none() && self.cfg.sleep_sets;
        if use_sleep {
            let awake: Vec<usize> = cand.iter().copied().filter(|&t| self.sleep & (1 << t) == 0).collect();
            if awake.is_empty() {
                // every continuation from here was covered elsewhere
                self.pruned = true;
                return None;
            }
            cand = awake;
        }
        let t = if cand.len() == 1 {
            cand[0]
        } else if self.pos < self.path.len() {
            let c = self.path[self.pos];
            let mut want = [0u8; MAXT];
            for (i, &x) in cand.iter().enumerate() {
                want[i] = x as u8;
            }
            if !c.is_thread || c.n as usize != cand.len() || c.threads != want {
                self.nondet = true;
                return None;
            }
            self.pos += 1;
            if use_sleep {
                // alternatives explored before this one are asleep below it
                for i in 0..c.pick as usize {
                    self.sleep |= 1 << c.threads[i];
                }
            }
            c.threads[c.pick as usize] as usize
        } else {
            let mut threads = [0u8; MAXT];
            for (i, &x) in cand.iter().enumerate() {
                threads[i] = x as u8;
            }
            let pick = self.forced.pop_front().unwrap_or(0).min(cand.len() as u32 - 1);
            self.path.push(Choice { n: cand.len() as u32, pick, threads, is_thread: true });
            self.pos += 1;
            if use_sleep {
                for i in 0..pick as usize {
                    self.sleep |= 1 << threads[i];
                }
            }
            cand[pick as usize]
        };
        if cont && !fresh && t != from {
            self.preempt_used += 1;
        }
        if use_sleep {
            let op = self.thr[t].op;
            let mut s = self.sleep & !(1 << t);
            for u in 0..self.thr.len() {
                if s & (1 << u) != 0 && self.thr[u].op.dependent(&op) {
                    s &= !(1 << u);
                }
            }
            self.sleep = s;
        }
        Some(t)
    }
}

/// Scheduling point: announces the operation and returns once the thread may perform it.
pub fn point(op: Op) {
    if !active() {
        return;
    }
    let e = eng();
    if e.aborting {
        if std::thread::panicking() {
            return;
        }
        resume_unwind(Box::new(Abort));
    }
    if std::thread::panicking() {
        // destructors of an unwinding thread: no interleaving inside the unwinding
        let t = e.cur;
        e.thr[t].op = op;
        if !e.enabled(t) {
            e.failure.get_or_insert(("blocked".into(), format!("thread {t} blocks at {op:?} while unwinding")));
            e.aborting = true;
        }
        e.thr[t].op = Op::Local;
        return;
    }
    let t = e.cur;
    e.thr[t].op = op;
    generator::yield_with(());
    let e = eng();
    if e.aborting {
        resume_unwind(Box::new(Abort));
    }
    if op == Op::Yield || op == Op::Quiesce || op == Op::Await {
        e.thr[t].loads = 0;
        e.thr[t].dirty = false;
        e.thr[t].fresh = op == Op::Await;
        e.thr[t].poll_start = e.mods;
        e.thr[t].stale = false;
        // what was visible to nobody before the pause becomes visible in time
        for o in &mut e.objs {
            if let Obj::Atomic { stores, seen } = o {
                seen[t] = stores.len() - 1;
            }
        }
    }
    else {
        e.thr[t].fresh = false;
        match op {
            Op::Load(_) => e.thr[t].loads += 1,
            _ => e.thr[t].dirty = true,
        }
    }
    e.thr[t].op = Op::Local;
    e.thr[t].clock[t] += 1;
    if let Some(tr) = &mut e.trace {
        tr.push(format!("thread {t}: {op:?}"));
    }
}

/// The clock a release operation publishes; later actions of the thread are not part of it.
pub(crate) fn rel_clock() -> VC {
    let e = eng();
    let t = e.cur;
    let c = e.thr[t].clock;
    e.thr[t].clock[t] += 1;
    c
}

pub(crate) fn acquire(c: &VC) {
    let e = eng();
    let t = e.cur;
    join(&mut e.thr[t].clock, c);
}

/// Runs `f`, whose changes do not end a pause of the current thread.
pub(crate) fn own_change(f: impl FnOnce()) {
    let e = eng();
    let quiet = e.thr[e.cur].poll_start == e.mods;
    f();
    let e = eng();
    if quiet {
        e.thr[e.cur].poll_start = e.mods;
    }
}

pub(crate) fn modified() {
    let e = eng();
    e.mods += 1;
    if e.wasted && !e.aborting {
        e.pruned = true;
        e.aborting = true;
    }
}

/// Head of a polling loop whose rounds have no effect when they find nothing. A round that found nothing could as
/// well have come later, so executions in which something happens after such a round are cut: the same execution
/// without it is explored too. If nothing can happen any more, the polling thread is stuck.
pub fn await_point() {
    if !active() {
        return;
    }
    let e = eng();
    let t = e.cur;
    if e.thr[t].loads > 0 && !e.thr[t].dirty {
        e.thr[t].wasted = true;
        e.wasted = true;
    }
    point(Op::Await);
    eng().thr[t].wasted = false;
}

/// Waits until every other thread is blocked or finished.
pub fn quiesce() {
    point(Op::Quiesce);
    // observing a standstill orders everything before it (the harness looks at results from outside)
    let e = eng();
    let t = e.cur;
    for u in 0..e.thr.len() {
        let c = e.thr[u].clock;
        join(&mut e.thr[t].clock, &c);
    }
}

pub fn spawn_raw(f: Box<dyn FnOnce()>) -> usize {
    point(Op::Spawn);
    let e = eng();
    let u = e.thr.len();
    if u >= MAXT {
        fail("harness", "too many threads".into());
    }
    let mut clock = rel_clock();
    let e = eng();
    clock[u] = 1;
    e.thr.push(Thr { st: St::Ready, op: Op::Start, clock, rel_fence: None, acq_pending: [0; MAXT], poll_start: e.mods, stale: false, loads: 0, dirty: false, fresh: false, wasted: false, panic: None, finish_clock: [0; MAXT] });
    e.jobs.push(Some(f));
    e.mods += 1;
    u
}

/// Returns the panic message of the thread, if it panicked.
pub fn join_raw(u: usize) -> Option<String> {
    point(Op::Join(u));
    let e = eng();
    let t = e.cur;
    let c = e.thr[u].finish_clock;
    join(&mut e.thr[t].clock, &c);
    e.thr[u].panic.take()
}

pub fn is_finished(u: usize) -> bool {
    point(Op::Yield);
    eng().thr[u].st == St::Done
}

fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Body of a pooled coroutine: runs one job after another.
fn coro_main() {
    loop {
        let e = eng();
        let t = e.cur;
        if let Some(job) = e.jobs[t].take() {
            let r = catch_unwind(AssertUnwindSafe(|| {
                job();
                tls::thread_ends(t);
            }));
            let e = eng();
            if let Err(p) = r {
                if !p.is::<Abort>() && !e.aborting {
                    e.thr[t].panic = Some(panic_text(&*p));
                }
            }
            e.thr[t].st = St::Done;
            e.thr[t].finish_clock = e.thr[t].clock;
            e.mods += 1;
        }
        generator::yield_with(());
    }
}

/// Registers something to run when the current execution is over (e.g. dropping a static).
pub fn at_exec_end(f: Box<dyn FnOnce()>) {
    eng().exec_cleanup.push(f);
}

pub(crate) fn new_obj(o: Obj) -> usize {
    let e = eng();
    e.objs.push(o);
    e.objs.len() - 1
}

pub(crate) fn obj(i: usize) -> &'static mut Obj {
    &mut eng().objs[i]
}

/// Explores all executions of `body` (run as thread 0). `replay`: run one given schedule only.
pub fn explore(cfg: Config, replay: Option<&[u32]>, body: impl Fn() + 'static) -> Outcome {
    OWNER.with(|o| o.set(true));
    let body = std::rc::Rc::new(body);
    unsafe {
        let first = (*ENG.0.get()).as_ref().map_or(1, |e| e.exec + 1);
        *ENG.0.get() = Some(Eng {
            active: false, exec: first, thr: vec![], cur: 0, objs: vec![], path: vec![], pos: 0, preempt_used: 0,
            cfg, steps: 0, mods: 0, aborting: false, failure: None, pruned: false, jobs: vec![],
            out: Outcome::default(), exec_cleanup: vec![], slots: HashMap::new(), idle: (0, 0), tls: vec![], parks: HashMap::new(), sleep: 0, forced_local: false, wasted: false, now: 0, nondet: false, trace: None,
            forced: replay.map(|r| r.iter().copied().collect()).unwrap_or_default(),
        });
    }
    let mut pool: Vec<Coro> = Vec::new();
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    loop {
        let e = eng();
        e.thr.clear();
        e.objs.clear();
        e.jobs.clear();
        e.slots.clear();
        e.parks.clear();
        e.pos = 0;
        e.preempt_used = 0;
        e.steps = 0;
        e.mods = 1;
        e.idle = (0, 0);
        e.aborting = false;
        e.failure = None;
        e.pruned = false;
        e.wasted = false;
        e.nondet = false;
        e.sleep = 0;
        e.now = 1_700_000_000_000_000_000;
        e.active = true;
        if replay.is_some() {
            e.trace = Some(vec![]);
        }
        let b = body.clone();
        let mut clock = [0; MAXT];
        clock[0] = 1;
        e.thr.push(Thr { st: St::Ready, op: Op::Start, clock, rel_fence: None, acq_pending: [0; MAXT], poll_start: 0, stale: false, loads: 0, dirty: false, fresh: false, wasted: false, panic: None, finish_clock: [0; MAXT] });
        e.jobs.push(Some(Box::new(move || b())));
        let mut from = 0usize;
        loop {
            let e = eng();
            e.forced_local = false;
            let next = if e.aborting { None } else { e.pick(from) };
            let e = eng();
            let Some(t) = next else {
                if e.nondet {
                    e.failure = Some(("nondeterminism".into(), "the execution did not repeat under the same schedule".into()));
                    e.aborting = true;
                } else if !e.aborting && !e.pruned && e.thr.iter().any(|t| t.st != St::Done) {
                    let s: Vec<String> = e.thr.iter().enumerate().filter(|(_, t)| t.st != St::Done).map(|(i, t)| format!("thread {i} waits at {:?}", t.op)).collect();
                    e.failure = Some(("stuck".into(), format!("no thread can go on: {}", s.join(", "))));
                }
                break;
            };
            e.steps += 1;
            if e.steps > e.cfg.max_steps {
                e.failure = Some(("endless".into(), format!("more than {} steps", e.cfg.max_steps)));
                e.aborting = true;
                break;
            }
            e.cur = t;
            if !e.forced_local {
                from = t;
            }
            while pool.len() <= t {
                pool.push(Coro { gen: generator::Gn::<()>::new_opt(0x10000, || { coro_main(); }) });
            }
            pool[t].gen.resume();
            let e = eng();
            if e.nondet && !e.aborting {
                e.failure = Some(("nondeterminism".into(), "the execution did not repeat under the same schedule".into()));
                e.aborting = true;
            }
        }
        // unwind whatever is still running
        let e = eng();
        if e.thr.iter().any(|t| t.st != St::Done) {
            e.aborting = true;
            // children first: they may borrow from the threads that started them
            for t in (0..e.thr.len()).rev() {
                let mut guard = 0;
                while eng().thr[t].st != St::Done {
                    eng().cur = t;
                    if pool.len() <= t {
                        eng().thr[t].st = St::Done;
                        eng().jobs[t] = None;
                        break;
                    }
                    if eng().jobs[t].is_some() {
                        // never started
                        eng().jobs[t] = None;
                        eng().thr[t].st = St::Done;
                        break;
                    }
                    pool[t].gen.resume();
                    guard += 1;
                    if guard > 1000 {
                        eprintln!("thread {t} does not unwind");
                        std::process::exit(2);
                    }
                }
            }
        }
        let e = eng();
        if e.pruned {
            e.failure = None;
        }
        if e.failure.is_none() && !e.pruned {
            for i in 0..e.thr.len() {
                if let Some(p) = e.thr[i].panic.take() {
                    e.failure = Some(("panic".into(), format!("thread {i} panicked: {p}")));
                    break;
                }
            }
        }
        e.aborting = true;
        for t in 0..e.thr.len() {
            let _ = catch_unwind(|| tls::thread_ends(t)); // of threads that did not end by themselves
        }
        let e = eng();
        for f in std::mem::take(&mut e.exec_cleanup).into_iter().rev() {
            f();
        }
        let e = eng();
        e.active = false;
        e.exec += 1;
        e.out.execs += 1;
        if e.pruned {
            e.out.pruned += 1;
        }
        e.out.steps += e.steps;
        e.out.max_depth = e.out.max_depth.max(e.path.len());
        e.out.max_threads = e.out.max_threads.max(e.thr.len());
        if e.failure.is_some() {
            e.out.failure = e.failure.take();
            e.out.trace = e.trace.take().unwrap_or_default();
            e.out.schedule = e.path.iter().map(|c| c.pick).collect();
            break;
        }
        // next path
        e.path.truncate(e.pos);
        loop {
            match e.path.last_mut() {
                None => {
                    e.out.complete = true;
                    break;
                }
                Some(c) if c.pick + 1 < c.n => {
                    c.pick += 1;
                    break;
                }
                Some(_) => {
                    e.path.pop();
                }
            }
        }
        if e.out.complete || e.out.execs >= e.cfg.max_execs || replay.is_some() {
            break;
        }
    }
    std::panic::set_hook(hook);
    std::mem::forget(pool);
    let e = eng();
    std::mem::take(&mut e.out)
}

/// Slot of a const-constructible primitive: (execution, object number).
pub struct Slot(Cell<(u64, usize)>);
unsafe impl Sync for Slot {}
unsafe impl Send for Slot {}

impl Slot {
    pub const fn new() -> Self {
        Slot(Cell::new((0, 0)))
    }
    pub fn get(&self, make: impl FnOnce() -> Obj) -> usize {
        let x = exec_no();
        let (e, i) = self.0.get();
        if e == x {
            return i;
        }
        let i = new_obj(make());
        self.0.set((x, i));
        i
    }
    pub fn live(&self) -> Option<usize> {
        let (e, i) = self.0.get();
        if e != 0 && e == exec_no() && (i < eng().objs.len()) { Some(i) } else { None }
    }
    pub fn reset(&self) {
        self.0.set((0, 0));
    }
}

/// Plain data shared between threads: accesses are checked for data races.
pub struct Tracked<T> {
    val: UnsafeCell<T>,
    st: Cell<(u64, VC, VC)>, // execution, last read per thread, last write per thread
}
unsafe impl<T> Sync for Tracked<T> {}
unsafe impl<T> Send for Tracked<T> {}

impl<T> Tracked<T> {
    pub fn new(v: T) -> Self {
        let t = Tracked { val: UnsafeCell::new(v), st: Cell::new((0, [0; MAXT], [0; MAXT])) };
        if active() && !eng().aborting {
            t.access(true);
        }
        t
    }
    fn access(&self, write: bool) {
        if is_aborting() || std::thread::panicking() {
            return;
        }
        let e = eng();
        let t = e.cur;
        let c = e.thr[t].clock;
        let (x, mut r, mut w) = self.st.get();
        if x != e.exec {
            r = [0; MAXT];
            w = [0; MAXT];
        }
        for u in 0..MAXT {
            if u != t && (w[u] > c[u] || (write && r[u] > c[u])) {
                let (mine, other) = (if write { "writes" } else { "reads" }, if w[u] > c[u] { "write" } else { "read" });
                fail("race", format!("data race: thread {t} {mine} shared data without being ordered after the {other} of thread {u}"));
            }
        }
        // own epoch: current value (bumped at each scheduling point)
        if write {
            w[t] = c[t];
        } else {
            r[t] = c[t];
        }
        self.st.set((e.exec, r, w));
    }
    pub fn with<R>(&self, f: impl FnOnce(&T) -> R) -> R {
        self.access(false);
        f(unsafe { &*self.val.get() })
    }
    pub fn with_mut<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        self.access(true);
        f(unsafe { &mut *self.val.get() })
    }
}

impl<T: Clone> Clone for Tracked<T> {
    fn clone(&self) -> Self {
        Tracked::new(self.with(|v| v.clone()))
    }
}
impl<T: Default> Default for Tracked<T> {
    fn default() -> Self {
        Tracked::new(T::default())
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for Tracked<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unsafe { (*self.val.get()).fmt(f) }
    }
}
