//! Schedule exploration of trading-engine's concurrent parts. Every scenario is explored in a process of its own
//! (`--one NAME`), started by the parent, which adds up the results.
mod clock;
mod counters;
mod intern;
mod lazystr;
mod log;
mod spin;

use std::io::Read;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};
use vcommon::Ctx;
use vsched::Config;

pub struct Scn {
    pub name: String,
    pub bound: Option<u32>,
    pub body: Rc<dyn Fn()>,
}

impl Scn {
    pub fn new(name: impl Into<String>, bound: Option<u32>, body: impl Fn() + 'static) -> Scn {
        Scn { name: name.into(), bound, body: Rc::new(body) }
    }
}

fn scenarios(prop: &str, thorough: bool) -> Vec<Scn> {
    match prop {
        "C01" => spin::scenarios(thorough),
        "C02" => counters::scenarios(thorough),
        "C03" => intern::scenarios(thorough),
        "C04" => log::scenarios(thorough),
        "C05" => lazystr::scenarios(thorough),
        "C06" => clock::scenarios(thorough),
        _ => vec![],
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}

/// Child: explores one scenario and prints the result.
fn one(prop: &str, tier: &str, name: &str, replay: Option<&str>) -> ! {
    let s = scenarios(prop, tier == "thorough").into_iter().find(|s| s.name == name).expect("scenario");
    let body = s.body.clone();
    let sched: Option<Vec<u32>> = replay.map(|r| r.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
    let o = vsched::explore(
        Config { preemptions: s.bound, ..Config::default() },
        sched.as_deref(),
        move || body(),
    );
    println!("R {} {} {} {} {} {}", o.execs, o.pruned, o.steps, o.max_depth, o.max_threads, o.complete);
    for (k, n) in &o.outcomes {
        println!("O {} {}", n, esc(k));
    }
    if let Some((k, t)) = &o.failure {
        println!("F {}\t{}", k, esc(t));
        println!("S {}", o.schedule.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        for t in &o.trace {
            println!("T {t}");
        }
    }
    println!("E");
    std::process::exit(0)
}

fn run_all(ctx: &Ctx) {
    let tier = if ctx.thorough() { "thorough" } else { "quick" };
    let list = scenarios(ctx.prop, ctx.thorough());
    let names: Vec<(String, Option<u32>)> = list.iter().map(|s| (s.name.clone(), s.bound)).collect();
    drop(list);
    let exe = std::env::current_exe().unwrap();
    let full = names.iter().filter(|n| n.1.is_none()).count();
    ctx.note("scenarios", names.len().to_string());
    ctx.note("scenarios_without_preemption_bound", full.to_string());
    let limit = Duration::from_secs(ctx.pick(600, 2400));
    let pruned = std::sync::atomic::AtomicU64::new(0);
    ctx.par_for(names.len(), |i| {
        let (name, bound) = &names[i];
        let mut ch = Command::new(&exe)
            .args([ctx.prop, tier, "--one", name])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("start explorer");
        let mut out = ch.stdout.take().unwrap();
        let reader = std::thread::spawn(move || {
            let mut b = Vec::new();
            let _ = out.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        });
        let t0 = Instant::now();
        let status = loop {
            if let Some(s) = ch.try_wait().unwrap() {
                break Some(s);
            }
            if t0.elapsed() > limit {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(3));
        };
        let text = reader.join().unwrap();
        let key = name.clone();
        let Some(status) = status else {
            ctx.cap_hit(&format!("{name}: not finished after {} s", limit.as_secs()));
            return;
        };
        let mut done = false;
        let (mut fail, mut sched) = (None, String::new());
        for l in text.lines() {
            if let Some(r) = l.strip_prefix("R ") {
                let v: Vec<&str> = r.split(' ').collect();
                let n: u64 = v[0].parse().unwrap();
                let p: u64 = v[1].parse().unwrap();
                pruned.fetch_add(p, std::sync::atomic::Ordering::Relaxed);
                ctx.states_add(n - p);
                ctx.trans_add(v[2].parse().unwrap());
                ctx.traces_add(n - p);
                if ctx.want_sample() && i % 3 == 0 {
                    let b = bound.map_or("all".into(), |b| format!("<= {b} preemptions"));
                    ctx.sample(format!("{name} ({b}): {} executions, {} steps, depth {}, {} threads", n - p, v[2], v[3], v[4]));
                }
            } else if let Some(o) = l.strip_prefix("O ") {
                if let Some((n, k)) = o.split_once(' ') {
                    if let Ok(n) = n.parse() {
                        ctx.outcome_add(k, n);
                    }
                }
            } else if let Some(f) = l.strip_prefix("F ") {
                fail = Some(f.to_string());
            } else if let Some(s) = l.strip_prefix("S ") {
                sched = s.to_string();
            } else if l == "E" {
                done = true;
            }
        }
        if let Some(f) = fail {
            let (kind, text) = f.split_once('\t').unwrap_or(("?", &f));
            if kind == "nondeterminism" || kind == "harness" {
                eprintln!("{name}: {kind}: {text}");
                std::process::exit(3);
            }
            ctx.violation(
                &format!("{key} {kind}"),
                format!("scenario: {name}\n{kind}: {text}\nschedule: {sched}\nreplay: {} {} {tier} --one '{name}' {sched}", exe.display(), ctx.prop),
            );
        } else if !done {
            ctx.violation(&format!("{key} crash"), format!("scenario: {name}\nthe process died: {status}"));
        }
    });
    ctx.note("executions_cut_as_equivalent_to_explored_ones", pruned.load(std::sync::atomic::Ordering::Relaxed).to_string());
    ctx.assume("every atomic operation, lock, channel, lazy initialisation, thread and file operation is a scheduling point; code between them runs undisturbed, which is justified by the race check on the shared data");
    ctx.assume("stores to one location take effect in the order they are executed; loads may return any older value that release/acquire order allows");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 5 && a[3] == "--one" {
        one(&a[1], &a[2], &a[4], a.get(5).map(|s| s.as_str()));
    }
    vcommon::main(&[
        ("Cbuild", |_| {}),
        ("C01", run_all),
        ("C02", run_all),
        ("C03", run_all),
        ("C04", run_all),
        ("C05", run_all),
        ("C06", run_all),
    ])
}
