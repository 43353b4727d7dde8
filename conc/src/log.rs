//! C04: every message logged while the logger runs is written exactly once, in order, whatever the threads do.
use crate::Scn;
use serde::Serialize;
use std::collections::BTreeMap;
use trading_engine::logger::{LogLevel, Logger, TimeZone, LOG_SENDER};
use trading_engine::{
    convert_unix_nano_to_date_and_time, debug, error, flushing_log_debug, flushing_log_error, flushing_log_info, flushing_log_trace,
    get_unix_nano, info, log_debug, log_error, log_info, log_trace, log_warn, trace, warn, LogMessage,
};
use vsched::{check, fail, thread};

#[derive(Serialize, Clone)]
struct Fill {
    id: String,
    qty: i64,
    note: String,
}

/// What one call of a log macro must leave in the file.
#[derive(Debug, Clone, PartialEq)]
struct Expect {
    id: String,
    level: &'static str,
    lo: u64,
    hi: u64,
    flush: bool,
}

/// Logs one message of the given kind with the given id, after letting `ms` pass when the logger writes it.
fn log(kind: u8, id: &str, write_delay_ms: u64) -> Expect {
    let lo = get_unix_nano();
    let text = id.to_string();
    let delay = move || {
        vsched::advance(write_delay_ms * 1_000_000);
        write_delay_ms
    };
    let (level, flush) = match kind {
        b'i' => {
            info!("{}", text);
            ("Info", false)
        }
        b'w' => {
            warn!("{}", text);
            ("Warn", false)
        }
        b'd' => {
            debug!("{}", text);
            ("Debug", false)
        }
        b'k' => {
            log_info!("keys", text = text, delay = delay());
            ("Info", false)
        }
        b's' => {
            let s = Fill { id: text, qty: -7, note: "q\"\n".into() };
            log_error!("struct", s);
            ("Error", false)
        }
        b'f' => {
            flushing_log_info!("flush", text = text, delay = delay());
            ("Info", true)
        }
        b'g' => {
            let s = Fill { id: text, qty: 3, note: String::new() };
            flushing_log_error!("flush struct", s);
            ("Error", true)
        }
        _ => unreachable!(),
    };
    Expect { id: id.into(), level, lo, hi: get_unix_nano(), flush }
}

fn files() -> BTreeMap<String, String> {
    vsched::fs::snapshot()
        .into_iter()
        .map(|(p, b)| (p.display().to_string(), String::from_utf8(b).unwrap_or_else(|e| fail("text", format!("not text: {e}")))))
        .collect()
}

/// Parses the lines of all files: (message id, level, date and time), in file order.
fn lines(offset: i32) -> Vec<(String, String, String)> {
    let mut v = vec![];
    for (_, t) in files() {
        check(t.is_empty() || t.ends_with('\n'), "cut", || format!("the file ends inside a line: {:?}", &t[t.len().saturating_sub(60)..]));
        for l in t.lines() {
            let j: serde_json::Value = serde_json::from_str(l).unwrap_or_else(|e| fail("line", format!("{e} in {l:?}")));
            let d = &j["data"];
            let id = match (d["text"].as_str(), d["id"].as_str()) {
                (Some(s), _) => s.to_string(),
                (_, Some(s)) => {
                    let f: (i64, &str) = (d["qty"].as_i64().unwrap_or(0), d["note"].as_str().unwrap_or("?"));
                    check(f == (-7, "q\"\n") || f == (3, ""), "data", || l.to_string());
                    s.to_string()
                }
                _ => {
                    check(d["message"].as_str() == Some("LoggerGuard is dropped"), "data", || l.to_string());
                    continue;
                }
            };
            check(j["offset"].as_i64() == Some(offset as i64), "offset", || l.to_string());
            check(j["src"].as_str().is_some_and(|s| s.contains("log.rs:")), "src", || l.to_string());
            let s = |k: &str| j[k].as_str().unwrap_or("?").to_string();
            v.push((id, s("level"), s("date") + &s("time")));
        }
    }
    v
}

/// `must`: per producer, the messages that have to be there, each once and in order;
/// `may`: producers whose messages may be missing from some point on.
fn compare(must: &[Vec<Expect>], may: &[Vec<Expect>], offset: i32, one_file: bool) {
    let got = lines(offset);
    let at = |t: u64| {
        let (d, s) = convert_unix_nano_to_date_and_time(t, offset);
        d + &s
    };
    let mut claimed = 0;
    for (strict, list) in must.iter().map(|l| (true, l)).chain(may.iter().map(|l| (false, l))) {
        let mut last = None;
        let mut missing = false;
        for e in list {
            let pos: Vec<usize> = got.iter().enumerate().filter(|(_, g)| g.0 == e.id).map(|(i, _)| i).collect();
            check(pos.len() <= 1, "twice", || format!("message {} is written {} times", e.id, pos.len()));
            let Some(&p) = pos.first() else {
                check(!strict, "lost", || format!("message {} ({}) is not in the file: {:?}", e.id, e.level, got.iter().map(|g| &g.0).collect::<Vec<_>>()));
                missing = true;
                continue;
            };
            check(!missing, "gap", || format!("message {} is there although an earlier one of its thread is not", e.id));
            claimed += 1;
            check(got[p].1 == e.level, "level", || format!("message {} has level {}", e.id, got[p].1));
            check(got[p].2 >= at(e.lo) && got[p].2 <= at(e.hi), "time", || format!("message {} is stamped {} instead of {}..{}", e.id, got[p].2, at(e.lo), at(e.hi)));
            check(!one_file || last.map_or(true, |l| l < p), "order", || format!("message {} stands before an earlier one of its thread", e.id));
            last = Some(p);
        }
    }
    check(claimed == got.len(), "extra", || format!("{} lines for {} messages: {:?}", got.len(), claimed, got));
}

fn enabled(kind: u8, max: LogLevel) -> bool {
    match kind {
        b'd' => max >= LogLevel::Debug,
        b's' | b'g' => max >= LogLevel::Error,
        b'w' => max >= LogLevel::Warn,
        _ => max >= LogLevel::Info,
    }
}

fn produce(who: usize, kinds: &[u8], delays: u32, max: LogLevel) -> Vec<Expect> {
    let mut v = vec![];
    for (k, &kind) in kinds.iter().enumerate() {
        vsched::advance(1_000);
        let e = log(kind, &format!("{who}.{k}"), if delays >> k & 1 == 1 { 5 } else { 0 });
        if enabled(kind, max) {
            v.push(e);
        }
    }
    v
}

fn joined<T>(h: thread::JoinHandle<T>) -> T {
    h.join().unwrap_or_else(|e| fail("panic", format!("a logging thread panicked: {:?}", e.downcast_ref::<String>())))
}

#[derive(Clone, Copy)]
struct Plan {
    early: &'static [u8],      // logged before the logger is launched
    main: &'static [u8],       // logged by the launching thread
    others: &'static [&'static [u8]],
    delays: u32,               // bit k: 5 ms pass when message k of each producer is evaluated
    max: LogLevel,
    second_file: bool,         // the logger is launched again, with another file, half-way
}
const PLAN: Plan = Plan { early: b"", main: b"", others: &[], delays: 0, max: LogLevel::Info, second_file: false };

fn start(file: &str, max: LogLevel) -> trading_engine::logger::LoggerGuard {
    Logger::initialize()
        .with_file("logs", file)
        .unwrap()
        .with_console_report(false)
        .with_max_log_level(max)
        .with_timezone(TimeZone::Seoul)
        .launch()
}

fn session(p: Plan) {
    vsched::clock_points(false);
    let mut must = vec![];
    if !p.early.is_empty() {
        // the level is nil until it is configured
        Logger::initialize().with_max_log_level(p.max).with_timezone(TimeZone::Seoul);
        must.push(produce(9, p.early, p.delays, p.max));
    }
    let guard = start("a", p.max);
    let hs: Vec<_> = p.others.iter().enumerate().map(|(i, &k)| thread::spawn(move || produce(i + 1, k, p.delays, p.max))).collect();
    let mut second = None;
    if p.second_file {
        second = Some(start("b", p.max));
    }
    must.push(produce(0, p.main, p.delays, p.max));
    for h in hs {
        must.push(joined(h));
    }
    if let Some(s) = second {
        std::mem::forget(s); // one logger, one shutdown
    }
    drop(guard);
    compare(&must, &[], 9, !p.second_file);
    check(files().keys().all(|f| f.starts_with("logs/a-") || p.second_file && f.starts_with("logs/b-")), "file", || format!("{:?}", files().keys()));
    vsched::outcome(format!("{} messages", must.iter().map(|m| m.len()).sum::<usize>()));
}

/// A flushing message brings everything its thread logged so far to the file, without waiting for the shutdown.
fn flushed(before: &'static [u8], other: &'static [u8]) {
    vsched::clock_points(false);
    let guard = start("a", LogLevel::Info);
    let h = thread::spawn(move || produce(1, other, 0, LogLevel::Info));
    let mut mine = produce(0, before, 0, LogLevel::Info);
    mine.push(log(b'f', "0.last", 0));
    vsched::quiesce();
    // this is what a crash now would leave behind
    let found = lines(9);
    for e in &mine {
        check(found.iter().filter(|g| g.0 == e.id).count() == 1, "unflushed", || format!("message {} is not in the file after a flushing message", e.id));
    }
    let others = joined(h);
    drop(guard);
    compare(&[mine, others], &[], 9, true);
    vsched::outcome("flushed".into());
}

/// A thread that goes on logging while and after the logger is shut down: nothing breaks, what is written is a prefix.
fn outlives(kinds: &'static [u8], main: &'static [u8]) {
    vsched::clock_points(false);
    let guard = start("a", LogLevel::Info);
    let h = thread::spawn(move || produce(1, kinds, 0, LogLevel::Info));
    let mine = produce(0, main, 0, LogLevel::Info);
    drop(guard);
    let n = lines(9).len();
    let late = joined(h);
    let after = produce(2, b"ikfs", 0, LogLevel::Info);
    let _ = after;
    compare(&[mine.clone()], &[late], 9, true);
    check(lines(9).len() == n, "late", || "the file grew after the shutdown".into());
    vsched::outcome(format!("{} of {} late messages", n - mine.len(), kinds.len()));
}

/// Without a file nothing is written, and nothing waits for one.
fn nofile() {
    vsched::clock_points(false);
    let guard = Logger::initialize().with_max_log_level(LogLevel::Info).launch();
    let h = thread::spawn(move || produce(1, b"if", 3, LogLevel::Info));
    produce(0, b"fk", 1, LogLevel::Info);
    joined(h);
    drop(guard);
    check(files().is_empty(), "file", || "a file out of nowhere".into());
    // shutting down again, launching again: no panic, no waiting
    Logger::finalize();
    let again = start("b", LogLevel::Info);
    produce(0, b"i", 0, LogLevel::Info);
    drop(again);
    vsched::outcome("no file".into());
}

/// The disk fills up: the program goes on.
fn disk_full(kinds: &'static [u8]) {
    vsched::clock_points(false);
    vsched::fs::fail_after(vsched::choose(3) as u64);
    let guard = start("a", LogLevel::Info);
    let h = thread::spawn(move || produce(1, kinds, 1, LogLevel::Info));
    let mine = produce(0, kinds, 1, LogLevel::Info);
    let other = joined(h);
    drop(guard);
    compare(&[], &[mine, other], 9, true);
    vsched::outcome("disk full".into());
}

fn levels() {
    vsched::clock_points(false);
    let all = [LogLevel::NIL, LogLevel::Error, LogLevel::Warn, LogLevel::Info, LogLevel::Debug, LogLevel::Trace];
    for (i, a) in all.iter().enumerate() {
        check(a.as_usize() == i && LogLevel::from_usize(i).unwrap() == *a, "levels", || format!("{a:?}"));
    }
    check(LogLevel::from_usize(6).is_err(), "levels", || "level 6".into());
    let guard = start("a", LogLevel::NIL);
    let mut want: Vec<(String, &str)> = vec![];
    for max in all {
        trading_engine::MAX_LOG_LEVEL.store(max.as_usize(), std::sync::atomic::Ordering::Relaxed);
        let mut put = |name: &'static str, l: LogLevel, f: &dyn Fn(String)| {
            let id = format!("{max} {name}");
            f(id.clone());
            if l <= max {
                let s: &'static str = ["Nil", "Error", "Warn", "Info", "Debug", "Trace"][l.as_usize()];
                want.push((id, s));
            }
        };
        put("error!", LogLevel::Error, &|t| error!("{}", t));
        put("warn!", LogLevel::Warn, &|t| warn!("{}", t));
        put("info!", LogLevel::Info, &|t| info!("{}", t));
        put("debug!", LogLevel::Debug, &|t| debug!("{}", t));
        put("trace!", LogLevel::Trace, &|t| trace!("{}", t));
        put("log_error!", LogLevel::Error, &|t| log_error!("x", text = t));
        put("log_warn!", LogLevel::Warn, &|t| log_warn!("x", text = t, more = 1));
        put("log_info!", LogLevel::Info, &|t| log_info!("x", text = t));
        put("log_debug!", LogLevel::Debug, &|t| log_debug!("x", text = t));
        put("log_trace!", LogLevel::Trace, &|t| log_trace!("x", text = t, more = [1, 2]));
        put("flushing_log_error!", LogLevel::Error, &|t| flushing_log_error!("x", text = t));
        put("flushing_log_info!", LogLevel::Info, &|t| flushing_log_info!("x", text = t));
        put("flushing_log_debug!", LogLevel::Debug, &|t| flushing_log_debug!("x", text = t));
        put("flushing_log_trace!", LogLevel::Trace, &|t| flushing_log_trace!("x", text = t));
        let fill = |t: String| Fill { id: t, qty: 3, note: String::new() };
        put("error struct", LogLevel::Error, &|t| log_error!("x", fill(t)));
        put("warn struct", LogLevel::Warn, &|t| log_warn!("x", fill(t)));
        put("info struct", LogLevel::Info, &|t| log_info!("x", fill(t)));
        put("debug struct", LogLevel::Debug, &|t| log_debug!("x", fill(t)));
        put("trace struct", LogLevel::Trace, &|t| log_trace!("x", fill(t)));
        put("flushing error struct", LogLevel::Error, &|t| flushing_log_error!("x", fill(t)));
        put("flushing info struct", LogLevel::Info, &|t| flushing_log_info!("x", fill(t)));
        put("flushing debug struct", LogLevel::Debug, &|t| flushing_log_debug!("x", fill(t)));
        put("flushing trace struct", LogLevel::Trace, &|t| flushing_log_trace!("x", fill(t)));
    }
    drop(guard);
    let got: Vec<(String, String)> = lines(9).into_iter().map(|l| (l.0, l.1)).collect();
    let want: Vec<(String, String)> = want.into_iter().map(|w| (w.0, w.1.to_string())).collect();
    for (g, w) in got.iter().zip(&want) {
        check(g == w, "levels", || format!("{g:?} instead of {w:?}"));
    }
    check(got.len() == want.len(), "levels", || format!("{} messages instead of {}", got.len(), want.len()));
    vsched::outcome(format!("{} messages of every level", want.len()));
}

/// Plain strings sent to the logger directly.
fn raw() {
    vsched::clock_points(false);
    let guard = start("a", LogLevel::Error);
    let h = thread::spawn(|| {
        for m in ["b1\n", "b2\n"] {
            LOG_SENDER.try_send(LogMessage::StaticString(m)).unwrap();
        }
    });
    LOG_SENDER.try_send(LogMessage::StaticString("a1\n")).unwrap();
    vsched::advance(vsched::choose(2) as u64 * 3_000_000);
    LOG_SENDER.try_send(LogMessage::StaticString("a2\n")).unwrap();
    joined(h);
    drop(guard);
    let t = files().into_values().next().unwrap_or_default();
    let mut l: Vec<&str> = t.lines().collect();
    let pos = |x: &str| l.iter().position(|y| *y == x);
    check(pos("a1") < pos("a2") && pos("b1") < pos("b2"), "order", || t.clone());
    l.sort();
    check(l == ["a1", "a2", "b1", "b2"], "lost", || t.clone());
    vsched::outcome("plain strings".into());
}

pub fn scenarios(thorough: bool) -> Vec<Scn> {
    let mut v = vec![Scn::new("levels", Some(0), levels)];
    let b = |quick: u32, deep: u32| Some(if thorough { deep } else { quick });
    let mut add = |name: &str, bound: Option<u32>, p: Plan| {
        v.push(Scn::new(name.to_string(), bound, move || session(p)));
    };
    for (i, kinds) in [&b"i"[..], b"ks", b"fk", b"wdi", b"gkf", b"kkk"].into_iter().enumerate() {
        for delays in 0..(1u32 << kinds.len().min(3)) {
            add(&format!("one thread {} delays {delays}", String::from_utf8_lossy(kinds)), b(3, 4), Plan { main: kinds, delays, ..PLAN });
        }
        let early: &'static [u8] = [&b"i"[..], b"ks", b"f", b"kf", b"sk", b"kk"][i];
        add(&format!("before launch {}", String::from_utf8_lossy(early)), b(3, 4), Plan { early, main: b"k", delays: 1, ..PLAN });
    }
    let pairs: [(&'static [u8], &'static [u8]); 8] =
        [(b"i", b"i"), (b"k", b"f"), (b"f", b"k"), (b"f", b"f"), (b"ki", b"f"), (b"kf", b"ks"), (b"f", b"kk"), (b"wd", b"gi")];
    for (m, o) in pairs {
        let others: &'static [&'static [u8]] = Box::leak(vec![o].into_boxed_slice());
        for delays in 0..4 {
            add(&format!("main {} other {} delays {delays}", String::from_utf8_lossy(m), String::from_utf8_lossy(o)), b(3, 4), Plan { main: m, others, delays, ..PLAN });
        }
        add(&format!("second file, main {} other {}", String::from_utf8_lossy(m), String::from_utf8_lossy(o)), b(3, 4), Plan { main: m, others, delays: 1, second_file: true, ..PLAN });
    }
    add("two others", b(3, 4), Plan { main: b"", others: &[b"k", b"f"], delays: 0, ..PLAN });
    add("two others, main", b(2, 3), Plan { main: b"f", others: &[b"k", b"f"], delays: 1, ..PLAN });
    add("three others", b(2, 3), Plan { main: b"", others: &[b"k", b"f", b"s"], delays: 1, ..PLAN });
    add("trace level", b(2, 3), Plan { main: b"dk", others: &[b"d"], max: LogLevel::Trace, ..PLAN });
    for (x, y) in [(&b""[..], &b"k"[..]), (b"k", b"k"), (b"ks", b"f"), (b"ki", b"")] {
        v.push(Scn::new(format!("flushed {} other {}", String::from_utf8_lossy(x), String::from_utf8_lossy(y)), b(3, 4), move || flushed(x, y)));
    }
    for (x, y) in [(&b"i"[..], &b"k"[..]), (b"kf", b""), (b"fk", b"f"), (b"kkk", b"k")] {
        v.push(Scn::new(format!("outlives {} main {}", String::from_utf8_lossy(x), String::from_utf8_lossy(y)), b(3, 4), move || outlives(x, y)));
    }
    v.push(Scn::new("no file", b(2, 3), nofile));
    v.push(Scn::new("plain strings", b(3, 4), raw));
    v.push(Scn::new("disk full f", b(2, 3), || disk_full(b"f")));
    v.push(Scn::new("disk full kf", b(2, 3), || disk_full(b"kf")));
    v
}
