//! The explorer against litmus tests whose possible results are known.
use std::collections::BTreeSet;
use std::sync::Arc;
use vsched::sync::*;
use vsched::*;

fn results(pre: Option<u32>, sleep: bool, f: impl Fn() -> String + 'static) -> (BTreeSet<String>, Outcome) {
    let o = explore(Config { preemptions: pre, sleep_sets: sleep, ..Config::default() }, None, move || outcome(f()));
    (o.outcomes.keys().cloned().collect(), o)
}
fn expect(name: &str, f: impl Fn() -> String + Clone + 'static, want: &[&str]) {
    let want: BTreeSet<String> = want.iter().map(|s| s.to_string()).collect();
    let (a, o) = results(None, true, f.clone());
    let (b, p) = results(None, false, f);
    println!("{name}: {} executions with sleep sets ({} cut), {} without", o.execs - o.pruned, o.pruned, p.execs);
    assert!(o.failure.is_none(), "{name}: {:?}", o.failure);
    assert_eq!(a, want, "{name} with sleep sets");
    assert_eq!(b, want, "{name} without");
}
fn fails(name: &str, kind: &str, f: impl Fn() -> String + Clone + 'static) {
    for sleep in [true, false] {
        let (_, o) = results(None, sleep, f.clone());
        let (k, _) = o.failure.clone().unwrap_or_else(|| panic!("{name}: no failure in {} executions", o.execs));
        assert_eq!(k, kind, "{name}");
        // and the schedule replays
        let g = f.clone();
        let r = explore(Config { sleep_sets: sleep, ..Config::default() }, Some(&o.schedule), move || { g(); });
        assert_eq!(r.failure.map(|x| x.0).as_deref(), Some(kind), "{name} replayed");
    }
}
type A = Arc<AtomicU32>;
fn two() -> (A, A) {
    (Arc::new(AtomicU32::new(0)), Arc::new(AtomicU32::new(0)))
}
use std::sync::atomic::Ordering::*;

fn mp(st: std::sync::atomic::Ordering, ld: std::sync::atomic::Ordering) -> impl Fn() -> String + Clone {
    move || {
        let (x, f) = two();
        let (x2, f2) = (x.clone(), f.clone());
        let h = thread::spawn(move || {
            x2.store(1, Relaxed);
            f2.store(1, st);
        });
        let a = f.load(ld);
        let b = x.load(Relaxed);
        h.join().unwrap();
        format!("{a}{b}")
    }
}
fn sb(o: std::sync::atomic::Ordering, l: std::sync::atomic::Ordering) -> impl Fn() -> String + Clone {
    move || {
        let (x, y) = two();
        let (x2, y2) = (x.clone(), y.clone());
        let h = thread::spawn(move || {
            x2.store(1, o);
            y2.load(l)
        });
        y.store(1, o);
        let a = x.load(l);
        format!("{a}{}", h.join().unwrap())
    }
}

#[test]
fn litmus() {
    expect("message passing, release/acquire", mp(Release, Acquire), &["00", "01", "11"]);
    expect("message passing, relaxed store", mp(Relaxed, Acquire), &["00", "01", "10", "11"]);
    expect("message passing, relaxed load", mp(Release, Relaxed), &["00", "01", "10", "11"]);
    expect("store buffering, release/acquire", sb(Release, Acquire), &["00", "01", "10", "11"]);
    expect("store buffering, seqcst", sb(SeqCst, SeqCst), &["01", "10", "11"]);
    expect("coherence", || {
        let x = Arc::new(AtomicU32::new(0));
        let x2 = x.clone();
        let h = thread::spawn(move || {
            x2.store(1, Relaxed);
            x2.store(2, Relaxed);
        });
        let (a, b) = (x.load(Relaxed), x.load(Relaxed));
        h.join().unwrap();
        format!("{a}{b}")
    }, &["00", "01", "02", "11", "12", "22"]);
    expect("read-modify-writes are atomic", || {
        let x = Arc::new(AtomicU32::new(0));
        let hs: Vec<_> = (0..3).map(|_| { let x = x.clone(); thread::spawn(move || x.fetch_add(1, Relaxed)) }).collect();
        let mut v: Vec<u32> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        v.sort();
        format!("{v:?}{}", x.load(Relaxed))
    }, &["[0, 1, 2]3"]);
    expect("load then store loses updates", || {
        let x = Arc::new(AtomicU32::new(0));
        let hs: Vec<_> = (0..2).map(|_| { let x = x.clone(); thread::spawn(move || { let v = x.load(SeqCst); x.store(v + 1, SeqCst) }) }).collect();
        for h in hs { h.join().unwrap(); }
        x.load(SeqCst).to_string()
    }, &["1", "2"]);
    expect("release sequence through another thread's read-modify-write", || {
        let (x, f) = two();
        let (x2, f2, f3) = (x.clone(), f.clone(), f.clone());
        let h = thread::spawn(move || { x2.store(1, Relaxed); f2.store(1, Release); });
        let g = thread::spawn(move || { f3.fetch_add(1, Relaxed); });
        let a = f.load(Acquire);
        let b = x.load(Relaxed);
        h.join().unwrap();
        g.join().unwrap();
        if a == 2 { format!("2{b}") } else { "-".into() }
    }, &["-", "21"]);
    expect("fences", || {
        let (x, f) = two();
        let (x2, f2) = (x.clone(), f.clone());
        let h = thread::spawn(move || { x2.store(1, Relaxed); fence(Release); f2.store(1, Relaxed); });
        let a = f.load(Relaxed);
        fence(Acquire);
        let b = x.load(Relaxed);
        h.join().unwrap();
        format!("{a}{b}")
    }, &["00", "01", "11"]);
    expect("mutex", || {
        let m = Arc::new(Mutex::new(Vec::new()));
        let hs: Vec<_> = (0..2).map(|i| { let m = m.clone(); thread::spawn(move || { for k in 0..2 { m.lock().unwrap().push(i * 2 + k); } }) }).collect();
        for h in hs { h.join().unwrap(); }
        let s = format!("{:?}", m.lock().unwrap());
        s
    }, &["[0, 1, 2, 3]", "[0, 2, 1, 3]", "[0, 2, 3, 1]", "[2, 0, 1, 3]", "[2, 0, 3, 1]", "[2, 3, 0, 1]"]);
    expect("channel keeps each sender's order", || {
        let (s, r) = unbounded();
        let s2 = s.clone();
        let h = thread::spawn(move || { s2.send(1).unwrap(); s2.send(2).unwrap(); });
        let g = thread::spawn(move || { s.send(3).unwrap(); });
        let v: Vec<i32> = r.iter().collect();
        h.join().unwrap();
        g.join().unwrap();
        format!("{v:?}")
    }, &["[1, 2, 3]", "[1, 3, 2]", "[3, 1, 2]"]);
    expect("condvar", || {
        let p = Arc::new((Mutex::new(false), Condvar::new()));
        let q = p.clone();
        let h = thread::spawn(move || { *q.0.lock().unwrap() = true; q.1.notify_one(); });
        let mut g = p.0.lock().unwrap();
        while !*g { g = p.1.wait(g).unwrap(); }
        drop(g);
        h.join().unwrap();
        "ok".into()
    }, &["ok"]);
    expect("condvar with a time limit", || {
        let p = Arc::new((Mutex::new(false), Condvar::new()));
        let q = p.clone();
        let h = thread::spawn(move || { *q.0.lock().unwrap() = true; q.1.notify_one(); });
        let (g, r) = p.1.wait_timeout(p.0.lock().unwrap(), std::time::Duration::from_millis(1)).unwrap();
        let s = format!("{} {}", *g, r.timed_out());
        drop(g);
        h.join().unwrap();
        s
    }, &["false true", "true false", "true true"]);
    expect("condvar with a time limit in a loop", || {
        let p = Arc::new((Mutex::new(false), Condvar::new()));
        let q = p.clone();
        let h = thread::spawn(move || { *q.0.lock().unwrap() = true; q.1.notify_one(); });
        let mut g = p.0.lock().unwrap();
        while !*g { g = p.1.wait_timeout(g, std::time::Duration::from_millis(1)).unwrap().0; }
        drop(g);
        h.join().unwrap();
        "ok".into()
    }, &["ok"]);
    expect("once", || {
        let c = Arc::new(OnceCell::new());
        let hs: Vec<_> = (0..2).map(|i| { let c = c.clone(); thread::spawn(move || *c.get_or_init(|| i)) }).collect();
        let v: Vec<i32> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        format!("{v:?}")
    }, &["[0, 0]", "[1, 1]"]);
    expect("polling", || {
        let (x, f) = two();
        let (x2, f2) = (x.clone(), f.clone());
        let h = thread::spawn(move || { x2.store(7, Relaxed); f2.store(1, Release); });
        while f.load(Acquire) == 0 { thread::yield_now(); }
        let v = x.load(Relaxed);
        h.join().unwrap();
        v.to_string()
    }, &["7"]);
    expect("awaiting", || {
        let (x, f) = two();
        let (x2, f2) = (x.clone(), f.clone());
        let h = thread::spawn(move || { x2.store(7, Relaxed); f2.store(1, Release); loop { await_point(); if f2.load(Acquire) == 2 { break; } } x2.load(Relaxed) });
        loop { await_point(); if f.load(Acquire) != 0 { break; } }
        let v = x.load(Relaxed);
        x.store(8, Relaxed);
        f.store(2, Release);
        format!("{v}{}", h.join().unwrap())
    }, &["78"]);
    expect("awaiting relaxed", || {
        let (x, f) = two();
        let (x2, f2) = (x.clone(), f.clone());
        let h = thread::spawn(move || { x2.store(7, Relaxed); f2.store(1, Relaxed); });
        loop { await_point(); if f.load(Acquire) != 0 { break; } }
        let v = x.load(Relaxed);
        h.join().unwrap();
        v.to_string()
    }, &["0", "7"]);
    fails("two threads await each other", "stuck", || {
        let (x, y) = two();
        let (x2, y2) = (x.clone(), y.clone());
        let h = thread::spawn(move || { loop { await_point(); if x2.load(Acquire) == 1 { break; } } y2.store(1, Release) });
        loop { await_point(); if y.load(Acquire) == 1 { break; } }
        x.store(1, Release);
        h.join().unwrap();
        "".into()
    });
    fails("lock order", "stuck", || {
        let m = Arc::new((Mutex::new(()), Mutex::new(())));
        let n = m.clone();
        let h = thread::spawn(move || { let _a = n.0.lock().unwrap(); let _b = n.1.lock().unwrap(); });
        { let _b = m.1.lock().unwrap(); let _a = m.0.lock().unwrap(); }
        h.join().unwrap();
        "".into()
    });
    fails("lost wakeup", "stuck", || {
        let p = Arc::new((Mutex::new(()), Condvar::new(), AtomicBool::new(false)));
        let q = p.clone();
        let h = thread::spawn(move || { q.2.store(true, SeqCst); q.1.notify_one(); });
        if !p.2.load(SeqCst) {
            let g = p.0.lock().unwrap();
            let _g = p.1.wait(g).unwrap();
        }
        h.join().unwrap();
        "".into()
    });
    fails("unsynchronised data", "race", || {
        let d = Arc::new(Tracked::new(0));
        let e = d.clone();
        let h = thread::spawn(move || e.with_mut(|x| *x = 1));
        d.with(|x| *x);
        h.join().unwrap();
        "".into()
    });
    for (st, ld) in [(Relaxed, Acquire), (Release, Relaxed)] {
        fails("data published without order", "race", move || {
            let d = Arc::new((Tracked::new(0), AtomicBool::new(false)));
            let e = d.clone();
            let h = thread::spawn(move || { e.0.with_mut(|x| *x = 1); e.1.store(true, st); });
            if d.1.load(ld) { d.0.with(|x| *x); }
            h.join().unwrap();
            "".into()
        });
    }
    fails("write after release", "race", || {
        let d = Arc::new((Tracked::new(0), AtomicBool::new(false)));
        let e = d.clone();
        let h = thread::spawn(move || { e.1.store(true, Release); e.0.with_mut(|x| *x = 1); });
        if d.1.load(Acquire) { d.0.with(|x| *x); }
        h.join().unwrap();
        "".into()
    });
    fails("never signalled", "stuck", || {
        let f = AtomicBool::new(false);
        while !f.load(Acquire) { thread::yield_now(); }
        "".into()
    });
    fails("panic in a detached thread", "panic", || {
        let _ = thread::spawn(|| panic!("x"));
        "".into()
    });
    expect("publishing through release/acquire is race free", || {
        let d = Arc::new((Tracked::new(0), AtomicBool::new(false)));
        let e = d.clone();
        let h = thread::spawn(move || { e.0.with_mut(|x| *x = 1); e.1.store(true, Release); });
        let r = if d.1.load(Acquire) { d.0.with(|x| *x) } else { 9 };
        h.join().unwrap();
        r.to_string()
    }, &["1", "9"]);
    // thread-local values: one per thread and execution, dropped when the thread ends
    vsched::thread_local! { static MINE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
    expect("thread-local values", || {
        let bump = || { MINE.set(MINE.get() + 1); thread::yield_now(); MINE.get() };
        let h = thread::spawn(bump);
        let a = bump();
        format!("{a} {} {}", bump(), h.join().unwrap())
    }, &["1 2 1"]);
    struct Last(Arc<AtomicU32>);
    impl Drop for Last { fn drop(&mut self) { self.0.fetch_add(1, SeqCst); } }
    vsched::thread_local! { static LAST: std::cell::RefCell<Option<Last>> = std::cell::RefCell::new(None); }
    expect("thread-local values end with their thread", || {
        let n = Arc::new(AtomicU32::new(0));
        let m = n.clone();
        thread::spawn(move || { LAST.set(Some(Last(m.clone()))); m.load(SeqCst) }).join().unwrap();
        n.load(SeqCst).to_string()
    }, &["1"]);
    // scoped threads borrow and are waited for
    expect("scoped threads", || {
        let x = AtomicU32::new(0);
        let y = thread::scope(|s| { s.spawn(|| x.fetch_add(1, Relaxed)); let h = s.spawn(|| x.fetch_add(1, Relaxed)); h.join().unwrap() });
        format!("{y} {}", x.load(Relaxed))
    }, &["0 2", "1 2"]);
    // all come to the barrier before any goes on
    expect("barrier", || {
        let d = Arc::new((vsched::sync::Barrier::new(2), AtomicU32::new(0)));
        let e = d.clone();
        let h = thread::spawn(move || { e.1.fetch_add(1, Relaxed); e.0.wait(); e.1.load(Relaxed) });
        d.1.fetch_add(1, Relaxed);
        d.0.wait();
        format!("{} {}", d.1.load(Relaxed), h.join().unwrap())
    }, &["2 2"]);
    expect("park and unpark", || {
        let x = Arc::new(AtomicU32::new(0));
        let y = x.clone();
        let h = thread::spawn(move || { thread::park(); y.load(Relaxed) });
        x.store(1, Relaxed);
        h.thread().unpark();
        h.join().unwrap().to_string()
    }, &["1"]);
    fails("parked for ever", "stuck", || { thread::park(); "".into() });
    // the preemption bound: two context switches at most
    let f = || {
        let x = Arc::new(AtomicU32::new(0));
        let x2 = x.clone();
        let h = thread::spawn(move || { for _ in 0..2 { let v = x2.load(SeqCst); x2.store(v + 1, SeqCst); } });
        for _ in 0..2 { let v = x.load(SeqCst); x.store(v + 1, SeqCst); }
        h.join().unwrap();
        x.load(SeqCst).to_string()
    };
    let all = results(None, false, f).0;
    assert_eq!(all, ["2", "3", "4"].iter().map(|s| s.to_string()).collect());
    assert_eq!(results(Some(0), true, f).0, ["4"].iter().map(|s| s.to_string()).collect());
    assert_eq!(results(Some(4), true, f).0, all);
}
