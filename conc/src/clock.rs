//! C06: the process clock never runs backwards, whichever threads ask first.
use crate::Scn;
use std::sync::Arc;
use trading_engine::utils::timer::{get_thread_local_unix_nano, get_unix_nano};
use trading_engine::TimeStamp;
use vsched::{check, thread};

fn run(threads: usize, asks: usize, steps: &'static [u64], local: bool) {
    let t0 = vsched::now();
    // the thread that starts the others may be the first to ask, or ask while they do
    let first = if vsched::choose(2) == 1 { get_unix_nano() } else { 0 };
    let turn = Arc::new(vsched::sync::Mutex::new(first)); // the last time anybody was told
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let turn = turn.clone();
            thread::spawn(move || {
                let mut mine = 0;
                for _ in 0..asks {
                    vsched::advance(steps[vsched::choose(steps.len() as u32) as usize]);
                    let before = *turn.lock().unwrap();
                    let real0 = vsched::now();
                    let t = get_unix_nano();
                    let real1 = vsched::now();
                    check(t >= before, "backwards", || format!("another thread was already told {before}, now the clock says {t}"));
                    check(t >= mine, "backwards", || format!("{t} after {mine}"));
                    mine = t;
                    // the two anchors are read one after the other; the clock is off by what passes in between, at most
                    check(t + 1_000 >= real0 && t <= real1 + 1_000 + (real1 - t0), "wrong", || format!("clock {t}, real {real0}..{real1}, start {t0}"));
                    let mut g = turn.lock().unwrap();
                    *g = (*g).max(t);
                    drop(g);
                    if local {
                        let a = get_thread_local_unix_nano();
                        let (r0, r1) = (vsched::now(), real0);
                        vsched::advance(1_000_000);
                        let b = get_thread_local_unix_nano();
                        let passed = vsched::now() - r1;
                        // other threads may let time pass as well
                        let exact = threads == 1 && b != a + 1_000_000;
                        check(b >= a + 1_000_000 && b <= a + passed && !exact, "local", || format!("{} ns instead of 1 ms", b as i128 - a as i128));
                        check(a <= r0 + 1_000, "local", || format!("clock {a}, real {r0}"));
                    }
                }
                mine
            })
        })
        .collect();
    for h in hs {
        if let Err(e) = h.join() {
            vsched::fail("panic", format!("{:?}", e.downcast_ref::<String>()));
        }
    }
    // intervals are exact once the clock runs
    let a = TimeStamp::utc_now();
    for d in [1u64, 999, 1_000_000, 86_400_000_000_000] {
        let x = get_unix_nano();
        vsched::advance(d);
        let y = get_unix_nano();
        check(y - x == d, "interval", || format!("{} instead of {d}", y - x));
    }
    check(TimeStamp::utc_now().stamp > a.stamp, "interval", || "TimeStamp::now does not advance".into());
    vsched::outcome("clock runs forward".into());
}

pub fn scenarios(thorough: bool) -> Vec<Scn> {
    let mut v = vec![];
    for (t, n, b) in if thorough { vec![(1, 3, None), (2, 1, None), (2, 2, Some(4)), (3, 1, Some(4)), (3, 2, Some(2))] } else { vec![(1, 2, None), (2, 1, Some(4)), (2, 2, Some(2)), (3, 1, Some(2))] } {
        v.push(Scn::new(format!("{t} threads x{n}"), b, move || run(t, n, &[0, 1, 5_000_000_000], false)));
        if t == 1 || n == 1 {
            v.push(Scn::new(format!("{t} threads x{n} with thread-local clock"), b, move || run(t, n, &[0, 1, 1_000_000_000], true)));
        }
    }
    v
}
