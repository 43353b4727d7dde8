//! C02: shared counters hand out unique consecutive numbers and stop at their end.
use crate::Scn;
use std::sync::Arc;
use trading_engine::utils::counter::*;
use vsched::{check, thread};

trait Count: Send + Sync + 'static {
    fn next(&self) -> Result<u128, ()>;
}
impl Count for CounterUsize {
    fn next(&self) -> Result<u128, ()> { CounterUsize::next(self).map(|x| x as u128).map_err(|_| ()) }
}
impl Count for CounterU64 {
    fn next(&self) -> Result<u128, ()> { CounterU64::next(self).map(|x| x as u128).map_err(|_| ()) }
}
impl Count for UnboundedCounterUsize {
    fn next(&self) -> Result<u128, ()> { Ok(UnboundedCounterUsize::next(self) as u128) }
}
impl Count for UnboundedCounterU64 {
    fn next(&self) -> Result<u128, ()> { Ok(UnboundedCounterU64::next(self) as u128) }
}

fn run<C: Count>(c: C, start: u128, end: u128, threads: usize, each: usize) {
    let c = Arc::new(c);
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let c = c.clone();
            thread::spawn(move || (0..each).map(|_| c.next()).collect::<Vec<_>>())
        })
        .collect();
    let mut all = vec![];
    for h in hs {
        let r = h.join().unwrap_or_else(|_| vsched::fail("panic", "next() panicked".into()));
        let ok: Vec<u128> = r.iter().filter_map(|x| x.ok()).collect();
        check(ok.windows(2).all(|w| w[0] < w[1]), "order", || format!("one thread was given {r:?}"));
        // once refused, always refused
        let firsterr = r.iter().position(|x| x.is_err()).unwrap_or(r.len());
        check(r[firsterr..].iter().all(|x| x.is_err()), "reopened", || format!("numbers after the end: {r:?}"));
        all.extend(ok);
    }
    all.sort();
    let total = (threads * each) as u128;
    let n = total.min(end - start + 1);
    let want: Vec<u128> = (start..start + n).collect();
    check(all == want, "numbers", || format!("handed out {all:?} instead of {want:?}"));
    vsched::outcome(format!("{n} of {total} numbers"));
}

fn sequential() {
    // every small range, at zero and at the top of the type, well past its end
    for base in [0u64, 1, 5, u64::MAX - 6] {
        for len in 0..=6u64 {
            let (s, e) = (base, base + len);
            let (a, b) = (CounterU64::new(s, e), CounterUsize::new(s as usize, e as usize));
            for k in 0..len + 6 {
                let want = if k <= len { Some(s + k) } else { None };
                let (x, y) = (a.next().ok(), b.next().ok());
                check(x == want && y == want.map(|v| v as usize), "range", || format!("range {s}..={e}, call {k}: {x:?}, {y:?} instead of {want:?}"));
            }
        }
    }
    vsched::outcome("all small ranges".into());
}

pub fn scenarios(thorough: bool) -> Vec<Scn> {
    let mut v = vec![Scn::new("ranges", Some(0), sequential)];
    let shapes: &[(usize, usize)] = if thorough { &[(2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (2, 4), (4, 1)] } else { &[(2, 1), (2, 2), (3, 1), (2, 3), (3, 2)] };
    for &(t, e) in shapes {
        for last in [0u64, 2, 100] {
            v.push(Scn::new(format!("CounterU64 5..={} {t}x{e}", 5 + last), None, move || run(CounterU64::new(5, 5 + last), 5, 5 + last as u128, t, e)));
            v.push(Scn::new(format!("CounterUsize 0..={last} {t}x{e}"), None, move || run(CounterUsize::new(0, last as usize), 0, last as u128, t, e)));
        }
        v.push(Scn::new(format!("CounterU64 at the top {t}x{e}"), None, move || {
            run(CounterU64::new(u64::MAX - 1, u64::MAX), u64::MAX as u128 - 1, u64::MAX as u128, t, e)
        }));
        v.push(Scn::new(format!("UnboundedCounterU64 {t}x{e}"), None, move || run(UnboundedCounterU64::new(3), 3, u64::MAX as u128, t, e)));
        v.push(Scn::new(format!("UnboundedCounterUsize {t}x{e}"), None, move || run(UnboundedCounterUsize::new(0), 0, u64::MAX as u128, t, e)));
    }
    v
}
