//! C03: instrument ids interned by several threads at once.
use crate::Scn;
use rustc_hash::FxHashMap;
use trading_engine::types::id::{IdData, Symbol};
use trading_engine::types::venue::Venue;
use trading_engine::{InstId, IsinCode, Ticker};
use vsched::{check, thread};

fn data(k: u8) -> IdData {
    match k {
        0 => IdData::default(),
        1 => IdData { symbol: Symbol::Isin(IsinCode::new(b"KR7005930003").unwrap()), venue: Venue::KRX },
        2 => IdData { symbol: Symbol::Ticker(Ticker::new(b"005930").unwrap()), venue: Venue::KRX },
        _ => IdData { symbol: Symbol::Isin(IsinCode::new(b"KR7005930003").unwrap()), venue: Venue::Undefined },
    }
}

/// How an id is made: c(onstructor), j(son), d(efault).
fn make(how: u8, k: u8) -> InstId {
    let d = data(k);
    match how {
        b'c' => InstId::new(d.symbol, d.venue),
        b'j' => serde_json::from_str(&serde_json::to_string(&d).unwrap()).unwrap(),
        _ => InstId::default(),
    }
}

fn run(plans: &[&'static [(u8, u8)]]) {
    let hs: Vec<_> = plans
        .iter()
        .map(|&p| thread::spawn(move || p.iter().map(|&(h, k)| (if h == b'd' { 0 } else { k }, make(h, k))).collect::<Vec<_>>()))
        .collect();
    let mut all: Vec<(u8, InstId)> = vec![];
    for h in hs {
        match h.join() {
            Ok(v) => all.extend(v),
            Err(e) => vsched::fail("panic", format!("interning panicked: {:?}", e.downcast_ref::<String>())),
        }
    }
    for (k, a) in &all {
        check(*a.get_id() == data(*k), "data", || format!("id of data {k} holds {:?}", a));
        for (l, b) in &all {
            check((a == b) == (k == l), "equality", || format!("ids of data {k} and {l} compare {}", a == b));
        }
        // and ids made later are the same ones
        check(make(b'c', *k) == *a && make(b'j', *k) == *a, "later", || format!("a later id of data {k} differs"));
    }
    check(InstId::default() == make(b'c', 0), "default", || "the default id is not the id of the default data".into());
    let mut m: FxHashMap<InstId, u8> = FxHashMap::default();
    for (k, a) in &all {
        m.insert(*a, *k);
    }
    for (k, _) in &all {
        check(m.get(&make(b'c', *k)) == Some(k), "lookup", || format!("id of data {k} not found in a map"));
    }
    vsched::outcome(format!("{} threads, {} distinct ids", plans.len(), m.len()));
}

pub fn scenarios(thorough: bool) -> Vec<Scn> {
    let hows = [b'c', b'j', b'd'];
    let mut v = vec![];
    // two threads, two ids each: all combinations of ways, over equal and different data
    let mut plans: Vec<&'static [(u8, u8)]> = vec![];
    for h in hows {
        for g in hows {
            for (k, l) in [(1u8, 1u8), (1, 2), (0, 1), (1, 3)] {
                if (h == b'd' && k != 1) || (g == b'd' && l != 1) {
                    continue;
                }
                plans.push(Box::leak(vec![(h, k), (g, l)].into_boxed_slice()));
            }
        }
    }
    for (i, &p) in plans.iter().enumerate() {
        for &q in &plans[i..] {
            v.push(Scn::new(format!("{p:?} | {q:?}"), None, move || run(&[p, q])));
        }
    }
    let singles: Vec<&'static [(u8, u8)]> =
        vec![&[(b'c', 1)], &[(b'j', 1)], &[(b'd', 0)], &[(b'c', 0)], &[(b'c', 2)]];
    for (i, &p) in singles.iter().enumerate() {
        for (j, &q) in singles.iter().enumerate().skip(i) {
            for &r in &singles[j..] {
                v.push(Scn::new(format!("{p:?} | {q:?} | {r:?}"), None, move || run(&[p, q, r])));
            }
        }
    }
    if thorough {
        for p in plans.iter().take(8).copied() {
            for q in plans.iter().skip(8).copied() {
                for &r in &singles {
                    v.push(Scn::new(format!("{p:?} | {q:?} | {r:?}"), Some(3), move || run(&[p, q, r])));
                }
            }
        }
    }
    v
}
