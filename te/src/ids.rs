//! T09: identifiers and small value types keep what they were given.
use rustc_hash::FxHashMap;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use trading_engine::data::order::*;
use trading_engine::types::base::*;
use trading_engine::types::enums::*;
use trading_engine::types::id::{isin_code::IsinCode, ticker::Ticker, IdData, InstId, Symbol};
use trading_engine::types::inst_info::*;
use trading_engine::types::timestamp::TimeStamp;
use trading_engine::types::venue::Venue;
use vcommon::*;

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

fn isin(ctx: &Ctx) {
    let bases: [&[u8]; 3] = [b"KR7005930003", b"US0378331005", b"000000000000"];
    let check = |b: &[u8]| {
        ctx.case();
        if b.iter().any(|c| matches!(c, b'\n' | b'\r' | 0x0b | 0x0c)) {
            return;
        }
        let want = b.len() == 12 && b.iter().all(|c| *c < 128 && *c != b' ' && *c != b'\t');
        let key = || "isin code".to_string();
        ctx.run(key, || match IsinCode::new(b) {
            Err(e) if want => ctx.violation(&key(), format!("{:?} refused: {e}", String::from_utf8_lossy(b))),
            Ok(_) if !want => ctx.violation(&key(), format!("{:?} accepted", String::from_utf8_lossy(b))),
            Err(_) => {}
            Ok(c) => {
                let s = std::str::from_utf8(b).unwrap();
                let ok = c.as_str() == s
                    && c.as_bytes() == b
                    && c == b.to_vec()
                    && b.to_vec() == c
                    && c == s
                    && s == c
                    && c == b
                    && (0..=12).all(|n| c.starts_with(&b[..n]))
                    && !c.starts_with(b"KR7005930003x")
                    && (0..12).all(|n| {
                        (0..8).all(|bit| {
                            let mut o = b.to_vec();
                            o[n] ^= 1 << bit;
                            let other = IsinCode::new(&o).ok();
                            c != o && o != c && c != o.as_slice() && std::str::from_utf8(&o).map_or(true, |t| t != c) && !c.starts_with(&o[..n + 1]) && other.as_ref() != Some(&c) && other.is_none_or(|x| c != x.as_str())
                        })
                    })
                    && c.clone() == c
                    && serde_json::from_str::<IsinCode>(&serde_json::to_string(&c).unwrap()).unwrap() == c;
                if !ok {
                    ctx.violation(&key(), format!("{s:?} is kept as {c:?}"));
                }
            }
        });
    };
    for b in bases {
        for i in 0..12 {
            for x in 0..=255u8 {
                let mut v = b.to_vec();
                v[i] = x;
                check(&v);
            }
        }
        for n in 0..=14 {
            for fill in [b'A', b'0', b' ', 0xff, 0] {
                let mut v = b.to_vec();
                v.resize(n, fill);
                check(&v);
            }
        }
    }
}

fn tickers(ctx: &Ctx) {
    let mut all: Vec<Vec<u8>> = vec![];
    for n in 0..=34 {
        for (start, step) in [(b'A', 1), (b'0', 0), (b'z', 0)] {
            all.push((0..n).map(|i| start + (i * step) as u8 % 26).collect());
        }
    }
    for t in ["005930", "BTC-USDT", "삼성전자", "é", "a b", "", "한글한글한글한글한글"] {
        all.push(t.as_bytes().to_vec());
    }
    // every ASCII character alone, last, first and in the middle
    for x in 1..128u8 {
        all.push(vec![x]);
        all.push(vec![b'A', x]);
        all.push(vec![x, b'A']);
        all.push(vec![b'A', x, b'B']);
    }
    for x in 128..=255u8 {
        all.push(vec![b'A', x]);
        all.push(vec![x]);
        all.push(vec![b'A', x, b'B']);
    }
    // a multi-byte character cut anywhere
    for n in 0..=36 {
        let mut v = "한".repeat(12).into_bytes();
        v.truncate(n);
        all.push(v);
    }
    let mut made: Vec<(Vec<u8>, Ticker)> = vec![];
    for b in &all {
        ctx.case();
        let text = std::str::from_utf8(b).ok();
        let want = b.len() <= 32 && text.is_some();
        let key = || "ticker".to_string();
        ctx.run(key, || match Ticker::new(b) {
            Err(e) if want => ctx.violation(&key(), format!("{:?} refused: {e}", String::from_utf8_lossy(b))),
            Ok(_) if b.len() > 32 => ctx.violation("ticker too long", format!("{:?} accepted", String::from_utf8_lossy(b))),
            Ok(_) if !want => ctx.violation("ticker not text", format!("bytes {b:?} accepted as text")),
            Err(_) => {}
            Ok(t) => {
                if Some(t.as_str()) != text {
                    ctx.violation("ticker text", format!("{text:?} reads back as {:?}", t.as_str()));
                }
            }
        });
        if want {
            if let Ok(Ok(t)) = guarded(|| Ticker::new(b)) {
                made.push((b.clone(), t));
            }
        }
    }
    for (a, x) in &made {
        for (b, y) in &made {
            ctx.case();
            if (a == b) != (x == y) || (a == b && h(x) != h(y)) {
                ctx.violation("ticker equality", format!("{a:?} and {b:?}"));
            }
        }
        if serde_json::from_str::<Ticker>(&serde_json::to_string(x).unwrap()).ok().as_ref() != Some(x) {
            ctx.violation("ticker serialization", format!("{a:?}"));
        }
    }
}

fn ids(ctx: &Ctx) {
    let venues = [Venue::Undefined, Venue::CCP, Venue::KRX, Venue::KIS, Venue::SI];
    let mut syms = vec![];
    for t in ["KR7005930003", "US0378331005", "KR4101S60008", "KR4101S60007", "XX4101S60008"] {
        syms.push((Symbol::Isin(IsinCode::new(t.as_bytes()).unwrap()), t));
        syms.push((Symbol::Ticker(Ticker::new(t.as_bytes()).unwrap()), t));
    }
    for t in ["005930", "00593", "BTC", ""] {
        syms.push((Symbol::Ticker(Ticker::new(t.as_bytes()).unwrap()), t));
    }
    let mut recs: Vec<(IdData, &str, Venue)> = vec![];
    for (s, t) in &syms {
        for v in venues {
            recs.push((IdData { symbol: s.clone(), venue: v }, t, v));
        }
    }
    // interned in one order, re-interned in the other, by constructor and by deserialization
    let first: Vec<InstId> = recs.iter().map(|r| InstId::new(r.0.symbol.clone(), r.0.venue)).collect();
    let again: Vec<InstId> = recs.iter().rev().map(|r| InstId::new(r.0.symbol.clone(), r.0.venue)).collect::<Vec<_>>().into_iter().rev().collect();
    let read: Vec<InstId> = recs
        .iter()
        .enumerate()
        .map(|(i, r)| serde_json::from_str(&serde_json::to_string(&first[i]).unwrap()).unwrap_or_else(|e| panic!("{r:?}: {e}")))
        .collect();
    let mut map: FxHashMap<InstId, usize> = FxHashMap::default();
    for (i, r) in recs.iter().enumerate() {
        ctx.case();
        if first[i].get_id() != &r.0 || first[i].get_id_clone() != r.0 || first[i].venue() != r.2 {
            ctx.violation("id data", format!("{:?} became {:?}", r.0, first[i]));
        }
        if first[i].symbol_str() != r.1 {
            ctx.violation("id text", format!("{:?} instead of {:?}", first[i].symbol_str(), r.1));
        }
        if map.insert(first[i], i).is_some() {
            ctx.violation("id as a map key", format!("{:?} replaced another key", r.0));
        }
    }
    for i in 0..recs.len() {
        if map.get(&again[i]) != Some(&i) || map.get(&read[i]) != Some(&i) {
            ctx.violation("id as a map key", format!("{:?} is not found", recs[i].0));
        }
        for j in 0..recs.len() {
            ctx.case();
            for x in [first[j], again[j], read[j]] {
                if (first[i] == x) != (i == j) || (i == j && h(&first[i]) != h(&x)) {
                    ctx.violation("id equality", format!("{:?} and {:?}", recs[i].0, recs[j].0));
                }
            }
        }
    }
    // ids of data never seen before, made by every sequence of the two ways
    let mut fresh = 0;
    for n in 2..=4usize {
        for ways in 0..1usize << n {
            for (kind, v) in [(0, Venue::KRX), (1, Venue::KRX), (1, Venue::SI)] {
                ctx.case();
                fresh += 1;
                let t = format!("FR{fresh:010}");
                let symbol = if kind == 0 { Symbol::Isin(IsinCode::new(t.as_bytes()).unwrap()) } else { Symbol::Ticker(Ticker::new(t.as_bytes()).unwrap()) };
                let data = IdData { symbol, venue: v };
                let text = serde_json::to_string(&data).unwrap();
                let made: Vec<InstId> = (0..n)
                    .map(|k| match ways >> k & 1 {
                        0 => InstId::new(data.symbol.clone(), v),
                        _ => serde_json::from_str(&text).unwrap_or_else(|e| panic!("{text}: {e}")),
                    })
                    .collect();
                let mut m: FxHashMap<InstId, usize> = FxHashMap::default();
                for (k, a) in made.iter().enumerate() {
                    m.insert(*a, k);
                    if a.get_id() != &data || made.iter().any(|b| a != b || h(a) != h(b)) || m.len() != 1 || m.get(&made[0]) != Some(&k) || first.contains(a) {
                        ctx.violation("id equality", format!("{data:?} made as {ways:0n$b} (1: read): {made:?}, {} keys", m.len()));
                    }
                }
            }
        }
    }
    let d = InstId::default();
    if d != InstId::new(Symbol::default(), Venue::default()) || d != InstId::default() || first.contains(&d) {
        ctx.violation("default id", format!("{d:?}"));
    }
    // instrument map: the last insertion wins, other ids are untouched
    let types = [InstType::Cash, InstType::Stock, InstType::Bond, InstType::EquityFutures, InstType::FxFutures, InstType::CommodityFutures, InstType::EquityOption, InstType::Swap, InstType::Crypto];
    let mut m = BaseInstMap::new();
    let mut want: FxHashMap<usize, BaseInstInfo> = FxHashMap::default();
    for k in 0..200usize {
        ctx.case();
        let i = (k * 7) % recs.len();
        let info = BaseInstInfo::new(types[k % types.len()], CURRENCIES[k % 7].0);
        m.insert(if k % 2 == 0 { again[i] } else { read[i] }, info);
        want.insert(i, info);
        for j in 0..recs.len() {
            if m.get(first[j]) != want.get(&j) {
                ctx.violation("instrument map", format!("after {} insertions {:?}: {:?} instead of {:?}", k + 1, recs[j].0, m.get(first[j]), want.get(&j)));
            }
        }
    }
}

const CURRENCIES: [(Currency, &str); 7] = [
    (Currency::KRW, "KRW"),
    (Currency::USD, "USD"),
    (Currency::EUR, "EUR"),
    (Currency::GBP, "GBP"),
    (Currency::JPY, "JPY"),
    (Currency::CNY, "CNY"),
    (Currency::HKD, "HKD"),
];

fn rt<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(ctx: &Ctx, x: &T) {
    ctx.case();
    let r = guarded(|| serde_json::from_str::<T>(&serde_json::to_string(x).unwrap()).map_err(|e| e.to_string())).and_then(|r| r);
    if r.as_ref().ok() != Some(x) {
        ctx.violation("serialization", format!("{x:?} reads back as {r:?}"));
    }
}

fn values(ctx: &Ctx) {
    for x in 0..=255u8 {
        ctx.cases(3);
        let side = OrderSide::from_u8(x).ok();
        let dt = DataType::from_u8(x).ok();
        let tt = TradeType::from_u8(x).ok();
        let ok = side == [None, Some(OrderSide::Ask), Some(OrderSide::Bid)].get(x as usize).copied().flatten()
            && dt == [None, Some(DataType::L1), Some(DataType::L2), Some(DataType::L3)].get(x as usize).copied().flatten()
            && tt == [Some(TradeType::Undefined), Some(TradeType::Sell), Some(TradeType::Buy)].get(x as usize).copied().flatten()
            && side.is_none_or(|s| s as u8 == x && s.opposite() != s && s.opposite().opposite() == s)
            && dt.is_none_or(|s| s as u8 == x)
            && tt.is_none_or(|s| s as u8 == x);
        if !ok {
            ctx.violation("enum from a number", format!("{x}: {side:?} {dt:?} {tt:?}"));
        }
    }
    for (c, t) in CURRENCIES {
        ctx.case();
        let want = format!("{t}000000000");
        if c.as_str() != t || c.as_isin_bytes() != want.as_bytes() || c.as_isin_code().as_str() != want {
            ctx.violation("currency", format!("{c:?}: {} {:?}", c.as_str(), c.as_isin_code()));
        }
        rt(ctx, &c);
    }
    for (v, t) in [(Venue::Undefined, "Undefined"), (Venue::CCP, "CCP"), (Venue::KRX, "KRX"), (Venue::KIS, "KIS"), (Venue::SI, "SI")] {
        if v.as_str() != t {
            ctx.violation("venue", format!("{v:?}: {}", v.as_str()));
        }
        rt(ctx, &v);
    }
    for start in [0u64, 1, 41, u64::MAX - 300] {
        let mut v = VirtualOrderId::new(start);
        for k in 0..256 {
            ctx.case();
            let got = v.next_id();
            if got != start + k {
                ctx.violation("virtual order id", format!("number {k} from {start}: {got}"));
            }
        }
        rt(ctx, &v);
    }
    // trade histories
    let items: Vec<(i64, u64)> = [-5i64, 0, 100, 30_001].iter().flat_map(|p| [1u64, 3, 1000, (1 << 33) + 1].map(|q| (*p, q))).collect();
    for n in 1..=3usize {
        product(&vec![items.len(); n], |ix| {
            ctx.case();
            let mut t = if ix[0] % 2 == 0 { TradeHistory::new() } else { TradeHistory::with_capacity(2) };
            let (mut s, mut q) = (0i64, 0u64);
            for (k, i) in ix.iter().enumerate() {
                let (p, x) = items[*i];
                t.push(p, x);
                s += p * x as i64;
                q += x;
                if t.len() != k + 1 || t.is_empty() || t.get_last_trade() != Some((p, x)) || t[k] != (p, x) || t[0] != items[ix[0]] {
                    ctx.violation("trade history", format!("{:?}: {t:?}", ix.iter().map(|i| items[*i]).collect::<Vec<_>>()));
                }
            }
            let want = s as f64 / q as f64;
            if (t.average_trade_price() - want).abs() > 1e-9 * want.abs() {
                ctx.violation("average trade price", format!("{t:?}: {} instead of {want}", t.average_trade_price()));
            }
            rt(ctx, &t);
        });
    }
    // level snapshots and instrument identifiers
    let mut levels = vec![];
    for price in [0i64, -1, 100] {
        for q in [0u64, 5] {
            for n in [None, Some(0), Some(3)] {
                for lp in [None, Some(0u64), Some(5)] {
                    levels.push((price, q, n, lp));
                }
            }
        }
    }
    let snap = |x: &(i64, u64, Option<OrderCount>, Option<u64>)| LevelSnapshot { book_price: x.0, book_quantity: x.1, order_count: x.2, lp_quantity: x.3 };
    for a in &levels {
        for b in &levels {
            ctx.case();
            let (x, y) = (snap(a), snap(b));
            if (x == y) != (a == b) || (x == &y) != (a == b) || (&x == y) != (a == b) || (x != y) != (a != b) {
                ctx.violation("equality of level snapshots", format!("{x:?} and {y:?}"));
            }
        }
        rt(ctx, &snap(a));
    }
    for v in [Venue::Undefined, Venue::CCP, Venue::KRX, Venue::KIS, Venue::SI] {
        for t in ["KR7005930003", "US0378331005"] {
            ctx.case();
            let i = InstrumentIdentifier::new(IsinCode::new(t.as_bytes()).unwrap(), v);
            let j: Option<InstrumentIdentifier> = serde_json::to_string(&i).ok().and_then(|s| serde_json::from_str(&s).ok());
            let ok = |i: &InstrumentIdentifier| i.get_isin_code().as_str() == t && i.get_venue() == v;
            if !ok(&i) || !j.as_ref().is_some_and(ok) {
                ctx.violation("instrument identifier", format!("{t} {v:?}: {i:?} {j:?}"));
            }
        }
    }
    // orders keep their fields
    for p in [-3i64, 0, 30_001, i64::MAX, i64::MIN] {
        for q in [0u64, 1, u64::MAX] {
            for s in [OrderSide::Ask, OrderSide::Bid] {
                for id in [0u64, 7, u64::MAX] {
                    let l = LimitOrder::new(p, q, s, id);
                    let r = RemoveAnyOrder::new(p, q, s);
                    let m = ModifyOrder::new(id, p, q);
                    let k = MarketOrder::new(q, s, id);
                    if (l.price, l.quantity, l.order_side, l.order_id) != (p, q, s, id)
                        || (r.price, r.quantity, r.order_side) != (p, q, s)
                        || (m.order_id, m.price, m.quantity) != (id, p, q)
                        || (k.quantity, k.order_side, k.order_id) != (q, s, id)
                        || CancelOrder::new(id).order_id != id
                    {
                        ctx.violation("order fields", format!("{p} {q} {s:?} {id}: {l:?} {r:?} {m:?} {k:?}"));
                    }
                    rt(ctx, &l);
                    rt(ctx, &r);
                    rt(ctx, &m);
                    rt(ctx, &k);
                    rt(ctx, &CancelOrder::new(id));
                    for e in [
                        OrderEnum::LimitOrder(l.clone()),
                        OrderEnum::RemoveAnyOrder(r.clone()),
                        OrderEnum::ModifyOrder(m.clone()),
                        OrderEnum::CancelOrder(CancelOrder::new(id)),
                        OrderEnum::NullOrder(NullOrder {}),
                    ] {
                        rt(ctx, &DecomposedOrder { order: e, timestamp: TimeStamp::new(id), id: InstId::new(Symbol::Isin(IsinCode::new(b"KR4101S60008").unwrap()), Venue::KRX) });
                    }
                }
            }
        }
    }
    ctx.sample("all enum bytes, ISIN byte substitutions, ticker lengths, id pairs");
}

pub fn t09(ctx: &Ctx) {
    isin(ctx);
    tickers(ctx);
    if ctx.run(|| "interning".into(), || ids(ctx)).is_none() {
        return;
    }
    values(ctx);
    ctx.assume("ticker texts do not themselves end in NUL characters");
}
