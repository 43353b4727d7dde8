//! T06: exchange messages decode to exactly the fields they carry.
use crate::util::*;
use trading_engine::data::krx::derivative_quote::*;
use trading_engine::data::krx::derivative_trade::*;
use trading_engine::data::krx::interface_map::KRX_TR_CODE_MAP;
use trading_engine::data::krx::stock_quote::*;
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade::TradeData;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::types::base::LevelSnapshot;
use trading_engine::types::enums::TradeType;
use trading_engine::types::id::InstId;
use trading_engine::types::timestamp::*;
use trading_engine::utils::numeric_converter::{OrderConverter};
use vcommon::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    D34,
    D35,
    S02,
    S03,
    D37,
    D38,
    D36,
}
use Kind::*;
const KINDS: [Kind; 7] = [D34, D35, S02, S03, D37, D38, D36];

impl Kind {
    fn len(self) -> usize {
        match self {
            D34 => 324,
            D35 => 554,
            S02 => 555,
            S03 => 795,
            D37 => 431,
            D38 => 661,
            D36 => 173,
        }
    }
    fn levels(self) -> usize {
        match self {
            D34 | D37 => 5,
            D36 => 0,
            _ => 10,
        }
    }
    fn start(self) -> usize {
        if self.has_trade() { 172 } else { 47 }
    }
    fn stock(self) -> bool {
        matches!(self, S02 | S03)
    }
    fn has_trade(self) -> bool {
        matches!(self, D36 | D37 | D38)
    }
    /// widths of the fields of one level, in order: prices, quantities, then counts or LP quantities
    fn widths(self) -> &'static [usize] {
        match self {
            S02 => &[11, 11, 12, 12],
            S03 => &[11, 11, 12, 12, 12, 12],
            _ => &[9, 9, 9, 9, 5, 5],
        }
    }
    fn quote_buffer(self) -> bool {
        matches!(self, D34 | D35 | S02 | S03)
    }
}

/// How the exchange writes a price, which depends on the market and the instrument.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Layout {
    code: &'static [u8; 5],
    isin: &'static [u8; 12],
    digits: usize,   // before the decimal point
    decimals: usize, // after it; 0: no point
    signed: bool,
}
const DERIV: &[Layout] = &[
    Layout { code: b"B601F", isin: b"KR4101S60008", digits: 5, decimals: 2, signed: true },
    Layout { code: b"G703F", isin: b"KR4301V13502", digits: 5, decimals: 2, signed: true },
    Layout { code: b"B604F", isin: b"KR4111S60007", digits: 8, decimals: 0, signed: true },
    Layout { code: b"G705F", isin: b"KR4169S60007", digits: 8, decimals: 0, signed: true },
    Layout { code: b"A310F", isin: b"KR4165S60005", digits: 8, decimals: 0, signed: true },
    Layout { code: b"B606F", isin: b"KR4169V30013", digits: 4, decimals: 3, signed: true },
];
const STOCK: &[Layout] = &[
    Layout { code: b"B601S", isin: b"KR7005930003", digits: 9, decimals: 0, signed: false },
    Layout { code: b"B704S", isin: b"KR4169V30013", digits: 9, decimals: 0, signed: false },
];

fn layouts(k: Kind) -> &'static [Layout] {
    if k.stock() { STOCK } else { DERIV }
}

#[derive(Clone, Debug)]
struct Msg {
    kind: Kind,
    layout: Layout,
    filler: u8,
    unused: u8,
    time_us: u64,
    /// level x field, prices signed
    levels: Vec<Vec<i64>>,
    trade: (i64, u64, u64, u8), // price, quantity, cumulative quantity, type byte
}

impl Msg {
    fn price_text(&self, v: i64) -> Vec<u8> {
        let l = &self.layout;
        let d = format!("{:0w$}", v.unsigned_abs(), w = l.digits + l.decimals);
        let mut t = vec![];
        if l.signed {
            t.push(if v < 0 { b'-' } else { b'0' });
        } else {
            t.extend([self.unused, self.unused]);
        }
        t.extend(&d.as_bytes()[..l.digits]);
        if l.decimals > 0 {
            t.push(b'.');
            t.extend(&d.as_bytes()[l.digits..]);
        }
        t
    }
    fn payload(&self) -> Vec<u8> {
        let k = self.kind;
        let mut p = vec![self.filler; k.len()];
        p[..5].copy_from_slice(self.layout.code);
        p[17..29].copy_from_slice(self.layout.isin);
        let s = self.time_us / 1_000_000;
        let t = format!("{:02}{:02}{:02}{:06}", s / 3600, s / 60 % 60, s % 60, self.time_us % 1_000_000);
        p[35..47].copy_from_slice(t.as_bytes());
        if k.has_trade() {
            p[47..56].copy_from_slice(&self.price_text(self.trade.0));
            p[56..65].copy_from_slice(format!("{:09}", self.trade.1).as_bytes());
            p[119..131].copy_from_slice(format!("{:012}", self.trade.2).as_bytes());
            p[153] = self.trade.3;
        }
        let mut at = k.start();
        for l in &self.levels {
            for (j, w) in k.widths().iter().enumerate() {
                let t = if j < 2 { self.price_text(l[j]) } else { format!("{:0w$}", l[j], w = w).into_bytes() };
                assert_eq!(t.len(), *w);
                p[at..at + w].copy_from_slice(&t);
                at += w;
            }
        }
        assert!(at < k.len());
        p[k.len() - 1] = 255;
        p
    }
    fn level(&self, i: usize, side: usize) -> LevelSnapshot {
        let l = &self.levels[i];
        LevelSnapshot {
            book_price: l[side],
            book_quantity: l[2 + side] as u64,
            order_count: if self.kind.stock() { None } else { Some(l[4 + side] as u32) },
            lp_quantity: if self.kind == S03 { Some(l[4 + side] as u64) } else { None },
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Opt {
    cut: usize,
    cum: bool,
}

enum Buf {
    Q(QuoteSnapshot),
    T(TradeQuoteSnapshot),
    D(TradeData),
}

const DATE: u64 = 20_000 * DAY_NANOSCALE;

fn gen() -> DateUnixNanoGenerator {
    DateUnixNanoGenerator::from_unixnano(DATE)
}

fn es<T>(r: anyhow::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("error {e}"))
}

fn fresh(k: Kind, o: Opt, p: &[u8], g: &mut DateUnixNanoGenerator) -> Result<Buf, String> {
    Ok(match k {
        D34 => Buf::Q(es(es(IFMSRPD0034::default().with_quote_level_cut(o.cut))?.to_quote_snapshot(p, g))?),
        D35 => Buf::Q(es(es(IFMSRPD0035::default().with_quote_level_cut(o.cut))?.to_quote_snapshot(p, g))?),
        S02 => Buf::Q(es(es(IFMSRPD0002::default().with_quote_level_cut(o.cut))?.to_quote_snapshot(p, g))?),
        S03 => Buf::Q(es(es(IFMSRPD0003::default().with_quote_level_cut(o.cut))?.to_quote_snapshot(p, g))?),
        D37 => Buf::T(es(es(IFMSRPD0037::default().with_quote_level_cut(o.cut))?.with_cum_trd_qnt(o.cum).to_trade_quote_snapshot(p, g))?),
        D38 => Buf::T(es(es(IFMSRPD0038::default().with_quote_level_cut(o.cut))?.with_cum_trd_qnt(o.cum).to_trade_quote_snapshot(p, g))?),
        D36 => Buf::D(es(IFMSRPD0036::default().with_cum_trd_qnt(o.cum).to_trade_data(p, g))?),
    })
}

fn into_buffer(k: Kind, o: Opt, p: &[u8], b: &mut Buf, g: &mut DateUnixNanoGenerator) -> Result<(), String> {
    match (k, b) {
        (D34, Buf::Q(b)) => es(es(IFMSRPD0034::default().with_quote_level_cut(o.cut))?.to_quote_snapshot_buffer(p, b, g)),
        (D35, Buf::Q(b)) => es(es(IFMSRPD0035::default().with_quote_level_cut(o.cut))?.to_quote_snapshot_buffer(p, b, g)),
        (S02, Buf::Q(b)) => es(es(IFMSRPD0002::default().with_quote_level_cut(o.cut))?.to_quote_snapshot_buffer(p, b, g)),
        (S03, Buf::Q(b)) => es(es(IFMSRPD0003::default().with_quote_level_cut(o.cut))?.to_quote_snapshot_buffer(p, b, g)),
        (D37, Buf::T(b)) => es(es(IFMSRPD0037::default().with_quote_level_cut(o.cut))?.with_cum_trd_qnt(o.cum).to_trade_quote_snapshot_buffer(p, b, g)),
        (D38, Buf::T(b)) => es(es(IFMSRPD0038::default().with_quote_level_cut(o.cut))?.with_cum_trd_qnt(o.cum).to_trade_quote_snapshot_buffer(p, b, g)),
        (D36, Buf::D(b)) => es(IFMSRPD0036::default().with_cum_trd_qnt(o.cum).to_trade_data_buffer(p, b, g)),
        _ => unreachable!(),
    }
}

fn empty_buffer(k: Kind, n: usize) -> Buf {
    if k == D36 {
        Buf::D(TradeData::default())
    } else if k.quote_buffer() {
        Buf::Q(QuoteSnapshot::with_quote_level(n))
    } else {
        Buf::T(TradeQuoteSnapshot::with_quote_level(n))
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: decoded {got:?}, the message carries {want:?}")) }
}

fn check_converter(c: &OrderConverter, m: &Msg) -> Result<(), String> {
    let l = &m.layout;
    let units = 10i64.pow(l.digits as u32 + l.decimals as u32 - 1) * 3 + 7;
    eq("price through the snapshot's converter", c.price.to_i64(&m.price_text(units)), units)?;
    let q = format!("{:0w$}", 1234567, w = m.kind.widths()[2]);
    eq("quantity through the snapshot's converter", c.quantity.to_u64(q.as_bytes()), 1234567)
}

fn check(m: &Msg, o: Opt, b: &Buf) -> Result<(), String> {
    let want_id = inst(m.layout.isin);
    let want_ts = DATE + m.time_us * 1000 + 9 * HOUR_NANOSCALE;
    let (id, ts, asks, bids, eff_a, eff_b, cut, lp): (InstId, u64, &[LevelSnapshot], &[LevelSnapshot], &[LevelSnapshot], &[LevelSnapshot], usize, _) = match b {
        Buf::Q(s) => (s.id, s.timestamp.stamp, &s.ask_quote_data, &s.bid_quote_data, s.effective_ask_data(), s.effective_bid_data(), s.quote_level_cut, s.all_lp_holdings),
        Buf::T(s) => (s.id, s.timestamp.stamp, &s.ask_quote_data, &s.bid_quote_data, s.effective_ask_data(), s.effective_bid_data(), s.quote_level_cut, s.all_lp_holdings),
        Buf::D(s) => (s.id, s.timestamp.stamp, &[], &[], &[], &[], 0, None),
    };
    eq("instrument", id, want_id)?;
    eq("venue", id.venue(), trading_engine::types::venue::Venue::KRX)?;
    eq("time stamp", ts, want_ts)?;
    let conv = match b {
        Buf::Q(s) => s.order_converter,
        Buf::T(s) => s.order_converter,
        Buf::D(s) => s.order_converter,
    };
    check_converter(conv, m)?;
    if m.kind != D36 {
        eq("number of levels", cut, o.cut)?;
        eq("LP holdings", lp, None)?;
        for i in 0..o.cut {
            eq(&format!("ask level {}", i + 1), asks[i], m.level(i, 0))?;
            eq(&format!("bid level {}", i + 1), bids[i], m.level(i, 1))?;
        }
        eq("effective ask levels", eff_a, &asks[..o.cut])?;
        eq("effective bid levels", eff_b, &bids[..o.cut])?;
    }
    let tr = match b {
        Buf::T(s) => Some((s.trade_price, s.trade_quantity, s.trade_type, s.cumulative_trade_quantity)),
        Buf::D(s) => Some((s.trade_price, s.trade_quantity, s.trade_type, s.cumulative_trade_quantity)),
        _ => None,
    };
    if let Some((p, q, t, c)) = tr {
        eq("trade price", p, m.trade.0)?;
        eq("trade quantity", q, m.trade.1)?;
        let want = match m.trade.3 {
            b'0' => TradeType::Undefined,
            b'1' => TradeType::Sell,
            _ => TradeType::Buy,
        };
        eq("trade type", t, Some(want))?;
        eq("cumulative traded quantity", c, if o.cum { Some(m.trade.2) } else { None })?;
    }
    if let Buf::D(s) = b {
        let want = s.order_converter.price.normalized_real_from_i64(m.trade.0);
        eq("normalized trade price", s.to_normalized_real(), want)?;
    }
    Ok(())
}

fn maxp(l: &Layout) -> i64 {
    10i64.pow((l.digits + l.decimals) as u32) - 1
}

/// Value of field j of level i under a pattern.
fn pattern(k: Kind, l: &Layout, pat: usize) -> Msg {
    let w = k.widths();
    let m = |j: usize| if j < 2 { maxp(l) } else { 10i64.pow(w[j] as u32) - 1 };
    let sgn = |j: usize, x: i64| if j < 2 && l.signed { -x } else { x };
    let levels = (0..k.levels())
        .map(|i| {
            (0..w.len())
                .map(|j| match pat {
                    0 => ((i * w.len() + j) as i64 * 1009 + 11) % (m(j) + 1),
                    1 => 0,
                    2 => m(j),
                    3 => sgn(j, ((i * w.len() + j) as i64 * 7919 + 3) % (m(j) + 1)),
                    4 => sgn(j, m(j)),
                    _ => if (i + j) % 2 == 0 { m(j) } else { sgn(j, 1) },
                })
                .collect()
        })
        .collect();
    let mp = maxp(l);
    let trade = match pat {
        0 => (12345 % mp, 77, 123_456_789_012, b'1'),
        1 => (0, 0, 0, b'0'),
        2 => (mp, 999_999_999, 999_999_999_999, b'2'),
        3 => (if l.signed { -543 } else { 543 }, 10, 10, b'1'),
        4 => (if l.signed { -mp } else { mp }, 1, 1, b' '),
        _ => (1, 100_000_000, 100_000_000_000, b'0'),
    };
    Msg { kind: k, layout: *l, filler: [b'0', b'9', b' ', 0xff, 0, b'x'][pat % 6], unused: [b'0', b'9', b' '][pat % 3], time_us: [0, 86_399_999_999, 56_104_939_081, 1, 43_200_000_000, 9 * 3_600_000_000][pat % 6], levels, trade }
}

fn opts(k: Kind) -> Vec<Opt> {
    let mut v = vec![];
    for cut in 0..=k.levels() {
        for cum in if k.has_trade() { vec![false, true] } else { vec![false] } {
            v.push(Opt { cut, cum });
        }
    }
    v
}

/// A reused buffer as a previous message of another kind would have left it.
fn dirty(k: Kind, n: usize, salt: u64) -> Buf {
    let lv: Vec<LevelSnapshot> = (0..n)
        .map(|i| LevelSnapshot { order_count: Some(40_000 + i as u32), book_price: -(salt as i64) - 3, book_quantity: 9_999 + salt, lp_quantity: Some(55 + i as u64) })
        .collect();
    match empty_buffer(k, n) {
        Buf::Q(mut s) => {
            s.id = inst(b"KR0000000000");
            s.ask_quote_data = lv.clone();
            s.bid_quote_data = lv;
            s.quote_level_cut = n / 2;
            s.all_lp_holdings = Some(5);
            s.timestamp = TimeStamp { stamp: 4 };
            Buf::Q(s)
        }
        Buf::T(mut s) => {
            s.id = inst(b"KR0000000000");
            s.ask_quote_data = lv.clone();
            s.bid_quote_data = lv;
            s.quote_level_cut = n / 2;
            s.all_lp_holdings = Some(5);
            s.cumulative_trade_quantity = Some(6);
            s.trade_price = 7;
            s.trade_quantity = 8;
            s.timestamp = TimeStamp { stamp: 4 };
            Buf::T(s)
        }
        Buf::D(mut s) => {
            s.trade_price = 7;
            s.trade_quantity = 8;
            s.cumulative_trade_quantity = Some(6);
            s.trade_type = None;
            s.id = inst(b"KR0000000000");
            Buf::D(s)
        }
    }
}

fn decode(m: &Msg, o: Opt, how: usize) -> Result<(), String> {
    let p = m.payload();
    match how {
        0 => check(m, o, &fresh(m.kind, o, &p, &mut gen())?),
        1 => {
            let mut b = empty_buffer(m.kind, o.cut);
            into_buffer(m.kind, o, &p, &mut b, &mut gen())?;
            check(m, o, &b)
        }
        _ => {
            let n = m.kind.levels() + 2;
            let mut b = dirty(m.kind, n, how as u64);
            into_buffer(m.kind, o, &p, &mut b, &mut gen())?;
            check(m, o, &b)?;
            if let (Buf::Q(b), Buf::Q(d)) = (&b, dirty(m.kind, n, how as u64)) {
                eq("levels beyond the cut", &b.ask_quote_data[o.cut..], &d.ask_quote_data[o.cut..])?;
                eq("levels beyond the cut", &b.bid_quote_data[o.cut..], &d.bid_quote_data[o.cut..])?;
            }
            Ok(())
        }
    }
}

fn report(ctx: &Ctx, what: &str, m: &Msg, o: Opt, r: Result<Result<(), String>, String>) {
    if let Err(e) = r.and_then(|r| r) {
        ctx.violation(
            &format!("{what} {:?}", m.kind),
            format!("{:?} cut {} cum {}: {e}\npayload: {:?}", m.kind, o.cut, o.cum, String::from_utf8_lossy(&m.payload())),
        );
    }
}

pub fn t06(ctx: &Ctx) {
    let mut tasks = vec![];
    for k in KINDS {
        for l in layouts(k) {
            for pat in 0..6 {
                tasks.push((k, *l, pat));
            }
        }
    }
    // every level cut, price layout and value pattern; fresh, exact buffer, reused larger buffer
    ctx.par_for(tasks.len(), |t| {
        let (k, l, pat) = tasks[t];
        for filler in [b'0', b'9', b' ', 0xff, b'-', b'.'] {
            let mut m = pattern(k, &l, pat);
            m.filler = filler;
            for o in opts(k) {
                for how in 0..3 {
                    report(ctx, ["decode", "decode into a buffer", "decode into a reused buffer"][how], &m, o, guarded(|| decode(&m, o, how)));
                    ctx.case();
                }
            }
        }
        if pat == 3 {
            ctx.sample(String::from_utf8_lossy(&pattern(k, &l, 3).payload()).to_string());
        }
    });
    // one field at a time, every digit position of it
    let mut tasks = vec![];
    for k in KINDS {
        for l in layouts(k) {
            tasks.push((k, *l));
        }
    }
    let full = true;
    ctx.par_for(tasks.len(), |t| {
        let (k, l) = tasks[t];
        let base = pattern(k, &l, 1);
        let one = |m: &Msg, i: usize| {
            let cuts: Vec<Opt> = if full { opts(k) } else { opts(k).into_iter().filter(|o| o.cut == k.levels() || o.cut == i || o.cut == i + 1).collect() };
            for o in cuts {
                for how in 0..3 {
                    report(ctx, "single field", m, o, guarded(|| decode(m, o, how)));
                    ctx.case();
                }
            }
        };
        for i in 0..k.levels() {
            for (j, w) in k.widths().iter().enumerate() {
                let nd = if j < 2 { l.digits + l.decimals } else { *w };
                for d in 0..nd {
                    for x in if full { 1..10 } else { 9..10 } {
                        let mut m = base.clone();
                        m.levels[i][j] = x * 10i64.pow(d as u32);
                        one(&m, i);
                        if j < 2 && l.signed {
                            m.levels[i][j] *= -1;
                            one(&m, i);
                        }
                    }
                }
            }
        }
        if k.has_trade() {
            for d in 0..12u32 {
                for x in 1..10i64 {
                    let mut m = base.clone();
                    if (d as usize) < l.digits + l.decimals {
                        m.trade.0 = x * 10i64.pow(d) * if x % 2 == 0 { -1 } else { 1 };
                    }
                    if d < 9 {
                        m.trade.1 = x as u64 * 10u64.pow(d);
                    }
                    m.trade.2 = x as u64 * 10u64.pow(d);
                    one(&m, 0);
                }
            }
            for t in 0..=255u8 {
                let mut m = pattern(k, &l, 0);
                m.trade.3 = t;
                one(&m, 0);
            }
        }
        for s in (0..86_400).step_by(if full { 1 } else { 61 }) {
            let mut m = pattern(k, &l, 0);
            m.time_us = s * 1_000_000 + (s * 7919) % 1_000_000;
            report(ctx, "time of day", &m, Opt { cut: 1.min(k.levels()), cum: true }, guarded(|| decode(&m, Opt { cut: 1.min(k.levels()), cum: true }, (s % 3) as usize)));
            ctx.case();
        }
    });
    // one buffer reused over every ordered pair (thorough: triple) of different messages
    let mut msgs: Vec<(Msg, Opt)> = vec![];
    for k in KINDS {
        for (li, l) in layouts(k).iter().enumerate() {
            for (pat, cut, cum) in [(0, k.levels(), true), (3, 1, false), (5, k.levels() / 2, false), (4, 0, true)] {
                if !full && (li + pat) % 3 == 0 && li > 1 {
                    continue;
                }
                msgs.push((pattern(k, l, pat), Opt { cut: cut.min(k.levels()), cum }));
            }
        }
    }
    let class = |k: Kind| if k == D36 { 2 } else if k.quote_buffer() { 0 } else { 1 };
    let n = msgs.len();
    ctx.par_for(n * n, |ij| {
        let (a, b) = (ij / n, ij % n);
        if class(msgs[a].0.kind) != class(msgs[b].0.kind) {
            return;
        }
        let thirds: Vec<usize> = if full { (0..n).filter(|c| class(msgs[*c].0.kind) == class(msgs[a].0.kind)).collect() } else { vec![a] };
        for c in thirds {
            let mut buf = empty_buffer(msgs[a].0.kind, 10);
            for (step, x) in [a, b, c].iter().enumerate() {
                let (m, o) = &msgs[*x];
                let r = guarded(|| {
                    into_buffer(m.kind, *o, &m.payload(), &mut buf, &mut gen())?;
                    check(m, *o, &buf)
                });
                if r != Ok(Ok(())) {
                    report(ctx, "reused buffer", m, *o, r.map_err(|e| format!("after {:?} ({step} messages before): {e}", msgs[a].0.kind)));
                    break;
                }
            }
            ctx.states_add(3);
            ctx.trans_add(3);
            ctx.traces_add(1);
        }
    });
    malformed(ctx);
    codes(ctx);
}

fn snapshot_of(b: &Buf) -> String {
    match b {
        Buf::Q(s) => format!("{:?}{:?}{:?}{:?}{:?}{:?}", s.id, s.timestamp, s.ask_quote_data, s.bid_quote_data, s.quote_level_cut, s.all_lp_holdings),
        Buf::T(s) => format!("{:?}{:?}{:?}{:?}{:?}{:?}{:?}", s.id, s.timestamp, s.ask_quote_data, s.bid_quote_data, s.quote_level_cut, s.trade_price, s.cumulative_trade_quantity),
        Buf::D(s) => format!("{:?}{:?}{:?}{:?}", s.id, s.timestamp, s.trade_price, s.cumulative_trade_quantity),
    }
}

/// Payloads that are not a message of the kind are refused, without a panic and without touching the buffer.
fn malformed(ctx: &Ctx) {
    ctx.par_for(KINDS.len(), |ki| {
        let k = KINDS[ki];
        let l = &layouts(k)[0];
        let good = pattern(k, l, 0).payload();
        let refuse = |p: &[u8], what: &str| {
            for o in [Opt { cut: k.levels(), cum: true }, Opt { cut: 0, cum: false }] {
                ctx.case();
                let key = || format!("malformed {k:?}");
                match guarded(|| fresh(k, o, p, &mut gen()).is_err()) {
                    Ok(true) => {}
                    Ok(false) => ctx.violation(&key(), format!("{what}: a payload of {} bytes ending in {:?} was accepted", p.len(), p.last())),
                    Err(e) => ctx.violation(&key(), format!("{what}, {} bytes: {e}", p.len())),
                }
                let mut b = dirty(k, 12, 1);
                let before = snapshot_of(&b);
                match guarded(|| into_buffer(k, o, p, &mut b, &mut gen()).is_err()) {
                    Ok(true) if snapshot_of(&b) == before => {}
                    Ok(true) => ctx.violation(&key(), format!("{what}: refused, but the buffer changed")),
                    Ok(false) => ctx.violation(&key(), format!("{what}: a payload of {} bytes was accepted into a buffer", p.len())),
                    Err(e) => ctx.violation(&key(), format!("{what} into a buffer, {} bytes: {e}", p.len())),
                }
            }
        };
        for len in 0..=k.len() + 40 {
            if len == k.len() {
                continue;
            }
            for fill in [b'0', 0xff, 0xc3, b'G'] {
                let mut p = good.clone();
                p.resize(len, fill);
                if let Some(x) = p.last_mut() {
                    *x = 255;
                }
                refuse(&p, "wrong length");
                if fill != b'0' {
                    let p = vec![fill; len];
                    refuse(&p, "garbage");
                }
            }
        }
        for other in KINDS {
            if other.len() != k.len() {
                refuse(&pattern(other, &layouts(other)[0], 0).payload(), "another kind of message");
            }
        }
        for e in 0..255u8 {
            for body in [None, Some(0xffu8), Some(0xc3)] {
                let mut p = good.clone();
                if let Some(b) = body {
                    p.fill(b);
                }
                *p.last_mut().unwrap() = e;
                refuse(&p, "wrong end byte");
            }
        }
        // an ISIN that cannot be one
        for (i, x) in [(17, b' '), (28, b' '), (20, b'\t'), (17, 0xc3), (28, 0xff)] {
            let mut p = good.clone();
            p[i] = x;
            refuse(&p, "invalid ISIN");
        }
        // more levels than the message has
        for cut in k.levels() + 1..k.levels() + 8 {
            if k == D36 {
                continue;
            }
            ctx.case();
            let r = guarded(|| fresh(k, Opt { cut, cum: false }, &good, &mut gen()).is_err());
            if r != Ok(true) {
                ctx.violation(&format!("level cut {k:?}"), format!("a cut of {cut} levels: {r:?}"));
            }
        }
        // buffers too small on either side
        for cut in 1..=k.levels() {
            for na in 0..=cut {
                for nb in 0..=cut {
                    if na == cut && nb == cut {
                        continue;
                    }
                    ctx.case();
                    let mut b = dirty(k, 10, 2);
                    match &mut b {
                        Buf::Q(s) => {
                            s.ask_quote_data.truncate(na);
                            s.bid_quote_data.truncate(nb);
                            s.quote_level_cut = 0;
                        }
                        Buf::T(s) => {
                            s.ask_quote_data.truncate(na);
                            s.bid_quote_data.truncate(nb);
                            s.quote_level_cut = 0;
                        }
                        Buf::D(_) => continue,
                    }
                    let before = snapshot_of(&b);
                    let r = guarded(|| into_buffer(k, Opt { cut, cum: true }, &good, &mut b, &mut gen()).is_err());
                    if r != Ok(true) || snapshot_of(&b) != before {
                        ctx.violation(&format!("small buffer {k:?}"), format!("{na} ask and {nb} bid levels for {cut}: {r:?}, buffer {}", if snapshot_of(&b) == before { "unchanged" } else { "changed" }));
                    }
                }
            }
        }
    });
}

/// The table of message codes names the interface whose layout those messages have.
fn codes(ctx: &Ctx) {
    for a in [b'A', b'B', b'G', b'C', b'M'] {
        for n in 0..1000u32 {
            for m in b'A'..=b'Z' {
                let code = format!("{}{n:03}{}", a as char, m as char);
                ctx.case();
                let got = KRX_TR_CODE_MAP.get(code.as_bytes()).copied();
                let und = n % 100;
                let want: Option<&str> = match (a, n / 100, m) {
                    (b'B', 6, b'F') if und == 4 || und == 5 => Some("IFMSRPD0035"),
                    (b'B', 6, b'F') => Some("IFMSRPD0034"),
                    (b'G', 7, b'F') if und == 4 || und == 5 => Some("IFMSRPD0038"),
                    (b'G', 7, b'F') => Some("IFMSRPD0037"),
                    (b'A', 3, b'F') => Some("IFMSRPD0036"),
                    (b'B', 6, b'S' | b'Q' | b'X') => Some("IFMSRPD0002"),
                    (b'B', 7, b'S') => Some("IFMSRPD0003"),
                    (b'A', 3, b'S' | b'Q' | b'X') => Some("IFMSRPD0004"),
                    (b'B', 6, b'B' | b'K') => Some("IFMSRPD0023"),
                    (b'A', 3, b'B' | b'M' | b'K') => Some("IFMSRPD0027"),
                    (b'G', 7, b'B' | b'K') => Some("IFMSRPD0029"),
                    _ => None,
                };
                // a code may be missing, but it must not name another layout
                if got.is_some() && got != want {
                    ctx.violation(&format!("message code {code}"), format!("maps to {got:?}, its layout is {want:?}"));
                }
                let known = (m == b'F' && (1..=13).contains(&und) && ((a == b'G' && n / 100 == 7) || (a == b'B' && n / 100 == 6) || (a == b'A' && n / 100 == 3)))
                    || ["B601S", "B601Q", "B601X", "B702S", "B703S", "B704S", "A301S", "A301Q", "A301X", "B601B", "B601K", "A301B", "A301K", "A301M", "G701B", "G701K"].contains(&code.as_str());
                if known && got != want {
                    ctx.violation(&format!("message code {code}"), format!("maps to {got:?}, its layout is {want:?}"));
                }
            }
        }
    }
}
