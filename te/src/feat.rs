//! T08: streaming features computed from quotes and trades.
use crate::util::*;
use serde_json::Value;
use trading_engine::data::get_default_order_converter;
use trading_engine::data::krx::krx_converter::*;
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade::TradeData;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::feature::tick::*;
use trading_engine::feature::weight::TimeSeriesWeight;
use trading_engine::feature::weighted_valuation::{EWMA, EWMS};
use trading_engine::types::base::LevelSnapshot;
use trading_engine::types::id::isin_code::IsinCode;
use trading_engine::types::timestamp::*;
use trading_engine::utils::numeric_converter::OrderConverter;
use vcommon::*;

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1.0 + a.abs() + b.abs())
}

fn weights(ctx: &Ctx) {
    let scales = [
        (TimeScale::Micro, MICRO_NANOSCALE),
        (TimeScale::Milli, MILLI_NANOSCALE),
        (TimeScale::Second, SECOND_NANOSCALE),
        (TimeScale::Minute, MINUTE_NANOSCALE),
        (TimeScale::Hour, HOUR_NANOSCALE),
        (TimeScale::Day, DAY_NANOSCALE),
    ];
    let vals = [1.0, -2.5, 0.0, 1000.0];
    // multiples of half the time scale
    let steps: &[u64] = &[0, 1, 2, 3, 10];
    let depth = ctx.pick(4, 5);
    let ws = [0.0, 0.25, 0.5, 0.9, 0.999, 1.0];
    let n = (vals.len() * steps.len()).pow(depth as u32);
    ctx.par_for(n, |k| {
        let mut seq = vec![];
        let mut r = k;
        for _ in 0..depth {
            seq.push((vals[r % vals.len()], steps[(r / vals.len()) % steps.len()]));
            r /= vals.len() * steps.len();
        }
        for (wi, w) in ws.iter().enumerate() {
            let (sc, unit) = scales[(k + wi) % scales.len()];
            let tw = TimeSeriesWeight { weight: *w, scale: sc };
            let t0 = 1_700_000_000_000_000_000u64;
            let mut a = EWMA::new(tw, 3.0, TimeStamp::new(t0));
            let mut s = EWMS::new(tw, TimeStamp::new(t0));
            // the averages restated from the definition: every value decays with its age
            let mut t = t0;
            let mut hist: Vec<(f64, f64, u64)> = vec![(3.0, 0.0, t0)]; // value, share on arrival, time
            let mut sums: Vec<(f64, u64)> = vec![];
            let pw = |dt: u64| w.powf(dt as f64 / unit as f64);
            for (i, (v, st)) in seq.iter().enumerate() {
                let dt = st * unit / 2;
                t += dt;
                hist.push((*v, 1.0 - pw(dt), t));
                sums.push((*v, t));
                a.update(*v, TimeStamp::new(t));
                s.update(*v, TimeStamp::new(t));
                let want_a: f64 = hist.iter().enumerate().map(|(j, (x, share, at))| x * if j == 0 { pw(t - at) } else { share * pw(t - at) }).sum();
                let want_s: f64 = sums.iter().map(|(x, at)| x * pw(t - at)).sum();
                if !close(a.get_value(), want_a) {
                    ctx.violation("weighted average", format!("weight {w} per {sc:?}, updates (value, half units since the previous) {:?}: {} instead of {want_a}", &seq[..=i], a.get_value()));
                }
                if !close(s.get_value(), want_s) {
                    ctx.violation("weighted sum", format!("weight {w} per {sc:?}, updates (value, half units since the previous) {:?}: {} instead of {want_s}", &seq[..=i], s.get_value()));
                }
            }
            ctx.states_add(2 * depth as u64);
            ctx.trans_add(2 * depth as u64);
            ctx.traces_add(2);
        }
    });
    ctx.sample(format!("EWMA/EWMS: all {n} sequences of {depth} updates, 6 weights, 6 time scales"));
    // the default average and sum start at nothing
    for t in [0u64, 1, 1_700_000_000_000_000_000] {
        for v in vals {
            ctx.case();
            ctx.run(|| "default average".into(), || {
                let (mut a, mut s) = (EWMA::default(), EWMS::default());
                let start = (a.get_value(), s.get_value());
                a.update(v, TimeStamp::new(t));
                s.update(v, TimeStamp::new(t));
                // weight 0: everything older than the newest value is forgotten
                let want_a = if t == 0 { 0.0 } else { v };
                if start != (0.0, 0.0) || a.get_value() != want_a || s.get_value() != v {
                    ctx.violation("default average", format!("starts at {start:?}; {v} at {t} ns gives {} and {}", a.get_value(), s.get_value()));
                }
            });
        }
    }
    for (sc, unit) in scales {
        for w in ws {
            for num in [0u64, 1, 2, 3, 7, 1000] {
                ctx.case();
                let tw = TimeSeriesWeight { weight: w, scale: sc };
                let p = TimeStamp::new(5 * DAY_NANOSCALE);
                let c = TimeStamp::new(5 * DAY_NANOSCALE + num * unit / 2);
                let got = tw.apply(p, c);
                let want = w.powf(num as f64 / 2.0);
                if !close(got, want) {
                    ctx.violation("weight of an interval", format!("{w} over {num} half units of {sc:?}: {got} instead of {want}"));
                }
                if !close(TimeSeriesWeight::current_weight(got) + TimeSeriesWeight::previous_weight(got), 1.0) || TimeSeriesWeight::previous_weight(got) != got {
                    ctx.violation("shares of an interval", format!("{got}"));
                }
            }
        }
    }
}

type L = (i64, u64);

fn lv(x: &[L]) -> Vec<LevelSnapshot> {
    x.iter().map(|(p, q)| LevelSnapshot { order_count: Some(1), book_price: *p, book_quantity: *q, lp_quantity: None }).collect()
}

fn quote(b: &[L], a: &[L], cut: usize, conv: &'static OrderConverter, t: u64) -> QuoteSnapshot {
    QuoteSnapshot {
        id: inst(b"KR4101S60008"),
        timestamp: TimeStamp::new(t),
        system_timestamp: TimeStamp::new(t + 3),
        bid_quote_data: lv(b),
        ask_quote_data: lv(a),
        quote_level_cut: cut,
        order_converter: conv,
        ..QuoteSnapshot::default()
    }
}
fn tquote(b: &[L], a: &[L], cut: usize, conv: &'static OrderConverter, t: u64) -> TradeQuoteSnapshot {
    TradeQuoteSnapshot {
        id: inst(b"KR4101S60008"),
        timestamp: TimeStamp::new(t),
        system_timestamp: TimeStamp::new(t + 3),
        bid_quote_data: lv(b),
        ask_quote_data: lv(a),
        quote_level_cut: cut,
        order_converter: conv,
        trade_price: 5,
        trade_quantity: 6,
        ..TradeQuoteSnapshot::default()
    }
}

struct Side {
    p: Vec<f64>,
    q: Vec<f64>,
}

fn side(x: &[L], cut: usize, c: &OrderConverter) -> Side {
    Side {
        p: x[..cut].iter().map(|l| c.price.normalized_real_from_i64(l.0)).collect(),
        q: x[..cut].iter().map(|l| c.quantity.normalized_real_from_u64(l.1)).collect(),
    }
}

fn num(v: &Value) -> f64 {
    v.as_f64().unwrap()
}

/// What a SimpleQuotes made from the levels must say.
fn check_quotes(s: &SimpleQuotes, b: &[L], a: &[L], cut: usize, c: &OrderConverter, t: u64) -> Result<(), String> {
    let (bs, as_) = (side(b, cut, c), side(a, cut, c));
    let j = serde_json::to_value(s).unwrap();
    for (name, want) in [("bids", &bs), ("asks", &as_)] {
        let got = j[name].as_array().unwrap();
        if got.len() != cut {
            return Err(format!("{} {name} levels instead of {cut}", got.len()));
        }
        for i in 0..cut {
            if !close(num(&got[i]["price"]), want.p[i]) || !close(num(&got[i]["quantity"]), want.q[i]) {
                return Err(format!("{name} level {}: {} instead of ({}, {})", i + 1, got[i], want.p[i], want.q[i]));
            }
        }
    }
    if j["level_cut"] != Value::from(cut) {
        return Err(format!("level cut {} instead of {cut}", j["level_cut"]));
    }
    if j["timestamp"]["stamp"] != Value::from(t) {
        return Err(format!("time stamp {} instead of {t}", j["timestamp"]));
    }
    if j["system_time"]["stamp"] != Value::from(t + 3) {
        return Err(format!("system time {} instead of {}", j["system_time"], t + 3));
    }
    let best = |s: &Side| (0..cut).find(|i| s.q[*i] > 0.0).map(|i| s.p[i]);
    let (bb, ba) = (best(&bs), best(&as_));
    let same = |x: Option<f64>, y: Option<f64>| match (x, y) {
        (Some(x), Some(y)) => close(x, y),
        (None, None) => true,
        _ => false,
    };
    for (name, got, want) in [
        ("best bid", s.best_bid_price(), bb),
        ("best ask", s.best_ask_price(), ba),
        ("mid price", s.mid_price(), bb.zip(ba).map(|(x, y)| (x + y) / 2.0)),
    ] {
        if !same(got, want) {
            return Err(format!("{name} {got:?} instead of {want:?}"));
        }
    }
    let tq: f64 = bs.q.iter().chain(&as_.q).sum();
    let tv: f64 = bs.q.iter().zip(&bs.p).chain(as_.q.iter().zip(&as_.p)).map(|(q, p)| q * p).sum();
    let v = s.vwap();
    let asks_empty = as_.q.iter().all(|q| *q == 0.0);
    // one-sided books without asks have no vwap by the code's convention; nothing is claimed there
    if tq == 0.0 && v.is_some() {
        return Err(format!("vwap {v:?} of empty quotes"));
    }
    if !asks_empty && !same(v, Some(tv / tq)) {
        return Err(format!("vwap {v:?} instead of {}", tv / tq));
    }
    Ok(())
}

fn ofi(prev: &Side, cur: &Side, i: usize, bid: bool) -> f64 {
    let up = cur.p[i] > prev.p[i];
    let same = cur.p[i] == prev.p[i];
    if same {
        cur.q[i] - prev.q[i]
    } else if up == bid {
        cur.q[i]
    } else {
        -prev.q[i]
    }
}
fn ln_ofi(prev: &Side, cur: &Side, i: usize, bid: bool) -> Option<f64> {
    if prev.q[i] <= 0.0 || cur.q[i] <= 0.0 {
        return None;
    }
    let up = cur.p[i] > prev.p[i];
    Some(if cur.p[i] == prev.p[i] {
        (cur.q[i] / prev.q[i]).ln()
    } else if up == bid {
        cur.q[i].ln()
    } else {
        -prev.q[i].ln()
    })
}

fn quotes(ctx: &Ctx) {
    let deriv = get_krx_derivative_converter(b"B601F", &IsinCode::new(b"KR4101S60008").unwrap());
    let stockd = get_krx_derivative_converter(b"B604F", &IsinCode::new(b"KR4101S60008").unwrap());
    let convs: [&'static OrderConverter; 3] = [get_default_order_converter(), deriv, stockd];
    // one side of the book: two levels
    let bids: Vec<Vec<L>> = [(30000, 29999), (30001, 29000), (29990, 29000), (-10, -20)]
        .iter()
        .flat_map(|(p1, p2)| [(5, 7), (0, 3), (9, 0), (0, 0), (1, 1), (120, 4)].iter().map(|(q1, q2)| vec![(*p1, *q1), (*p2, *q2)]).collect::<Vec<_>>())
        .collect();
    let asks: Vec<Vec<L>> = bids.iter().map(|l| l.iter().map(|(p, q)| (60001 - p, *q)).collect()).collect();
    let n = bids.len();
    let mut t = 1_000_000u64;
    for (ci, c) in convs.iter().enumerate() {
        for b in &bids {
            for a in &asks {
                for cut in 0..=2usize {
                    t += 1;
                    for (name, s) in [
                        ("quote", guarded(|| SimpleQuotes::new_from_quote_sanpshot(&quote(b, a, cut, c, t)))),
                        ("trade with quote", guarded(|| SimpleQuotes::new_from_trade_quote_snapshot(&tquote(b, a, cut, c, t)))),
                    ] {
                        ctx.case();
                        if let Err(e) = s.and_then(|s| guarded(|| check_quotes(&s, b, a, cut, c, t))).and_then(|r| r) {
                            ctx.violation(&format!("quotes from a {name} snapshot"), format!("converter {ci}, bids {b:?} asks {a:?} cut {cut}: {e}"));
                        }
                    }
                    // an empty feature brought up to date
                    for cap in 0..=cut {
                        for form in 0..2 {
                            ctx.case();
                            let r = guarded(|| {
                                let mut s = SimpleQuotes::with_capacity(cap);
                                if form == 0 {
                                    s.update_quote_snapshot(&quote(b, a, cut, c, t)).map_err(|e| e.to_string())?;
                                } else {
                                    s.update_trade_quote_snapshot(&tquote(b, a, cut, c, t)).map_err(|e| e.to_string())?;
                                }
                                check_quotes(&s, b, a, cap, c, t)
                            });
                            if let Err(e) = r.and_then(|r| r) {
                                ctx.violation("updating an empty feature", format!("form {form}, capacity {cap}, cut {cut}, bids {b:?} asks {a:?}: {e}"));
                            }
                        }
                    }
                }
            }
        }
    }
    // every pair: update in place, and the order-flow imbalance of the step
    ctx.par_for(n * n, |pq| {
        let (p, q) = (pq / n, pq % n);
        for r in 0..n {
            let s = if ctx.thorough() { 0 } else { (p + q + r) % 3 };
            for s in (s..n).step_by(if ctx.thorough() { 1 } else { 3 }) {
                let (b0, a0, b1, a1) = (&bids[p], &asks[r], &bids[q], &asks[s]);
                let c = convs[(p + s) % 3];
                let show = || format!("from bids {b0:?} asks {a0:?} to bids {b1:?} asks {a1:?}");
                ctx.cases(2);
                let res = guarded(|| {
                    let prev = SimpleQuotes::new_from_quote_sanpshot(&quote(b0, a0, 2, c, 50));
                    let cur = SimpleQuotes::new_from_trade_quote_snapshot(&tquote(b1, a1, 2, c, 60));
                    let mut up = prev.clone();
                    // the update may come from another kind of instrument feed
                    let c2 = convs[(p + s + r) % 3];
                    if r % 2 == 0 {
                        up.update_quote_snapshot(&quote(b1, a1, 2, c2, 60)).map_err(|e| e.to_string())?;
                    } else {
                        up.update_trade_quote_snapshot(&tquote(b1, a1, 2, c2, 60)).map_err(|e| e.to_string())?;
                    }
                    check_quotes(&up, b1, a1, 2, c2, 60).map_err(|e| format!("updated in place: {e}"))?;
                    let before = serde_json::to_string(&up).unwrap();
                    let refused = if r % 2 == 0 { up.update_quote_snapshot(&quote(b0, a0, 1, c, 70)).is_err() } else { up.update_trade_quote_snapshot(&tquote(b0, a0, 1, c, 70)).is_err() };
                    if !refused || serde_json::to_string(&up).unwrap() != before {
                        return Err("an update with fewer levels than the feature was not refused cleanly".into());
                    }
                    let (pb, pa, cb, ca) = (side(b0, 2, c), side(a0, 2, c), side(b1, 2, c), side(a1, 2, c));
                    for lvl in 1..=2usize {
                        let wb = ofi(&pb, &cb, lvl - 1, true);
                        let wa = ofi(&pa, &ca, lvl - 1, false);
                        for (name, got, want) in [
                            ("bid imbalance", prev.get_bid_orderflow_imbalance(lvl, &cur), wb),
                            ("ask imbalance", prev.get_ask_orderflow_imbalance(lvl, &cur), wa),
                            ("imbalance", prev.get_orederflow_imbalance(lvl, &cur), wb - wa),
                        ] {
                            let got = got.map_err(|e| e.to_string())?;
                            if !close(got, want) {
                                return Err(format!("{name} of level {lvl}: {got} instead of {want}"));
                            }
                        }
                        let lb = ln_ofi(&pb, &cb, lvl - 1, true);
                        let la = ln_ofi(&pa, &ca, lvl - 1, false);
                        for (name, got, want) in [
                            ("log bid imbalance", prev.get_bid_ln_orderflow_imbalance(lvl, &cur), lb),
                            ("log ask imbalance", prev.get_ask_ln_orderflow_imbalance(lvl, &cur), la),
                            ("log imbalance", prev.get_ln_orderflow_imbalance(lvl, &cur), lb.zip(la).map(|(x, y)| x - y)),
                        ] {
                            let got = got.map_err(|e| e.to_string())?;
                            if !got.is_finite() {
                                return Err(format!("{name} of level {lvl} is {got}"));
                            }
                            if let Some(want) = want {
                                if !close(got, want) {
                                    return Err(format!("{name} of level {lvl}: {got} instead of {want}"));
                                }
                            }
                        }
                    }
                    for lvl in [0usize, 3, 4] {
                        if prev.get_orederflow_imbalance(lvl, &cur).is_ok() || prev.get_ln_orderflow_imbalance(lvl, &cur).is_ok() {
                            return Err(format!("imbalance of level {lvl} of 2 was not refused"));
                        }
                    }
                    Ok(())
                });
                if let Err(e) = res.and_then(|r| r) {
                    let what = if e.contains("imbalance") { "order-flow imbalance" } else { "update of quotes" };
                    ctx.violation(what, format!("{}: {e}", show()));
                }
                if p == 3 && q == 7 && r == 5 && s < 3 {
                    ctx.sample(show());
                }
            }
        }
    });
    // last trade price
    for c0 in convs {
        for c1 in convs {
            for price in [0i64, 5, -7, 123_456] {
                ctx.case();
                let d0 = TradeData { trade_price: 999, timestamp: TimeStamp::new(1), order_converter: c0, ..TradeData::default() };
                let d1 = TradeData { trade_price: price, timestamp: TimeStamp::new(2), order_converter: c1, ..TradeData::default() };
                let mut x = TradePrice::new_from_trade_data(&d0);
                x.update_trade_data(&d1);
                let (got, want) = (format!("{x:?}"), format!("{:?}", TradePrice::new_from_trade_data(&d1)));
                if got != want {
                    ctx.violation("last trade price", format!("updated with {price}: {got} instead of {want}"));
                }
            }
        }
    }
}

pub fn t08(ctx: &Ctx) {
    weights(ctx);
    quotes(ctx);
    ctx.assume("updates arrive in time order; volume-weighted price is claimed when the ask side is not empty");
}
