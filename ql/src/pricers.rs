//! Q15 prices, reported flows and currency exposures of each pricer.
use crate::curve::CurveRef;
use crate::dates::year_split;
use crate::flows::*;
use crate::hol::*;
use crate::market::{dividend, DIVS, M};
use crate::util::*;
use quantlib::currency::{Currency, FxCode};
use quantlib::enums::{OptionDailySettlementType, OptionExerciseType, OptionType, StickynessType};
use quantlib::instrument::Instrument;
use quantlib::instruments::cash::Cash;
use quantlib::instruments::futures::Futures;
use quantlib::instruments::fx_futures::FxFutures;
use quantlib::instruments::stock::Stock;
use quantlib::instruments::vanilla_option::VanillaOption;
use quantlib::parameters::market_price::MarketPrice;
use quantlib::parameters::quanto::Quanto;
use quantlib::parameters::volatilities::constant_volatility::ConstantVolatility;
use quantlib::parameters::volatilities::local_volatility_surface::LocalVolatilitySurface;
use quantlib::parameters::volatilities::volatiltiy_interpolator::VolatilityInterplator;
use quantlib::parameters::volatility::Volatility;
use quantlib::pricing_engines::bond_pricer::BondPricer;
use quantlib::pricing_engines::cash_pricer::CashPricer;
use quantlib::pricing_engines::futures_pricer::FuturesPricer;
use quantlib::pricing_engines::fx_futures_pricer::FxFuturesPricer;
use quantlib::pricing_engines::identity_pricer::IdentityPricer;
use quantlib::pricing_engines::npv_result::NpvResult;
use quantlib::pricing_engines::option_analytic_pricer::OptionAnalyticPricer;
use quantlib::pricing_engines::plain_swap_pricer::PlainSwapPricer;
use quantlib::pricing_engines::pricer::{Pricer, PricerTrait};
use quantlib::pricing_engines::unit_pricer::UnitPricer;
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D, PaymentFrequency as F};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use time::OffsetDateTime;
use vcommon::Ctx;

/// A curve together with what it should be.
pub struct Zc {
    pub c: Cv,
    cached: Vec<f64>,
    times: Vec<f64>,
    rates: Vec<f64>,
    shift: f64,
}
impl Zc {
    pub fn new(e: &Ed, times: &[f64], rates: &[f64]) -> Zc {
        let c = curve(e, times, rates, "zc");
        let cached = c.borrow().get_cached_discount_times_clone().iter().map(|&x| x as f64).collect();
        Zc { c, cached, times: times.to_vec(), rates: rates.to_vec(), shift: 0.0 }
    }
    pub fn bump(&mut self, b: f64) {
        self.c.borrow_mut().bump_time_interval(None, None, b as f32).unwrap();
        self.shift += b;
    }
    pub fn df(&self, eval: (i64, i64), at: (i64, i64)) -> f64 {
        if at == eval {
            return 1.0;
        }
        let r: Vec<f64> = self.rates.iter().map(|x| x + self.shift).collect();
        CurveRef::new(self.cached.clone(), &self.times, &r).df(year_split(eval.0, eval.1, at.0, at.1)).unwrap_or(f64::NAN)
    }
}
pub const TIMES: [f64; 5] = [0.1, 0.5, 2.0, 5.0, 20.0];
pub const RATES: [[f64; 5]; 3] = [[0.03, 0.035, 0.04, 0.03, 0.045], [0.0; 5], [-0.01, 0.02, 0.08, 0.01, 0.05]];

fn at(x: &OffsetDateTime) -> (i64, i64) {
    let u = undt(x);
    (u.0, u.1)
}

/// Normal distribution function.
pub fn ncdf(x: f64) -> f64 {
    if x.is_nan() {
        return x;
    }
    if x > 0.0 {
        return 1.0 - ncdf(-x);
    }
    let a = -x;
    if a > 38.0 {
        return 0.0;
    }
    let pdf = (-a * a / 2.0).exp() / (2.0 * std::f64::consts::PI).sqrt();
    if a < 3.0 {
        // 1/2 - pdf * (a + a^3/3 + a^5/15 + ...)
        let (mut term, mut sum, mut k) = (a, a, 1.0);
        while term > 1e-18 {
            k += 2.0;
            term *= a * a / k;
            sum += term;
        }
        0.5 - pdf * sum
    } else {
        let mut f = 0.0;
        for k in (1..200).rev() {
            f = k as f64 / (a + f);
        }
        pdf / (a + f)
    }
}

fn outer(p: &Pricer, i: &Instrument) -> (Option<f32>, Option<NpvResult>) {
    (p.npv(i).ok(), p.npv_result(i).ok())
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Move(i64, i64),
    Bump(usize, f64),
    Price(f64),
}
const OPS: [Op; 7] = [Op::Move(1, S0), Op::Move(40, 0), Op::Move(12, 86399), Op::Bump(0, 0.01), Op::Bump(1, -0.02), Op::Price(1.25), Op::Price(0.8)];

fn histories(depth: usize) -> Vec<Vec<Op>> {
    let mut h: Vec<Vec<Op>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let end = h.len();
        for i in from..end {
            for o in OPS {
                let mut x = h[i].clone();
                x.push(o);
                h.push(x);
            }
        }
        from = end;
    }
    h
}

struct World {
    ed: Ed,
    curves: Vec<Zc>,
    mp: Rc<RefCell<MarketPrice>>,
    ex: Vec<(i64, i64)>,
    m: M,
}
impl World {
    fn new(base: i64, spot: f64, rates: [usize; 3], div: Option<usize>) -> World {
        let e = ed(base, S0, 9);
        let curves = rates.iter().map(|&k| Zc::new(&e, &TIMES, &RATES[k])).collect();
        let d = div.map(|k| Rc::new(RefCell::new(dividend(&e, base, DIVS[k]).unwrap())));
        let mp = Rc::new(RefCell::new(MarketPrice::new(spot as f32, dt(base, S0, 9), d.clone(), Currency::KRW, "S".into(), "S".into())));
        e.borrow_mut().add_marketprice_observer(mp.clone());
        if let Some(d) = d {
            e.borrow_mut().add_dividend_observer(d);
        }
        let (ex, amounts) = match div {
            Some(k) => (DIVS[k].0.iter().map(|x| (base + x.0, x.1)).collect(), DIVS[k].1.to_vec()),
            None => (vec![], vec![]),
        };
        World { ed: e, curves, mp, ex, m: M { eval: (base, S0), at: (base, S0), spot, amounts } }
    }
    fn apply(&mut self, o: Op) {
        match o {
            Op::Move(d, s) => {
                let to = (self.m.eval.0 + d, s);
                self.ed.borrow_mut().set_date(dt(to.0, to.1, 9));
                self.m.go(&self.ex, to);
            }
            Op::Bump(k, b) => self.curves[k].bump(b),
            Op::Price(x) => {
                let p = self.m.spot * x;
                self.mp.borrow_mut().set_price(p as f32);
                self.m.spot = p;
            }
        }
    }
    fn df(&self, k: usize, to: (i64, i64)) -> f64 {
        self.curves[k].df(self.m.eval, to)
    }
    /// collateral 0, borrowing 1
    fn forward(&self, to: (i64, i64)) -> f64 {
        self.m.spot * self.df(1, to) / self.df(0, to) * self.m.ratio(&self.ex, to.0)
    }
}

fn check_plain(ctx: &Ctx, key: &dyn Fn() -> String, p: &Pricer, i: &Instrument, want: f64, rel: f64, abs: f64) -> bool {
    ctx.case();
    match outer(p, i) {
        (Some(a), Some(r)) if close(a, want, rel, abs) && r.get_npv() == a && r.get_cashflow_amounts().is_empty() => true,
        (a, r) => {
            ctx.violation(&key(), format!("{}: price {a:?}, in the result {:?} with {:?} flows, expected {want}", key(), r.as_ref().map(|x| x.get_npv()), r.as_ref().map(|x| x.get_cashflow_amounts().len())));
            false
        }
    }
}
fn check_exposure(ctx: &Ctx, key: &dyn Fn() -> String, p: &Pricer, i: &Instrument, npv: f64, want: &[(Currency, f64)], abs: f64) -> bool {
    ctx.case();
    let mut w: HashMap<Currency, f64> = HashMap::new();
    for (c, x) in want {
        *w.entry(*c).or_insert(0.0) += x;
    }
    match p.fx_exposure(i, npv as f32) {
        Ok(g) if g.len() == w.len() && w.iter().all(|(c, x)| g.get(c).is_some_and(|v| close(*v, *x, 3e-6, abs))) => true,
        g => {
            ctx.violation(&key(), format!("{}: exposures {g:?}, expected {w:?}", key()));
            false
        }
    }
}

pub fn q15(ctx: &Ctx) {
    let base = num(Ymd(2024, 1, 2));
    linear(ctx, base);
    options(ctx, base);
    bonds(ctx, base);
    swaps(ctx, base);
}

fn futures(avg: f64, mat: (i64, i64), notional: f64) -> Instrument {
    let t = |x: (i64, i64)| dt(x.0, x.1, 9);
    Futures::new(avg as f32, t((mat.0 - 400, 0)), t(mat), t(mat), t(mat), notional as f32, Currency::USD, Currency::KRW, "S".into(), "f".into(), "f".into()).into()
}

fn linear(ctx: &Ctx, base: i64) {
    let hs = histories(ctx.pick(2, 3));
    let mut setups = vec![];
    for spot in [100.0, 2750.25] {
        for col in 0..3 {
            for bor in 0..3 {
                for div in [None, Some(1), Some(2), Some(4)] {
                    setups.push((spot, col, bor, div));
                }
            }
        }
    }
    ctx.note("futures and exchange-rate futures", format!("{} markets x {} histories", setups.len(), hs.len()));
    ctx.par_for(setups.len() * hs.len(), |job| {
        let (spot, col, bor, div) = setups[job / hs.len()];
        let h = &hs[job % hs.len()];
        let id = || format!("spot {spot} collateral {col} borrowing {bor} dividends {div:?} after {h:?}");
        ctx.run(&id, || {
            let mut w = World::new(base, spot, [col, bor, 0], div);
            let fp = FuturesPricer::new(w.mp.clone(), w.curves[0].c.clone(), w.curves[1].c.clone());
            let fx = FxFuturesPricer::new(w.mp.clone(), w.curves[0].c.clone(), w.curves[1].c.clone());
            let (fp, fx) = (Pricer::FuturesPricer(fp), Pricer::FxFuturesPricer(fx));
            let ip = Pricer::IdentityPricer(IdentityPricer::new(w.mp.clone()));
            for &o in h {
                w.apply(o);
            }
            for days in [0i64, 1, 9, 10, 70, 366, 1500, 5000] {
                for sec in [0i64, S0, 86399] {
                    let to = (w.m.eval.0 + days, sec);
                    if to < w.m.eval {
                        continue;
                    }
                    let fut = futures(spot * 0.97, to, 250.0);
                    let key = || format!("futures in {days} days {sec}s, {}", id());
                    let fwd = w.forward(to);
                    if !check_plain(ctx, &key, &fp, &fut, fwd, 5e-6, 0.0) || !check_exposure(ctx, &key, &fp, &fut, fwd, &[(Currency::USD, (fwd - spot * 0.97) * 250.0)], fwd * 250.0 * 6e-6) {
                        return;
                    }
                    let xf: Instrument = FxFutures::new((spot * 1.02) as f32, dt(base - 9, 0, 9), dt(to.0, to.1, 9), dt(to.0, to.1, 9), dt(to.0, to.1, 9), 10000.0, Currency::KRW, Currency::USD, "x".into(), "x".into()).into();
                    let key = || format!("exchange-rate futures in {days} days {sec}s, {}", id());
                    let (du, df) = (w.df(0, to), w.df(1, to));
                    if !check_plain(ctx, &key, &fx, &xf, w.m.spot * du / df, 5e-6, 0.0) {
                        return;
                    }
                    // per contract, as for every other instrument
                    ctx.case();
                    let g = fx.fx_exposure(&xf, 0.0).unwrap_or_default();
                    let has = |k: f64| g.len() == 2 && close(g[&Currency::KRW], -df * spot * 1.02 * k, 3e-6, 0.0) && close(g[&Currency::USD], du * k, 3e-6, 0.0);
                    if !has(10000.0) {
                        if has(1.0) {
                            ctx.violation("exchange-rate futures exposure of one unit", format!("{}: exposures {g:?} leave out the unit notional 10000", key()));
                        } else {
                            ctx.violation(&key(), format!("exposures {g:?}, expected {} KRW and {du} USD per unit", -df * spot * 1.02));
                            return;
                        }
                    }
                }
            }
            // the underlying itself
            let stock: Instrument = Stock::new("S".into(), "S".into(), vec![], Currency::KRW, None).into();
            let key = || format!("stock, {}", id());
            check_plain(ctx, &key, &ip, &stock, w.m.spot, 3e-6, 0.0);
            check_exposure(ctx, &key, &ip, &stock, w.m.spot, &[(Currency::KRW, w.m.spot)], 1e-3);
            // not a futures
            ctx.case();
            if fp.npv(&stock).is_ok() || fp.npv_result(&stock).is_ok() || fp.fx_exposure(&stock, 1.0).is_ok() || fx.npv(&stock).is_ok() || fx.fx_exposure(&stock, 1.0).is_ok() {
                ctx.violation(&key(), "priced as a futures");
            }
            let cash: Instrument = Cash::new(Currency::EUR, "E".into(), "C".into()).into();
            let u = Pricer::UnitPricer(UnitPricer::new());
            check_plain(ctx, &|| "cash".to_string(), &u, &cash, 1.0, 0.0, 0.0);
            check_exposure(ctx, &|| "cash".to_string(), &u, &cash, 3.0, &[(Currency::EUR, 3.0)], 0.0);
            if CashPricer::new().npv(&cash).ok() != Some(1.0) || CashPricer::new().npv_result(&cash).map(|r| r.get_npv()).ok() != Some(1.0) {
                ctx.violation("cash pricer", "not 1");
            }
            if ctx.want_sample() && !h.is_empty() {
                ctx.sample(id());
            }
        });
    });
}

fn options(ctx: &Ctx, base: i64) {
    let hs = histories(ctx.pick(1, 2));
    // volatility: constant or (None) a surface
    let mut setups = vec![];
    for vol in [Some(0.0), Some(0.04), Some(0.2), Some(0.9), None] {
        for (corr, fxvol) in [(None, 0.0), (Some(0.0), 0.1), (Some(0.7), 0.12), (Some(-0.6), 0.3), (Some(1.0), 0.1)] {
            for (col, bor, disc) in [(0, 1, 0), (2, 0, 1), (1, 2, 2)] {
                for div in [None, Some(1)] {
                    setups.push((vol, corr, fxvol, [col, bor, disc], div));
                }
            }
        }
    }
    ctx.note("options", format!("{} markets x {} histories", setups.len(), hs.len()));
    ctx.par_for(setups.len() * hs.len(), |job| {
        let (vol, corr, fxvol, curves, div) = setups[job / hs.len()];
        let h = &hs[job % hs.len()];
        let id = || format!("volatility {vol:?} correlation {corr:?} fx volatility {fxvol} curves {curves:?} dividends {div:?} after {h:?}");
        ctx.run(&id, || {
            let mut w = World::new(base, 100.0, curves, div);
            let v = match vol {
                Some(x) => Volatility::ConstantVolatility(ConstantVolatility::new(x as f32, "v".into(), "v".into())),
                None => {
                    let l = LocalVolatilitySurface::initialize(w.ed.clone(), w.mp.clone(), w.curves[0].c.clone(), w.curves[1].c.clone(), StickynessType::StickyToMoneyness, VolatilityInterplator::default(), "L".into(), "L".into())
                        .with_market_surface(&crate::vol::surface(crate::vol::SURFS[0], (base, S0), Some(100.0)), ["3M", "6M", "2Y"].iter().map(|s| s.to_string()).collect(), ndarray::array![0.7f32, 0.9, 1.0, 1.2]);
                    let mut v = Volatility::LocalVolatilitySurface(l.unwrap());
                    v.build().unwrap();
                    v
                }
            };
            let v = Rc::new(RefCell::new(v));
            let fv = Rc::new(RefCell::new(Volatility::ConstantVolatility(ConstantVolatility::new(fxvol as f32, "x".into(), "x".into()))));
            let q = corr.map(|c| Rc::new(RefCell::new(Quanto::new(fv, c as f32, FxCode::new(Currency::KRW, Currency::USD), "S".into()))));
            let p = OptionAnalyticPricer::new(w.ed.clone(), w.mp.clone(), w.curves[0].c.clone(), w.curves[1].c.clone(), w.curves[2].c.clone(), v.clone(), q);
            let p = Pricer::OptionAnalyticPricer(p);
            for &o in h {
                w.apply(o);
                if vol.is_none() {
                    v.borrow_mut().build().unwrap();
                }
            }
            let mut prices: BTreeMap<(i64, i64), f64> = BTreeMap::new();
            for days in [0i64, 1, 12, 45, 365, 1100] {
                let to = (w.m.eval.0 + days, w.m.eval.1);
                let t = year_split(w.m.eval.0, w.m.eval.1, to.0, to.1);
                let fwd = w.forward(to);
                let mut strikes = vec![50.0, 80.0, 100.0, 125.0, 160.0, 300.0];
                strikes.push((fwd as f32) as f64);
                for (ki, &k) in strikes.iter().enumerate() {
                    for call in [true, false] {
                        let make = |ccy: Currency| -> Instrument {
                            let d = dt(to.0, to.1, 9);
                            VanillaOption::new(k as f32, 500.0, dt(base, 0, 9), d, d, d, vec!["S".into()], Currency::KRW, ccy, if call { OptionType::Call } else { OptionType::Put }, OptionExerciseType::European, OptionDailySettlementType::NotSettled, "o".into(), "o".into()).into()
                        };
                        let ccy = if corr.is_some() { Currency::USD } else { Currency::KRW };
                        let o = make(ccy);
                        let s = v.borrow().get_value(t as f32, (k / fwd) as f32) as f64;
                        let f = fwd * (-(s * fxvol * corr.unwrap_or(0.0) * t)).exp();
                        let dev = s * t.sqrt();
                        let sign = if call { 1.0 } else { -1.0 };
                        let undisc = if dev == 0.0 {
                            (sign * (f - k)).max(0.0)
                        } else {
                            let d1 = ((f / k).ln() + dev * dev / 2.0) / dev;
                            sign * (f * ncdf(sign * d1) - k * ncdf(sign * (d1 - dev)))
                        };
                        let want = undisc * w.df(2, to);
                        let key = || format!("{} strike {k} in {days} days, {}", if call { "call" } else { "put" }, id());
                        let tol = (f + k) * (3e-6 + 6e-7 / dev.max(0.004));
                        if !check_plain(ctx, &key, &p, &o, want, 5e-6, tol) || !check_exposure(ctx, &key, &p, &o, 2.5, &[(ccy, 2.5 * 500.0)], 0.0) {
                            return;
                        }
                        prices.insert((days, ki as i64 * 2 + call as i64), want);
                        // another currency without a quanto adjustment is refused
                        if corr.is_none() && ki == 0 {
                            ctx.case();
                            if p.npv(&make(Currency::USD)).is_ok() {
                                ctx.violation(&key(), "an option in another currency is priced without a quanto adjustment");
                            }
                        }
                    }
                }
            }
            if ctx.want_sample() && !h.is_empty() {
                ctx.sample(format!("{}: call 100 in 45 days {:?}", id(), prices.get(&(45, 5))));
            }
        });
    });
}

/// The result's flows as a list, and as expected amounts per date.
fn check_flows(r: &NpvResult, legs: &[(Flows, f64)], abs: f64) -> Result<(), String> {
    let mut want: Vec<((i64, i64), f64)> = legs.iter().flat_map(|(f, k)| f.iter().map(move |(d, x)| (*d, x * k))).collect();
    let mut got: Vec<((i64, i64), f64)> = r.get_cashflow_amounts().values().map(|(d, x)| (at(d), *x as f64)).collect();
    let ord = |a: &((i64, i64), f64), b: &((i64, i64), f64)| a.partial_cmp(b).unwrap();
    want.sort_by(ord);
    got.sort_by(ord);
    if want.len() != got.len() || want.iter().zip(&got).any(|(w, g)| w.0 != g.0 || (w.1 - g.1).abs() > abs + 3e-6 * w.1.abs()) {
        return Err(format!("flows {got:?}, expected {want:?}"));
    }
    let mut sums = Flows::new();
    for (d, x) in want {
        *sums.entry(d).or_insert(0.0) += x;
    }
    same(&r.get_expected_coupon_amount().map_err(|e| e.to_string())?, &sums, 2.0 * abs).map_err(|m| format!("expected amounts: {m}"))
}

fn bonds(ctx: &Ctx, base: i64) {
    let mut menu = vec![];
    for freq in [F::Quarterly, F::SemiAnnually, F::Annually] {
        for (start, end) in [(base - 400, num(Ymd(2026, 11, 28))), (base + 3, num(Ymd(2025, 3, 31))), (base - 91, num(Ymd(2024, 2, 12)))] {
            for cal in [vec![Cal::KrSettle], vec![Cal::Null]] {
                for dc in ctx.pick(vec![D::Actual365Fixed, D::Thirty360], DCS.to_vec()) {
                    for strip in [false, true] {
                        // fixed rate, spread, compounding
                        for kind in [(Some(0.0425), None, None), (None, Some(0.01), None), (None, None, Some("1M"))] {
                            menu.push((Conv { forward: true, start, end, cal: cal.clone(), dc, conv: B::ModifiedFollowing, freq, fgap: 1, pgap: 2 }, strip, kind));
                        }
                    }
                }
            }
        }
    }
    ctx.note("bonds", menu.len().to_string());
    let past: BTreeMap<i64, f64> = (base - 500..base + 200).map(|d| (d, 0.025 + 0.0001 * ((d % 37) as f64))).collect();
    ctx.par_for(menu.len(), |i| {
        let (c, strip, (fixed, spread, comp)) = &menu[i];
        let name = format!("bond {} strip {strip} coupon {fixed:?} spread {spread:?} compounded {comp:?}", c.text());
        ctx.run(|| name.clone(), || {
            let j = joint(&c.cal);
            let idx = if fixed.is_none() { Some(index("91D")) } else { None };
            let Ok(sch) = c.schedule(&j) else { return };
            let mut evals = vec![(base, S0), (base, 0), (base + 41, S0)];
            for p in sch.iter().take(3) {
                let d = local_day(p.get_payment_date());
                if d >= base {
                    evals.extend([(d - 1, S0), (d, S0 - 1), (d, S0), (d, S0 + 1)]);
                }
            }
            for ev in evals {
                if ev.0 >= c.end {
                    continue;
                }
                for ahead in [None, Some(0), Some(1), Some(30), Some(-1)] {
                    let e = ed(ev.0, ev.1, 9);
                    let disc = Zc::new(&e, &TIMES, &RATES[2]);
                    let fwd = long_curve(&e);
                    let pricing = ahead.map(|a| (ev.0 + a, ev.1));
                    let from = pricing.unwrap_or(ev);
                    let b = bond(c, &j, Some(sch.clone()), *strip, *fixed, idx.clone(), *spread, *comp, pricing.map(|p| dt(p.0, p.1, 9)), 10000.0).unwrap();
                    let flows = b.get_cashflows_of(&dt(from.0, from.1, 9), &fwd, &past);
                    let inst: Instrument = b.into();
                    let p = Pricer::BondPricer(BondPricer::new(e.clone(), disc.c.clone(), Some(fwd.clone()), Some(history(&past))));
                    let key = || format!("{name} evaluated {:?} {}s pricing date {ahead:?}", ymd(ev.0), ev.1);
                    ctx.case();
                    let (npv, res) = outer(&p, &inst);
                    // before the evaluation date nothing can be discounted
                    let Some(flows) = flows.filter(|_| from >= ev) else {
                        if npv.is_some() || res.is_some() {
                            ctx.violation(&key(), "priced, although its cash flows or discount factors are refused");
                            return;
                        }
                        continue;
                    };
                    let (mut want, mut size) = (0.0, 0.0);
                    for (d, x) in &flows {
                        if d.0 > from.0 {
                            let y = x * disc.df(ev, *d) / disc.df(ev, from);
                            want += y;
                            size += y.abs();
                        }
                    }
                    let ok = matches!((&npv, &res), (Some(a), Some(r)) if close(*a, want, 0.0, 4e-6 * size + 1e-7) && close(r.get_npv(), want, 0.0, 4e-6 * size + 1e-7));
                    if !ok {
                        ctx.violation(&key(), format!("{}: {npv:?} and {:?}, expected {want}", key(), res.map(|r| r.get_npv())));
                        return;
                    }
                    if let Err(m) = check_flows(&res.unwrap(), &[(flows, 1.0)], 1e-6) {
                        ctx.violation(&key(), format!("{}: {m}", key()));
                        return;
                    }
                    if !check_exposure(ctx, &key, &p, &inst, want, &[(Currency::KRW, want * 10000.0)], size * 0.01) {
                        return;
                    }
                }
            }
            if i % 50 == 0 {
                ctx.sample(name.clone());
            }
        });
    });
}
trait FlowsOf {
    fn get_cashflows_of(&self, at: &OffsetDateTime, fwd: &Cv, past: &BTreeMap<i64, f64>) -> Option<Flows>;
}
impl FlowsOf for quantlib::instruments::bond::Bond {
    /// The bond's own flows (checked by Q11).
    fn get_cashflows_of(&self, when: &OffsetDateTime, fwd: &Cv, past: &BTreeMap<i64, f64>) -> Option<Flows> {
        use quantlib::instrument::InstrumentTrait;
        Some(flows_of(self.get_cashflows(when, Some(fwd.clone()), Some(history(past))).ok()?))
    }
}
fn flows_of(m: HashMap<OffsetDateTime, f32>) -> Flows {
    m.into_iter().map(|(d, x)| (at(&d), x as f64)).collect()
}

fn swaps(ctx: &Ctx, base: i64) {
    let past: BTreeMap<i64, f64> = (base - 500..base + 200).map(|d| (d, 0.025 + 0.0001 * ((d % 37) as f64))).collect();
    let menu = swap_menu(base, ctx.thorough());
    ctx.note("swaps", menu.len().to_string());
    ctx.par_for(menu.len(), |i| {
        use quantlib::instrument::InstrumentTrait;
        let s = &menu[i];
        let name = format!("swap {} / {:?} exchanges {:?} fixed {:?} compounded {:?}", s.c.text(), s.float_freq, s.exch, s.fixed, s.comp);
        ctx.run(|| name.clone(), || {
            let j = joint(&s.c.cal);
            let sw = s.make(&j, false).unwrap();
            let mut evals = vec![(base, S0), (base + 41, S0), (base + 1, S0), (s.c.start, S0 - 1), (s.c.start, S0), (s.c.start, S0 + 1), (s.c.end - 1, S0)];
            if s.legs {
                for p in s.c.schedule(&j).unwrap().iter().take(2) {
                    let d = local_day(p.get_payment_date());
                    evals.extend([(d - 1, S0), (d, S0), (d, S0 + 1)]);
                }
            }
            evals.sort();
            evals.dedup();
            for ev in evals {
                for fx in [None, Some(1325.5)] {
                    let diff = s.ccy.0 != s.ccy.1;
                    if fx.is_some() != diff {
                        continue;
                    }
                    let e = ed(ev.0, ev.1, 9);
                    let (d1, d2) = (Zc::new(&e, &TIMES, &RATES[0]), Zc::new(&e, &TIMES, &RATES[2]));
                    let fwd = long_curve(&e);
                    let when = dt(ev.0, ev.1, 9);
                    let mp = fx.map(|x| Rc::new(RefCell::new(MarketPrice::new(x as f32, when, None, Currency::KRW, "USDKRW".into(), "USDKRW".into()))));
                    let p = Pricer::PlainSwapPricer(PlainSwapPricer::new(e.clone(), d1.c.clone(), d2.c.clone(), Some(fwd.clone()), Some(history(&past)), mp).unwrap());
                    let key = || format!("{name} evaluated {:?} {}s", ymd(ev.0), ev.1);
                    let a = sw.get_fixed_cashflows(&when).map(flows_of);
                    let b = sw.get_floating_cashflows(&when, Some(fwd.clone()), Some(history(&past))).map(flows_of);
                    let inst: Instrument = sw.clone().into();
                    ctx.case();
                    let (npv, res) = outer(&p, &inst);
                    let (Ok(a), Ok(b)) = (a, b) else {
                        if npv.is_some() || res.is_some() {
                            ctx.violation(&key(), "priced, although its cash flows are refused");
                            return;
                        }
                        continue;
                    };
                    let value = |f: &Flows, c: &Zc| f.iter().filter(|(d, _)| d.0 > ev.0).fold((0.0, 0.0), |(v, n), (d, x)| (v + x * c.df(ev, *d), n + (x * c.df(ev, *d)).abs()));
                    let ((va, na), (vb, nb)) = (value(&a, &d1), value(&b, &d2));
                    let k = fx.unwrap_or(1.0);
                    let (want, tol) = (va + vb * k, 4e-6 * (na + nb * k) + 1e-7);
                    let ok = matches!((&npv, &res), (Some(x), Some(r)) if close(*x, want, 0.0, tol) && close(r.get_npv(), want, 0.0, tol));
                    if !ok {
                        ctx.violation(&key(), format!("{}: {npv:?} and {:?}, expected {want}", key(), res.map(|r| r.get_npv())));
                        return;
                    }
                    if let Err(m) = check_flows(&res.unwrap(), &[(a, 1.0), (b, k)], 1e-6 * (1.0 + k)) {
                        ctx.violation(&key(), format!("{}: {m}", key()));
                        return;
                    }
                    if !check_exposure(ctx, &key, &p, &inst, want, &[(s.ccy.0, va * s.notional), (s.ccy.1, vb * s.notional)], 4e-6 * s.notional * (na + nb)) {
                        return;
                    }
                }
            }
            if i % 20 == 0 {
                ctx.sample(name.clone());
            }
        });
    });
}
