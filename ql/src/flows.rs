//! Q11 cash flows of bonds and swaps.
use crate::hol::*;
use crate::sched::FREQS;
use crate::util::*;
use quantlib::currency::Currency;
use quantlib::enums::{Compounding, CreditRating, IssuerType, RankType};
use quantlib::instrument::InstrumentTrait;
use quantlib::instruments::bond::Bond;
use quantlib::instruments::plain_swap::{PlainSwap, PlainSwapType};
use quantlib::instruments::schedule::{build_schedule, BaseSchedule, Schedule};
use quantlib::parameters::past_price::DailyClosePrice;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D, PaymentFrequency as F};
use quantlib::time::jointcalendar::JointCalendar;
use quantlib::utils::string_arithmetic::add_period;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use time::{Duration, OffsetDateTime, Time, UtcOffset};
use vcommon::{guarded, Ctx};

pub const DCS: [D; 6] = [D::Actual365Fixed, D::Actual360, D::Actual364, D::Thirty360, D::ActActIsda, D::StreetConvention];
pub const S0: i64 = 16 * 3600 + 1800;

pub fn index(tenor: &str) -> RateIndex {
    RateIndex::new(tenor.into(), Currency::KRW, "idx".into(), "idx".into()).unwrap()
}
pub fn history(m: &BTreeMap<i64, f64>) -> Rc<DailyClosePrice> {
    Rc::new(DailyClosePrice::new(
        m.iter().map(|(&d, &v)| (date(ymd(d)), v as f32)).collect(),
        Time::from_hms(15, 40, 0).unwrap(),
        UtcOffset::from_hms(9, 0, 0).unwrap(),
        real(Cal::KrSettle),
        "idx".into(),
        "idx".into(),
    ))
}
pub fn local_day(d: &OffsetDateTime) -> i64 {
    undt(d).0
}

/// What a floating coupon is worth, as the module's documentation states it. None: refused.
#[allow(clippy::too_many_arguments)]
pub fn coupon_ref(p: &BaseSchedule, tenor: &str, spread: Option<f64>, fwd: &Cv, past: &BTreeMap<i64, f64>, pricing: &OffsetDateTime, comp: Option<&str>, cal: &JointCalendar, dc: D, fixing_days: i64) -> Option<f64> {
    let spread = spread.unwrap_or(0.0);
    let between = |a: &OffsetDateTime, b: &OffsetDateTime| fwd.borrow().get_forward_rate_between_dates(a, b, Compounding::Simple).ok().map(|x| x as f64);
    let frac = |a: &OffsetDateTime, b: &OffsetDateTime| cal.year_fraction(a, b, &dc).ok().map(|x| x as f64);
    let fixing = p.get_fixing_date();
    let end = add_period(fixing, tenor);
    let whole = frac(p.get_calc_start_date(), p.get_calc_end_date())?;
    match comp {
        None => {
            let rate = if fixing < pricing {
                match past.get(&local_day(fixing)) {
                    Some(r) => *r,
                    None => fwd.borrow().get_forward_rate_from_evaluation_date(&end, Compounding::Simple).ok()? as f64,
                }
            } else {
                between(fixing, &end)?
            };
            Some((rate + spread) * whole)
        }
        Some(_) if fixing >= pricing => {
            let first = between(fixing, &end)?;
            let lf = *p.get_calc_end_date() - Duration::days(fixing_days);
            let last = between(&lf, &add_period(&lf, tenor))?;
            Some(((first + last) / 2.0 + spread) * whole)
        }
        Some(c) => {
            let spot = between(pricing, &add_period(pricing, c))?;
            let mut at = *p.get_calc_start_date();
            let stop = *p.get_calc_end_date();
            let mut growth = 1.0;
            while at < stop {
                let next = add_period(&at, c).min(stop);
                let fix = cal.adjust(&(at - Duration::days(fixing_days)), &B::Preceding).ok()?;
                let rate = if fix < *pricing {
                    past.get(&local_day(&fix)).copied().unwrap_or(spot)
                } else {
                    between(&fix, &add_period(&fix, tenor))?
                };
                growth *= 1.0 + (rate + spread) * frac(&at, &next)?;
                at = next;
            }
            Some(growth - 1.0)
        }
    }
}

pub type Flows = BTreeMap<(i64, i64), f64>; // (day, second), summed
pub fn put(f: &mut Flows, at: &OffsetDateTime, x: f64) {
    let (d, s, _) = undt(at);
    *f.entry((d, s)).or_insert(0.0) += x;
}
pub fn same(got: &HashMap<OffsetDateTime, f32>, want: &Flows, abs: f64) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("flows on {} dates, expected {}", got.len(), want.len()));
    }
    for (k, v) in got {
        let (d, s, _) = undt(k);
        match want.get(&(d, s)) {
            None => return Err(format!("unexpected payment on {:?} of {v}", k)),
            Some(w) if !close(*v, *w, 2e-6, abs) => return Err(format!("payment on {:?} is {v}, expected {w}", k)),
            _ => {}
        }
    }
    Ok(())
}

#[derive(Clone)]
pub struct Conv {
    pub forward: bool,
    pub start: i64,
    pub end: i64,
    pub cal: Vec<Cal>,
    pub dc: D,
    pub conv: B,
    pub freq: F,
    pub fgap: i64,
    pub pgap: i64,
}
impl Conv {
    pub fn schedule(&self, j: &JointCalendar) -> anyhow::Result<Schedule> {
        build_schedule(self.forward, &dt(self.start, S0, 9), &dt(self.end, S0, 9), j, &self.conv, &self.freq, self.fgap, self.pgap)
    }
    pub fn text(&self) -> String {
        format!("{:?} to {:?} {} {:?} {:?} {:?} {:?} fixing gap {} payment gap {}", ymd(self.start), ymd(self.end), if self.forward { "forward" } else { "backward" }, self.cal, self.dc, self.conv, self.freq, self.fgap, self.pgap)
    }
}
#[allow(clippy::too_many_arguments)]
pub fn bond(c: &Conv, j: &JointCalendar, sched: Option<Schedule>, strip: bool, fixed: Option<f64>, idx: Option<RateIndex>, spread: Option<f64>, comp: Option<&str>, pricing: Option<OffsetDateTime>, notional: f64) -> anyhow::Result<Bond> {
    let comp = comp.map(|x| x.to_string());
    let (s, e) = (dt(c.start, S0, 9), dt(c.end, S0, 9));
    match sched {
        Some(sc) => Bond::new(
            IssuerType::Government, CreditRating::None, "G".into(), RankType::Senior, Currency::KRW, notional as f32, strip, sc,
            fixed.map(|x| x as f32), spread.map(|x| x as f32), idx, comp, s, s, pricing, e, j.clone(), c.dc, c.conv, c.freq, c.pgap, c.fgap, "b".into(), "b".into(),
        ),
        None => Bond::new_from_conventions(
            IssuerType::Government, CreditRating::None, "G".into(), RankType::Senior, Currency::KRW, notional as f32, strip, s, s, pricing, e,
            fixed.map(|x| x as f32), spread.map(|x| x as f32), idx, comp, j.clone(), c.forward, c.dc, c.conv, c.freq, c.fgap, c.pgap, "b".into(), "b".into(),
        ),
    }
}

/// Pricing dates worth looking at: around every payment and the ends.
fn pricing_dates(s: &Schedule, c: &Conv, all: bool) -> Vec<OffsetDateTime> {
    let mut v = vec![dt(c.start - 40, S0, 9), dt(c.start - 1, S0, 9), dt(c.start, 0, 9), dt(c.start, S0, 9), dt(c.start + 1, S0, 9), dt(c.end - 1, S0, 9), dt(c.end, 3600, 9), dt(c.end, 86000, 9), dt(c.end + 1, 0, 9), dt(c.end + 30, 0, 9)];
    for (i, p) in s.iter().enumerate() {
        if !all && i % 5 != 1 {
            continue;
        }
        let d = local_day(p.get_payment_date());
        v.extend([dt(d - 1, 86399, 9), dt(d, 0, 9), dt(d, S0, 9), dt(d, 86399, 9), dt(d + 1, 0, 9)]);
        let f = local_day(p.get_fixing_date());
        v.extend([dt(f, S0, 9), dt(f, S0 + 1, 9)]);
    }
    v.sort();
    v.dedup();
    v
}

pub fn long_curve(e: &Ed) -> Cv {
    curve(e, &[0.25, 0.5, 1.0, 2.0, 5.0, 10.0, 40.0], &[0.03, 0.032, 0.035, 0.04, 0.038, 0.041, 0.04], "fwd")
}

pub fn q11(ctx: &Ctx) {
    let base = num(Ymd(2024, 1, 2));
    // ---- coupons of a rate index
    let mut cases: Vec<(Vec<Cal>, i64, i64, &'static str, Option<&'static str>, Option<f64>, i64, D)> = vec![];
    for cal in [vec![Cal::KrSettle], vec![Cal::KrSettle, Cal::UsSettle]] {
        for start in ctx.pick(vec![-200, -95, -30, 0, 1, 2, 40], vec![-200, -95, -30, -1, 0, 1, 2, 40, 400]) {
            for len in ctx.pick(vec![30, 91], vec![30, 91, 182]) {
                for tenor in ["91D", "3M", "1D"] {
                    for comp in [None, Some("1D"), Some("1W"), Some("1M")] {
                        for spread in [None, Some(0.0125)] {
                            for fd in ctx.pick(vec![0, 2], vec![0, 1, 2, 5]) {
                                for dc in ctx.pick(vec![D::Actual365Fixed, D::Thirty360], DCS.to_vec()) {
                                    // daily compounding is the expensive one
                                    if !ctx.thorough() && comp == Some("1D") && (tenor == "3M" || cal.len() == 2) {
                                        continue;
                                    }
                                    cases.push((cal.clone(), start, len, tenor, comp, spread, fd, dc));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.note("rate index coupons", cases.len().to_string());
    ctx.par_for(cases.len(), |i| {
        let (cal, start, len, tenor, comp, spread, fd, dc) = cases[i].clone();
        ctx.run(|| format!("coupon of {tenor} compounded {comp:?} start {start} length {len} {cal:?} spread {spread:?} fixing days {fd} {dc:?}"), || {
            let j = joint(&cal);
            let e = ed(base, S0, 9);
            let fwd = long_curve(&e);
            let (a, b) = (dt(base + start, S0, 9), dt(base + start + len, S0, 9));
            let fix = j.adjust(&(a - Duration::days(fd)), &B::Preceding).unwrap();
            let p = BaseSchedule::new(fix, a, b, b, None);
            let full: BTreeMap<i64, f64> = (base - 300..base + 30).map(|d| (d, 0.02 + 0.0001 * ((d % 37) as f64))).collect();
            let odd: BTreeMap<i64, f64> = full.iter().filter(|(d, _)| *d % 2 == 1).map(|(d, v)| (*d, *v)).collect();
            for (pi, pricing) in [dt(base, S0, 9), dt(base, 0, 9), dt(base, 86399, 9), dt(base - 1, S0, 9), dt(base + 3, S0, 9)].iter().enumerate() {
                for (hi, past) in [&full, &odd, &BTreeMap::new()].iter().enumerate() {
                    ctx.case();
                    let got = index(tenor).get_coupon_amount(&p, spread.map(|x| x as f32), fwd.clone(), history(past), pricing, comp.map(|x| x.to_string()).as_ref(), &j, &dc, fd).ok();
                    let want = coupon_ref(&p, tenor, spread, &fwd, past, pricing, comp, &j, dc, fd);
                    let ok = match (got, want) {
                        (Some(g), Some(w)) => close(g, w, 2e-6, if comp == Some("1D") { 1e-5 } else { 3e-6 }),
                        (None, None) => true,
                        _ => false,
                    };
                    if !ok {
                        ctx.violation(&format!("rate index coupon {tenor} {comp:?} {start} {len} {spread:?} {fd} {dc:?} {pi} {hi}"), format!("coupon of {tenor} compounded {comp:?} over {a} .. {b}, fixing {fix}, priced {pricing}, spread {spread:?}, {dc:?}, history {hi}: {got:?}, expected {want:?}"));
                        return;
                    }
                }
            }
            if i % 400 == 0 {
                ctx.sample(format!("coupon of {tenor} compounded {comp:?} start {start} length {len} {cal:?}"));
            }
        });
    });
    // ---- bonds
    let mut bonds = vec![];
    for freq in ctx.pick(vec![F::Monthly, F::Quarterly, F::SemiAnnually, F::Annually], FREQS.iter().map(|f| f.0).filter(|f| *f != F::Daily).collect()) {
        for forward in [true, false] {
            for (start, end) in [(base - 400, num(Ymd(ctx.pick(2025, 2026), 11, 28))), (base + 3, num(Ymd(2025, 3, 31)))] {
                for cal in [vec![Cal::KrSettle], vec![Cal::Null], vec![Cal::KrSettle, Cal::UsSettle]] {
                    for conv in [B::Unadjusted, B::ModifiedFollowing] {
                        for (fgap, pgap) in [(0, 0), (1, 2)] {
                            for dc in DCS {
                                if !ctx.thorough() && freq == F::Monthly && (dc != D::Thirty360 || cal.len() == 2) {
                                    continue;
                                }
                                bonds.push(Conv { forward, start, end, cal: cal.clone(), dc, conv, freq, fgap, pgap });
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.note("bond conventions", bonds.len().to_string());
    let full: BTreeMap<i64, f64> = (base - 500..base).map(|d| (d, 0.025 + 0.0001 * ((d % 37) as f64))).collect();
    ctx.par_for(bonds.len(), |i| {
        let c = &bonds[i];
        ctx.run(|| format!("bond {}", c.text()), || {
            let j = joint(&c.cal);
            let Ok(sch) = c.schedule(&j) else { return };
            let e = ed(base, S0, 9);
            let fwd = long_curve(&e);
            // (fixed rate, spread, compounding)
            let kinds: Vec<(Option<f64>, Option<f64>, Option<&str>)> = vec![(Some(0.0425), None, None), (None, None, None), (None, Some(0.01), None), (None, Some(0.005), Some("1M"))];
            for (fixed, spread, comp) in kinds {
                for strip in [false, true] {
                    let idx = if fixed.is_none() { Some(index("91D")) } else { None };
                    let made = [bond(c, &j, None, strip, fixed, idx.clone(), spread, comp, None, 10000.0), bond(c, &j, Some(sch.clone()), strip, fixed, idx, spread, comp, None, 10000.0)];
                    for (how, made) in made.iter().enumerate() {
                        let made = match made {
                            Ok(b) => b,
                            Err(er) => {
                                ctx.violation(&format!("bond {} refused", c.text()), format!("{er}"));
                                return;
                            }
                        };
                        let dates = if fixed.is_some() { pricing_dates(&sch, c, ctx.thorough() || (how == 0 && !strip)) } else { vec![dt(base, S0, 9), dt(base, 0, 9), dt(base + 1, S0, 9), dt(base - 30, S0, 9)] };
                        for at in dates {
                            ctx.case();
                            let day = local_day(&at);
                            let mut want = Some(Flows::new());
                            for p in sch.iter() {
                                if local_day(p.get_payment_date()) < day {
                                    continue;
                                }
                                let x = match fixed {
                                    Some(r) => Some(r * j.year_fraction(p.get_calc_start_date(), p.get_calc_end_date(), &c.dc).unwrap() as f64),
                                    None => coupon_ref(p, "91D", spread, &fwd, &full, &at, comp, &j, c.dc, c.fgap),
                                };
                                match (x, want.as_mut()) {
                                    (Some(x), Some(w)) => put(w, p.get_payment_date(), x),
                                    _ => want = None,
                                }
                                if want.is_none() {
                                    break;
                                }
                            }
                            if let Some(w) = want.as_mut() {
                                if !strip && c.end >= day {
                                    put(w, &dt(c.end, S0, 9), 1.0);
                                }
                            }
                            let got = made.get_cashflows(&at, Some(fwd.clone()), Some(history(&full))).ok();
                            let r = match (&got, &want) {
                                (Some(g), Some(w)) => same(g, w, 3e-6),
                                (None, None) => Ok(()),
                                (g, w) => Err(format!("{} but expected {}", if g.is_some() { "accepted" } else { "refused" }, if w.is_some() { "flows" } else { "a refusal" })),
                            };
                            if let Err(m) = r {
                                ctx.violation(&format!("bond flows {} {fixed:?} {spread:?} {comp:?} strip {strip} at {}", c.text(), at), format!("{}: coupon {fixed:?} spread {spread:?} compounded {comp:?} strip {strip} built {how}, priced {at}: {m}", c.text()));
                                return;
                            }
                        }
                    }
                }
            }
            // neither or both kinds of coupon
            for (fixed, idx) in [(None, None), (Some(0.03), Some(index("91D")))] {
                for s in [None, Some(sch.clone())] {
                    ctx.case();
                    let how = s.is_some();
                    if bond(c, &j, s, false, fixed, idx.clone(), None, None, None, 1.0).is_ok() {
                        ctx.violation(&format!("bond with both or no coupon kinds accepted, schedule given: {how}"), format!("fixed rate {fixed:?} and rate index {:?} accepted", idx.is_some()));
                    }
                }
            }
        });
    });
    // ---- schedules with given amounts, all subsets, all coincidences of payment dates
    let n = 4usize;
    ctx.par_for(1 << n, |mask| {
        ctx.run(|| format!("given amounts {mask:04b}"), || {
            let j = joint(&[Cal::KrSettle]);
            let c = Conv { forward: true, start: base, end: base + 400, cal: vec![Cal::KrSettle], dc: D::Actual365Fixed, conv: B::Unadjusted, freq: F::Quarterly, fgap: 0, pgap: 0 };
            for pays in 0..4usize.pow(n as u32) {
                // payment day of each period: one of four days
                let days: Vec<i64> = (0..n).map(|k| base + 100 * (1 + (pays / 4usize.pow(k as u32)) % 4) as i64).collect();
                let v: Vec<BaseSchedule> = (0..n)
                    .map(|k| {
                        let (a, b) = (dt(base + 100 * k as i64, S0, 9), dt(base + 100 * (k as i64 + 1), S0, 9));
                        BaseSchedule::new(a, a, b, dt(days[k], S0, 9), if mask >> k & 1 == 1 { Some(0.1 * (k + 1) as f32) } else { None })
                    })
                    .collect();
                let b = bond(&c, &j, Some(Schedule::new(v)), false, Some(0.0365), None, None, None, None, 1.0).unwrap();
                for at in [base, base + 100, base + 101, base + 250, base + 400, base + 401] {
                    ctx.case();
                    let mut want = Flows::new();
                    for k in 0..n {
                        if days[k] >= at {
                            put(&mut want, &dt(days[k], S0, 9), if mask >> k & 1 == 1 { 0.1 * (k + 1) as f64 } else { 0.01 });
                        }
                    }
                    if base + 400 >= at {
                        put(&mut want, &dt(base + 400, S0, 9), 1.0);
                    }
                    if let Err(m) = same(&b.get_cashflows(&dt(at, S0, 9), None, None).unwrap(), &want, 1e-6) {
                        ctx.violation(&format!("given amounts {mask} {pays} {at}"), format!("given amounts for periods {mask:04b}, paid on days {days:?}, priced day {at}: {m}"));
                        return;
                    }
                }
            }
        });
    });
    swaps(ctx, base);
}

pub struct SwapSpec {
    pub c: Conv,
    pub float_freq: F,
    pub float_dc: D,
    pub ccy: (Currency, Currency),
    pub exch: [Option<f64>; 4], // initial fixed received, initial floating paid, last fixed paid, last floating received
    pub fixed: Option<f64>,
    pub idx: Option<&'static str>,
    pub comp: Option<&'static str>,
    pub issue: i64,
    pub legs: bool,
    pub notional: f64,
}
impl SwapSpec {
    pub fn kind(&self, legs: bool) -> Option<PlainSwapType> {
        let diff = self.ccy.0 != self.ccy.1;
        match (self.exch.map(|x| x.is_some()), self.fixed.is_some(), self.idx.is_some()) {
            ([false, false, false, false], true, true) if !diff => Some(PlainSwapType::IRS),
            ([true, true, true, true], true, true) if diff => Some(PlainSwapType::CRS),
            ([true, true, true, true], false, false) if diff && !legs => Some(PlainSwapType::FxSwap),
            ([false, false, true, true], false, false) if diff && !legs => Some(if self.c.end <= self.issue + 2 { PlainSwapType::FxSpot } else { PlainSwapType::FxForward }),
            _ => None,
        }
    }
    pub fn make(&self, j: &JointCalendar, conventions: bool) -> anyhow::Result<PlainSwap> {
        let r = |x: Option<f64>| x.map(|x| x as f32);
        let c = &self.c;
        let (s, e, i) = (dt(c.start, S0, 9), dt(c.end, S0, 9), dt(self.issue, S0, 9));
        let idx = self.idx.map(index);
        let comp = self.comp.map(|x| x.to_string());
        let [a, b, x, y] = self.exch;
        if conventions {
            PlainSwap::new_from_conventions(
                self.ccy.0, self.ccy.1, r(a), r(b), r(x), r(y), self.notional as f32, i, s, e, r(self.fixed), idx, comp, c.forward, c.dc, self.float_dc, c.conv, c.conv, c.freq, self.float_freq, c.fgap, c.pgap, j.clone(), "s".into(), "s".into(),
            )
        } else {
            let (fx, fl) = if self.legs {
                (c.schedule(j)?, Conv { freq: self.float_freq, ..c.clone() }.schedule(j)?)
            } else {
                (Schedule::default(), Schedule::default())
            };
            PlainSwap::new(
                fx, fl, r(self.fixed), idx, comp, j.clone(), self.notional as f32, i, s, e, self.ccy.0, self.ccy.1, r(a), r(b), r(x), r(y), c.dc, self.float_dc, c.conv, c.conv, c.freq, self.float_freq, c.fgap, c.pgap, "s".into(), "s".into(),
            )
        }
    }
    pub fn fixed_flows(&self, j: &JointCalendar, day: i64) -> Flows {
        let mut w = Flows::new();
        let c = &self.c;
        if let (Some(x), true) = (self.exch[0], c.start >= day) {
            put(&mut w, &dt(c.start, S0, 9), x);
        }
        if let (Some(x), true) = (self.exch[2], c.end >= day) {
            put(&mut w, &dt(c.end, S0, 9), -x);
        }
        if let (Some(r), true) = (self.fixed, self.legs) {
            for p in c.schedule(j).unwrap().iter().filter(|p| local_day(p.get_payment_date()) >= day) {
                put(&mut w, p.get_payment_date(), -r * self.exch[0].unwrap_or(1.0) * j.year_fraction(p.get_calc_start_date(), p.get_calc_end_date(), &c.dc).unwrap() as f64);
            }
        }
        w
    }
    pub fn floating_flows(&self, j: &JointCalendar, at: &OffsetDateTime, fwd: &Cv, past: &BTreeMap<i64, f64>) -> Option<Flows> {
        let mut w = Flows::new();
        let c = &self.c;
        let day = local_day(at);
        if let (Some(x), true) = (self.exch[1], c.start >= day) {
            put(&mut w, &dt(c.start, S0, 9), -x);
        }
        if let (Some(x), true) = (self.exch[3], c.end >= day) {
            put(&mut w, &dt(c.end, S0, 9), x);
        }
        if let (Some(t), true) = (self.idx, self.legs) {
            for p in (Conv { freq: self.float_freq, ..c.clone() }).schedule(j).unwrap().iter().filter(|p| local_day(p.get_payment_date()) >= day) {
                put(&mut w, p.get_payment_date(), self.exch[1].unwrap_or(1.0) * coupon_ref(p, t, None, fwd, past, at, self.comp, j, self.float_dc, c.fgap)?);
            }
        }
        Some(w)
    }
}

/// Swaps that exist, for this and the pricing checks.
pub fn swap_menu(base: i64, thorough: bool) -> Vec<SwapSpec> {
    use Currency::{KRW, USD};
    let mut v = vec![];
    let spans = [(base + 1, num(Ymd(2026, 1, 8))), (base - 250, num(Ymd(2025, 2, 28))), (base, num(Ymd(2024, 8, 30)))];
    for &(start, end) in &spans {
        for (exch, ccy, fixed, legs) in [
            ([None; 4], (KRW, KRW), Some(0.0325), true),
            ([Some(1330.0), Some(1.0), Some(1330.0), Some(1.0)], (KRW, USD), Some(0.0325), true),
            ([Some(1.0), Some(0.5), Some(1.0), Some(0.5)], (KRW, USD), Some(0.0325), true),
            ([Some(1300.0), Some(2.0), Some(1290.0), Some(3.0)], (KRW, USD), Some(-0.01), true),
            ([Some(1300.0), Some(1.0), Some(1280.0), Some(1.0)], (KRW, USD), None, false),
            ([None, None, Some(1280.0), Some(1.5)], (KRW, USD), None, false),
        ] {
            for (fq, lq) in [(F::Quarterly, F::Quarterly), (F::SemiAnnually, F::Quarterly), (F::Annually, F::Monthly)] {
                for (fgap, pgap) in [(1, 0), (0, 2)] {
                    for comp in [None, Some("1D")] {
                        for forward in if thorough { vec![true, false] } else { vec![true] } {
                            if !legs && (fq != F::Quarterly || comp.is_some() || !forward) {
                                continue;
                            }
                            v.push(SwapSpec {
                                c: Conv { forward, start, end, cal: vec![Cal::KrSettle, Cal::UsSettle], dc: D::Actual365Fixed, conv: B::ModifiedFollowing, freq: fq, fgap, pgap },
                                float_freq: lq,
                                float_dc: D::Actual360,
                                ccy,
                                exch,
                                fixed,
                                idx: if legs { Some("91D") } else { None },
                                comp,
                                issue: start - 2,
                                legs,
                                notional: 1000.0,
                            });
                        }
                    }
                }
            }
        }
    }
    v
}

fn swaps(ctx: &Ctx, base: i64) {
    let full: BTreeMap<i64, f64> = (base - 500..base + 40).map(|d| (d, 0.025 + 0.0001 * ((d % 37) as f64))).collect();
    let menu = swap_menu(base, ctx.thorough());
    ctx.note("swaps", menu.len().to_string());
    ctx.par_for(menu.len(), |i| {
        let s = &menu[i];
        let name = format!("swap {} / {:?} exchanges {:?} fixed {:?} compounded {:?}", s.c.text(), s.float_freq, s.exch, s.fixed, s.comp);
        ctx.run(|| name.clone(), || {
            let j = joint(&s.c.cal);
            for conventions in [false, true] {
                if conventions && !s.legs {
                    continue;
                }
                let sw = match s.make(&j, conventions) {
                    Ok(x) => x,
                    Err(e) => {
                        ctx.violation(&format!("{name} refused"), format!("{e}"));
                        return;
                    }
                };
                let sch = s.c.schedule(&j).unwrap();
                for at in pricing_dates(&sch, &s.c, true) {
                    ctx.case();
                    let day = local_day(&at);
                    let g = sw.get_fixed_cashflows(&at).unwrap();
                    if let Err(m) = same(&g, &s.fixed_flows(&j, day), 3e-6) {
                        ctx.violation(&format!("fixed leg of {name} at {at}"), format!("fixed leg of {name}, priced {at}: {m}"));
                        return;
                    }
                }
                for at in [base, base + 1, base + 2, base + 30, base - 20] {
                    // a curve of that day
                    let e = ed(at, S0, 9);
                    let fwd = long_curve(&e);
                    for sec in [0, S0] {
                        ctx.case();
                        let at = dt(at, sec, 9);
                        let g = sw.get_floating_cashflows(&at, Some(fwd.clone()), Some(history(&full))).ok();
                        let w = s.floating_flows(&j, &at, &fwd, &full);
                        let r = match (&g, &w) {
                            (Some(g), Some(w)) => same(g, w, if s.comp.is_some() { 3e-5 } else { 5e-6 }),
                            (None, None) => Ok(()),
                            (g, w) => Err(format!("accepted {} expected accepted {}", g.is_some(), w.is_some())),
                        };
                        if let Err(m) = r {
                            ctx.violation(&format!("floating leg of {name} at {at}"), format!("floating leg of {name}, priced {at}: {m}"));
                            return;
                        }
                    }
                }
            }
        });
    });
    // ---- which swap it is, over all combinations of what is given
    ctx.par_for(1 << 9, |m| {
        ctx.run(|| format!("swap kind {m:09b}"), || {
            let b = |k: usize| m >> k & 1 == 1;
            let o = |k: usize, x: f64| if b(k) { Some(x) } else { None };
            let end = if b(8) { base + 1 } else { base + 400 };
            let s = SwapSpec {
                c: Conv { forward: true, start: base - 1, end, cal: vec![Cal::KrSettle], dc: D::Actual365Fixed, conv: B::Unadjusted, freq: F::Quarterly, fgap: 0, pgap: 0 },
                float_freq: F::SemiAnnually,
                float_dc: D::Actual360,
                ccy: (Currency::KRW, if b(0) { Currency::USD } else { Currency::KRW }),
                exch: [o(1, 1300.0), o(2, 1.0), o(3, 1290.0), o(4, 1.0)],
                fixed: o(5, 0.03),
                idx: if b(6) { Some("91D") } else { None },
                comp: None,
                issue: base - 1,
                legs: b(7),
                notional: 10.0,
            };
            let j = joint(&s.c.cal);
            for conventions in [false, true] {
                if conventions && !s.legs {
                    continue;
                }
                ctx.case();
                let got = s.make(&j, conventions).ok();
                let kind = got.as_ref().map(|x| x.get_specific_plain_swap_type().unwrap());
                let want = s.kind(s.legs);
                if kind != want {
                    ctx.violation(&format!("swap kind {m:09b} conventions {conventions}"), format!("exchanges {:?} fixed {:?} index {:?} legs {} currencies {:?} maturity in {} days, from conventions {conventions}: {kind:?}, expected {want:?}", s.exch, s.fixed, s.idx, s.legs, s.ccy, s.c.end - s.issue));
                }
                ctx.outcome(&format!("{want:?}"));
                if let Some(x) = got {
                    let fx = if b(0) { vec!["USDKRW".to_string()] } else { vec![] };
                    let g: Vec<String> = x.get_all_fxcodes_for_pricing().iter().map(|f| f.to_string()).collect();
                    if g != fx || x.get_type_name() != format!("{:?}", want.unwrap_or(PlainSwapType::IRS)) {
                        ctx.violation(&format!("swap name {m:09b}"), format!("{} needs {g:?}, expected {fx:?}", x.get_type_name()));
                    }
                }
            }
        });
    });
    let _ = guarded(|| ());
}
