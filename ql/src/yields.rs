//! Q16 bond yields and treasury bond futures.
use crate::dates::fraction;
use crate::flows::*;
use crate::hol::*;
use crate::pricers::{Zc, RATES, TIMES};
use crate::util::*;
use quantlib::currency::Currency;
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::bond::Bond;
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::pricing_engines::krx_yield_pricer::KrxYieldPricer;
use quantlib::pricing_engines::ktbf_pricer::KtbfPricer;
use quantlib::pricing_engines::pricer::{Pricer, PricerTrait};
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D, PaymentFrequency as F};
use std::collections::BTreeMap;
use vcommon::Ctx;

/// The exchange's price at a yield: flows after the pricing day, periods counted from the
/// first of them, and simple interest over the part of the current period that is left.
struct YieldRef {
    flows: Vec<(f64, f64)>, // periods after the first flow, amount
    part: f64,
    freq: f64,
}
impl YieldRef {
    fn new(flows: &Flows, payments: &[i64], issue: i64, pricing: i64, freq: f64) -> YieldRef {
        let after: Vec<((i64, i64), f64)> = flows.iter().filter(|(d, _)| d.0 > pricing).map(|(d, x)| (*d, *x)).collect();
        let Some(first) = after.first().map(|x| x.0) else {
            return YieldRef { flows: vec![], part: 0.0, freq };
        };
        let prev = payments.iter().filter(|d| **d <= pricing).max().copied().unwrap_or(issue);
        YieldRef {
            flows: after.iter().map(|(d, x)| (freq * fraction(D::StreetConvention, first.0, first.1, d.0, d.1).unwrap(), *x)).collect(),
            part: (first.0 - pricing) as f64 / (first.0 - prev) as f64,
            freq,
        }
    }
    fn price(&self, y: f64) -> f64 {
        let v = y / self.freq;
        self.flows.iter().map(|(n, x)| x / (1.0 + v).powf(*n)).sum::<f64>() / (1.0 + v * self.part)
    }
    fn solve(&self, p: f64) -> f64 {
        let (mut a, mut b) = (-0.9, 50.0);
        for _ in 0..200 {
            let m = (a + b) / 2.0;
            if self.price(m) > p {
                a = m
            } else {
                b = m
            }
        }
        (a + b) / 2.0
    }
}
fn freq_of(f: F) -> f64 {
    match f {
        F::Monthly => 12.0,
        F::SemiQuarterly => 6.0,
        F::Quarterly => 4.0,
        F::TriAnnually => 3.0,
        F::SemiAnnually => 2.0,
        F::Annually => 1.0,
        _ => unreachable!(),
    }
}

pub fn q16(ctx: &Ctx) {
    let base = num(Ymd(2024, 1, 2));
    let mut menu = vec![];
    for freq in [F::Monthly, F::SemiQuarterly, F::Quarterly, F::TriAnnually, F::SemiAnnually, F::Annually] {
        for start in ctx.pick(vec![-400, -31, 0, 20], vec![-400, -200, -92, -31, -1, 0, 20, 75]) {
            for months in [3i64, 12, 37, 120, 360] {
                for conv in [B::Unadjusted, B::ModifiedFollowing] {
                    for dc in [D::StreetConvention, D::ActActIsda] {
                        for (coupon, strip) in [(Some(0.0), false), (Some(0.0425), false), (Some(0.1), true), (None, false)] {
                            let end = num(add_months(ymd(base + start), months));
                            if end <= base || (months == 360 && freq == F::Monthly) || (coupon.is_none() && months > ctx.pick(12, 37)) {
                                continue;
                            }
                            menu.push((Conv { forward: true, start: base + start, end, cal: vec![Cal::KrSettle], dc, conv, freq, fgap: 0, pgap: 0 }, coupon, strip));
                        }
                    }
                }
            }
        }
    }
    ctx.note("bonds", menu.len().to_string());
    let past: BTreeMap<i64, f64> = (base - 500..base + 900).map(|d| (d, 0.025 + 0.0001 * ((d % 37) as f64))).collect();
    ctx.par_for(menu.len(), |i| {
        let (c, coupon, strip) = &menu[i];
        let name = format!("bond {} coupon {coupon:?} strip {strip}", c.text());
        ctx.run(|| name.clone(), || {
            let j = joint(&c.cal);
            let sch = c.schedule(&j).unwrap();
            let payments: Vec<i64> = sch.iter().map(|p| local_day(p.get_payment_date())).collect();
            let mut days = vec![base, base + 1, base + 50, c.end - 1, c.end];
            for p in payments.iter().filter(|d| **d >= base).take(2) {
                days.extend([p - 1, *p, p + 1]);
            }
            days.sort();
            days.dedup();
            let idx = if coupon.is_none() { Some(index("91D")) } else { None };
            for pricing in days {
                // pricing date given, or the evaluation date itself
                for given in [false, true] {
                    let ev = if given { base } else { pricing };
                    if pricing < base || (given && coupon.is_none() && pricing > base + 60) {
                        continue;
                    }
                    let e = ed(ev, S0, 9);
                    let fwd = long_curve(&e);
                    let b = bond(c, &j, Some(sch.clone()), *strip, *coupon, idx.clone(), None, None, if given { Some(dt(pricing, S0, 9)) } else { None }, 10000.0).unwrap();
                    let Ok(flows) = b.get_cashflows(&dt(pricing, S0, 9), Some(fwd.clone()), Some(history(&past))) else { continue };
                    let flows: Flows = flows.into_iter().map(|(d, x)| ((undt(&d).0, undt(&d).1), x as f64)).collect();
                    let r = YieldRef::new(&flows, &payments, c.start, pricing, freq_of(c.freq));
                    let key = || format!("{name} priced {:?} given {given}", ymd(pricing));
                    if !one(ctx, &e, &fwd, &past, b, &r, coupon.is_none(), &key) {
                        return;
                    }
                }
            }
            if i % 100 == 0 {
                ctx.sample(name.clone());
            }
        });
    });
    ktbf(ctx, base);
}

fn one(ctx: &Ctx, e: &Ed, fwd: &Cv, past: &BTreeMap<i64, f64>, b: Bond, r: &YieldRef, floating: bool, key: &dyn Fn() -> String) -> bool {
    let h = history(past);
    let inst: Instrument = b.clone().into();
    let size: f64 = r.flows.iter().map(|x| x.1.abs()).sum();
    let last = r.flows.last().map(|x| x.0).unwrap_or(0.0);
    for y in ctx.pick(vec![-0.02, 0.0, 0.0339, 0.15], vec![-0.02, -0.003, 0.0, 0.01, 0.0339, 0.05, 0.08, 0.15, 0.4]) {
        ctx.case();
        let k = KrxYieldPricer::new(e.clone(), y as f32, Some(fwd.clone()), Some(h.clone()));
        let want = r.price(y);
        let tol = (size + want.abs()) * (3e-6 + 1e-7 * last);
        let p = Pricer::KrxYieldPricer(k.clone());
        let (a, res) = (p.npv(&inst).ok(), p.npv_result(&inst).ok());
        if !matches!((a, &res), (Some(a), Some(q)) if close(a, want, 0.0, tol) && close(q.get_npv(), want, 0.0, tol)) {
            ctx.violation(&key(), format!("{}: price at a yield of {y}: {a:?} and {:?}, expected {want}", key(), res.map(|q| q.get_npv())));
            return false;
        }
        if k.get_bond_yield() != y as f32 {
            ctx.violation(&key(), "yield not kept");
        }
        if r.flows.is_empty() || want < 1e-3 {
            continue;
        }
        // and back, from several first guesses
        let g = [None, Some(0.0), Some(-0.1), Some(0.03), Some(0.3), Some(y)];
        let g = if ctx.thorough() { &g[..] } else if floating { &g[3..4] } else { &g[1..4] };
        for g in g {
            ctx.case();
            let f = k.find_bond_yield(b.clone(), want as f32, g.map(|x| x as f32));
            match f {
                Ok(f) if (r.price(f as f64) - want).abs() <= tol => (),
                f => {
                    ctx.violation(&key(), format!("{}: yield for a price of {want} from a guess of {g:?}: {f:?}, expected {y}", key()));
                    return false;
                }
            }
        }
    }
    if !r.flows.is_empty() {
        for p in [-1.0, f32::NAN] {
            ctx.case();
            let f = KrxYieldPricer::new(e.clone(), 0.03, Some(fwd.clone()), Some(h.clone())).find_bond_yield(b.clone(), p, None);
            if f.is_ok() {
                ctx.violation(&key(), format!("{}: a price of {p} has a yield {f:?}", key()));
                return false;
            }
        }
    }
    true
}

fn ktbf(ctx: &Ctx, base: i64) {
    // underlying bonds: days of issue before the base, months, coupon
    let bonds = [(100i64, 36i64, 0.0325), (400, 60, 0.045), (30, 120, 0.02), (0, 24, 0.05), (200, 36, 0.0)];
    let sets: Vec<usize> = (1..1usize << bonds.len()).collect();
    ctx.note("treasury bond futures", format!("{} sets of underlying bonds", sets.len()));
    ctx.par_for(sets.len(), |i| {
        let set = sets[i];
        let chosen: Vec<(i64, i64, f64)> = (0..bonds.len()).filter(|k| set >> k & 1 == 1).map(|k| bonds[k]).collect();
        for mat in [base + 1, base + 60, base + 190] {
            for ev in [base, base - 20] {
                for curves in ctx.pick(vec![(0, 1), (2, 0)], vec![(0, 1), (2, 0), (1, 2), (0, 2)]) {
                    for (year, vc, vf, vn) in [(3, 0.05, F::SemiAnnually, 100.0), (10, 0.03, F::Quarterly, 1.0), (5, 0.0, F::Annually, 100.0)] {
                        let key = || format!("futures on {chosen:?} until {:?} evaluated {:?} curves {curves:?} virtual {year} years {vc} {vf:?}", ymd(mat), ymd(ev));
                        ctx.run(&key, || {
                            ctx.case();
                            let e = ed(ev, S0, 9);
                            let (disc, bor) = (Zc::new(&e, &TIMES, &RATES[curves.0]), Zc::new(&e, &TIMES, &RATES[curves.1]));
                            let j = joint(&[Cal::KrSettle]);
                            let mut under = vec![];
                            let mut sum = 0.0;
                            let mut short: f64 = 100.0;
                            for &(ago, months, coupon) in &chosen {
                                let start = base - ago;
                                let c = Conv { forward: true, start, end: num(add_months(ymd(start), months)), cal: vec![Cal::KrSettle], dc: D::StreetConvention, conv: B::Unadjusted, freq: F::SemiAnnually, fgap: 0, pgap: 0 };
                                let b = bond(&c, &j, None, false, Some(coupon), None, None, None, Some(dt(mat, S0, 9)), 10000.0).unwrap();
                                let flows: Flows = b.get_cashflows(&dt(mat, S0, 9), None, None).unwrap().into_iter().map(|(d, x)| ((undt(&d).0, undt(&d).1), x as f64)).collect();
                                let value: f64 = flows.iter().filter(|(d, _)| d.0 > mat).map(|(d, x)| x * disc.df((ev, S0), *d)).sum::<f64>() / disc.df((ev, S0), (mat, S0));
                                let pays: Vec<i64> = c.schedule(&j).unwrap().iter().map(|p| local_day(p.get_payment_date())).collect();
                                sum += YieldRef::new(&flows, &pays, start, mat, 2.0).solve(value);
                                short = short.min((c.end - mat) as f64 / 365.0);
                                under.push(b);
                            }
                            let y = sum / under.len() as f64;
                            let f = freq_of(vf);
                            let n = year as f64 * f;
                            let virt = |y: f64| vn * ((1..=n as i32).map(|k| vc / f / (1.0 + y / f).powi(k)).sum::<f64>() + (1.0 + y / f).powf(-n));
                            let v = KtbfVirtualBond::new(year, vc as f32, vf, vn as f32);
                            for yy in [-0.02, 0.0, 0.0317, 0.2] {
                                if !close(v.npv(yy as f32), virt(yy), 4e-6, 0.0) {
                                    ctx.violation(&key(), format!("virtual bond at {yy}: {}, expected {}", v.npv(yy as f32), virt(yy)));
                                }
                            }
                            let d = dt(mat, S0, 9);
                            let make = |bonds: Vec<Bond>| KTBF::new(Currency::KRW, 1e6, dt(base - 100, 0, 9), d, d, v.clone(), bonds, "B".into(), "k".into(), "k".into());
                            let inst: Instrument = make(under.clone()).unwrap().into();
                            let p = Pricer::KtbfPricer(KtbfPricer::new(e.clone(), disc.c.clone(), bor.c.clone()));
                            let want = virt(y) * bor.df((ev, S0), (mat, S0));
                            let (a, res) = (p.npv(&inst).ok(), p.npv_result(&inst).ok());
                            let tol = want * (1e-5 + 3e-6 * year as f64 / short);
                            if !matches!((a, &res), (Some(a), Some(q)) if close(a, want, 0.0, tol) && close(q.get_npv(), want, 0.0, tol)) {
                                ctx.violation(&key(), format!("{}: {a:?} and {:?}, expected {want} (average yield {y})", key(), res.map(|q| q.get_npv())));
                            }
                            match p.fx_exposure(&inst, want as f32) {
                                Ok(x) if x.len() == 1 && close(x[&Currency::KRW], want * 1e6, 1e-6, 0.0) => (),
                                x => ctx.violation(&key(), format!("exposure {x:?}")),
                            }
                            // another pricing date than the maturity, or none
                            for wrong in [None, Some(dt(mat + 1, S0, 9)), Some(dt(mat, S0 - 1, 9))] {
                                let c = Conv { forward: true, start: base - 10, end: base + 1000, cal: vec![Cal::KrSettle], dc: D::StreetConvention, conv: B::Unadjusted, freq: F::SemiAnnually, fgap: 0, pgap: 0 };
                                let b = bond(&c, &j, None, false, Some(0.03), None, None, None, wrong, 10000.0).unwrap();
                                for at in [0, under.len()] {
                                    ctx.case();
                                    let mut list = under.clone();
                                    list.insert(at, b.clone());
                                    if make(list).is_ok() {
                                        ctx.violation(&key(), format!("an underlying bond priced on {wrong:?} is accepted"));
                                    }
                                }
                            }
                            if ctx.want_sample() {
                                ctx.sample(format!("{}: {want}", key()));
                            }
                        });
                    }
                }
            }
        }
    });
}
