//! Q09 volatility surfaces.
use crate::curve::CurveRef;
use crate::dates::{apply_text, year_split};
use crate::hol::*;
use crate::interp::linear_ref;
use crate::util::*;
use quantlib::currency::Currency;
use quantlib::data::surface_data::SurfaceData;
use quantlib::data::value_data::ValueData;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::StickynessType as St;
use quantlib::math::interpolator::ExtraPolationType as E;
use quantlib::parameters::discrete_ratio_dividend::DiscreteRatioDividend;
use quantlib::parameters::market_price::MarketPrice;
use quantlib::parameters::volatilities::constant_volatility::ConstantVolatility;
use quantlib::parameters::volatilities::local_volatility_surface::LocalVolatilitySurface;
use quantlib::parameters::volatilities::volatiltiy_interpolator::VolatilityInterplator;
use quantlib::parameters::volatility::{Volatility, VolatilityType};
use std::cell::RefCell;
use std::rc::Rc;
use vcommon::Ctx;

#[derive(Clone, Copy, Debug)]
enum Op {
    Vol(Option<f64>, Option<f64>, Option<f64>, Option<f64>, f64),
    Price(f64, bool), // and rebuild
    Collateral(f64),
    Borrowing(f64),
}
const OPS: [Op; 12] = [
    Op::Vol(None, None, None, None, 0.01),
    Op::Vol(Some(0.5), Some(1.0), None, None, 0.02),
    Op::Vol(Some(-1.0), Some(0.2), Some(0.9), Some(1.1), -0.01),
    Op::Vol(None, None, None, Some(0.8), 0.03),
    Op::Vol(Some(1.7), None, Some(1.0), None, 0.005),
    Op::Vol(Some(3.0), Some(9.0), None, None, 0.5), // nothing there
    Op::Vol(None, Some(2.0), Some(0.9), Some(0.9), 0.5), // nothing there
    Op::Price(120.0, true),
    Op::Price(90.0, true),
    Op::Price(80.0, false),
    Op::Collateral(0.02),
    Op::Borrowing(0.03),
];
const TENORS: [&str; 5] = ["1M", "3M", "6M", "1Y", "2Y"];
const GRID: [f64; 5] = [0.8, 0.9, 1.0, 1.1, 1.3];
const SPOT: f64 = 100.0;

/// (days to maturity, strikes, vols)
pub type Surf = (&'static [i64], &'static [f64], &'static [&'static [f64]]);
pub const SURFS: [Surf; 3] = [
    (&[30, 91, 365, 1100], &[70.0, 95.0, 105.0, 140.0], &[&[0.35, 0.22, 0.18, 0.25], &[0.30, 0.21, 0.19, 0.22], &[0.27, 0.20, 0.19, 0.21], &[0.24, 0.20, 0.195, 0.2]]),
    (&[200, 300], &[90.0, 110.0], &[&[0.3, 0.1], &[0.2, 0.25]]),
    (&[0, 10, 800], &[50.0, 80.0, 100.0, 120.0, 150.0], &[&[0.5, 0.4, 0.3, 0.2, 0.1], &[0.45, 0.35, 0.25, 0.3, 0.35], &[0.2, 0.2, 0.2, 0.2, 0.2]]),
];

struct M {
    imvol: Vec<Vec<f64>>,
    times: Vec<f64>,
    days: Vec<(i64, i64)>,
    price: f64,
    built_fwd: Vec<f64>,
    imspot: f64,
    sticky: bool, // to the moneyness
    col: CurveShift,
    bor: CurveShift,
    divs: Vec<(i64, f64)>,
    eval: (i64, i64),
}
struct CurveShift(Vec<f64>, Vec<f64>, Vec<f64>); // tenor times, input times, input rates (shifted in parallel)
impl CurveShift {
    fn df(&self, t: f64, shift: f64) -> f64 {
        let r: Vec<f64> = self.2.iter().map(|x| x + shift).collect();
        CurveRef::new(self.0.clone(), &self.1, &r).df(t).unwrap()
    }
}
impl M {
    fn build(&mut self, cs: f64, bs: f64) {
        let s = if self.sticky { self.imspot } else { self.price };
        self.built_fwd = self
            .days
            .iter()
            .map(|&(n, sec)| {
                let t = year_split(self.eval.0, self.eval.1, n, sec);
                let d: f64 = self.divs.iter().filter(|(x, _)| *x <= n).map(|(_, a)| 1.0 - a / SPOT).product();
                s * self.bor.df(t, bs) / self.col.df(t, cs) * d
            })
            .collect();
    }
    fn get(&self, t: f64, x: f64) -> f64 {
        let row = |i: usize| {
            let k: Vec<f64> = GRID.iter().map(|m| m * self.imspot / self.built_fwd[i]).collect();
            linear_ref(&k, &self.imvol[i], x, E::Flat, true).unwrap()
        };
        let v: Vec<f64> = (0..self.times.len()).map(row).collect();
        linear_ref(&self.times, &v, t, E::Flat, true).unwrap()
    }
}

pub fn q09(ctx: &Ctx) {
    let evals: Vec<(i64, i64)> = ctx.pick(vec![(Ymd(2024, 1, 2), 0), (Ymd(2023, 12, 29), 59400)], vec![(Ymd(2024, 1, 2), 0), (Ymd(2023, 12, 29), 59400), (Ymd(2024, 2, 29), 32400), (Ymd(2023, 8, 31), 86340)]).into_iter().map(|(d, s)| (num(d), s)).collect();
    let depth = ctx.pick(2, 3);
    let mut hist: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let end = hist.len();
        for i in from..end {
            for o in 0..OPS.len() {
                let mut h = hist[i].clone();
                h.push(o);
                hist.push(h);
            }
        }
        from = end;
    }
    // surfaces (and a constant one) x sticky rule x carry
    let setups = (SURFS.len() + 1) * 2 * 3;
    ctx.note("space", format!("{} evaluation dates x {setups} surfaces x {} histories up to length {depth} of {} operations", evals.len(), hist.len(), OPS.len()));
    let per = hist.len();
    ctx.par_for(evals.len() * setups * per, |job| {
        let (e, s, h) = (evals[job / per / setups], job / per % setups, &hist[job % per]);
        let (surf, sticky, carry) = (s / 6, s % 2 == 0, s / 2 % 3);
        let key = || format!("evaluation {:?} {}s surface {surf} sticky to {} carry {carry} after {:?}", ymd(e.0), e.1, if sticky { "moneyness" } else { "strike" }, h.iter().map(|&o| OPS[o]).collect::<Vec<_>>());
        ctx.case();
        ctx.run(&key, || one(ctx, e, surf, sticky, carry, h, &key));
    });
    constant(ctx);
    refusals(ctx, evals[0]);
}

fn rates(carry: usize) -> ([f64; 2], [f64; 2], [f64; 2]) {
    ([0.5, 3.0], [[0.0, 0.0], [0.03, 0.05], [0.04, 0.01]][carry], [[0.0, 0.0], [0.01, 0.0], [0.06, 0.02]][carry])
}

pub fn surface(s: Surf, b: (i64, i64), spot: Option<f64>) -> SurfaceData {
    let v: Vec<f32> = s.2.iter().flat_map(|r| r.iter().map(|&x| x as f32)).collect();
    SurfaceData::new(
        spot.map(|x| x as f32),
        ndarray::Array2::from_shape_vec((s.0.len(), s.1.len()), v).unwrap(),
        s.0.iter().map(|&d| dt(b.0 + d, b.1, 9)).collect(),
        s.1.iter().map(|&x| x as f32).collect(),
        Some(dt(b.0, b.1, 9)),
        Currency::KRW,
        "surf".into(),
        "surf".into(),
    )
}

fn one(ctx: &Ctx, e: (i64, i64), surf: usize, sticky: bool, carry: usize, h: &[usize], key: &dyn Fn() -> String) {
    let evd = ed(e.0, e.1, 9);
    let (rt, cr, br) = rates(carry);
    let col = curve(&evd, &rt, &cr, "C");
    let bor = curve(&evd, &rt, &br, "B");
    let divs = if carry == 1 { vec![(e.0 + 60, 2.0), (e.0 + 365, 3.0)] } else { vec![] };
    let div = if divs.is_empty() {
        None
    } else {
        let data = VectorData::new(divs.iter().map(|x| x.1 as f32).collect(), Some(divs.iter().map(|x| dt(x.0, 0, 9)).collect()), None, Some(dt(e.0, e.1, 9)), Currency::KRW, "d".into(), "d".into()).unwrap();
        Some(Rc::new(RefCell::new(DiscreteRatioDividend::new(evd.clone(), &data, SPOT as f32, "d".into(), "d".into()).unwrap())))
    };
    let mp = Rc::new(RefCell::new(MarketPrice::new(SPOT as f32, dt(e.0, e.1, 9), div, Currency::KRW, "S".into(), "S".into())));
    // the surface was observed at another spot than today's price
    let imspot = if surf == 1 { 104.0 } else { SPOT };
    let l = LocalVolatilitySurface::initialize(evd.clone(), mp.clone(), col.clone(), bor.clone(), if sticky { St::StickyToMoneyness } else { St::StickyToStrike }, VolatilityInterplator::default(), "L".into(), "L".into());
    let tenors: Vec<String> = TENORS.iter().map(|s| s.to_string()).collect();
    let grid: ndarray::Array1<f32> = GRID.iter().map(|&x| x as f32).collect();
    let l = if surf < SURFS.len() {
        l.with_market_surface(&surface(SURFS[surf], e, Some(imspot)), tenors, grid)
    } else {
        l.with_constant_volatility(&ValueData::new(0.22, Some(dt(e.0, e.1, 9)), Currency::KRW, "v".into(), "v".into()).unwrap(), tenors, grid)
    };
    let mut l = match l {
        Ok(l) => l,
        Err(x) => {
            ctx.violation(&key(), format!("refused: {x:#}"));
            return;
        }
    };
    if let Err(x) = l.build() {
        ctx.violation(&key(), format!("build refused: {x:#}"));
        return;
    }
    // model
    let days: Vec<(i64, i64)> = TENORS.iter().map(|t| apply_text(e, t, 1)).collect();
    let times: Vec<f64> = days.iter().map(|d| year_split(e.0, e.1, d.0, d.1)).collect();
    let got: Vec<f64> = l.get_imvol_maturity_times().iter().map(|&x| x as f64).collect();
    if got.len() != 5 || (0..5).any(|i| (got[i] - times[i]).abs() > 1.5e-5) || (0..5).any(|i| l.get_imvol_matuirty_dates()[i] != dt(days[i].0, days[i].1, 9)) {
        ctx.violation(&key(), format!("maturities {:?} {got:?}, expected {days:?} {times:?}", l.get_imvol_matuirty_dates()));
        return;
    }
    let imvol: Vec<Vec<f64>> = if surf < SURFS.len() {
        let s = SURFS[surf];
        let gt: Vec<f64> = s.0.iter().map(|&d| year_split(e.0, e.1, e.0 + d, e.1)).collect();
        let gm: Vec<f64> = s.1.iter().map(|k| k / imspot).collect();
        got.iter()
            .map(|&t| {
                GRID.iter()
                    .map(|&m| {
                        let v: Vec<f64> = s.2.iter().map(|r| linear_ref(&gm, r, m, E::Flat, true).unwrap()).collect();
                        linear_ref(&gt, &v, t, E::Flat, true).unwrap()
                    })
                    .collect()
            })
            .collect()
    } else {
        vec![vec![0.22; 5]; 5]
    };
    let cached = |c: &Cv| -> Vec<f64> { c.borrow().get_cached_discount_times_clone().iter().map(|&x| x as f64).collect() };
    let mut m = M {
        imvol,
        times: got,
        days,
        price: SPOT,
        built_fwd: vec![],
        imspot,
        sticky,
        col: CurveShift(cached(&col), rt.to_vec(), cr.to_vec()),
        bor: CurveShift(cached(&bor), rt.to_vec(), br.to_vec()),
        divs,
        eval: e,
    };
    let (mut cs, mut bs) = (0.0, 0.0);
    m.build(cs, bs);
    let mut v = Volatility::LocalVolatilitySurface(l);
    for &o in h {
        let r = match OPS[o] {
            Op::Vol(t1, t2, x1, x2, b) => {
                // boundaries at the surface's own tenors and moneyness
                let snap = |x: Option<f64>| x.map(|x| m.times.iter().cloned().find(|t| (t - x).abs() < 2e-2).unwrap_or(x));
                let (s1, s2) = (snap(t1), snap(t2));
                let f = |x: Option<f64>| x.map(|x| x as f32);
                let r = v.bump_volatility(f(s1), f(s2), f(x1), f(x2), b as f32);
                for i in 0..5 {
                    for j in 0..5 {
                        let (t, x) = (m.times[i], GRID[j]);
                        if t > s1.unwrap_or(-1e9) + 1e-4 && t <= s2.unwrap_or(1e9) + 1e-4 && x > x1.unwrap_or(-1e9) + 1e-4 && x <= x2.unwrap_or(1e9) + 1e-4 {
                            m.imvol[i][j] += b;
                        }
                    }
                }
                m.build(cs, bs);
                r
            }
            Op::Price(p, rebuild) => {
                mp.borrow_mut().set_price(p as f32);
                m.price = p;
                if rebuild {
                    m.build(cs, bs);
                    v.build()
                } else {
                    Ok(())
                }
            }
            Op::Collateral(b) => {
                col.borrow_mut().bump_time_interval(None, None, b as f32).unwrap();
                cs += b;
                m.build(cs, bs);
                v.build()
            }
            Op::Borrowing(b) => {
                bor.borrow_mut().bump_time_interval(None, None, b as f32).unwrap();
                bs += b;
                m.build(cs, bs);
                v.build()
            }
        };
        if let Err(x) = r {
            ctx.violation(&key(), format!("{:?} refused: {x:#}", OPS[o]));
            return;
        }
    }
    if v.get_volatility_type() != VolatilityType::LocalVolatilitySurface || v.get_code() != "L" || v.get_name() != "L" {
        ctx.violation(&key(), "type, name or code");
    }
    let mut ts = vec![0.0, 0.01, 5.0];
    for i in 0..5 {
        ts.push(m.times[i]);
        if i < 4 {
            ts.push(m.times[i] * 0.7 + m.times[i + 1] * 0.3);
        }
    }
    for &t in &ts {
        for x in [0.3, 0.78, 0.8, 0.85, 0.93, 1.0, 1.04, 1.17, 1.3, 1.5, 4.0] {
            let w = m.get(t, x);
            let g = v.get_value(t as f32, x as f32);
            if !close(g, w, 0.0, 4e-5) {
                ctx.violation(&key(), format!("volatility at t={t} moneyness {x}: {g}, expected {w}"));
                return;
            }
            let (var, dev) = (v.total_variance(t as f32, x as f32), v.total_deviation(t as f32, x as f32));
            match (var, dev) {
                (Ok(a), Ok(b)) if close(a, w * w * t, 1e-5, 1e-4 * w * t + 1e-7) && close(b, w * t.sqrt(), 1e-5, 5e-5 * t.sqrt() + 1e-7) => (),
                r => ctx.violation(&key(), format!("variance and deviation at t={t} moneyness {x}: {r:?}, expected {} {}", w * w * t, w * t.sqrt())),
            }
        }
    }
    if ctx.want_sample() && !h.is_empty() {
        ctx.sample(format!("{}: at 0.7 years, moneyness 1.04: {}", key(), v.get_value(0.7, 1.04)));
    }
}

fn constant(ctx: &Ctx) {
    for v0 in [0.0, 0.2, 0.9] {
        for b1 in [0.0, 0.01, -0.05] {
            for b2 in [0.02, -0.01] {
                let key = format!("constant volatility {v0} bumped by {b1} and {b2}");
                ctx.case();
                ctx.run(|| key.clone(), || {
                    let mut v = Volatility::ConstantVolatility(ConstantVolatility::new(v0 as f32, "n".into(), "c".into()));
                    v.build().unwrap();
                    v.bump_volatility(None, None, None, None, b1 as f32).unwrap();
                    v.bump_volatility(Some(0.1), Some(0.2), None, Some(1.0), b2 as f32).unwrap();
                    let w = v0 + b1 + b2;
                    for t in [0.0, 0.25, 1.0, 7.0] {
                        for x in [0.1, 1.0, 3.0] {
                            let (a, b, c) = (v.get_value(t as f32, x), v.total_variance(t as f32, x).unwrap(), v.total_deviation(t as f32, x).unwrap());
                            if !close(a, w, 1e-6, 1e-6) || !close(b, w * w * t, 1e-5, 1e-6) || !close(c, w * t.sqrt(), 1e-5, 1e-6) {
                                ctx.violation(&key, format!("t={t}: {a} {b} {c}, expected {w}"));
                            }
                        }
                    }
                    if v.get_volatility_type() != VolatilityType::ConstantVolatility || v.get_code() != "c" || v.get_name() != "n" {
                        ctx.violation(&key, "type, name or code");
                    }
                });
            }
        }
    }
}

fn refusals(ctx: &Ctx, e: (i64, i64)) {
    let evd = ed(e.0, e.1, 9);
    let c = curve(&evd, &[1.0], &[0.03], "C");
    let mp = Rc::new(RefCell::new(MarketPrice::new(SPOT as f32, dt(e.0, e.1, 9), None, Currency::KRW, "S".into(), "S".into())));
    let init = || LocalVolatilitySurface::initialize(evd.clone(), mp.clone(), c.clone(), c.clone(), St::StickyToMoneyness, VolatilityInterplator::default(), "L".into(), "L".into());
    let grid: ndarray::Array1<f32> = GRID.iter().map(|&x| x as f32).collect();
    let up: &[&str] = &["1M", "6M"];
    let down: &[&str] = &["6M", "1M"];
    let cases: [(&str, Surf, Option<f64>, &[&str]); 5] = [
        ("no spot", SURFS[0], None, up),
        ("tenors out of order", SURFS[0], Some(100.0), down),
        ("maturities out of order", (&[300, 200], SURFS[1].1, SURFS[1].2), Some(100.0), up),
        ("a maturity in the past", (&[-1, 200], SURFS[1].1, SURFS[1].2), Some(100.0), up),
        ("a single maturity", (&[200], &[90.0, 110.0], &[&[0.2, 0.3]]), Some(100.0), up),
    ];
    for (name, s, spot, tenors) in cases {
        ctx.case();
        let r = ctx.run(|| name.to_string(), || init().with_market_surface(&surface(s, e, spot), tenors.iter().map(|s| s.to_string()).collect(), grid.clone()).and_then(|mut l| l.build()).is_ok());
        if r == Some(true) {
            ctx.violation(name, "accepted");
        }
    }
}
