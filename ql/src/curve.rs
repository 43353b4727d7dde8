//! Q07 zero curves: discounting, forward rates and bumps.
use crate::dates::year_split;
use crate::hol::*;
use crate::interp::linear_ref;
use crate::util::*;
use quantlib::currency::Currency;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::Compounding;
use quantlib::math::interpolator::ExtraPolationType as E;
use quantlib::parameters::zero_curve::ZeroCurve;
use vcommon::{guarded, Ctx};

/// (months, days)
pub const TENORS: [(i64, i64); 29] = [
    (0, 0), (0, 1), (0, 7), (0, 14), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (6, 0), (9, 0), (12, 0), (18, 0), (24, 0), (30, 0), (36, 0), (48, 0),
    (60, 0), (72, 0), (84, 0), (96, 0), (108, 0), (120, 0), (144, 0), (180, 0), (240, 0), (360, 0), (600, 0), (1200, 0),
];
pub fn tenor_day(n: i64, k: usize) -> i64 {
    // "1Y6M" moves by the years first, then by the months
    let (y, m) = (TENORS[k].0 / 12 * 12, TENORS[k].0 % 12);
    num(add_months(add_months(ymd(n), y), m)) + TENORS[k].1
}

pub struct CurveRef {
    pub t: Vec<f64>,
    pub r: Vec<f64>,
    d: Vec<f64>,
}
impl CurveRef {
    /// `t`: the curve's own tenor times (checked separately against the calendar)
    pub fn new(t: Vec<f64>, times: &[f64], rates: &[f64]) -> CurveRef {
        let r = t.iter().map(|&x| if rates.len() == 1 { rates[0] } else { linear_ref(times, rates, x, E::Flat, true).unwrap() }).collect();
        let mut c = CurveRef { t, r, d: vec![] };
        c.factors();
        c
    }
    pub fn df(&self, x: f64) -> Option<f64> {
        if x < 0.0 || x > *self.t.last().unwrap() {
            return None;
        }
        linear_ref(&self.t, &self.d, x, E::None, false)
    }
    fn factors(&mut self) {
        self.d = self.t.iter().zip(&self.r).map(|(t, r)| (-t * r).exp()).collect();
    }
    fn bump(&mut self, a: f64, b: f64, v: f64) {
        for (t, r) in self.t.iter().zip(self.r.iter_mut()) {
            if *t > a + 1e-6 && *t <= b + 1e-6 {
                *r += v;
            }
        }
        self.factors();
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Bump(Option<f64>, Option<f64>, f64),
    BumpDates(Option<usize>, Option<usize>, f64), // between tenor dates of the construction
    Move(i64),                                    // evaluation date, days after construction
}
const OPS: [Op; 11] = [
    Op::Bump(None, None, 0.01),
    Op::Bump(Some(1.0), Some(5.0), 0.02),
    Op::Bump(None, Some(0.5), -0.015),
    Op::Bump(Some(2.2), None, 0.005),
    Op::Bump(Some(1.5), Some(1.5), 0.1),
    Op::Bump(Some(5.0), Some(1.0), 0.1), // refused
    Op::BumpDates(Some(9), Some(13), 0.03),
    Op::BumpDates(None, Some(4), 0.02),
    Op::BumpDates(Some(22), None, -0.002),
    Op::Move(1),
    Op::Move(40),
];

const CURVES: [(&[f64], &[f64]); 9] = [
    (&[0.5], &[0.03]),
    (&[0.5, 5.0], &[0.02, 0.04]),
    (&[0.0, 1.0, 2.0], &[0.05, 0.01, 0.03]),
    (&[1.0, 3.0, 10.0, 30.0], &[-0.01, 0.0, 0.02, 0.015]),
    (&[0.1, 0.2, 0.7, 40.0], &[0.3, 0.001, 0.1, 0.0]),
    (&[-0.3, 0.4, 4.5], &[0.01, 0.035, 0.03]),
    (&[200.0], &[0.0]),
    (&[0.003, 0.02, 0.08, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 5.0, 10.0, 20.0], &[0.035, 0.0351, 0.036, 0.0355, 0.034, 0.033, 0.0333, 0.032, 0.031, 0.0305, 0.03, 0.029, 0.027]),
    (&[2.0, 50.0, 99.0], &[0.08, 0.03, 0.01]),
];

fn close2(a: f32, b: f64, tol: f64) -> bool {
    a.is_finite() && (a as f64 - b).abs() <= tol
}

pub fn q07(ctx: &Ctx) {
    let evals: Vec<(i64, i64, i64)> = {
        let mut v = vec![(Ymd(2024, 1, 2), 59400, 9), (Ymd(2023, 12, 31), 0, 0), (Ymd(2024, 2, 29), 36000, -5), (Ymd(2023, 8, 31), 86399, 9)];
        if ctx.thorough() {
            v.extend([(Ymd(2021, 1, 1), 0, 0), (Ymd(2024, 12, 31), 61200, 9), (Ymd(2000, 2, 28), 43200, -12), (Ymd(2099, 10, 31), 3600, 14), (Ymd(1970, 1, 1), 0, 0), (Ymd(2025, 6, 15), 55800, 9)]);
        }
        v.into_iter().map(|(d, s, o)| (num(d), s, o)).collect()
    };
    let depth = ctx.pick(2, 3);
    let mut hist: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let end = hist.len();
        for i in from..end {
            for o in 0..OPS.len() {
                let mut h = hist[i].clone();
                h.push(o);
                hist.push(h);
            }
        }
        from = end;
    }
    ctx.note("space", format!("{} evaluation dates x {} curves x {} histories of bumps and date moves up to length {depth}; 29 tenors, points between, pairs of them", evals.len(), CURVES.len(), hist.len()));
    let per = hist.len();
    let total = evals.len() * CURVES.len() * per;
    ctx.par_for(total, |job| {
        let (e, c, h) = (evals[job / per / CURVES.len()], CURVES[job / per % CURVES.len()], &hist[job % per]);
        let key = || format!("evaluation {:?} {}s {:+}h curve {c:?} after {:?}", ymd(e.0), e.1, e.2, h.iter().map(|&o| OPS[o]).collect::<Vec<_>>());
        ctx.run(&key, || one(ctx, e, c, h, &key));
    });
    q07_refusals(ctx);
    q07_dates(ctx);
}

fn one(ctx: &Ctx, e: (i64, i64, i64), c: (&[f64], &[f64]), h: &[usize], key: &dyn Fn() -> String) {
    let evd = ed(e.0, e.1, e.2);
    let cv = curve(&evd, c.0, c.1, "C");
    let mut now = e.0;
    // the tenors are those of the evaluation date
    let tt: Vec<f64> = cv.borrow().get_cached_discount_times_clone().iter().map(|&x| x as f64).collect();
    ctx.case();
    if tt.len() != 29 || (0..29).any(|k| (tt[k] - year_split(e.0, e.1, tenor_day(e.0, k), e.1)).abs() > 1.5e-5 + 5e-7 * tt[k]) {
        ctx.violation(&format!("{} tenors", key()), format!("tenor times {:?}", (0..29).map(|k| (tt[k], year_split(e.0, e.1, tenor_day(e.0, k), e.1))).collect::<Vec<_>>()));
        return;
    }
    let mut m = CurveRef::new(tt.clone(), c.0, c.1);
    for &o in h {
        match OPS[o] {
            Op::Bump(a, b, v) => {
                let r = cv.borrow_mut().bump_time_interval(a.map(|x| x as f32), b.map(|x| x as f32), v as f32);
                let (a, b) = (a.unwrap_or(-1e9), b.unwrap_or(1e9));
                if r.is_ok() != (a <= b) {
                    ctx.violation(&format!("{} {:?}", key(), OPS[o]), "wrongly refused or accepted");
                    return;
                }
                if a <= b {
                    m.bump(a, b, v);
                }
            }
            Op::BumpDates(a, b, v) => {
                let d = |k: usize| dt(tenor_day(e.0, k), e.1, e.2);
                let t = |k: usize| {
                    if now == e.0 {
                        tt[k]
                    } else {
                        let x = tenor_day(e.0, k);
                        if x >= now { year_split(now, e.1, x, e.1) } else { -year_split(x, e.1, now, e.1) }
                    }
                };
                let (da, db) = (a.map(d), b.map(d));
                let r = cv.borrow_mut().bump_date_interval(da.as_ref(), db.as_ref(), v as f32);
                if r.is_err() {
                    ctx.violation(&format!("{} {:?}", key(), OPS[o]), "refused");
                    return;
                }
                m.bump(a.map(t).unwrap_or(-1e9), b.map(t).unwrap_or(1e9), v);
            }
            Op::Move(d) => {
                now = e.0 + d;
                evd.borrow_mut().set_date(dt(now, e.1, e.2));
            }
        }
    }
    let cv = cv.borrow();
    let rmax = m.r.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    // rates and factors at the tenors
    let rates = cv.get_interpolated_rates();
    let dfs = cv.get_cached_discount_factors_clone();
    for k in 0..29 {
        let d = (-m.t[k] * m.r[k]).exp();
        if !close2(rates[k], m.r[k], 3e-6) || !close2(dfs[k], d, d * (1e-6 + 4e-7 * (m.t[k] * rmax))) {
            ctx.violation(&format!("{} tenor {k}", key()), format!("t={} rate {} factor {}, expected {} {d}", m.t[k], rates[k], dfs[k], m.r[k]));
            return;
        }
    }
    // discount factors everywhere
    let mut xs: Vec<f32> = vec![];
    for k in 0..29 {
        let a = m.t[k] as f32;
        xs.push(a);
        if k < 28 {
            let b = m.t[k + 1] as f32;
            for w in [0.25f32, 0.5, 0.9] {
                xs.push(a + (b - a) * w);
            }
        }
    }
    let tol = |x: f64, d: f64| d * (2e-6 + 1e-6 * x * rmax) + 1e-7;
    let mut vals = vec![];
    for &x in &xs {
        let g = cv.get_discount_factor(x);
        let w = m.df(x as f64).unwrap();
        match g {
            Ok(g) if close2(g, w, tol(x as f64, w)) => vals.push((x, w, g)),
            g => {
                ctx.violation(&format!("{} factor", key()), format!("t={x}: {g:?} expected {w}"));
                return;
            }
        }
    }
    if vals[0].2 != 1.0 {
        ctx.violation(&format!("{} factor", key()), format!("factor at 0 is {}", vals[0].2));
    }
    for x in [-0.01f32, *xs.last().unwrap() + 0.1] {
        if cv.get_discount_factor(x).is_ok() {
            ctx.violation(&format!("{} factor", key()), format!("t={x} answered"));
        }
    }
    let arr: ndarray::Array1<f32> = xs.iter().cloned().collect();
    match cv.get_vectorized_discount_factor_for_sorted_time(&arr) {
        Ok(v) if v.len() == xs.len() && (0..xs.len()).all(|i| (v[i] - vals[i].2).abs() <= 1e-6 * vals[i].2.abs()) => (),
        v => ctx.violation(&format!("{} vectorised", key()), format!("{v:?}")),
    }
    // between times, forward rates
    for i in (0..xs.len()).step_by(3) {
        for j in (0..xs.len()).step_by(7).chain([i]) {
            let (t1, t2) = (xs[i], xs[j]);
            let between = cv.get_discount_factor_between_times(t1, t2);
            let fc = cv.get_forward_rate_between_times(t1, t2, Compounding::Continuous);
            let fs = cv.get_forward_rate_between_times(t1, t2, Compounding::Simple);
            ctx.case();
            if t1 > t2 {
                if between.is_ok() || fc.is_ok() || fs.is_ok() {
                    ctx.violation(&format!("{} order", key()), format!("{t1} to {t2} answered"));
                }
                continue;
            }
            let w = vals[j].1 / vals[i].1;
            let wtol = w * (5e-6 + 2e-6 * t2 as f64 * rmax);
            match between {
                Ok(g) if close2(g, w, wtol) => (),
                g => {
                    ctx.violation(&format!("{} between", key()), format!("{t1} to {t2}: {g:?} expected {w}"));
                    return;
                }
            }
            let tau = t2 as f64 - t1 as f64;
            if tau > 1e-6 {
                let ftol = (wtol / w + 2e-7 * (1.0 + t2 as f64 * rmax)) / tau + 1e-6 + 1e-5 * rmax;
                let (c, s, back) = (-w.ln() / tau, (1.0 / w - 1.0) / tau, (1.0 - w) / tau);
                match fc {
                    Ok(g) if close2(g, c, ftol) => (),
                    g => ctx.violation(&format!("{} forward", key()), format!("continuous {t1} to {t2}: {g:?} expected {c}")),
                }
                match fs {
                    Ok(g) if close2(g, s, ftol * (1.0 / w).max(1.0)) => (),
                    Ok(g) if close2(g, back, ftol * w.max(1.0)) => ctx.violation("simple forward rate on discount basis", format!("{t1} to {t2}: {g} expected {s}")),
                    g => ctx.violation(&format!("{} forward", key()), format!("simple {t1} to {t2}: {g:?} expected {s} {back}")),
                }
            } else if t2 < 99.0 {
                // an empty interval: the instantaneous forward
                let k = m.t.iter().rposition(|&t| t <= t1 as f64 + 1e-7).unwrap();
                let slope = |k: usize| {
                    let d = |k: usize| (-m.t[k] * m.r[k]).exp();
                    (d(k + 1) - d(k)) / (m.t[k + 1] - m.t[k])
                };
                let f = -slope(k) / vals[i].1;
                for g in [fc, fs] {
                    match g {
                        Ok(g) if close2(g, f, 1e-3 + 2e-3 * (t1 as f64) * rmax + 0.02 * rmax) => (),
                        g => ctx.violation("forward rate over an empty interval", format!("{} at {t1}: {g:?} expected {f}", key())),
                    }
                }
            }
        }
    }
    // short rates: the forward over the next day
    let mut sx = vec![];
    for i in (0..xs.len() - 1).step_by(2) {
        let t = xs[i];
        if t as f64 + 0.003 > *m.t.last().unwrap() {
            continue;
        }
        let w = m.df(t as f64 + 0.002737).unwrap() / vals[i].1;
        let f = (1.0 / w - 1.0) / 0.002737;
        match cv.get_short_rate_at_time(t) {
            Ok(g) if close2(g, f, 3e-4 + (1e-6 + t as f64 * rmax * 4e-7 + 2e-7 * t as f64) / 0.0027 * 1.0 + f * f * 0.003 + 1e-3 * f.abs() * (t as f64)) => sx.push((t, g)),
            g => ctx.violation(&format!("{} short rate", key()), format!("at {t}: {g:?} expected {f}")),
        }
    }
    let ts: Vec<f32> = sx.iter().map(|x| x.0).collect();
    match cv.get_vectorized_short_rate_for_sorted_times(&ts) {
        Ok(v) if v.iter().zip(&sx).all(|(a, b)| (a - b.1).abs() < 1e-6) && v.len() == sx.len() => (),
        v => ctx.violation(&format!("{} short rates", key()), format!("{v:?}")),
    }
    // dates are times from the evaluation date of the moment
    let mut ds = vec![];
    for d in [0i64, 1, 3, 31, 59, 100, 365, 366, 500, 1000, 3653, 7500, 20000] {
        for s in [e.1, 0] {
            if d == 0 && s < e.1 {
                continue;
            }
            let t = year_split(now, e.1, now + d, s);
            let w = m.df(t).unwrap();
            let x = dt(now + d, s, e.2);
            let dtol = tol(t, w) + 2e-5 * (rmax + 0.001);
            match cv.get_discount_factor_at_date(&x) {
                Ok(g) if close2(g, w, dtol) => {
                    if s == e.1 {
                        ds.push((x, g));
                    }
                }
                g => ctx.violation(&format!("{} at date", key()), format!("{x}: {g:?} expected {w}")),
            }
            if d > 0 {
                let ftol = (dtol / w) / t + 1e-5;
                for (g, what) in [
                    (cv.get_forward_rate_from_evaluation_date(&x, Compounding::Continuous), "from evaluation date"),
                    (cv.get_forward_rate_between_dates(&dt(now, e.1, e.2), &x, Compounding::Continuous), "between dates"),
                ] {
                    match g {
                        Ok(g) if close2(g, -w.ln() / t, ftol) => (),
                        g => ctx.violation(&format!("{} {what}", key()), format!("{x}: {g:?} expected {}", -w.ln() / t)),
                    }
                }
            }
        }
    }
    let dates: Vec<_> = ds.iter().map(|x| x.0).collect();
    match cv.get_vectorized_discount_factor_for_sorted_dates(&dates) {
        Ok(v) if v.len() == ds.len() && v.iter().zip(&ds).all(|(a, b)| *a == b.1) => (),
        v => ctx.violation(&format!("{} at dates", key()), format!("{v:?}")),
    }
    let past = dt(now - 1, e.1, e.2);
    if cv.get_discount_factor_at_date(&past).is_ok() || cv.get_forward_rate_from_evaluation_date(&past, Compounding::Simple).is_ok() || cv.get_forward_rate_between_dates(&dt(now + 2, e.1, e.2), &dt(now + 1, e.1, e.2), Compounding::Simple).is_ok() {
        ctx.violation(&format!("{} past date", key()), "a date before the evaluation date was answered");
    }
    if ctx.want_sample() {
        ctx.sample(format!("{}: factor at {} is {}", key(), vals[40].0, vals[40].2));
    }
}

fn q07_refusals(ctx: &Ctx) {
    let e = ed(num(Ymd(2024, 1, 2)), 0, 9);
    let v = |n: usize| -> ndarray::Array1<f32> { (0..n).map(|i| 0.01 + i as f32 * 0.01).collect() };
    let t = |n: usize| -> ndarray::Array1<f32> { (0..n).map(|i| 0.5 + i as f32).collect() };
    let d = |n: usize| -> Vec<time::OffsetDateTime> { (0..n).map(|i| dt(num(Ymd(2024, 6, 1)) + 90 * i as i64, 0, 9)).collect() };
    for nv in 0..4usize {
        for nt in [None, Some(0), Some(1), Some(2), Some(3)] {
            for nd in [None, Some(0), Some(1), Some(2), Some(3)] {
                for md in [false, true] {
                    ctx.case();
                    let key = format!("market data of {nv} values, times {nt:?}, dates {nd:?}, market date {md}");
                    let m = if md { Some(dt(num(Ymd(2024, 1, 2)), 0, 9)) } else { None };
                    let r = ctx.run(|| key.clone(), || VectorData::new(v(nv), nd.map(d), nt.map(t), m, Currency::KRW, "n".into(), "c".into()));
                    let Some(r) = r else { continue };
                    let ok = match (nd, nt) {
                        (None, None) => false,
                        (Some(x), _) => x == nv && md,
                        (None, Some(x)) => x == nv,
                    };
                    if r.is_ok() != ok {
                        ctx.violation(&key, "wrongly refused or accepted");
                    }
                    if let Ok(data) = r {
                        let times = data.get_times_clone();
                        let want: Vec<f64> = match nd {
                            Some(x) => (0..x).map(|i| year_split(num(Ymd(2024, 1, 2)), 0, num(Ymd(2024, 6, 1)) + 90 * i as i64, 0)).collect(),
                            None => (0..nv).map(|i| 0.5 + i as f64).collect(),
                        };
                        if times.len() != nv || (0..nv).any(|i| (times[i] as f64 - want[i]).abs() > 1.5e-5) || data.get_value_clone() != v(nv) {
                            ctx.violation(&key, format!("times {times:?}, values {:?}", data.get_value_clone()));
                        }
                        let j = serde_json::to_string(&data).unwrap();
                        let back: VectorData = serde_json::from_str(&j).unwrap();
                        if back.get_times_clone() != times || back.get_value_clone() != v(nv) || back.get_dates_clone() != data.get_dates_clone() || back.get_name_clone() != "n" {
                            ctx.violation(&key, format!("stored {j}, read {back:?}"));
                        }
                        match ctx.run(|| format!("curve from {key}"), || ZeroCurve::new(e.clone(), &data, "n".into(), "c".into()).is_ok()) {
                            Some(ok) if ok != (nv > 0) => ctx.violation(&format!("curve from {key}"), "wrongly refused or accepted"),
                            _ => (),
                        }
                    }
                }
            }
        }
    }
    for times in [[1.0, 0.5], [2.0, 1.0]] {
        let r = guarded(|| ZeroCurve::new(e.clone(), &vdata(&times, &[0.01, 0.02], "c").unwrap(), "n".into(), "c".into()).is_ok());
        if r != Ok(false) {
            ctx.violation(&format!("curve with times {times:?}"), format!("{r:?}"));
        }
    }
    match guarded(|| ZeroCurve::dummy_curve()) {
        Ok(Ok(c)) => {
            for x in [0.0f32, 0.3, 1.0, 17.0, 99.9] {
                if c.get_discount_factor(x).ok() != Some(1.0) {
                    ctx.violation("dummy curve", format!("factor at {x}: {:?}", c.get_discount_factor(x)));
                }
            }
        }
        r => ctx.violation("dummy curve", format!("{:?}", r.map(|x| x.is_ok()))),
    }
}

/// Curves from dated data: the dates count from the market date, the tenors from the evaluation date.
fn q07_dates(ctx: &Ctx) {
    let base = num(Ymd(2023, 11, 30));
    let gaps: &[&[i64]] = &[&[0, 31, 366, 731], &[10, 20], &[-30, 400], &[700], &[1, 7, 30, 92, 183, 365, 1096, 3653]];
    let starts = ctx.pick(60i64, 800);
    ctx.par_for(starts as usize, |i| {
        let md = base + i as i64;
        for (gi, g) in gaps.iter().enumerate() {
            for lag in [0i64, 1, 45] {
                let key = || format!("market date {:?} days {g:?} evaluation {lag} later", ymd(md));
                ctx.case();
                ctx.run(&key, || {
                    let evd = ed(md + lag, 61200, 9);
                    let rates: Vec<f64> = (0..g.len()).map(|k| 0.02 + 0.011 * ((k + gi) % 3) as f64).collect();
                    let data = VectorData::new(rates.iter().map(|&x| x as f32).collect(), Some(g.iter().map(|&d| dt(md + d, 61200, 9)).collect()), None, Some(dt(md, 61200, 9)), Currency::NIL, "n".into(), "c".into()).unwrap();
                    let c = ZeroCurve::new(evd, &data, "n".into(), "c".into()).unwrap();
                    let times: Vec<f64> = g.iter().map(|&d| if d >= 0 { year_split(md, 61200, md + d, 61200) } else { -year_split(md + d, 61200, md, 61200) }).collect();
                    let tt: Vec<f64> = c.get_cached_discount_times_clone().iter().map(|&x| x as f64).collect();
                    let m = CurveRef::new(tt, &times, &rates);
                    for d in [0i64, 5, 40, 365, 1000, 5000] {
                        let t = year_split(md + lag, 61200, md + lag + d, 61200);
                        let w = m.df(t).unwrap();
                        match c.get_discount_factor_at_date(&dt(md + lag + d, 61200, 9)) {
                            Ok(x) if close2(x, w, 6e-6) => (),
                            x => ctx.violation(&key(), format!("factor {d} days on: {x:?}, expected {w}")),
                        }
                    }
                });
            }
        }
    });
}
