//! Q08 dividends and spot prices along the evaluation date.
use crate::dates::apply_text;
use crate::hol::*;
use crate::util::*;
use quantlib::currency::Currency;
use quantlib::data::vector_data::VectorData;
use quantlib::parameters::discrete_ratio_dividend::DiscreteRatioDividend;
use quantlib::parameters::market_price::MarketPrice;
use std::cell::RefCell;
use std::rc::Rc;
use vcommon::Ctx;

pub type At = (i64, i64); // day, second

#[derive(Clone, Copy, Debug)]
enum Op {
    Set(i64, i64),     // evaluation date: days after the base, second of the day
    Add(&'static str), // += text
    Sub(&'static str),
    Bump(Option<i64>, Option<i64>, f64), // dividend amounts with day in (from, to]
    Price(f64),
}
const OPS: [Op; 17] = [
    Op::Set(0, 59400),
    Op::Set(10, 0),
    Op::Set(10, 59400),
    Op::Set(9, 86399),
    Op::Set(40, 36000),
    Op::Set(400, 0),
    Op::Set(-30, 59400),
    Op::Set(1500, 3600),
    Op::Add("1D"),
    Op::Add("1M"),
    Op::Sub("1W"),
    Op::Sub("1Y"),
    Op::Bump(None, None, 1.0),
    Op::Bump(Some(10), Some(40), 2.5),
    Op::Bump(Some(9), None, -0.5),
    Op::Bump(Some(40), Some(40), 1.0), // refused
    Op::Price(250.0),
];
/// (days after the base, second) and amounts
pub const DIVS: [(&[At], &[f64]); 5] = [
    (&[(10, 0)], &[3.0]),
    (&[(10, 0), (40, 36000), (400, 0)], &[5.0, 2.0, 8.0]),
    (&[(-100, 0), (-1, 59400), (0, 59400), (1, 0)], &[1.0, 2.0, 4.0, 3.0]),
    (&[(-200, 0), (-90, 0)], &[4.0, 6.0]),
    (&[(9, 0), (10, 59400), (41, 3600), (366, 0), (800, 0), (1499, 0)], &[1.0, 0.0, 2.0, 3.0, 0.5, 7.0]),
];
const SPOT: f64 = 100.0;

pub struct M {
    pub eval: At,
    pub at: At,
    pub spot: f64,
    pub amounts: Vec<f64>,
}
impl M {
    pub fn ratio(&self, ex: &[At], day: i64) -> f64 {
        ex.iter().zip(&self.amounts).filter(|(x, _)| **x > self.eval && x.0 <= day).map(|(_, a)| 1.0 - a / SPOT).product()
    }
    pub fn go(&mut self, ex: &[At], to: At) {
        for (x, a) in ex.iter().zip(&self.amounts) {
            if *x > self.at && *x <= to {
                self.spot *= 1.0 - a / SPOT;
            }
            if *x > to && *x <= self.at {
                self.spot /= 1.0 - a / SPOT;
            }
        }
        self.at = to;
        self.eval = to;
    }
}

pub fn q08(ctx: &Ctx) {
    let bases = [num(Ymd(2023, 12, 20)), num(Ymd(2024, 2, 20))];
    let depth = ctx.pick(3, 4);
    let n = OPS.len();
    let mut hist: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let end = hist.len();
        for i in from..end {
            for o in 0..n {
                let mut h = hist[i].clone();
                h.push(o);
                hist.push(h);
            }
        }
        from = end;
    }
    ctx.note("space", format!("{} bases x {} dividend streams x {} histories up to length {depth} of {n} operations", bases.len(), DIVS.len(), hist.len()));
    let per = hist.len();
    ctx.par_for(bases.len() * DIVS.len() * per, |job| {
        let (b, d, h) = (bases[job / per / DIVS.len()], DIVS[job / per % DIVS.len()], &hist[job % per]);
        let key = || format!("base {:?} dividends {d:?} after {:?}", ymd(b), h.iter().map(|&o| OPS[o]).collect::<Vec<_>>());
        ctx.case();
        ctx.run(&key, || one(ctx, b, d, h, &key));
    });
    refusals(ctx, bases[0]);
}

pub fn dividend(e: &Ed, b: i64, d: (&[At], &[f64])) -> anyhow::Result<DiscreteRatioDividend> {
    let data = VectorData::new(d.1.iter().map(|&x| x as f32).collect(), Some(d.0.iter().map(|&(n, s)| dt(b + n, s, 9)).collect()), None, Some(dt(b, 59400, 9)), Currency::KRW, "d".into(), "d".into())?;
    DiscreteRatioDividend::new(e.clone(), &data, SPOT as f32, "div".into(), "div".into())
}

fn one(ctx: &Ctx, b: i64, d: (&[At], &[f64]), h: &[usize], key: &dyn Fn() -> String) {
    let e = ed(b, 59400, 9);
    let div = Rc::new(RefCell::new(dividend(&e, b, d).unwrap()));
    let mp = |dv: Option<Rc<RefCell<DiscreteRatioDividend>>>| Rc::new(RefCell::new(MarketPrice::new(SPOT as f32, dt(b, 59400, 9), dv, Currency::KRW, "S".into(), "S".into())));
    let (with, without) = (mp(Some(div.clone())), mp(None));
    e.borrow_mut().add_marketprice_observer(with.clone());
    e.borrow_mut().add_marketprice_observer(without.clone());
    e.borrow_mut().add_dividend_observer(div.clone());
    let ex: Vec<At> = d.0.iter().map(|&(n, s)| (b + n, s)).collect();
    let mut m = M { eval: (b, 59400), at: (b, 59400), spot: SPOT, amounts: d.1.to_vec() };
    let mut plain = SPOT;
    for &o in h {
        match OPS[o] {
            Op::Set(n, s) => {
                e.borrow_mut().set_date(dt(b + n, s, 9));
                m.go(&ex, (b + n, s));
            }
            Op::Add(t) => {
                *e.borrow_mut() += t;
                let to = apply_text(m.eval, t, 1);
                m.go(&ex, to);
            }
            Op::Sub(t) => {
                *e.borrow_mut() -= t;
                let to = apply_text(m.eval, t, -1);
                m.go(&ex, to);
            }
            Op::Bump(x, y, v) => {
                let f = |x: i64| dt(b + x, 43200, 9);
                let r = div.borrow_mut().bump_date_interval(x.map(f).as_ref(), y.map(f).as_ref(), v as f32);
                if r.is_ok() != (x.is_none() || y.is_none() || x < y) {
                    ctx.violation(&key(), format!("{:?} wrongly refused or accepted", OPS[o]));
                    return;
                }
                if r.is_ok() {
                    for (k, a) in m.amounts.iter_mut().enumerate() {
                        if x.map(|x| ex[k].0 > b + x).unwrap_or(true) && y.map(|y| ex[k].0 <= b + y).unwrap_or(true) {
                            *a += v;
                        }
                    }
                }
            }
            Op::Price(p) => {
                with.borrow_mut().set_price(p as f32);
                *without.borrow_mut() += (p - plain) as f32;
                m.spot = p;
                plain = p;
            }
        }
    }
    if *e.borrow().get_date() != dt(m.eval.0, m.eval.1, 9) {
        ctx.violation(&key(), format!("evaluation date {:?}, expected {:?}", e.borrow().get_date(), m.eval));
        return;
    }
    let (w, p) = (with.borrow(), without.borrow());
    if !close(w.get_value(), m.spot, 3e-6, 0.0) || !close(p.get_value(), plain, 1e-6, 0.0) {
        ctx.violation(&key(), format!("prices {} and {}, expected {} and {plain}", w.get_value(), p.get_value(), m.spot));
    }
    let mut days: Vec<i64> = vec![m.eval.0, m.eval.0 + 1, m.eval.0 + 3000];
    for x in &ex {
        days.extend([x.0 - 1, x.0, x.0 + 1]);
    }
    days.sort();
    days.dedup();
    let mut all = vec![];
    for s in [0i64, 61200] {
        for &day in &days {
            let want = m.ratio(&ex, day);
            let at = dt(day, s, 9);
            for (g, what) in [(div.borrow().get_deduction_ratio(&at), "dividend"), (w.get_dividend_deduction_ratio(&at), "market price")] {
                match g {
                    Ok(g) if close(g, want, 3e-6, 0.0) => (),
                    g => {
                        ctx.violation(&key(), format!("{what}: deduction ratio until {:?} is {g:?}, expected {want}", ymd(day)));
                        return;
                    }
                }
            }
            if p.get_dividend_deduction_ratio(&at).ok() != Some(1.0) {
                ctx.violation(&key(), "a price without dividends is deducted");
            }
            if s == 0 {
                all.push((at, want));
            }
        }
    }
    let v = div.borrow().get_vectorized_deduction_ratio_for_sorted_datetime(&all.iter().map(|x| x.0).collect::<Vec<_>>());
    match v {
        Ok(v) if v.len() == all.len() && v.iter().zip(&all).all(|(a, b)| close(*a, b.1, 3e-6, 0.0)) => (),
        v => ctx.violation(&key(), format!("vectorised ratios {v:?}")),
    }
    let (amounts, ratios) = (div.borrow().get_dividend(), div.borrow().get_dividend_ratio());
    let ok = amounts.len() == ex.len() && ratios.len() == ex.len() && (0..ex.len()).all(|k| {
        let at = dt(ex[k].0, ex[k].1, 9);
        amounts[k].0 == at && ratios[k].0 == at && close(amounts[k].1, m.amounts[k], 3e-6, 1e-6) && close(ratios[k].1, m.amounts[k] / SPOT, 3e-6, 1e-8)
    });
    if !ok {
        ctx.violation(&key(), format!("dividends {amounts:?}, expected {:?}", m.amounts));
    }
    if ctx.want_sample() && !h.is_empty() {
        ctx.sample(format!("{}: price {}", key(), w.get_value()));
    }
}

fn refusals(ctx: &Ctx, b: i64) {
    let e = ed(b, 59400, 9);
    if ctx.run(|| "no dividends".into(), || dividend(&e, b, (&[], &[])).is_ok()) == Some(true) {
        ctx.violation("no dividends", "accepted");
    }
    let r = ctx.run(|| "dividends without dates".into(), || DiscreteRatioDividend::new(e.clone(), &vdata(&[1.0], &[2.0], "d").unwrap(), 100.0, "d".into(), "d".into()).is_ok());
    if r == Some(true) {
        ctx.violation("dividends without dates", "accepted");
    }
}
