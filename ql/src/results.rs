//! Q17 calculation results: what is put in is what is shown, in every currency and after storage.
use quantlib::currency::Currency;
use quantlib::instruments::instrument_info::InstrumentInfo;
use quantlib::pricing_engines::calculation_result::CalculationResult;
use quantlib::pricing_engines::npv_result::NpvResult;
use quantlib::utils::number_format::formatted_number;
use std::collections::{BTreeMap, HashMap};
use time::OffsetDateTime;
use vcommon::Ctx;
use Currency::{KRW, USD};

/// The numbers of a result by name and key.
#[derive(Clone, Default, PartialEq, Debug)]
struct Model {
    maps: BTreeMap<(&'static str, String), Vec<f32>>,
    ccy: Option<Currency>,
    flows: Option<BTreeMap<i64, f32>>,
    unit: f32,
    theta_day: Option<i32>,
}
const MAPS: [&str; 8] = ["delta", "gamma", "vega", "rho", "dividend delta", "vega structure", "rho structure", "dividend structure"];
impl Model {
    fn put(&mut self, n: &'static str, k: &str, v: Vec<f32>) {
        self.maps.insert((n, k.to_string()), v);
    }
    fn convert(&mut self, c: Currency, r: f32) {
        if self.ccy == Some(c) {
            return;
        }
        self.ccy = Some(c);
        for ((n, _), v) in self.maps.iter_mut() {
            if *n != "npv" {
                v.iter_mut().for_each(|x| *x *= r);
            }
        }
    }
}
fn look(r: &CalculationResult) -> Result<(Model, Vec<String>), String> {
    let mut m = Model::default();
    if let Some(n) = r.get_npv_result() {
        m.put("npv", "", vec![n.get_npv()]);
    }
    if let Some(n) = r.get_value() {
        m.put("value", "", vec![n]);
    }
    if let Some(n) = r.get_theta() {
        m.put("theta", "", vec![n]);
    }
    for (k, v) in r.get_fx_exposure().into_iter().flatten() {
        m.put("exposure", k.as_str(), vec![*v]);
    }
    for (n, x) in MAPS.iter().zip([r.get_delta(), r.get_gamma(), r.get_vega(), r.get_rho(), r.get_div_delta()]) {
        for (k, v) in x.into_iter().flatten() {
            m.put(n, k, vec![*v]);
        }
    }
    for (n, x) in MAPS[5..].iter().zip([r.get_vega_structure(), r.get_rho_structure(), r.get_div_structure()]) {
        for (k, v) in x.into_iter().flatten() {
            m.put(n, k, v.clone());
        }
    }
    for (k, v) in r.get_vega_matrix().into_iter().flatten() {
        if v.dim() != (2, 2) {
            return Err(format!("vega matrix of shape {:?}", v.dim()));
        }
        m.put("vega matrix", k, v.iter().copied().collect());
    }
    m.flows = r.get_cashflows().map(|m| m.iter().map(|(k, v)| (k.unix_timestamp(), *v)).collect());
    m.unit = r.get_instrument_info().unwrap().get_unit_notional();
    // the shown numbers, one line each
    let text = format!("{r:?}");
    let shown = text.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
    let c = text.lines().filter_map(|l| l.trim().strip_prefix("* representation_currency: ")).next().map(|s| s.to_string());
    m.ccy = [KRW, USD, Currency::EUR, Currency::JPY].into_iter().find(|x| Some(format!("{x:?}")) == c);
    Ok((m, shown))
}
/// A number with one decimal and a comma between every three digits.
fn commas(x: f32, decimals: usize) -> String {
    let s = format!("{x:.decimals$}");
    let (sign, rest) = s.strip_prefix('-').map_or(("", s.as_str()), |r| ("-", r));
    let (int, frac) = rest.split_once('.').map_or((rest, None), |(a, b)| (a, Some(b)));
    let mut out = String::new();
    for (k, c) in int.chars().enumerate() {
        if k > 0 && (int.len() - k) % 3 == 0 && c.is_ascii_digit() {
            out.push(',');
        }
        out.push(c);
    }
    format!("{sign}{out}{}", frac.map(|f| format!(".{f}")).unwrap_or_default())
}
/// Every number is shown under its name.
fn shown(m: &Model, lines: &[String]) -> Result<(), String> {
    let title = |n: &str| match n {
        "exposure" => "* fx_exposure:".to_string(),
        "dividend delta" => "* div_delta:".to_string(),
        "dividend structure" => "* div_structure:".to_string(),
        n => format!("* {}:", n.replace(' ', "_")),
    };
    for ((n, k), v) in &m.maps {
        let want = v.iter().map(|x| commas(*x, 1)).collect::<Vec<_>>();
        let ok = match *n {
            "npv" => lines.iter().any(|l| *l == format!("npv: {}", want[0])),
            "value" | "theta" => lines.iter().any(|l| *l == format!("{} {}", title(n), want[0])),
            "vega matrix" => {
                let start = lines.iter().position(|l| *l == title(n)).and_then(|p| lines[p..].iter().position(|l| l.starts_with(&format!("{k} (sum"))).map(|q| p + q));
                start.is_some_and(|p| (0..2).all(|r| lines.get(p + 2 + 2 * r).is_some_and(|l| l.split('|').map(|c| c.trim().to_string()).filter(|c| !c.is_empty()).eq((0..2).map(|c| commas(v[2 * r + c], 0))))))
            }
            _ => {
                let start = lines.iter().position(|l| *l == title(n));
                start.is_some_and(|p| {
                    lines[p + 1..].iter().take_while(|l| !l.starts_with('*')).any(|l| {
                        if n.ends_with("structure") {
                            l.starts_with(&format!("{k} (sum = {}", commas(v.iter().sum(), 1))) && l.rsplit("): ").next().unwrap().split('|').map(|c| c.trim().to_string()).filter(|c| !c.is_empty()).eq(want.clone())
                        } else {
                            *l == format!("{k}: {}", want[0])
                        }
                    })
                })
            }
        };
        if !ok {
            return Err(format!("{n} {k} = {v:?} is not shown in {lines:?}"));
        }
    }
    Ok(())
}

const OPS: usize = 37;
fn op_name(o: usize) -> String {
    match o {
        0 | 1 => format!("npv {o}"),
        2 => "value".into(),
        3 | 4 => format!("exposure {}", o - 3),
        5..=12 => format!("{} A", MAPS[o - 5]),
        13..=20 => format!("{} B", MAPS[o - 13]),
        21..=24 => format!("again {} A", MAPS[2 * (o - 21)]),
        25 | 26 => format!("vega matrix {}", o - 25),
        27 => "theta".into(),
        28 | 29 => format!("cash flows {}", o - 28),
        30 => "to USD".into(),
        31 => "to KRW".into(),
        32 => "to EUR".into(),
        33 => "store".into(),
        34 | 35 => format!("theta day {}", o - 33),
        _ => "call it JPY".into(),
    }
}

pub fn q17(ctx: &Ctx) {
    numbers(ctx);
    npv(ctx);
    let depth = ctx.pick(3, 4);
    let total = OPS.pow(depth as u32);
    ctx.note("histories", format!("{total} of {depth} operations of {OPS}, after each other on one result, looked at after every operation; from a full and from an empty result"));
    let day = |d: i64| OffsetDateTime::from_unix_timestamp(1_700_000_000 + d * 86400).unwrap();
    for full in [false, true] {
        ctx.par_for(total / OPS, |head| {
            for tail in 0..OPS {
                let mut code = tail * (total / OPS) + head;
                let ops: Vec<usize> = (0..depth).map(|_| { let c = code % OPS; code /= OPS; c }).collect();
                let key = || format!("{} result, {}", if full { "full" } else { "empty" }, ops.iter().map(|&o| op_name(o)).collect::<Vec<_>>().join(", "));
                let bad = ctx.run(key, || -> Result<(), String> {
                    ctx.case();
                    let info = InstrumentInfo::new("n".into(), "c".into(), "t", KRW, 250.0, Some(&day(9)));
                    let mut r = CalculationResult::new(info.clone(), day(0));
                    let mut m = Model { ccy: Some(KRW), unit: 250.0, ..Model::default() };
                    let start: Vec<usize> = if full { vec![0, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 25, 27, 28] } else { vec![] };
                    for (step, &o) in start.iter().chain(ops.iter()).enumerate() {
                        let x = 1234567.0 * (o as f32 + 1.0) + step as f32 * 0.5 - 20000000.0;
                        let v = vec![x, x / 1000.0, -x];
                        match o {
                            0 | 1 => {
                                r.set_npv(NpvResult::new_from_npv(x));
                                m.put("npv", "", vec![x]);
                            }
                            2 => {
                                let have = m.maps.get(&("npv", String::new())).map(|v| v[0]);
                                let got = r.set_value();
                                if got.is_ok() != have.is_some() {
                                    return Err(format!("value is {got:?} with npv {have:?}"));
                                }
                                if let Some(n) = have {
                                    m.put("value", "", vec![n * 250.0]);
                                }
                            }
                            3 | 4 => {
                                let e = if o == 3 { vec![(KRW, x), (USD, -x)] } else { vec![(USD, x)] };
                                m.maps.retain(|k, _| k.0 != "exposure");
                                e.iter().for_each(|(c, x)| m.put("exposure", c.as_str(), vec![*x]));
                                r.set_fx_exposure(e.into_iter().collect());
                            }
                            5..=24 => {
                                let (k, u) = match o {
                                    5..=12 => (o - 5, "A"),
                                    13..=20 => (o - 13, "B"),
                                    _ => (2 * (o - 21), "A"),
                                };
                                m.put(MAPS[k], u, if k < 5 { vec![x] } else { v.clone() });
                                match k {
                                    0 => r.set_single_delta(u, x),
                                    1 => r.set_single_gamma(u, x),
                                    2 => r.set_single_vega(u, x),
                                    3 => r.set_single_rho(u, x),
                                    4 => r.set_single_div_delta(u, x),
                                    5 => r.set_single_vega_structure(u, v),
                                    6 => r.set_single_rho_structure(u, v),
                                    _ => r.set_single_div_structure(u, v),
                                }
                            }
                            25 | 26 => {
                                let u = if o == 25 { "A" } else { "B" };
                                let v = vec![x, -x, x / 7.0, x + 3.0];
                                r.set_single_vega_matrix(u, ndarray::Array2::from_shape_vec((2, 2), v.clone()).unwrap());
                                m.put("vega matrix", u, v);
                            }
                            27 => {
                                r.set_theta(x);
                                m.put("theta", "", vec![x]);
                            }
                            28 | 29 => {
                                let f: HashMap<OffsetDateTime, f32> = (0..(o - 27) as i64).map(|d| (day(d), x)).collect();
                                m.flows = Some(f.iter().map(|(k, v)| (k.unix_timestamp(), *v)).collect());
                                r.set_cashflows(f);
                            }
                            30..=32 => {
                                let (c, rate) = [(USD, 0.00075), (KRW, 1300.0), (Currency::EUR, -1.0 / 3.0)][o - 30];
                                r = r.representation_currency_conversion(c, rate).map_err(|e| format!("{e:#}"))?;
                                m.convert(c, rate);
                            }
                            34 | 35 => {
                                r.set_theta_day(o as i32 - 33);
                                m.theta_day = Some(o as i32 - 33);
                            }
                            36 => {
                                r.set_representation_currency(Currency::JPY);
                                m.ccy = Some(Currency::JPY);
                            }
                            _ => {
                                let text = serde_json::to_string(&r).map_err(|e| format!("cannot be stored: {e:#}"))?;
                                let mut back: CalculationResult = serde_json::from_str(&text).map_err(|e| format!("cannot be read back: {e:#}"))?;
                                let stored = back.clone();
                                if let Some(f) = r.get_cashflows() {
                                    back.set_cashflows(f.clone());
                                }
                                if back != r {
                                    return Err(format!("after step {step} is read back as {back:?} from {text}"));
                                }
                                r = stored;
                                m.flows = None; // not part of what is stored
                            }
                        }
                        let (mut got, lines) = look(&r)?;
                        // the days theta is for can only be seen by comparing results
                        got.theta_day = m.theta_day;
                        for d in 1..=2 {
                            let mut as_if = r.clone();
                            as_if.set_theta_day(d);
                            if (as_if == r) != (m.theta_day == Some(d)) {
                                return Err(format!("after step {step} theta days are {d}: {}, expected {:?}", as_if == r, m.theta_day));
                            }
                        }
                        if got != m {
                            return Err(format!("after step {step} shows {got:?}, expected {m:?}"));
                        }
                        if r.get_instrument_info() != Some(&info) || r.get_evaluation_date() != Some(&day(0)) {
                            return Err(format!("after step {step} is about {:?} at {:?}", r.get_instrument_info(), r.get_evaluation_date()));
                        }
                        shown(&m, &lines).map_err(|e| format!("after step {step}: {e}"))?;
                    }
                    Ok(())
                });
                match bad {
                    Some(Ok(())) => {}
                    Some(Err(x)) => return ctx.violation(&key(), x),
                    None => return,
                }
            }
        });
    }
}

/// Net present values and the flows they expect.
fn npv(ctx: &Ctx) {
    let day = |d: i64| OffsetDateTime::from_unix_timestamp(1_700_000_000 + d * 86400).unwrap();
    // up to 3 flows, each absent, on day 1 or 2, with an amount, its probability missing or one of three
    let each: Vec<Option<(i64, f32, Option<f32>)>> = std::iter::once(None).chain([1, 2].into_iter().flat_map(|d| [100.0f32, -7.5].into_iter().flat_map(move |a| [None, Some(0.0), Some(0.25), Some(1.0)].map(|p| Some((d, a, p)))))).collect();
    let n = each.len();
    ctx.note("expected flows", format!("{} choices for each of 3 flows", n));
    ctx.par_for(n * n * n, |k| {
        let pick = [&each[k % n], &each[k / n % n], &each[k / n / n]];
        let key = || format!("flows {pick:?}");
        ctx.run(key, || {
            ctx.case();
            let mut amounts = HashMap::new();
            let mut probs = HashMap::new();
            let mut want: Option<BTreeMap<i64, f64>> = Some(BTreeMap::new());
            for (id, f) in pick.iter().enumerate() {
                if let Some((d, a, p)) = f {
                    amounts.insert(id * 5, (day(*d), *a));
                    match p {
                        Some(p) => {
                            // the flow is on the day of its amount, whatever day its probability is noted for
                            probs.insert(id * 5, (day(*d + (id == 1) as i64), *p));
                            if let Some(w) = want.as_mut() {
                                *w.entry(*d).or_insert(0.0) += (*a * *p) as f64;
                            }
                        }
                        None => want = None,
                    }
                }
            }
            let r = NpvResult::new(12.5, amounts.clone(), probs);
            let got = r.get_expected_coupon_amount();
            let got = got.ok().map(|g| g.into_iter().map(|(d, x)| ((d.unix_timestamp() - 1_700_000_000) / 86400, x as f64)).collect::<BTreeMap<_, _>>());
            if got != want || r.get_npv() != 12.5 || *r.get_cashflow_amounts() != amounts {
                ctx.violation(&key(), format!("expects {got:?} at {}, expected {want:?}", r.get_npv()));
            }
        });
    });
    let v = [0.0f32, -0.0, 1.0, -3.5, 1e10, 1e-10, f32::MAX, f32::INFINITY];
    for a in v {
        for b in v {
            ctx.case();
            let n = |x| NpvResult::new_from_npv(x);
            let got = [n(a) + &n(b), n(a) - &n(b), n(a) * &n(b), n(a) / &n(b), n(a) + b, n(a) - b, n(a) * b, n(a) / b].map(f32::to_bits);
            let want = [a + b, a - b, a * b, a / b, a + b, a - b, a * b, a / b].map(f32::to_bits);
            let nan = |x: u32| f32::from_bits(x).is_nan();
            if got.iter().zip(want).any(|(g, w)| *g != w && !(nan(*g) && nan(w))) {
                ctx.violation(&format!("arithmetic of {a} and {b}"), format!("{:?}, expected {:?}", got.map(f32::from_bits), want.map(f32::from_bits)));
            }
        }
    }
}

/// Numbers as text: digits kept, a comma at every thousand.
fn numbers(ctx: &Ctx) {
    let step: u32 = ctx.pick(1 << 11, 1 << 5);
    let lo = 0.01f32.to_bits();
    let hi = 1e20f32.to_bits();
    let n = (hi - lo) / step;
    ctx.note("numbers as text", format!("every {step}th single between 0.01 and 1e20 and those around the powers of ten, of both signs: {}", 2 * n));
    let check = |x: f32| {
        let (got, want) = (formatted_number(x), commas(x, 0));
        let full = format!("{:?}", NpvResult::new_from_npv(x));
        let line = full.lines().map(str::trim).find_map(|l| l.strip_prefix("npv: ")).unwrap_or("").to_string();
        if got != want || line != commas(x, 1) {
            return Err(format!("{got} and {line}, expected {want} and {}", commas(x, 1)));
        }
        // independent of how commas are put: digits are those of the number, groups of three
        if got.replace(',', "") != format!("{x:.0}") || got.trim_start_matches('-').split(',').enumerate().any(|(k, g)| g.is_empty() || g.len() > 3 || k > 0 && g.len() != 3) {
            return Err(format!("{got} is not {x:.0} in groups of three digits"));
        }
        Ok(())
    };
    ctx.par_for((n / 4096 + 1) as usize, |c| {
        let mut done = 0;
        for k in c as u32 * 4096..((c as u32 + 1) * 4096).min(n) {
            for sign in [1.0, -1.0] {
                let x = sign * f32::from_bits(lo + k * step);
                done += 1;
                match ctx.run(|| format!("number {x:e}"), || check(x)) {
                    Some(Err(e)) => return ctx.violation(&format!("number {x:e}"), e),
                    None => return,
                    _ => {}
                }
            }
        }
        ctx.cases(done);
    });
    let mut p = 0.1f64;
    while p < 1e30 {
        for d in -40..=40i64 {
            for sign in [1.0, -1.0] {
                let x = sign * f32::from_bits((p as f32).to_bits().wrapping_add(d as u32));
                ctx.case();
                if let Some(Err(e)) = ctx.run(|| format!("number {x:e}"), || check(x)) {
                    return ctx.violation(&format!("number {x:e}"), e);
                }
            }
        }
        p *= 10.0;
    }
    for x in [0.0, -0.0, 999.94, 999.95, 999.96, 999.4, 999.5, 999.6, 999_949.94] {
        ctx.case();
        if let Some(Err(e)) = ctx.run(|| format!("number {x:e}"), || check(x)) {
            ctx.violation(&format!("number {x:e}"), e);
        }
    }
}
