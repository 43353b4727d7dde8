//! Q10 currencies, stored instruments and daily data.
use crate::dates::year_split;
use crate::flows::*;
use crate::hol::*;
use crate::util::*;
use quantlib::currency::{Currency, FxCode};
use quantlib::data::daily_value_data::DailyValueData;
use quantlib::data::surface_data::SurfaceData;
use quantlib::data::value_data::ValueData;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::{CreditRating, IssuerType, OptionDailySettlementType, OptionExerciseType, OptionType, RankType, StickynessType, StockRankType, VanillaOptionCalculationMethod};
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::bond::Bond;
use quantlib::instruments::cash::Cash;
use quantlib::instruments::futures::Futures;
use quantlib::instruments::fx_futures::FxFutures;
use quantlib::instruments::instrument_info::InstrumentInfo;
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::instruments::plain_swap::PlainSwap;
use quantlib::instruments::stock::Stock;
use quantlib::instruments::vanilla_option::VanillaOption;
use quantlib::parameters::past_price::DailyClosePrice;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::pricing_engines::calculation_configuration::CalculationConfiguration;
use quantlib::pricing_engines::calculation_result::CalculationResult;
use quantlib::pricing_engines::engine_generator::InstrumentCategory;
use quantlib::pricing_engines::npv_result::NpvResult;
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D, PaymentFrequency as F};
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::util::{min_offsetdatetime, to_yyyymmdd_int};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashMap};
use time::{OffsetDateTime, Time, UtcOffset};
use vcommon::Ctx;

pub const CCYS: [&str; 47] = [
    "NIL", "KRW", "USD", "EUR", "JPY", "CNY", "CNH", "GBP", "AUD", "CAD", "CHF", "NZD", "SEK", "NOK", "MXN", "ZAR", "BRL", "INR", "RUB", "TRY", "HKD", "SGD", "TWD", "THB", "IDR", "MYR", "PHP", "VND", "PKR", "LKR", "BDT", "NPR",
    "KZT", "UZS", "KGS", "TJS", "MNT", "AED", "SAR", "QAR", "OMR", "KWD", "BHD", "JOD", "ILS", "EGP", "ZMW",
];

/// Store and read back: the copy, or what went wrong.
fn back<T: Serialize + DeserializeOwned>(x: &T) -> Result<T, String> {
    let s = serde_json::to_string(x).map_err(|e| format!("cannot be stored: {e}"))?;
    let y: T = serde_json::from_str(&s).map_err(|e| format!("cannot be read back: {e} in {s}"))?;
    let (a, b) = (serde_json::to_value(x).unwrap(), serde_json::to_value(&y).unwrap());
    if a != b {
        return Err(format!("stored {a}, read back {b}"));
    }
    let v: T = serde_json::from_value(a.clone()).map_err(|e| format!("cannot be read back from {a}: {e}"))?;
    if serde_json::to_value(&v).unwrap() != a {
        return Err(format!("read from {a}, became {}", serde_json::to_value(&v).unwrap()));
    }
    Ok(y)
}

/// Everything an instrument answers about itself.
fn face(i: &Instrument) -> String {
    format!(
        "{:?}",
        (
            (i.get_name(), i.get_code(), i.get_currency(), i.get_unit_notional(), i.get_type_name(), i.get_average_trade_price(), i.get_accountring_level(), i.get_maturity()),
            (i.get_underlying_codes(), i.get_quanto_fxcode_und_pair(), i.get_all_fxcodes_for_pricing(), i.get_underlying_codes_requiring_volatility(), i.get_bond_futures_borrowing_curve_tags()),
            (i.get_credit_rating().ok(), i.get_issuer_type().ok(), i.get_rank_type().ok(), i.get_issuer_name().ok(), i.get_pricing_date().ok(), i.is_coupon_strip().ok(), i.get_coupon_frequency().ok(), i.get_issue_date().ok()),
            (i.get_fixed_leg_currency().ok(), i.get_floating_leg_currency().ok(), i.get_underlying_currency().ok(), i.get_strike().ok(), i.get_option_type().ok(), i.get_option_daily_settlement_type().ok(), i.get_fxfutres_und_fxcode().ok(), i.get_floating_to_fixed_fxcode().ok()),
            (i.get_specific_plain_swap_type().ok(), i.get_schedule().map(|s| format!("{s:?}")).ok(), i.get_rate_index().map(|r| format!("{r:?}")).ok(), i.get_virtual_bond_npv(0.03).ok()),
        )
    )
}

/// The instrument, stored and read back, is the same instrument.
fn keep<T: Serialize + DeserializeOwned + Clone + Into<Instrument> + std::fmt::Debug>(ctx: &Ctx, key: &dyn Fn() -> String, x: &T) -> Option<Instrument> {
    ctx.case();
    match back(x) {
        Err(m) => {
            ctx.violation(&key(), m);
            None
        }
        Ok(y) => {
            let (a, b): (Instrument, Instrument) = (x.clone().into(), y.clone().into());
            if format!("{x:?}") != format!("{y:?}") || face(&a) != face(&b) {
                ctx.violation(&key(), format!("stored {} read back {}", face(&a), face(&b)));
                return None;
            }
            Some(b)
        }
    }
}

fn currencies(ctx: &Ctx) {
    let all: Vec<Currency> = CCYS.iter().map(|s| Currency::from(*s)).collect();
    // every text of three capital letters names the currency of that name, or none
    ctx.par_for(26, |a| {
        for b in 0..26u8 {
            for c in 0..26u8 {
                let s = String::from_utf8(vec![b'A' + a as u8, b'A' + b, b'A' + c]).unwrap();
                ctx.case();
                let want = if CCYS.contains(&s.as_str()) { s.as_str() } else { "NIL" };
                if Currency::from(s.as_str()).as_str() != want {
                    ctx.violation(&format!("currency {s}"), format!("{s} is read as {}", Currency::from(s.as_str())));
                    return;
                }
            }
        }
    });
    for (i, c) in all.iter().enumerate() {
        ctx.case();
        let q = format!("\"{}\"", CCYS[i]);
        if c.as_str() != CCYS[i] || c.to_string() != CCYS[i] || serde_json::to_string(c).ok() != Some(q.clone()) || serde_json::from_str::<Currency>(&q).ok() != Some(*c) || all.iter().filter(|x| *x == c).count() != 1 {
            ctx.violation(&format!("currency {}", CCYS[i]), format!("{c:?} is written {} and stored {:?}", c, serde_json::to_string(c)));
        }
    }
    for s in ["", "K", "KR", "krw", "KRWX", " KRW", "원화", "é"] {
        ctx.run(|| format!("currency text {s:?}"), || {
            ctx.case();
            if Currency::from(s) != Currency::NIL {
                ctx.violation(&format!("currency text {s:?}"), format!("{s:?} is read as {}", Currency::from(s)));
            }
        });
    }
    // pairs
    ctx.par_for(47, |i| {
        for j in 0..47 {
            let (a, b) = (all[i], all[j]);
            let p = FxCode::new(a, b);
            let key = format!("pair {} {}", CCYS[i], CCYS[j]);
            ctx.case();
            let r = ctx.run(|| key.clone(), || {
                if *p.get_currency1() != a || *p.get_currency2() != b {
                    return Err("made of other currencies".to_string());
                }
                if p.to_string() != format!("{}{}", CCYS[i], CCYS[j]) || FxCode::from(p.to_string().as_str()) != p {
                    return Err(format!("is written {p}, which is read as {:?}", FxCode::from(p.to_string().as_str())));
                }
                let q = p.reciprocal();
                if q != FxCode::new(b, a) || q.reciprocal() != p || (i != j && q == p) {
                    return Err(format!("has the reciprocal {q:?}"));
                }
                if back(&p)? != p {
                    return Err("is another pair when read back".to_string());
                }
                let m: HashMap<FxCode, f32> = [(p, 1.5), (q, 2.5)].into_iter().collect();
                if back(&m)? != m {
                    return Err("is another key when read back".to_string());
                }
                Ok(())
            });
            if let Some(Err(m)) = r {
                ctx.violation(&key, m);
            }
        }
    });
    for s in ["", "U", "USD", "USDKR", "원화달러", "USD원화"] {
        ctx.run(|| format!("pair text {s:?}"), || {
            ctx.case();
            let p = FxCode::from(s);
            if *p.get_currency2() != Currency::NIL || *p.get_currency1() != Currency::from(s.get(0..3).unwrap_or("")) {
                ctx.violation(&format!("pair text {s:?}"), format!("{s:?} is read as {p:?}"));
            }
        });
    }
    for s in ["\"\"", "\"USD\"", "\"USDKRW\"", "\"USD_\"", "\"USD_XXX\"", "\"_KRW\"", "3", "null", "{}"] {
        ctx.run(|| format!("stored pair {s}"), || {
            ctx.case();
            if let Ok(p) = serde_json::from_str::<FxCode>(s) {
                // a more tolerant reader is fine as long as it does not invent currencies
                if s != "\"USDKRW\"" || p != FxCode::new(Currency::USD, Currency::KRW) {
                    ctx.violation(&format!("stored pair {s}"), format!("{s} is read as {p:?}"));
                }
            }
        });
    }
}

const AMOUNTS: [f32; 8] = [0.0, 0.1, -3.3, 350.0, 1300.25, 16777216.0, 1e10, f32::MIN_POSITIVE];
const NAMES: [&str; 5] = ["KOSPI2 Fut", "", "국고채권 04250-2512(22-13)", "a \"quoted\" \\ name\n", "\u{7f}\u{0}😀"];

fn instruments(ctx: &Ctx) {
    let base = num(Ymd(2024, 2, 12));
    let all: Vec<Currency> = CCYS.iter().map(|s| Currency::from(*s)).collect();
    let when: Vec<OffsetDateTime> = [(base, 0, 9), (base + 17, S0, 0), (num(Ymd(2031, 12, 31)), 86399, -5), (num(Ymd(1999, 2, 28)), 1, 13)].iter().map(|&(a, b, c)| dt(a, b, c)).collect();
    // every pair of currencies
    ctx.par_for(47, |i| {
        for (j, &b) in all.iter().enumerate() {
            let a = all[i];
            let key = |k: &str| format!("{k} in {} on {}", CCYS[i], CCYS[j]);
            ctx.run(|| key("futures"), || {
                let w = |k: usize| when[(i + j + k) % when.len()];
                let (x, n) = (AMOUNTS[(i + 3 * j) % AMOUNTS.len()], NAMES[(i + 2 * j) % NAMES.len()].to_string());
                let f = Futures::new(x, w(0), w(1), w(2), w(3), 250.0, a, b, "U".into(), n.clone(), "c".into());
                if keep(ctx, &|| key("futures"), &f).is_none() {
                    return;
                }
                let f = FxFutures::new(x, w(1), w(1), w(0), w(3), 1e4, a, b, n.clone(), "fx".into());
                if let Some(k) = keep(ctx, &|| key("currency futures"), &f) {
                    if k.get_all_fxcodes_for_pricing() != vec![FxCode::new(b, a)] || k.get_fxfutres_und_fxcode().ok() != Some(&FxCode::new(b, a)) {
                        ctx.violation(&key("currency futures"), format!("needs {:?}", k.get_all_fxcodes_for_pricing()));
                    }
                }
                let o = VanillaOption::new(x, 7.0, w(0), w(1), w(2), w(3), vec!["U".into(), "V".into()], b, a, if i % 2 == 0 { OptionType::Call } else { OptionType::Put }, OptionExerciseType::European, if j % 2 == 0 { OptionDailySettlementType::Settled } else { OptionDailySettlementType::NotSettled }, n.clone(), "o".into());
                if let Some(k) = keep(ctx, &|| key("option"), &o) {
                    let want = if i == j { vec![] } else { vec![("U".to_string(), FxCode::new(b, a))] };
                    let got: Vec<(String, FxCode)> = k.get_quanto_fxcode_und_pair().into_iter().map(|(s, f)| (s.clone(), *f)).collect();
                    if got != want {
                        ctx.violation(&key("option"), format!("needs the quanto pair {got:?}"));
                    }
                }
            });
        }
        let c = Cash::new(all[i], NAMES[i % 5].into(), "cash code".into());
        if let Some(k) = keep(ctx, &|| format!("cash {}", CCYS[i]), &c) {
            if k.get_code() != "cash code" || k.get_name() != NAMES[i % 5] || *k.get_currency() != all[i] {
                ctx.violation(&format!("cash {}", CCYS[i]), format!("cash named {:?} with the code \"cash code\" calls itself {:?} with the code {:?}", NAMES[i % 5], k.get_name(), k.get_code()));
            }
        }
        for rank in [None, Some(StockRankType::Common), Some(StockRankType::Preferred), Some(StockRankType::Warrant), Some(StockRankType::Convertible)] {
            let s = Stock::new("stock name".into(), "stock code".into(), vec!["U".into()], all[i], rank);
            if let Some(k) = keep(ctx, &|| format!("stock {} {rank:?}", CCYS[i]), &s) {
                if k.get_code() != "stock code" || k.get_name() != "stock name" {
                    ctx.violation(&format!("stock {}", CCYS[i]), format!("calls itself {:?} with the code {:?}", k.get_name(), k.get_code()));
                }
            }
        }
    });
    // bonds
    let mut menu = vec![];
    for (freq, ..) in crate::sched::FREQS {
        for dc in DCS {
            for conv in [B::Unadjusted, B::Following, B::ModifiedFollowing, B::Preceding, B::ModifiedPreceding] {
                let cals = [vec![Cal::KrSettle], vec![Cal::Null], vec![Cal::Krx, Cal::Nyse], vec![Cal::UsGov, Cal::Fed, Cal::Sofr]];
                let at = menu.len();
                for (k, cal) in cals.into_iter().enumerate() {
                    if k != at % 4 && !ctx.thorough() {
                        continue;
                    }
                    menu.push(Conv { forward: menu.len() % 2 == 0, start: base - 100, end: base + 600, cal, dc, conv, freq, fgap: 1, pgap: 2 });
                }
            }
        }
    }
    let e = ed(base, S0, 9);
    ctx.par_for(menu.len(), |k| {
        let c = &menu[k];
        let e2 = ed(base, S0, 9);
        ctx.run(|| format!("bond {}", c.text()), || {
            let j = joint(&c.cal);
            for (fixed, idx, comp) in [(Some(0.0425), None, None), (None, Some(index("91D")), None), (None, Some(index("3M")), Some("1D"))] {
                for strip in [false, true] {
                    for pricing in [None, Some(dt(base + 3, S0, 9))] {
                        let Ok(b) = bond(c, &j, None, strip, fixed, idx.clone(), None, comp, pricing, 10_000.0) else { continue };
                        let key = || format!("bond {} {fixed:?} {comp:?} {strip} {pricing:?}", c.text());
                        ctx.case();
                        match back(&b) {
                            Err(m) => return ctx.violation(&key(), m),
                            Ok(x) => {
                                let (p, q): (Instrument, Instrument) = (b.clone().into(), x.clone().into());
                                let fwd = if fixed.is_none() { Some(long_curve(&e2)) } else { None };
                                let past = if fixed.is_none() { Some(history(&BTreeMap::from([(base - 50, 0.03)]))) } else { None };
                                let flows = |b: &Bond| b.get_cashflows(&dt(base, S0, 9), fwd.clone(), past.clone()).map_err(|e| e.to_string());
                                if face(&p) != face(&q) || flows(&b) != flows(&x) {
                                    return ctx.violation(&key(), format!("read back as another bond:\n{}\n{}\npaying {:?}\nand {:?}", face(&p), face(&q), flows(&b), flows(&x)));
                                }
                            }
                        }
                    }
                }
            }
        });
    });
    // every kind of issuer
    for issuer in [IssuerType::None, IssuerType::Government, IssuerType::Public, IssuerType::CorporateGuaranteed, IssuerType::CorporateUnguaranteed, IssuerType::Financial, IssuerType::Undefined] {
        use CreditRating as R;
        for rating in [R::None, R::AAA, R::AAp, R::AA, R::AAm, R::Ap, R::A, R::Am, R::BBBp, R::BBB, R::BBBm, R::BBp, R::BB, R::BBm, R::Bp, R::B, R::C, R::D, R::Undefined] {
            for rank in [RankType::None, RankType::Senior, RankType::Subordinated, RankType::Junior, RankType::Mezzanine, RankType::Equity, RankType::Undefined] {
                ctx.case();
                if back(&(issuer, rating, rank)) != Ok((issuer, rating, rank)) {
                    ctx.violation(&format!("issuer {issuer:?} {rating:?} {rank:?}"), format!("read back as {:?}", back(&(issuer, rating, rank))));
                }
            }
        }
    }
    // swaps
    let menu = swap_menu(base, ctx.thorough());
    ctx.par_for(menu.len(), |k| {
        let s = &menu[k];
        let e2 = ed(base, S0, 9);
        ctx.run(|| format!("swap {k}"), || {
            let j = joint(&s.c.cal);
            let Ok(w) = s.make(&j, false) else { return };
            ctx.case();
            match back(&w) {
                Err(m) => ctx.violation(&format!("swap {} {:?}", s.c.text(), s.exch), m),
                Ok(x) => {
                    let (p, q): (Instrument, Instrument) = (w.clone().into(), x.clone().into());
                    let at = dt(base, S0, 9);
                    let past = history(&BTreeMap::from([(base - 50, 0.03)]));
                    let flows = |b: &PlainSwap| (b.get_fixed_cashflows(&at).map_err(|e| e.to_string()), b.get_floating_cashflows(&at, Some(long_curve(&e2)), Some(past.clone())).map_err(|e| e.to_string()));
                    if face(&p) != face(&q) || flows(&w) != flows(&x) {
                        ctx.violation(&format!("swap {} {:?}", s.c.text(), s.exch), format!("read back as another swap:\n{}\n{}", face(&p), face(&q)));
                    }
                }
            }
        });
    });
    let _ = e;
    // bond futures on baskets
    for years in [3, 5, 10] {
        for n in 0..=3 {
            ctx.run(|| format!("bond futures {years} {n}"), || {
                let j = joint(&[Cal::KrSettle]);
                let m = dt(base + 40, S0, 9);
                let bonds: Vec<Bond> = (0..n).map(|k| bond(&Conv { forward: false, start: base - 200 - 90 * k, end: base + 365 * years as i64 - 90 * k, cal: vec![Cal::KrSettle], dc: D::StreetConvention, conv: B::Unadjusted, freq: F::SemiAnnually, fgap: 0, pgap: 0 }, &j, None, false, Some(0.03 + 0.001 * k as f64), None, None, None, Some(m), 10_000.0).unwrap()).collect();
                let k = KTBF::new(Currency::KRW, 1e6, dt(base, 0, 9), m, m, KtbfVirtualBond::new(years, 0.05, F::SemiAnnually, 100.0), bonds.clone(), "tag".into(), "ktbf".into(), "165".into()).unwrap();
                ctx.case();
                match back(&k) {
                    Err(m) => ctx.violation(&format!("bond futures {years} {n}"), m),
                    Ok(x) => {
                        let (p, q): (Instrument, Instrument) = (k.into(), x.into());
                        if face(&p) != face(&q) || q.get_underlying_bonds().unwrap().len() != n as usize {
                            ctx.violation(&format!("bond futures {years} {n}"), format!("read back as another contract:\n{}\n{}", face(&p), face(&q)));
                        }
                    }
                }
            });
        }
    }
}

/// Settings, results and data containers.
fn containers(ctx: &Ctx) {
    let base = num(Ymd(2024, 2, 12));
    let now = dt(base, S0, 9);
    let put = |key: String, r: Result<(), String>| {
        ctx.case();
        if let Err(m) = r {
            ctx.violation(&key, m);
        }
    };
    for (i, &x) in AMOUNTS.iter().enumerate() {
        for (j, &n) in NAMES.iter().enumerate() {
            let r = RateIndex::new(n.into(), Currency::USD, "name".into(), n.into()).unwrap();
            put(format!("index {n:?}"), back(&r).and_then(|y| if format!("{r:?}") == format!("{y:?}") { Ok(()) } else { Err(format!("{y:?}")) }));
            for md in [None, Some(now)] {
                let v = ValueData::new(x, md, Currency::JPY, n.into(), "code".into()).unwrap();
                put(format!("value {x} {n:?} {md:?}"), back(&v).and_then(|y| if (y.get_value(), *y.get_market_datetime(), y.get_name().as_str(), *y.get_currency()) == (x, md, n, Currency::JPY) { Ok(()) } else { Err(format!("{y:?}")) }));
                let mat = if j % 2 == 0 { md } else { None };
                let info = InstrumentInfo::new(n.into(), "code".into(), "Bond", Currency::USD, x, mat.as_ref());
                put(format!("information {x} {n:?} {md:?}"), back(&info).and_then(|y| if y == info { Ok(()) } else { Err(format!("{y:?}")) }));
                let mut res = CalculationResult::new(info, now);
                let flows: HashMap<usize, (OffsetDateTime, f32)> = (0..i).map(|k| (k, (dt(base + k as i64, 0, 9), x * k as f32))).collect();
                res.set_npv(NpvResult::new(x, flows.clone(), flows));
                res.set_value().unwrap();
                res.set_single_delta(n, x);
                res.set_single_gamma("U", x);
                res.set_single_vega("U", x);
                res.set_single_vega_structure("U", vec![x; i]);
                res.set_single_vega_matrix("U", ndarray::Array2::from_elem((i, j), x));
                res.set_theta(x);
                res.set_theta_day(j as _);
                res.set_single_rho(n, x);
                res.set_single_rho_structure(n, vec![x; j]);
                res.set_single_div_delta("U", x);
                res.set_single_div_structure("U", vec![x; i]);
                res.set_fx_exposure([(Currency::USD, x), (Currency::KRW, -x)].into_iter().collect());
                put(format!("result {x} {n:?} {md:?}"), back(&res).and_then(|y| if y == res { Ok(()) } else { Err(format!("{y:?}")) }));
            }
            let s = SurfaceData::new(if j % 2 == 0 { Some(x) } else { None }, ndarray::Array2::from_shape_fn((2, 3), |(a, b)| x + (a * 3 + b) as f32), vec![dt(base, 0, 9), dt(base + 9, 0, -5)], ndarray::array![x, x + 1.0, x + 2.0], Some(now), Currency::USD, n.into(), "c".into());
            put(format!("surface {x} {n:?}"), back(&s).and_then(|y| if format!("{y:?}") == format!("{s:?}") { Ok(()) } else { Err(format!("{y:?}")) }));
        }
    }
    // every choice of measures
    let all = |m: usize, k: usize| m >> k & 1 == 1;
    for m in 0..1usize << 9 {
        let c = CalculationConfiguration::default()
            .with_delta_calculation(all(m, 0))
            .with_gamma_calculation(all(m, 1))
            .with_vega_calculation(all(m, 2))
            .with_theta_calculation(all(m, 3))
            .with_rho_calculation(all(m, 4))
            .with_div_delta_calculation(all(m, 5))
            .with_vega_structure_calculation(all(m, 6))
            .with_rho_structure_calculation(all(m, 7))
            .with_div_structure_calculation(all(m, 8))
            .with_vega_matrix_calculation(m % 3 == 0)
            .with_theta_day(1 + (m % 5) as i32)
            .with_stickyness_type(if m % 2 == 0 { StickynessType::StickyToStrike } else { StickynessType::StickyToMoneyness })
            .with_vanilla_option_calculation_method([VanillaOptionCalculationMethod::MonteCarlo, VanillaOptionCalculationMethod::FiniteDifference, VanillaOptionCalculationMethod::Analytic][m % 3])
            .with_rho_structure_tenors(vec!["1M".into(); m % 4])
            .with_vega_matrix_spot_moneyness(ndarray::Array1::from_elem(m % 4, 1.1));
        let got = (c.get_delta_calculation(), c.get_gamma_calculation(), c.get_vega_calculation(), c.get_theta_calculation(), c.get_rho_calculation(), c.get_div_delta_calculation(), c.get_vega_structure_calculation(), c.get_rho_structure_calculation(), c.get_div_structure_calculation(), c.get_vega_matrix_calculation());
        let want = (all(m, 0), all(m, 1), all(m, 2), all(m, 3), all(m, 4), all(m, 5), all(m, 6), all(m, 7), all(m, 8), m % 3 == 0);
        put(format!("settings {m:09b}"), if got != want || c.get_theta_day() != 1 + (m % 5) as i32 || c.get_rho_structure_tenors().len() != m % 4 { Err(format!("{c:?} from {m:09b}")) } else { back(&c).and_then(|y| if y == c { Ok(()) } else { Err(format!("{y:?}")) }) });
    }
    for m in 0..8usize {
        let c = InstrumentCategory::new(if all(m, 0) { Some(vec!["Bond".into(), "IRS".into()]) } else { None }, if all(m, 1) { Some(vec![Currency::KRW]) } else { None }, if all(m, 2) { Some(vec!["U".into()]) } else { None });
        put(format!("category {m}"), back(&c).and_then(|y| if format!("{y:?}") == format!("{c:?}") { Ok(()) } else { Err(format!("{y:?}")) }));
    }
    // vectors: by times or by dates, and the refusals
    let dates = [dt(base + 1, 0, 9), dt(base + 40, S0, 0), dt(base + 400, 0, -5), dt(base + 2000, 86399, 9)];
    for nv in 0..=4usize {
        for nd in [None, Some(0), Some(1), Some(2), Some(4)] {
            for nt in [None, Some(0), Some(2), Some(4)] {
                for md in [None, Some(now), Some(dt(base - 300, 0, 0))] {
                    let key = || format!("vector of {nv} values, dates {nd:?} times {nt:?} at {md:?}");
                    ctx.run(key, || {
                        ctx.case();
                        let v: ndarray::Array1<f32> = (0..nv).map(|k| k as f32 * 0.7 - 0.5).collect();
                        let d: Option<Vec<OffsetDateTime>> = nd.map(|n| dates[..n].to_vec());
                        let t: Option<ndarray::Array1<f32>> = nt.map(|n| (0..n).map(|k| k as f32 * 0.25).collect());
                        let got = VectorData::new(v.clone(), d.clone(), t.clone(), md, Currency::KRW, "n".into(), "c".into());
                        let ok = match (nd, nt) {
                            (Some(n), _) => n == nv && md.is_some(),
                            (None, Some(n)) => n == nv,
                            _ => false,
                        };
                        if ok != got.is_ok() {
                            return ctx.violation(&key(), format!("{}", if ok { "refused" } else { "accepted" }));
                        }
                        let Ok(x) = got else { return };
                        let y = match back(&x) {
                            Err(m) => return ctx.violation(&key(), m),
                            Ok(y) => y,
                        };
                        for x in [&x, &y] {
                            let times = x.get_times_clone();
                            let good = match (&d, &t) {
                                (Some(d), _) => times.len() == d.len() && d.iter().zip(&times).all(|(d, g)| {
                                    let m = md.unwrap();
                                    let p = |x: &OffsetDateTime| undt(&x.to_offset(m.offset()));
                                    let (a, b) = (undt(&m), p(d));
                                    close(*g, year_split(a.0, a.1, b.0, b.1), 1e-6, 1.3e-5)
                                }),
                                (None, Some(t)) => times == *t,
                                _ => false,
                            };
                            if !good || x.get_value_clone() != v || x.get_dates_clone() != d || x.get_name_clone() != "n" {
                                return ctx.violation(&key(), format!("became {x:?}"));
                            }
                        }
                    });
                }
            }
        }
    }
    // dates as numbers, the earlier of two instants
    let first = num(Ymd(1990, 1, 1));
    ctx.par_for(61 * 366 / 61, |k| {
        for n in 0..61 {
            let d = first + (k * 61 + n) as i64;
            let Ymd(y, m, dd) = ymd(d);
            for off in [-11, 0, 9] {
                ctx.case();
                let x = dt(d, 3600, off);
                if to_yyyymmdd_int(&x) as i64 != y as i64 * 10000 + m as i64 * 100 + dd as i64 {
                    return ctx.violation(&format!("number of {x}"), format!("{x} is {}", to_yyyymmdd_int(&x)));
                }
                for (s, o) in [(3600, 0), (3601, 9), (86399, -11), (0, 0)] {
                    let z = dt(d, s, o);
                    let w = if 3600 - off * 3600 <= s - o * 3600 { x } else { z };
                    if min_offsetdatetime(&x, &z) != w || min_offsetdatetime(&z, &x) != w {
                        return ctx.violation(&format!("earlier of {x} and {z}"), format!("the earlier of {x} and {z} is {}", min_offsetdatetime(&x, &z)));
                    }
                }
            }
        }
    });
}

/// Every history of insertions and changes of a daily series.
fn daily(ctx: &Ctx) {
    // a series nothing was said about is one of Korean closing prices
    ctx.run(|| "default series".into(), || {
        let (d, p) = (DailyValueData::default(), DailyClosePrice::default());
        for (t, o) in [(d.get_close_time(), d.get_utc_offset()), (p.get_close_time(), p.get_utc_offset())] {
            ctx.case();
            if *t != Time::from_hms(15, 40, 0).unwrap() || *o != UtcOffset::from_hms(9, 0, 0).unwrap() {
                ctx.violation("default series", format!("closes at {t} {o}"));
            }
        }
        if !d.get_value().is_empty() || !p.get_value().is_empty() || d.get_calendar().calendar_name() != real(Cal::Krx).calendar_name() {
            ctx.violation("default series", "is not an empty series of the KRX calendar");
        }
    });
    let base = num(Ymd(2024, 2, 28));
    let days = [base, base + 1, base + 2, base - 400];
    const VALS: [f32; 2] = [101.5, -0.25];
    // insert(day, value), change(day, value)
    let ops = days.len() * VALS.len() * 2;
    let depth = ctx.pick(3, 4);
    let total = ops.pow(depth as u32);
    ctx.note("daily series", format!("{total} histories of {depth} operations from {ops}"));
    ctx.par_for(ops * ops, |head| {
        for rest in 0..total / (ops * ops) {
            let (mut code, mut seq) = (head + rest * ops * ops, vec![]);
            for _ in 0..depth {
                seq.push(code % ops);
                code /= ops;
            }
            let go = ctx.run(|| format!("daily {seq:?}"), || {
                let mut d = DailyValueData::new(HashMap::new(), Time::from_hms(15, 40, 0).unwrap(), UtcOffset::from_hms(9, 0, 0).unwrap(), real(Cal::Krx), "n".into(), "c".into());
                let mut m: BTreeMap<i64, f32> = BTreeMap::new();
                for (step, &o) in seq.iter().enumerate() {
                    let (day, v) = (days[o / 4], VALS[o / 2 % 2]);
                    if o % 2 == 0 {
                        d.insert(date(ymd(day)), v);
                        m.insert(day, v);
                    } else if let Some(x) = d.get_mut(&date(ymd(day))) {
                        *x += v;
                        match m.get_mut(&day) {
                            None => return Err(format!("a value for day {day} that was never put in after {step}")),
                            Some(y) => *y += v,
                        }
                    } else if m.contains_key(&day) {
                        return Err(format!("no value for day {day} after step {step}"));
                    }
                }
                ctx.case();
                let p = DailyClosePrice::new_from_data(&d).map_err(|e| e.to_string())?;
                {
                    let what = "as built";
                    let (ds, vs) = d.get_ordered_data_by_date();
                    let want: (Vec<_>, Vec<f32>) = m.iter().map(|(k, v)| (date(ymd(*k)), *v)).unzip();
                    if (ds, vs) != want || d.get_value().len() != m.len() || days.iter().any(|k| d.get(&date(ymd(*k))) != m.get(k)) {
                        return Err(format!("holds {:?} {what}, expected {m:?}", d.get_ordered_data_by_date()));
                    }
                    if d.get_name() != "n" || d.get_code() != "c" || *d.get_close_time() != Time::from_hms(15, 40, 0).unwrap() || d.get_utc_offset().whole_hours() != 9 {
                        return Err(format!("{what}: {d:?}"));
                    }
                }
                {
                    let what = "as prices";
                    if p.get_value().len() != m.len() || days.iter().any(|k| p.get(&date(ymd(*k))) != m.get(k)) || p.get_name() != "n" || p.get_code() != "c" {
                        return Err(format!("holds {:?} {what}, expected {m:?}", p.get_value()));
                    }
                }
                Ok(())
            });
            match go {
                Some(Err(e)) => return ctx.violation(&format!("daily {seq:?}"), e),
                None => return,
                _ => {}
            }
        }
    });
    // the close in force at an instant
    let cals = [(Cal::KrSettle, 9i64, (15, 40, 0)), (Cal::Krx, 9, (15, 40, 0)), (Cal::Nyse, -5, (16, 0, 0)), (Cal::UsGov, -5, (0, 0, 0)), (Cal::Null, 0, (23, 59, 59)), (Cal::Krx, 9, (12, 0, 0))];
    let (from, upto) = (num(Ymd(2023, 1, 1)), ctx.pick(num(Ymd(2024, 12, 31)), num(Ymd(2032, 12, 31))));
    let holes: [fn(i64) -> bool; 2] = [|_| false, |n| n % 3 == 0];
    for (cal, off, (h, mi, s)) in cals {
        let table = Table::new(cal, 2022, 2033);
        for hole in holes {
            let value: HashMap<_, f32> = (from - 5..=upto + 20).filter(|n| !hole(*n)).map(|n| (date(ymd(n)), (n - from) as f32)).collect();
            ctx.par_for((upto - from) as usize / 16 + 1, |blk| {
                let p = DailyClosePrice::new(value.clone(), Time::from_hms(h, mi, s).unwrap(), UtcOffset::from_hms(off as i8, 0, 0).unwrap(), real(cal), "n".into(), "c".into());
                let close = (h as i64 * 60 + mi as i64) * 60 + s as i64;
                for n in (0..16).map(|k| from + (blk * 16 + k) as i64).filter(|n| *n <= upto) {
                    for sec in [0, 1, close - 1, close, close + 1, 86399] {
                        if !(0..86400).contains(&sec) {
                            continue;
                        }
                        for in_off in [off, 0, 9, -8] {
                            // the same instant written in another offset
                            let t = n * 86400 + sec + (in_off - off) * 3600;
                            let at = dt(t.div_euclid(86400), t.rem_euclid(86400), in_off);
                            let mut d = n;
                            if sec > close {
                                d += 1;
                                let hol = |k: i64| match cal.offset() {
                                    None => table.hol(k),
                                    Some(o) => table.hol(shift(k, sec, off, o as i64)),
                                };
                                while hol(d) {
                                    d += 1;
                                }
                            }
                            let want = if hole(d) { None } else { Some((d - from) as f32) };
                            ctx.case();
                            let key = || format!("close of {cal:?} {h}:{mi} at {at}");
                            match ctx.run(key, || p.get_at_datetime(&at).copied()) {
                                Some(got) if got == want => {}
                                Some(got) => return ctx.violation(&key(), format!("the price at {at} is that of day {got:?}, expected {want:?} (days after 2023-01-01)")),
                                None => return,
                            }
                        }
                    }
                }
            });
        }
    }
}

pub fn q10(ctx: &Ctx) {
    for f in [currencies, instruments, containers, daily] {
        f(ctx);
        }
}
