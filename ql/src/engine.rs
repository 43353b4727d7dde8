//! Q13 risk measures of the engine, Q14 grouping of instruments over engines.
use crate::dates::{apply, year_split, UNITS};
use crate::flows::S0;
use crate::hol::*;
use crate::util::*;
use quantlib::currency::{Currency, FxCode};
use quantlib::data::daily_value_data::DailyValueData;
use quantlib::data::surface_data::SurfaceData;
use quantlib::data::value_data::ValueData;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::{CreditRating, IssuerType, OptionDailySettlementType, OptionExerciseType, OptionType, RankType, StickynessType, VanillaOptionCalculationMethod};
use quantlib::instrument::{Instrument, InstrumentTrait, Instruments};
use quantlib::instruments::bond::Bond;
use quantlib::instruments::cash::Cash;
use quantlib::instruments::futures::Futures;
use quantlib::instruments::fx_futures::FxFutures;
use quantlib::instruments::plain_swap::PlainSwap;
use quantlib::instruments::schedule::{BaseSchedule, Schedule};
use quantlib::instruments::stock::Stock;
use quantlib::instruments::vanilla_option::VanillaOption;
use quantlib::parameters::discrete_ratio_dividend::DiscreteRatioDividend;
use quantlib::parameters::market_price::MarketPrice;
use quantlib::parameters::past_price::DailyClosePrice;
use quantlib::parameters::quanto::Quanto;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::parameters::volatilities::constant_volatility::ConstantVolatility;
use quantlib::parameters::volatilities::local_volatility_surface::LocalVolatilitySurface;
use quantlib::parameters::volatilities::volatiltiy_interpolator::VolatilityInterplator;
use quantlib::parameters::volatility::Volatility;
use quantlib::parameters::zero_curve::ZeroCurve;
use quantlib::pricing_engines::bond_pricer::BondPricer;
use quantlib::pricing_engines::calculation_configuration::CalculationConfiguration;
use quantlib::pricing_engines::calculation_result::CalculationResult;
use quantlib::pricing_engines::engine::Engine;
use quantlib::pricing_engines::engine_generator::{EngineGenerator, InstrumentCategory};
use quantlib::pricing_engines::futures_pricer::FuturesPricer;
use quantlib::pricing_engines::fx_futures_pricer::FxFuturesPricer;
use quantlib::pricing_engines::identity_pricer::IdentityPricer;
use quantlib::pricing_engines::match_parameter::MatchParameter;
use quantlib::pricing_engines::option_analytic_pricer::OptionAnalyticPricer;
use quantlib::pricing_engines::plain_swap_pricer::PlainSwapPricer;
use quantlib::pricing_engines::pricer::{Pricer, PricerTrait};
use quantlib::pricing_engines::unit_pricer::UnitPricer;
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D, PaymentFrequency as F};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use time::{OffsetDateTime, Time, UtcOffset};
use vcommon::{guarded, Ctx};
use Currency::{EUR, JPY, KRW, USD};

/// One instrument and what it depends on.
pub struct Item {
    pub inst: Instrument,
    pub und: Option<&'static str>,
    /// curves that are bumped for it
    pub curves: Vec<&'static str>,
    /// the size of the numbers its price is made of
    gross: f64,
    unit: f64,
    mat: Option<(i64, i64)>,
}
#[derive(Clone)]
pub struct Market {
    pub base: i64,
    spots: [f64; 3],
    shift: f64,
    theta_day: i64,
    bumps: [f64; 6], // delta, vega, vega structure, vega matrix, rho, div
    sticky: bool,
    rho_tenors: Vec<&'static str>,
    vega_tenors: Vec<&'static str>,
    div_tenors: Vec<&'static str>,
    grid: Vec<f64>,
    surface: bool,
    pub fx: usize, // how the exchange rate is quoted
    hide: Vec<String>, // data and rules taken away
}
const UND: [&str; 3] = ["A", "B", "C"];
const CURVES: [&str; 9] = ["KRWGOV", "USDGOV", "KRWIRS", "KRWCRS", "USDOIS", "KRWFUND", "USDFUND", "G2", "EUROIS"];

pub fn markets(thorough: bool) -> Vec<Market> {
    let mut v = vec![
        Market { base: num(Ymd(2024, 3, 11)), spots: [350.25, 5100.5, 71.0], shift: 0.0, theta_day: 1, bumps: [0.01, 0.01, 0.01, 0.001, 0.0001, 0.0001], sticky: false, rho_tenors: vec!["1M", "3M", "6M", "1Y", "2Y", "3Y", "10Y"], vega_tenors: vec!["1M", "3M", "6M", "1Y", "2Y"], div_tenors: vec!["1M", "3M", "1Y", "2Y"], grid: vec![0.8, 1.0, 1.25], surface: false, fx: 0, hide: vec![] },
        Market { base: num(Ymd(2024, 6, 7)), spots: [371.0, 5300.0, 64.5], shift: 0.004, theta_day: 50, bumps: [0.03, 0.02, 0.012, 0.007, 0.01, 0.02], sticky: true, rho_tenors: vec!["2M", "1Y", "1Y1M", "2Y", "30Y"], vega_tenors: vec!["2M", "1Y", "3Y"], div_tenors: vec!["2M", "1Y", "3Y"], grid: vec![0.7, 0.95, 1.1, 1.4], surface: true, fx: 1, hide: vec![] },
    ];
    if thorough {
        v.push(Market { base: num(Ymd(2023, 12, 28)), spots: [320.0, 4700.0, 80.0], shift: -0.02, theta_day: 7, bumps: [0.02, 0.005, 0.02, 0.01, 0.005, 0.01], sticky: false, rho_tenors: vec!["3M", "9M", "1Y6M", "5Y"], vega_tenors: vec!["1M", "6M", "2Y", "5Y"], div_tenors: vec!["6M", "1Y6M"], grid: vec![0.9, 1.0, 1.1], surface: true, fx: 2, hide: vec![] });
        v.push(Market { base: num(Ymd(2024, 2, 28)), spots: [350.0, 5000.0, 70.0], shift: 0.01, theta_day: 400, bumps: [0.05, 0.03, 0.03, 0.03, 0.02, 0.05], sticky: true, rho_tenors: vec!["100Y"], vega_tenors: vec!["1W", "5Y"], div_tenors: vec!["10Y"], grid: vec![1.0], surface: false, fx: 0, hide: vec![] });
    }
    v
}

impl Market {
    fn hidden(&self, kind: &str, name: &str) -> bool {
        self.hide.iter().any(|h| h.strip_prefix(kind).and_then(|r| r.strip_prefix(' ')) == Some(name))
    }
    fn left<K: std::hash::Hash + Eq, V>(&self, kind: &str, name: impl Fn(&K) -> String, mut m: HashMap<K, V>) -> HashMap<K, V> {
        m.retain(|k, _| !self.hidden(kind, &name(k)));
        m
    }
    /// The borrowing curve of an underlying: its own, or one under another name that two share.
    fn loan(&self, u: &str) -> &'static str {
        match (u, self.sticky) {
            ("A", false) => "A",
            ("B", _) => "B",
            ("C", false) => "C",
            _ => "loan",
        }
    }
    pub fn at(&self) -> OffsetDateTime {
        dt(self.base, S0, 9)
    }
    pub fn conf(&self, on: [bool; 10]) -> CalculationConfiguration {
        let s = |v: &Vec<&str>| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        let b = self.bumps.map(|x| x as f32);
        // delta, vega, rho, dividends, theta, vega structure, rho structure, dividend structure, vega matrix, exposure
        CalculationConfiguration::new(
            true, on[9], on[0], on[0], on[1], on[2], on[3], on[4], on[5], on[6], on[7], on[8], self.theta_day as _, if self.sticky { StickynessType::StickyToStrike } else { StickynessType::StickyToMoneyness }, VolatilityInterplator::default(), b[0], b[0], b[1], b[2], b[3], b[4], b[5],
            s(&self.rho_tenors), s(&self.vega_tenors), s(&self.div_tenors), self.grid.iter().map(|&x| x as f32).collect(), VanillaOptionCalculationMethod::Analytic,
        )
        .unwrap()
    }
    fn curve_data(&self) -> HashMap<String, VectorData> {
        let mut m = HashMap::new();
        for (k, name) in CURVES.iter().chain(UND.iter()).enumerate() {
            let r: Vec<f64> = [0.03, 0.033, 0.036, 0.034, 0.04].iter().enumerate().map(|(i, x)| x + self.shift + 0.002 * ((k * 3 + i * k) % 7) as f64 - if k >= CURVES.len() { 0.02 } else { 0.0 }).collect();
            let name = if k < CURVES.len() { name } else { self.loan(name) };
            m.insert(name.to_string(), vdata(&[0.1, 0.5, 1.5, 4.0, 30.0], &r, name).unwrap());
        }
        // curves nobody is matched with
        for u in UND.iter().filter(|u| self.loan(u) != **u) {
            m.insert(u.to_string(), vdata(&[1.0, 2.0], &[0.21, 0.22], u).unwrap());
        }
        m
    }
    fn divs(&self) -> HashMap<String, VectorData> {
        let mut m = HashMap::new();
        for (name, v) in [("A", vec![(4i64, 1.5f32), (31, 3.0), (200, 2.5), (395, 4.0)]), ("C", vec![(150, 1.0)])] {
            let d = VectorData::new(v.iter().map(|x| x.1).collect(), Some(v.iter().map(|x| dt(self.base + x.0, 0, 9)).collect()), None, Some(self.at()), KRW, name.into(), name.into()).unwrap();
            m.insert(name.to_string(), d);
        }
        m
    }
    fn stocks(&self) -> HashMap<String, ValueData> {
        UND.iter().zip(self.spots).map(|(n, s)| (n.to_string(), ValueData::new(s as f32, Some(self.at()), if *n == "B" { USD } else { KRW }, format!("{n} name"), n.to_string()).unwrap())).collect()
    }
    fn vols(&self) -> (HashMap<String, ValueData>, HashMap<String, SurfaceData>) {
        let mut c = HashMap::new();
        let mut s = HashMap::new();
        for (k, n) in UND.iter().enumerate() {
            if self.surface && k != 1 {
                let d = [30i64, 120, 700];
                let strikes: Vec<f32> = [0.7, 0.9, 1.05, 1.3].iter().map(|x| (x * self.spots[k]) as f32).collect();
                let v = ndarray::Array2::from_shape_fn((3, 4), |(i, j)| 0.18 + 0.02 * ((i * 3 + j * 5 + k) % 4) as f32);
                s.insert(n.to_string(), SurfaceData::new(Some(self.spots[k] as f32), v, d.iter().map(|&x| dt(self.base + x, S0, 9)).collect(), strikes.into(), Some(self.at()), KRW, n.to_string(), n.to_string()));
            } else {
                c.insert(n.to_string(), ValueData::new(0.2 + 0.03 * k as f32, Some(self.at()), KRW, n.to_string(), n.to_string()).unwrap());
            }
        }
        (c, s)
    }
    fn past(&self) -> HashMap<String, DailyValueData> {
        let v = (self.base - 600..=self.base).map(|d| (date(ymd(d)), 0.03 + 0.0001 * (d % 23) as f32)).collect();
        
        let other = (self.base - 600..=self.base).map(|d| (date(ymd(d)), 0.5f32)).collect();
        let series = |n: &str, v| (n.to_string(), DailyValueData::new(v, Time::from_hms(15, 40, 0).unwrap(), UtcOffset::from_hms(9, 0, 0).unwrap(), real(Cal::KrSettle), n.into(), n.into()));
        HashMap::from([series("CD", v), series("LIBOR", other)])
    }
    fn usdkrw(&self) -> f64 {
        1310.5
    }
    fn eurkrw(&self) -> f64 {
        1427.25
    }
    /// USD is quoted directly or the other way round; EUR against USD through KRW, the other way round, or directly.
    fn fx_data(&self) -> HashMap<FxCode, ValueData> {
        let v = |x: f64| ValueData::new(x as f32, Some(self.at()), KRW, "fx".into(), "fx".into()).unwrap();
        let (r, e) = (self.usdkrw(), self.eurkrw());
        let (usd, eur) = match self.fx {
            0 => (vec![(USD, KRW, r), (KRW, USD, 77.0), (KRW, KRW, 1.0)], vec![(EUR, KRW, e), (EUR, JPY, 160.0)]),
            1 => (vec![(KRW, USD, 1.0 / r)], vec![(USD, EUR, r / e)]),
            _ => (vec![(USD, KRW, r)], vec![(EUR, USD, e / r)]),
        };
        let left = |kind: &str, x: Vec<(Currency, Currency, f64)>| if self.hidden("fx", kind) { vec![] } else { x };
        left("rate", usd).into_iter().chain(left("rate2", eur)).map(|(a, b, x)| (FxCode::new(a, b), v(x))).collect()
    }
    fn fx_vols(&self) -> HashMap<FxCode, ValueData> {
        let v = |x: f64| ValueData::new(x as f32, Some(self.at()), KRW, "q".into(), "q".into()).unwrap();
        let mut m = HashMap::from([(FxCode::new(USD, KRW), v(self.fxvol())), (FxCode::new(KRW, USD), v(0.7)), (FxCode::new(EUR, KRW), v(0.9))]);
        if self.hidden("fx", "vol") {
            m.remove(&FxCode::new(USD, KRW));
        }
        m
    }
    fn corrs(&self) -> HashMap<(String, FxCode), ValueData> {
        let v = |x: f64| ValueData::new(x as f32, Some(self.at()), KRW, "q".into(), "q".into()).unwrap();
        let k = |u: &str, a, b| (u.to_string(), FxCode::new(a, b));
        let mut m = HashMap::from([(k("B", USD, KRW), v(self.corr())), (k("B", KRW, USD), v(0.9)), (k("A", USD, KRW), v(0.8)), (k("B", EUR, KRW), v(-0.9))]);
        if self.hidden("fx", "corr") {
            m.remove(&k("B", USD, KRW));
        }
        m
    }
    fn fxvol(&self) -> f64 {
        0.11
    }
    fn corr(&self) -> f64 {
        -0.35
    }
    pub fn load(&self, e: Engine) -> anyhow::Result<Engine> {
        let (c, s) = self.vols();
        let st = |x: &String| x.clone();
        e.with_parameter_data(
            Arc::new(self.fx_data()), Arc::new(self.left("stock", st, self.stocks())), Arc::new(self.left("curve", st, self.curve_data())), Arc::new(self.left("dividend", st, self.divs())), Arc::new(self.left("vol", st, c)), Arc::new(self.left("vol", st, s)),
            Arc::new(self.fx_vols()), Arc::new(self.corrs()), Arc::new(self.left("past", st, self.past())),
        )
    }
    /// The instruments. The first is the stock "A" itself.
    pub fn items(&self) -> Vec<Item> {
        // some mature at another time of the day than that of the evaluation
        let s0 = |d: i64| match d { 9 => 55200, 25 => 64800, 40 => 3600, _ => S0 };
        let t = |d: i64| dt(self.base + d, s0(d), 9);
        let mut v: Vec<Item> = vec![];
        let mut put = |inst: Instrument, und, curves: &[&'static str], gross: f64, mat: Option<i64>| v.push(Item { unit: inst.get_unit_notional() as f64, inst, und, curves: curves.to_vec(), gross, mat: mat.map(|d| (self.base + d, s0(d))) });
        let fut = |u: &str, c: &str, ccy, d: i64, n: f32| Futures::new(1.0, t(-50), t(d), t(d), t(d), n, ccy, ccy, u.into(), c.into(), c.into()).into();
        let opt = |u: &str, c: &str, uc, ccy, k: f64, d: i64, n: f32, call: bool| VanillaOption::new(k as f32, n, t(-50), t(d), t(d), t(d), vec![u.into()], uc, ccy, if call { OptionType::Call } else { OptionType::Put }, OptionExerciseType::European, OptionDailySettlementType::NotSettled, c.into(), c.into()).into();
        let [a, b, c] = self.spots;
        put(Stock::new("A share".into(), "A".into(), vec!["A".into()], KRW, None).into(), Some("A"), &[], a, None);
        put(fut("A", "FA", KRW, 95, 250.0), Some("A"), &["KRWGOV"], a, Some(95));
        put(fut("B", "FB", USD, 9, 50.0), Some("B"), &["USDGOV"], b, Some(9));
        put(opt("A", "CA", KRW, KRW, a * 1.02, 260, 500.0, true), Some("A"), &["KRWGOV", "KRWFUND"], 2.0 * a, Some(260));
        put(opt("A", "PA", KRW, KRW, a * 0.95, 25, 100.0, false), Some("A"), &["KRWGOV", "KRWFUND"], 2.0 * a, Some(25));
        put(opt("B", "QB", USD, KRW, b * 0.9, 130, 1000.0, true), Some("B"), &["USDGOV", "KRWFUND"], 2.0 * b, Some(130));
        put(opt("C", "PC", KRW, KRW, c * 1.1, 500, 10.0, false), Some("C"), &["KRWGOV", "KRWFUND"], 2.0 * c, Some(500));
        put(opt("B", "PB", USD, USD, b * 1.1, 40, 10.0, false), Some("B"), &["USDGOV", "USDFUND"], 2.0 * b, Some(40));
        put(FxFutures::new(1300.0, t(-20), t(100), t(100), t(100), 10000.0, KRW, USD, "X".into(), "X".into()).into(), None, &["KRWCRS", "USDOIS"], 1310.0, Some(100));
        let cal = joint(&[Cal::KrSettle]);
        let cd = || RateIndex::new("91D".into(), KRW, "CD".into(), "CD".into()).unwrap();
        let bond = |code: &str, issuer: &str, fixed: Option<f32>, from: i64, to: i64, freq| -> Instrument {
            Bond::new_from_conventions(
                IssuerType::Government, CreditRating::AAA, issuer.into(), RankType::Senior, KRW, 10000.0, false, t(from), t(from), None, t(to), fixed, if fixed.is_none() { Some(0.002) } else { None }, if fixed.is_none() { Some(cd()) } else { None }, None, cal.clone(), true,
                D::Actual365Fixed, B::ModifiedFollowing, freq, 1, 0, code.into(), code.into(),
            )
            .unwrap()
            .into()
        };
        // a whole number of years after a date, so that it falls on a tenor
        let on = |text: &str| apply_text((self.base, S0), text, 1).0 - self.base;
        put(bond("B1", "G", Some(0.045), -150, on("1Y"), F::SemiAnnually), None, &["KRWGOV"], 1.1, Some(on("1Y")));
        put(bond("B2", "H", None, -45, on("2Y") + 10, F::Quarterly), None, &["G2", "KRWIRS"], 1.1, Some(on("2Y") + 10));
        let swap = |code: &str, ccy: (Currency, Currency), e: [Option<f32>; 4], fixed: Option<f32>, n: f32, from: i64, to: i64| -> Instrument {
            PlainSwap::new_from_conventions(
                ccy.0, ccy.1, e[0], e[1], e[2], e[3], n, t(from - 2), t(from), t(to), fixed, fixed.map(|_| cd()), None, true, D::Actual365Fixed, D::Actual365Fixed, B::ModifiedFollowing, B::ModifiedFollowing, F::SemiAnnually, F::Quarterly, 1, 0, cal.clone(), code.into(), code.into(),
            )
            .unwrap()
            .into()
        };
        put(swap("S1", (KRW, KRW), [None; 4], Some(0.036), 1e4, -100, on("1Y")), None, &["KRWIRS"], 0.2, Some(on("1Y")));
        put(swap("S2", (KRW, USD), [Some(1300.0), Some(1.0), Some(1300.0), Some(1.0)], Some(0.03), 100.0, -30, on("2Y")), None, &["KRWCRS", "USDOIS", "KRWIRS"], 3000.0, Some(on("2Y")));
        let s3 = PlainSwap::new(
            Schedule::default(), Schedule::default(), None, None, None, cal.clone(), 1000.0, t(4), t(6), t(190), KRW, USD, Some(1300.0), Some(1.0), Some(1290.0), Some(1.0), D::Actual365Fixed, D::Actual365Fixed, B::ModifiedFollowing, B::ModifiedFollowing, F::None, F::None, 1, 0, "S3".into(), "S3".into(),
        );
        put(s3.unwrap().into(), None, &["KRWCRS", "USDOIS"], 5400.0, Some(190));
        put(Cash::new(USD, "cash".into(), "K".into()).into(), None, &[], 1.0, None);
        // flows in the evening and at night: what counts is the day
        let flow = |d: i64, s: i64, x: f32| BaseSchedule::new(t(d - 95), t(d - 91), t(d), dt(self.base + d, s, 9), Some(x));
        let flows = vec![flow(0, 64800, 0.011), flow(self.theta_day, 64800, 0.012), flow(self.theta_day + 1, 3600, 0.013), flow(on("1Y") + 60, 86399, 0.014)];
        let b3 = Bond::new(
            IssuerType::Government, CreditRating::AAA, "G".into(), RankType::Senior, KRW, 10000.0, false, Schedule::new(flows), Some(0.045), None, None, None, t(-180), t(-180), None, t(on("1Y") + 60), cal.clone(), D::Actual365Fixed, B::ModifiedFollowing, F::Quarterly, 0, 1, "B3".into(), "B3".into(),
        );
        put(b3.unwrap().into(), None, &["KRWGOV"], 1.1, Some(on("1Y") + 60));
        put(FxFutures::new(1.1, t(-20), t(210), t(210), t(210), 1000.0, USD, EUR, "Y".into(), "Y".into()).into(), None, &["USDOIS", "EUROIS"], 1.1, Some(210));
        v
    }
}
pub fn matching(mk: &Market) -> MatchParameter {
    let h = |kind: &str, name: &str| !mk.hidden(kind, name);
    let m = |kind: &str, v: &[(&str, &str)]| v.iter().filter(|x| h(kind, x.0)).map(|(a, b)| (a.to_string(), b.to_string())).collect::<HashMap<_, _>>();
    let c = |kind: &str, v: &[(Currency, &str)]| v.iter().filter(|x| h(kind, x.0.as_str())).map(|(a, b)| (*a, b.to_string())).collect::<HashMap<_, _>>();
    let b = [("G", IssuerType::Government, "KRWGOV"), ("H", IssuerType::Government, "G2"), ("G", IssuerType::Public, "other")];
    let loan: Vec<(&str, &str)> = UND.iter().map(|u| (*u, mk.loan(u))).collect();
    MatchParameter::new(
        m("under", &[("A", "KRWGOV"), ("B", "USDGOV"), ("C", "KRWGOV")]),
        m("loan", &loan),
        b.into_iter().filter(|(n, t, _)| *t == IssuerType::Public || h("bond", n)).map(|(n, t, x)| ((n.to_string(), t, CreditRating::AAA, KRW), x.to_string())).collect(),
        c("crs", &[(KRW, "KRWCRS"), (USD, "USDOIS"), (EUR, "EUROIS")]),
        m("index", &[("CD", "KRWIRS")]),
        c("fund", &[(KRW, "KRWFUND"), (USD, "USDFUND")]),
    )
}

/// A text of several parts, like "1Y1M".
fn apply_text(at: (i64, i64), text: &str, sign: i64) -> (i64, i64) {
    let mut parts = vec![];
    let mut rest = text;
    while !rest.is_empty() {
        let k = rest.find(|c: char| !c.is_ascii_digit()).unwrap();
        let e = rest[k..].find(|c: char| c.is_ascii_digit()).map_or(rest.len(), |e| e + k);
        parts.push((rest[..k].parse().unwrap(), UNITS.iter().find(|u| u.1 == &rest[k..e]).unwrap().0));
        rest = &rest[e..];
    }
    apply(at.0, at.1, &parts, sign)
}

/// Everything that can be missing.
fn parts(m: &Market) -> Vec<String> {
    let mut v: Vec<String> = ["fx rate", "fx rate2", "fx vol", "fx corr", "past CD", "dividend A", "dividend C", "bond G", "bond H", "past LIBOR", "crs KRW", "crs USD", "crs EUR", "index CD", "fund KRW", "fund USD"].map(String::from).to_vec();
    for u in UND {
        v.extend(["stock", "vol", "under", "loan"].map(|k| format!("{k} {u}")));
    }
    let mut c: Vec<String> = m.curve_data().keys().map(|k| format!("curve {k}")).collect();
    c.sort();
    v.extend(c);
    v
}
/// What a price cannot be made without.
fn needs(m: &Market, i: &Item) -> Vec<String> {
    let mut v: Vec<String> = i.curves.iter().map(|c| format!("curve {c}")).collect();
    let mut add = |x: &[&str]| v.extend(x.iter().map(|x| x.to_string()));
    match i.inst.get_code().as_str() {
        "FA" => {}
        "CA" | "PA" | "PC" => add(&["fund KRW"]),
        "QB" => add(&["fund KRW", "fx vol", "fx corr"]),
        "PB" => add(&["fund USD"]),
        "Y" => add(if m.fx == 0 { &["crs USD", "crs EUR", "fx rate", "fx rate2"] } else { &["crs USD", "crs EUR", "fx rate2"] }),
        "X" | "S3" => add(&["crs KRW", "crs USD", "fx rate"]),
        "B1" | "B3" => add(&["bond G"]),
        "B2" => add(&["bond H", "index CD", "past CD"]),
        "S1" => add(&["index CD", "past CD"]),
        "S2" => add(&["crs KRW", "crs USD", "fx rate", "index CD", "past CD"]),
        "A" => add(&["curve KRWGOV"]),
        _ => {}
    }
    if let Some(u) = i.und {
        v.push(format!("stock {u}"));
        v.push(format!("under {u}"));
        // without a rule for borrowing, the curve of the underlying's own name
        v.push(format!("curve {}", if m.hidden("loan", u) { u } else { m.loan(u) }));
        if !matches!(i.inst, Instrument::Stock(_)) {
            v.push(format!("loan {u}"));
        }
        if matches!(i.inst, Instrument::VanillaOption(_)) {
            v.push(format!("vol {u}"));
        }
    }
    v
}

/// Q19: nothing is priced without its data, and nothing needs data it does not use.
pub fn q19(ctx: &Ctx) {
    for (mi, m) in markets(ctx.thorough()).iter().enumerate() {
        let items = m.items();
        let parts = parts(m);
        let mut away: Vec<Vec<usize>> = vec![vec![]];
        away.extend((0..parts.len()).map(|a| vec![a]));
        away.extend((0..parts.len()).flat_map(|a| (0..a).map(move |b| vec![a, b])));
        if ctx.thorough() {
            away.extend((0..parts.len()).flat_map(|a| (0..a).flat_map(move |b| (0..b).map(move |c| vec![a, b, c]))));
        }
        ctx.note(&format!("market {mi}"), format!("{} ways to leave out up to {} of {} data and matching entries, {} instruments alone and all together", away.len(), ctx.pick(2, 3), parts.len(), items.len()));
        // prices with and without the dividends: the only data that may be missing
        let base: Vec<Vec<f32>> = (0..4)
            .map(|id| {
                let mut h = m.clone();
                h.hide = ["dividend A", "dividend C"].iter().enumerate().filter(|(b, _)| id >> b & 1 == 1).map(|(_, x)| x.to_string()).collect();
                let w = World::new(&h);
                items.iter().map(|i| w.pricer(i).npv(&i.inst).unwrap()).collect()
            })
            .collect();
        ctx.par_for(away.len(), |k| {
            let mut h = m.clone();
            h.hide = away[k].iter().map(|&p| parts[p].clone()).collect();
            let items = m.items();
            let price = |set: &[usize]| start(&h, &items, set, [false; 10]).and_then(|mut e| e.calculate().map(|_| e.get_calculation_result_clone()));
            let mut whole = true;
            for (n, i) in items.iter().enumerate() {
                let key = || format!("market {mi} without {} instrument {}", h.hide.join(", "), i.inst.get_code());
                let lacks: Vec<String> = needs(&h, i).into_iter().filter(|x| h.hide.contains(x)).collect();
                whole &= lacks.is_empty();
                ctx.case();
                let got = ctx.run(key, || price(&[n]).map(|r| r[i.inst.get_code()].get_npv_result().unwrap().get_npv()));
                match got {
                    None => return,
                    Some(Ok(x)) if !lacks.is_empty() => return ctx.violation(&key(), format!("priced at {x} without {}", lacks.join(", "))),
                    Some(Err(e)) if lacks.is_empty() => return ctx.violation(&key(), format!("refused although everything it uses is there: {e:#}")),
                    Some(Err(_)) => ctx.outcome("refused"),
                    Some(Ok(x)) => {
                        let id = h.hidden("dividend", "A") as usize + 2 * h.hidden("dividend", "C") as usize;
                        let want = base[id][n];
                        if !close(x, want as f64, 3e-6, 1e-6 * i.gross) {
                            return ctx.violation(&key(), format!("priced at {x}, expected {want}"));
                        }
                        ctx.outcome("priced");
                    }
                }
            }
            let key = || format!("market {mi} without {} all instruments", h.hide.join(", "));
            ctx.case();
            let all: Vec<usize> = (0..items.len()).collect();
            match ctx.run(key, || price(&all).map(|r| r.len())) {
                Some(Ok(n)) if !whole || n != items.len() => ctx.violation(&key(), format!("{n} results although something is missing")),
                Some(Err(e)) if whole => ctx.violation(&key(), format!("refused although everything is there: {e:#}")),
                _ => {}
            }
            if k % 50 == 0 {
                ctx.sample(key());
            }
        });
    }
}

/// A market of its own: the reference never reuses one after changing it.
struct World {
    ed: Ed,
    eq: HashMap<&'static str, Rc<RefCell<MarketPrice>>>,
    curves: HashMap<String, Cv>,
    divs: HashMap<&'static str, Rc<RefCell<DiscreteRatioDividend>>>,
    vols: HashMap<&'static str, Rc<RefCell<Volatility>>>,
    fx: [Rc<RefCell<MarketPrice>>; 2],
    past: Rc<DailyClosePrice>,
    quanto: Rc<RefCell<Quanto>>,
    loan: HashMap<&'static str, &'static str>,
}
impl World {
    fn new(m: &Market) -> World {
        let e = ed(m.base, S0, 9);
        let curves: HashMap<String, Cv> = m.curve_data().into_iter().map(|(k, d)| (k.clone(), Rc::new(RefCell::new(ZeroCurve::new(e.clone(), &d, k.clone(), k).unwrap())))).collect();
        let (mut eq, mut divs, mut vols) = (HashMap::new(), HashMap::new(), HashMap::new());
        let (dd, (cv, sv)) = (m.divs(), m.vols());
        for (k, u) in UND.iter().enumerate() {
            let div = dd.get(*u).filter(|_| !m.hidden("dividend", u)).map(|d| Rc::new(RefCell::new(DiscreteRatioDividend::new(e.clone(), d, m.spots[k] as f32, u.to_string(), u.to_string()).unwrap())));
            let p = Rc::new(RefCell::new(MarketPrice::new(m.spots[k] as f32, m.at(), div.clone(), if k == 1 { USD } else { KRW }, u.to_string(), u.to_string())));
            e.borrow_mut().add_marketprice_observer(p.clone());
            if let Some(d) = &div {
                e.borrow_mut().add_dividend_observer(d.clone());
                divs.insert(*u, d.clone());
            }
            let col = curves[if k == 1 { "USDGOV" } else { "KRWGOV" }].clone();
            let l = LocalVolatilitySurface::initialize(e.clone(), p.clone(), col, curves[m.loan(u)].clone(), if m.sticky { StickynessType::StickyToStrike } else { StickynessType::StickyToMoneyness }, VolatilityInterplator::default(), u.to_string(), u.to_string());
            let tenors: Vec<String> = m.vega_tenors.iter().map(|s| s.to_string()).collect();
            let grid: ndarray::Array1<f32> = m.grid.iter().map(|&x| x as f32).collect();
            let mut l = match cv.get(*u) {
                Some(d) => l.with_constant_volatility(d, tenors, grid).unwrap(),
                None => l.with_market_surface(&sv[*u], tenors, grid).unwrap(),
            };
            l.build().unwrap();
            vols.insert(*u, Rc::new(RefCell::new(Volatility::LocalVolatilitySurface(l))));
            eq.insert(*u, p);
        }
        let (r, x) = (m.usdkrw(), m.eurkrw());
        let rates = match m.fx {
            0 => [r as f32, x as f32 / r as f32],
            1 => [1.0 / (1.0 / r) as f32, 1.0 / (r / x) as f32],
            _ => [r as f32, (x / r) as f32],
        };
        let fx = rates.map(|r| Rc::new(RefCell::new(MarketPrice::new(r, m.at(), None, KRW, "fx".into(), "fx".into()))));
        fx.iter().for_each(|x| e.borrow_mut().add_marketprice_observer(x.clone()));
        let fv = Rc::new(RefCell::new(Volatility::ConstantVolatility(ConstantVolatility::new(m.fxvol() as f32, "x".into(), "x".into()))));
        let quanto = Rc::new(RefCell::new(Quanto::new(fv, m.corr() as f32, FxCode::new(USD, KRW), "B".into())));
        World { ed: e, eq, curves, divs, vols, fx, past: Rc::new(DailyClosePrice::new_from_data(&m.past()["CD"]).unwrap()), quanto, loan: UND.iter().map(|u| (*u, m.loan(u))).collect() }
    }
    fn pricer(&self, i: &Item) -> Pricer {
        let c = |k: &str| self.curves[k].clone();
        match &i.inst {
            Instrument::Stock(_) => Pricer::IdentityPricer(IdentityPricer::new(self.eq["A"].clone())),
            Instrument::Cash(_) => Pricer::UnitPricer(UnitPricer::new()),
            Instrument::Futures(_) => Pricer::FuturesPricer(FuturesPricer::new(self.eq[i.und.unwrap()].clone(), c(i.curves[0]), c(self.loan[i.und.unwrap()]))),
            Instrument::VanillaOption(o) => {
                let u = i.und.unwrap();
                let q = if *o.get_currency() != *o.get_underlying_currency().unwrap() { Some(self.quanto.clone()) } else { None };
                Pricer::OptionAnalyticPricer(OptionAnalyticPricer::new(self.ed.clone(), self.eq[u].clone(), c(i.curves[0]), c(self.loan[u]), c(i.curves[1]), self.vols[u].clone(), q))
            }
            Instrument::FxFutures(_) => Pricer::FxFuturesPricer(FxFuturesPricer::new(self.fx[if i.curves[0] == "KRWCRS" { 0 } else { 1 }].clone(), c(i.curves[1]), c(i.curves[0]))),
            Instrument::Bond(b) => {
                let f = b.get_rate_index().unwrap().is_some();
                Pricer::BondPricer(BondPricer::new(self.ed.clone(), c(i.curves[0]), f.then(|| c("KRWIRS")), f.then(|| self.past.clone())))
            }
            Instrument::PlainSwap(s) => {
                let f = s.get_rate_index().unwrap().is_some();
                let x = i.curves.contains(&"USDOIS");
                let (a, b) = if x { ("KRWCRS", "USDOIS") } else { ("KRWIRS", "KRWIRS") };
                Pricer::PlainSwapPricer(PlainSwapPricer::new(self.ed.clone(), c(a), c(b), f.then(|| c("KRWIRS")), f.then(|| self.past.clone()), x.then(|| self.fx[0].clone())).unwrap())
            }
            _ => unreachable!(),
        }
    }
}

/// A measure: numbers, and how far single precision may move them.
#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub x: Vec<f64>,
    pub tol: f64,
}
/// Everything the engine reports for an instrument: measure name -> key -> numbers.
pub type Face = BTreeMap<&'static str, BTreeMap<String, Val>>;

fn maps(r: &CalculationResult) -> Face {
    let mut f = Face::new();
    let one = |m: Option<&HashMap<String, f32>>| m.map(|m| m.iter().map(|(k, v)| (k.clone(), Val { x: vec![*v as f64], tol: 0.0 })).collect::<BTreeMap<_, _>>());
    let many = |m: Option<&HashMap<String, Vec<f32>>>| m.map(|m| m.iter().map(|(k, v)| (k.clone(), Val { x: v.iter().map(|x| *x as f64).collect(), tol: 0.0 })).collect::<BTreeMap<_, _>>());
    let mut put = |n: &'static str, m: Option<BTreeMap<String, Val>>| {
        if let Some(m) = m {
            f.insert(n, m);
        }
    };
    let single = |x: Option<f32>| x.map(|x| BTreeMap::from([(String::new(), Val { x: vec![x as f64], tol: 0.0 })]));
    put("npv", single(r.get_npv_result().map(|n| n.get_npv())));
    put("value", single(r.get_value()));
    put("exposure", r.get_fx_exposure().map(|m| m.iter().map(|(k, v)| (k.to_string(), Val { x: vec![*v as f64], tol: 0.0 })).collect()));
    put("flows", r.get_cashflows().map(|m| m.iter().map(|(k, v)| (k.to_string(), Val { x: vec![*v as f64], tol: 0.0 })).collect()));
    put("delta", one(r.get_delta()));
    put("gamma", one(r.get_gamma()));
    put("vega", one(r.get_vega()));
    put("rho", one(r.get_rho()));
    put("dividend delta", one(r.get_div_delta()));
    put("theta", single(r.get_theta()));
    put("vega structure", many(r.get_vega_structure()));
    put("rho structure", many(r.get_rho_structure()));
    put("dividend structure", many(r.get_div_structure()));
    put("vega matrix", r.get_vega_matrix().map(|m| m.iter().map(|(k, v)| (k.clone(), Val { x: v.iter().map(|x| *x as f64).collect(), tol: 0.0 })).collect()));
    f
}

/// The measures an instrument should have, each on a market of its own.
pub fn reference(m: &Market, i: &Item) -> Face {
    let mut f = Face::new();
    let mut put = |n: &'static str, k: &str, x: Vec<f64>, tol: f64| {
        f.entry(n).or_default().insert(k.to_string(), Val { x, tol });
    };
    let price = |change: &dyn Fn(&World)| -> f64 {
        let w = World::new(m);
        let p = w.pricer(i);
        change(&w);
        p.npv(&i.inst).unwrap() as f64
    };
    let noise = 1e-6 * i.gross; // a few rounding errors of the price
    let stock = matches!(i.inst, Instrument::Stock(_));
    let cash = matches!(i.inst, Instrument::Cash(_));
    let fut = matches!(i.inst, Instrument::Futures(_));
    let mid = price(&|_| {});
    let unit = i.unit;
    put("npv", "", vec![mid], noise);
    put("value", "", vec![mid * unit], noise * unit);
    {
        let w = World::new(m);
        let p = w.pricer(i);
        for (k, v) in p.fx_exposure(&i.inst, mid as f32).unwrap() {
            put("exposure", k.as_str(), vec![v as f64], noise * unit);
        }
        f.entry("flows").or_default();
        for (k, v) in p.npv_result(&i.inst).unwrap().get_expected_coupon_amount().unwrap() {
            f.get_mut("flows").unwrap().insert(k.to_string(), Val { x: vec![v as f64], tol: noise });
        }
    }
    let mut put = |n: &'static str, k: &str, x: Vec<f64>, tol: f64| {
        f.entry(n).or_default().insert(k.to_string(), Val { x, tol });
    };
    let [bd, bv, bs, bm, br, bq] = m.bumps;
    // 1% of the underlying
    if stock || fut {
        put("delta", i.inst.get_code(), vec![mid * 0.01 * unit], noise * unit);
        put("gamma", i.inst.get_code(), vec![0.0], 0.0);
    } else if let Some(u) = i.und {
        let up = price(&|w| *w.eq[u].borrow_mut() *= 1.0 + bd as f32);
        let dn = price(&|w| *w.eq[u].borrow_mut() *= 1.0 - bd as f32);
        put("delta", u, vec![(up - dn) / (2.0 * bd) * 0.01 * unit], noise * unit * 0.01 / bd);
        put("gamma", u, vec![(up + dn - 2.0 * mid) * 0.5 * (0.01 / bd) * (0.01 / bd) * unit], noise * unit * (0.01 / bd) * (0.01 / bd));
    }
    // time between instants as the engine's calendar counts it
    let add = |t: &str| apply_text((m.base, S0), t, 1);
    let yr = |d: (i64, i64)| year_split(m.base, S0, d.0, d.1);
    if let (Some(u), false) = (i.und, stock || fut) {
        let up = price(&|w| w.vols[u].borrow_mut().bump_volatility(None, None, None, None, bv as f32).unwrap());
        put("vega", u, vec![(up - mid) / bv * 0.01 * unit], noise * unit * 0.01 / bv);
        // from the longest tenor to the shortest, each on top of the last
        let ends: Vec<f32> = m.vega_tenors.iter().map(|t| yr(add(t)) as f32 + 1e-5).collect();
        let n = ends.len();
        let from = |k: usize| if k == 0 { None } else { Some(ends[k - 1]) };
        let ups: Vec<f64> = (0..n)
            .map(|k| {
                price(&|w| {
                    for j in (k..n).rev() {
                        w.vols[u].borrow_mut().bump_volatility(from(j), Some(ends[j]), None, None, bs as f32).unwrap();
                    }
                })
            })
            .chain([mid])
            .collect();
        put("vega structure", u, (0..n).map(|k| (ups[k] - ups[k + 1]) / bs * 0.01 * unit).collect(), noise * unit * 0.01 / bs);
        let g: Vec<f32> = m.grid.iter().map(|&x| x as f32).collect();
        let left = |j: usize| if j == 0 { None } else { Some(g[j - 1]) };
        let mut x = vec![0.0; n * g.len()];
        let mut last = mid;
        for k in (0..n).rev() {
            for j in 0..g.len() {
                let up = price(&|w| {
                    for kk in (k..n).rev() {
                        for jj in 0..g.len() {
                            if kk > k || jj <= j {
                                w.vols[u].borrow_mut().bump_volatility(from(kk), Some(ends[kk]), left(jj), Some(g[jj]), bm as f32).unwrap();
                            }
                        }
                    }
                });
                x[k * g.len() + j] = (up - last) / bm * 0.01 * unit;
                last = up;
            }
        }
        put("vega matrix", u, x, noise * unit * 0.01 / bm);
    }
    if !stock {
        for c in &i.curves {
            let up = price(&|w| w.curves[*c].borrow_mut().bump_time_interval(None, None, br as f32).unwrap());
            put("rho", c, vec![(up - mid) / br * 0.0001 * unit], noise * unit * 0.0001 / br);
            let ends: Vec<f32> = m.rho_tenors.iter().map(|t| yr(add(t)) as f32 + 1e-5).collect();
            let x = (0..ends.len()).map(|k| (price(&|w| w.curves[*c].borrow_mut().bump_time_interval(if k == 0 { None } else { Some(ends[k - 1]) }, Some(ends[k]), br as f32).unwrap()) - mid) / br * 0.0001 * unit).collect();
            put("rho structure", c, x, noise * unit * 0.0001 / br);
        }
    }
    if let (Some(u), false) = (i.und, stock) {
        if ["A", "C"].contains(&u) {
            let up = price(&|w| w.divs[u].borrow_mut().bump_date_interval(None, None, bq as f32).unwrap());
            put("dividend delta", u, vec![(up - mid) / bq * 0.0001 * unit], noise * unit * 0.0001 / bq);
            let ends: Vec<OffsetDateTime> = m.div_tenors.iter().map(|t| { let d = add(t); dt(d.0, d.1, 9) }).collect();
            let x = (0..ends.len()).map(|k| (price(&|w| w.divs[u].borrow_mut().bump_date_interval(if k == 0 { None } else { Some(&ends[k - 1]) }, Some(&ends[k]), bq as f32).unwrap()) - mid) / bq * 0.0001 * unit).collect();
            put("dividend structure", u, x, noise * unit * 0.0001 / bq);
        }
    }
    if stock || cash {
        put("theta", "", vec![0.0], 0.0);
    }
    f
}
/// Change of value per day when the evaluation date moves to `to`, cash paid on the way included.
pub fn theta(m: &Market, i: &Item, to: (i64, i64)) -> Val {
    let w = World::new(m);
    let p = w.pricer(i);
    let mid = p.npv(&i.inst).unwrap() as f64;
    let cash: f64 = p.npv_result(&i.inst).unwrap().get_expected_coupon_amount().unwrap().iter().filter(|(d, _)| { let n = undt(d).0; n > m.base && n <= to.0 }).map(|(_, x)| *x as f64).sum();
    w.ed.borrow_mut().set_date(dt(to.0, to.1, 9));
    let days = year_split(m.base, S0, to.0, to.1) * 365.0;
    Val { x: vec![(p.npv(&i.inst).unwrap() as f64 - mid + cash) * i.unit / days], tol: 2e-6 * i.gross * i.unit / days }
}
/// Where the evaluation date moves for the theta of each of these instruments.
fn theta_to(m: &Market, all: &[&Item]) -> Vec<Option<(i64, i64)>> {
    let far = (m.base + m.theta_day, S0);
    let short = all.iter().filter_map(|i| i.mat).filter(|d| *d <= far).min();
    all.iter().map(|i| if matches!(i.inst, Instrument::Stock(_) | Instrument::Cash(_)) { None } else if i.mat.is_some_and(|d| d <= far) { short } else { Some(far) }).collect()
}

pub struct Refs {
    face: Vec<Face>,
    theta: Mutex<HashMap<(usize, (i64, i64)), Val>>,
}
impl Refs {
    pub fn new(ctx: &Ctx, m: &Market, items: &[Item]) -> Refs {
        let face: Mutex<Vec<Face>> = Mutex::new(vec![Face::new(); items.len()]);
        ctx.par_for(items.len(), |k| {
            if let Some(f) = ctx.run(|| format!("reference of {}", items[k].inst.get_code()), || reference(m, &items[k])) {
                face.lock().unwrap()[k] = f;
            }
        });
        Refs { face: face.into_inner().unwrap(), theta: Mutex::new(HashMap::new()) }
    }
    fn theta(&self, m: &Market, k: usize, i: &Item, to: (i64, i64)) -> Val {
        if let Some(v) = self.theta.lock().unwrap().get(&(k, to)) {
            return v.clone();
        }
        let v = theta(m, i, to);
        self.theta.lock().unwrap().insert((k, to), v.clone());
        v
    }
    /// What instrument `k` should show in the company of `set` with these measures on.
    pub fn want(&self, m: &Market, items: &[Item], set: &[usize], k: usize, on: [bool; 10]) -> Face {
        let names = ["delta", "vega", "rho", "dividend delta", "theta", "vega structure", "rho structure", "dividend structure", "vega matrix", "exposure"];
        let mut f = self.face[k].clone();
        for (n, on) in names.iter().zip(on) {
            if !on {
                f.remove(n);
            }
        }
        if !on[0] {
            f.remove("gamma");
        }
        if on[4] {
            let all: Vec<&Item> = set.iter().map(|&s| &items[s]).collect();
            let at = set.iter().position(|&s| s == k).unwrap();
            if let Some(to) = theta_to(m, &all)[at] {
                f.insert("theta", BTreeMap::from([(String::new(), self.theta(m, k, &items[k], to))]));
            }
        }
        f
    }
}
pub fn compare(got: &Face, want: &Face) -> Result<(), String> {
    for (n, w) in want {
        let Some(g) = got.get(n) else { return Err(format!("no {n}, expected {w:?}")) };
        if g.keys().ne(w.keys()) {
            return Err(format!("{n} for {:?}, expected for {:?}", g.keys(), w.keys()));
        }
        for (k, w) in w {
            let g = &g[k];
            if g.x.len() != w.x.len() || g.x.iter().zip(&w.x).any(|(a, b)| !((a - b).abs() <= w.tol + 3e-6 * b.abs())) {
                return Err(format!("{n} {k} is {:?}, expected {:?} within {:.2e}", g.x, w.x, w.tol));
            }
        }
    }
    for n in got.keys() {
        if !want.contains_key(n) {
            return Err(format!("reports a {n} that was not asked for: {:?}", got[n]));
        }
    }
    Ok(())
}

pub const ALL: [bool; 10] = [true; 10];
fn subsets(n: usize, upto: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = (0..1usize << n).filter(|m| (m.count_ones() as usize) <= upto && *m > 0).map(|m| (0..n).filter(|k| m >> k & 1 == 1).collect()).collect();
    v.sort_by_key(|x| x.len());
    v
}
fn start(m: &Market, items: &[Item], set: &[usize], on: [bool; 10]) -> anyhow::Result<Engine> {
    let e = Engine::builder(1, m.conf(on), m.at(), matching(m)).with_instruments(set.iter().map(|&k| items[k].inst.clone()).collect())?;
    let mut e = m.load(e)?;
    e.initialize_pricers()?;
    Ok(e)
}
fn check(ctx: &Ctx, key: &dyn Fn() -> String, m: &Market, items: &[Item], refs: &Refs, set: &[usize], res: &HashMap<String, CalculationResult>, on: [bool; 10]) -> bool {
    ctx.case();
    if res.len() != set.len() {
        ctx.violation(&key(), format!("{} results for {} instruments", res.len(), set.len()));
        return false;
    }
    for &k in set {
        let code = items[k].inst.get_code();
        let r = match res.get(code) {
            Some(r) => r,
            None => {
                ctx.violation(&key(), format!("no result for {code}"));
                return false;
            }
        };
        let info = r.get_instrument_info().unwrap();
        if info.get_code() != code || *r.get_evaluation_date().unwrap() != m.at() {
            ctx.violation(&key(), format!("result of {code} is about {:?} at {:?}", info.get_code(), r.get_evaluation_date()));
            return false;
        }
        if let Err(e) = compare(&maps(r), &refs.want(m, items, set, k, on)) {
            ctx.violation(&key(), format!("{code}: {e}"));
            return false;
        }
    }
    true
}

pub fn q13(ctx: &Ctx) {
    for (mi, m) in markets(ctx.thorough()).iter().enumerate() {
        let items = m.items();
        let refs = Refs::new(ctx, m, &items);
        if ctx.stopped() {
            return;
        }
        let names = |s: &[usize]| s.iter().map(|&k| items[k].inst.get_code().to_string()).collect::<Vec<_>>().join(" ");
        // every small set of instruments, all measures, calculated twice
        let mut sets = subsets(items.len(), ctx.pick(2, 3));
        sets.push((0..items.len()).collect());
        sets.push((0..items.len()).rev().collect());
        ctx.note(&format!("market {mi}: instruments"), format!("{} sets of up to {} of {} (and all), calculated twice with all measures", sets.len(), ctx.pick(2, 3), items.len()));
        ctx.par_for(sets.len(), |k| {
            let set = &sets[k];
            let key = || format!("market {mi} instruments {}", names(set));
            ctx.run(key, || {
                let mut e = match start(m, &items, set, ALL) {
                    Ok(e) => e,
                    Err(x) => return ctx.violation(&key(), format!("cannot be set up: {x:#}")),
                };
                for round in 1..=2 {
                    if let Err(x) = e.calculate() {
                        return ctx.violation(&key(), format!("calculation {round} failed: {x:#}"));
                    }
                    let key = || format!("{} calculation {round}", key());
                    if !check(ctx, &key, m, &items, &refs, set, &e.get_calculation_result_clone(), ALL) {
                        return;
                    }
                }
                if k % 40 == 0 {
                    ctx.sample(key());
                }
            });
        });
        // every choice of measures
        let set: Vec<usize> = vec![0, 1, 3, 5, 7, 9, 11, 12];
        ctx.par_for(1 << 10, |bits| {
            let on: [bool; 10] = std::array::from_fn(|k| bits >> k & 1 == 1);
            let key = || format!("market {mi} measures {bits:010b}");
            ctx.run(key, || {
                let r = start(m, &items, &set, on).and_then(|mut e| e.calculate().map(|_| e.get_calculation_result_clone()));
                match r {
                    Err(x) => ctx.violation(&key(), format!("failed: {x:#}")),
                    Ok(r) => {
                        check(ctx, &key, m, &items, &refs, &set, &r, on);
                    }
                }
            });
        });
        // every sequence of measures on one engine: each leaves the market as it was
        let depth = ctx.pick(3, 4);
        let set: Vec<usize> = vec![1, 3, 4, 5, 6, 10, 12];
        let ops = 10usize;
        let total = ops.pow(depth as u32);
        ctx.note(&format!("market {mi}: sequences of measures"), format!("{total} of length {depth} from {ops} operations on {}", names(&set)));
        let far = (m.base + m.theta_day, S0);
        let tset: Vec<usize> = set.iter().copied().filter(|&k| items[k].mat.is_none_or(|d| d > far)).collect();
        ctx.par_for(total / 10, |head| {
            for tail in 0..10 {
                let mut code = head * 10 + tail;
                let seq: Vec<usize> = (0..depth).map(|_| { let c = code % ops; code /= ops; c }).collect();
                let key = || format!("market {mi} sequence {}", seq.iter().map(|&o| ["npv", "delta", "vega", "rho", "dividend delta", "theta", "vega structure", "rho structure", "dividend structure", "vega matrix"][o]).collect::<Vec<_>>().join(", "));
                let go = ctx.run(key, || -> anyhow::Result<Result<(), String>> {
                    let mut e = start(m, &items, &set, [false; 10])?;
                    e.calculate()?;
                    let mut on = [false; 10];
                    for &o in &seq {
                        match o {
                            0 => {
                                e.reset_instruments_in_action();
                                e.set_npv_results()?;
                                e.set_values()?;
                                e.set_cashflow_inbetween()?;
                                e.set_fx_exposures()?;
                                on[9] = true;
                            }
                            1 => {
                                e.preprocess_delta_gamma()?;
                                e.set_delta_gamma()?;
                                on[0] = true;
                            }
                            2 => (e.set_vega()?, on[1] = true).1,
                            3 => (e.set_rho()?, on[2] = true).1,
                            4 => (e.set_div_delta()?, on[3] = true).1,
                            5 => {
                                e.set_theta_for_given_instruments(tset.iter().map(|&k| Rc::new(items[k].inst.clone())).collect(), dt(far.0, far.1, 9))?;
                                on[4] = true;
                            }
                            6 => (e.set_vega_structure()?, on[5] = true).1,
                            7 => (e.set_rho_structure()?, on[6] = true).1,
                            8 => (e.set_div_structure()?, on[7] = true).1,
                            _ => (e.set_vega_matrix()?, on[8] = true).1,
                        }
                    }
                    ctx.case();
                    let res = e.get_calculation_result_clone();
                    for &k in &set {
                        let mut on = on;
                        on[4] &= tset.contains(&k);
                        let got = maps(&res[items[k].inst.get_code()]);
                        let want = refs.want(m, &items, &if on[4] { tset.clone() } else { set.clone() }, k, on);
                        if let Err(x) = compare(&got, &want) {
                            return Ok(Err(format!("{}: {x}", items[k].inst.get_code())));
                        }
                    }
                    Ok(Ok(()))
                });
                match go {
                    Some(Ok(Ok(()))) => {}
                    Some(Ok(Err(x))) => return ctx.violation(&key(), x),
                    Some(Err(x)) => return ctx.violation(&key(), format!("failed: {x:#}")),
                    None => return,
                }
            }
        });
    }
}

/// Whether a category takes an instrument of this type, currency and underlyings.
fn takes(c: &InstrumentCategory, i: &Item) -> bool {
    let t = i.inst.get_type_name();
    c.type_names.as_ref().is_none_or(|v| v.iter().any(|x| x == t))
        && c.currency.as_ref().is_none_or(|v| v.contains(i.inst.get_currency()))
        && c.underlying_codes.as_ref().is_none_or(|v| i.und.is_none() || v.len() == 1 && v[0] == i.und.unwrap())
}
fn categories() -> Vec<InstrumentCategory> {
    let mut v = vec![];
    let s = |x: &[&str]| Some(x.iter().map(|x| x.to_string()).collect::<Vec<_>>());
    for t in [None, s(&["VanillaCall", "VanillaPut"]), s(&["Stock", "Cash", "Futures", "FxFutures"]), s(&["Bond", "IRS", "CRS", "FxSwap"]), s(&[])] {
        for c in [None, Some(vec![KRW]), Some(vec![USD]), Some(vec![USD, KRW])] {
            for u in [None, s(&["A"]), s(&["B"]), s(&["A", "B"]), s(&[])] {
                v.push(InstrumentCategory::new(t.clone(), c.clone(), u));
            }
        }
    }
    v
}
fn generator(m: &Market, items: &[Item], set: &[usize], cats: Vec<InstrumentCategory>, on: [bool; 10], hole: bool) -> anyhow::Result<EngineGenerator> {
    let mut g = EngineGenerator::builder();
    g.with_configuration(m.conf(on), m.at(), matching(m))?;
    g.with_instruments(Instruments::new(set.iter().map(|&k| Rc::new(items[k].inst.clone())).collect()))?;
    g.with_instrument_categories(cats)?;
    feed(m, &mut g, hole)?;
    Ok(g)
}
fn feed(m: &Market, g: &mut EngineGenerator, hole: bool) -> anyhow::Result<()> {
    let (c, s) = m.vols();
    let mut curves = m.curve_data();
    if hole {
        curves.remove("USDGOV");
    }
    g.with_data(m.fx_data(), m.stocks(), curves, m.divs(), c, s, m.fx_vols(), m.corrs(), m.past())?;
    Ok(())
}
/// The groups instruments should be put in: the first category that takes each.
fn groups(items: &[Item], set: &[usize], cats: &[&InstrumentCategory]) -> Option<Vec<Vec<usize>>> {
    let mut v = vec![vec![]; cats.len()];
    for &k in set {
        v[cats.iter().position(|c| takes(c, &items[k]))?].push(k);
    }
    Some(v.into_iter().filter(|g: &Vec<usize>| !g.is_empty()).collect())
}

/// Q14: instruments distributed over engines by category.
pub fn q14(ctx: &Ctx) {
    let all = markets(ctx.thorough());
    let cats = categories();
    for (mi, m) in all.iter().enumerate() {
        let items = m.items();
        let refs = Refs::new(ctx, m, &items);
        if ctx.stopped() {
            return;
        }
        for c in &cats {
            for i in &items {
                ctx.case();
                let got = guarded(|| c.contains(&i.inst).map_err(|e| e.to_string()));
                if got != Ok(Ok(takes(c, i))) {
                    ctx.violation(&format!("category {c:?} of {}", i.inst.get_code()), format!("contains: {got:?}, expected {}", takes(c, i)));
                }
            }
        }
        // every sequence of categories: 1 and 2 from all of them, 3 from those that differ on the instruments
        let mut on = [false; 10];
        (on[0], on[4], on[9]) = (true, true, true);
        let set: Vec<usize> = (0..items.len()).collect();
        let mut distinct: Vec<usize> = vec![];
        let face = |c: usize| items.iter().map(|i| takes(&cats[c], i)).collect::<Vec<_>>();
        for c in 0..cats.len() {
            if face(c).contains(&true) && !distinct.iter().any(|&d| face(d) == face(c)) {
                distinct.push(c);
            }
        }
        let mut seqs: Vec<Vec<usize>> = (0..cats.len()).map(|c| vec![c]).collect();
        for &a in &distinct {
            for &b in &distinct {
                seqs.push(vec![a, b]);
                if mi == 0 || ctx.thorough() {
                    seqs.extend(distinct.iter().map(|&c| vec![a, b, c]));
                }
            }
        }
        seqs.push(vec![]);
        ctx.note(&format!("market {mi}: category sequences"), format!("{} of up to 3 categories, {} of {} distinct on the instruments", seqs.len(), distinct.len(), cats.len()));
        // the calculation is checked once for each way to group, and the refusal on all
        let seen: Mutex<std::collections::HashSet<Vec<Vec<usize>>>> = Mutex::new(Default::default());
        ctx.par_for(seqs.len(), |q| {
            let cs: Vec<&InstrumentCategory> = seqs[q].iter().map(|&c| &cats[c]).collect();
            let want = groups(&items, &set, &cs);
            let key = || format!("market {mi} categories {}", seqs[q].iter().map(|&c| { let c = &cats[c]; format!("[{:?} {:?} {:?}]", c.type_names, c.currency, c.underlying_codes) }).collect::<Vec<_>>().join(" "));
            let first = want.as_ref().is_some_and(|w| seen.lock().unwrap().insert(w.clone()));
            ctx.run(key, || {
                ctx.case();
                let mut g = generator(m, &items, &set, cs.iter().map(|c| (*c).clone()).collect(), on, false).unwrap();
                let got = g.distribute_instruments();
                if got.is_err() != want.is_none() {
                    return ctx.violation(&key(), format!("distribution gives {got:?}, expected groups {want:?}"));
                }
                if let (true, Some(want)) = (first, &want) {
                    if let Err(x) = g.calculate() {
                        return ctx.violation(&key(), format!("calculation failed: {x:#}"));
                    }
                    together(ctx, &key, m, &items, &refs, want, g.get_calculation_results(), on);
                    ctx.sample(key());
                }
            });
        });
        ctx.note(&format!("market {mi}: groupings calculated"), seen.lock().unwrap().len().to_string());
        // every set of up to 3 instruments, each in an engine of its own type, in both orders of the categories
        let per_type: Vec<InstrumentCategory> = ["Stock", "Cash", "Futures", "FxFutures", "VanillaCall", "VanillaPut", "Bond", "IRS", "CRS", "FxSwap"].iter().map(|t| InstrumentCategory::new(Some(vec![t.to_string()]), None, None)).collect();
        let sets = subsets(items.len(), ctx.pick(2, 4));
        ctx.note(&format!("market {mi}: sets of instruments"), sets.len().to_string());
        ctx.par_for(sets.len(), |q| {
            let key = || format!("market {mi} by type {}", sets[q].iter().map(|&k| items[k].inst.get_code().to_string()).collect::<Vec<_>>().join(" "));
            ctx.run(key, || {
                for rev in [false, true] {
                    let mut cs: Vec<&InstrumentCategory> = per_type.iter().collect();
                    if rev {
                        cs.reverse();
                    }
                    let want = groups(&items, &sets[q], &cs).unwrap();
                    let mut g = generator(m, &items, &sets[q], cs.into_iter().cloned().collect(), on, false).unwrap();
                    if let Err(x) = g.distribute_instruments().and_then(|_| g.calculate()) {
                        return ctx.violation(&key(), format!("failed: {x:#}"));
                    }
                    if !together(ctx, &key, m, &items, &refs, &want, g.get_calculation_results(), on) {
                        return;
                    }
                }
            });
        });
        // every history of one generator
        let menus: [Vec<usize>; 3] = [vec![0, 3, 9, 11], vec![2, 8, 5], vec![]];
        let choice: [Vec<InstrumentCategory>; 3] = [per_type.clone(), vec![InstrumentCategory::new(None, Some(vec![USD]), None), InstrumentCategory::default()], vec![InstrumentCategory::new(None, Some(vec![KRW]), None)]];
        let names = ["instruments 1", "instruments 2", "no instruments", "categories 1", "categories 2", "categories 3", "all data", "data without a curve", "distribute", "calculate"];
        let depth = ctx.pick(3, 5);
        let total = names.len().pow(depth);
        ctx.note(&format!("market {mi}: histories"), format!("{total} of {depth} operations of {} ", names.len()));
        ctx.par_for(total / 100, |head| {
            for tail in 0..100 {
                let mut code = head * 100 + tail;
                // every history starts from instruments 1, categories 1, all data and ends with distribution and calculation
                let mut ops: Vec<usize> = (0..depth).map(|_| { let c = code % names.len(); code /= names.len(); c }).collect();
                ops.extend([8, 9]);
                let key = || format!("market {mi} history {}", ops.iter().map(|&o| names[o]).collect::<Vec<_>>().join(", "));
                let bad = ctx.run(key, || -> Result<(), String> {
                    ctx.case();
                    let (mut set, mut cat, mut hole) = (0, 0, false);
                    let mut g = generator(m, &items, &menus[0], choice[0].clone(), [false; 10], false).unwrap();
                    let mut now: Option<Vec<Vec<usize>>> = None; // as distributed
                    for &o in &ops {
                        match o {
                            0..=2 => {
                                g.with_instruments(Instruments::new(menus[o].iter().map(|&k| Rc::new(items[k].inst.clone())).collect())).map_err(|e| format!("{e:#}"))?;
                                (set, now) = (o, None);
                            }
                            3..=5 => {
                                g.with_instrument_categories(choice[o - 3].clone()).map_err(|e| format!("{e:#}"))?;
                                (cat, now) = (o - 3, None);
                            }
                            6 | 7 => {
                                feed(m, &mut g, o == 7).map_err(|e| format!("{e:#}"))?;
                                hole = o == 7;
                            }
                            8 => {
                                now = groups(&items, &menus[set], &choice[cat].iter().collect::<Vec<_>>());
                                let got = g.distribute_instruments();
                                if got.is_ok() != now.is_some() {
                                    return Err(format!("distribution gives {got:?}, expected groups {now:?}"));
                                }
                            }
                            _ => {
                                let Some(w) = &now else { continue };
                                let lacks = hole && w.iter().flatten().any(|&k| items[k].curves.contains(&"USDGOV"));
                                let got = g.calculate();
                                if got.is_err() != lacks {
                                    return Err(format!("calculation gives {got:?}, expected {}", if lacks { "a refusal" } else { "results" }));
                                }
                                if !lacks && !together(ctx, &key, m, &items, &refs, w, g.get_calculation_results(), [false; 10]) {
                                    return Ok(());
                                }
                            }
                        }
                    }
                    Ok(())
                });
                match bad {
                    Some(Err(x)) => return ctx.violation(&key(), x),
                    Some(Ok(())) => {}
                    None => return,
                }
            }
        });
    }
}
/// The results of all groups, each as if its engine were alone.
fn together(ctx: &Ctx, key: &dyn Fn() -> String, m: &Market, items: &[Item], refs: &Refs, groups: &[Vec<usize>], res: &HashMap<String, CalculationResult>, on: [bool; 10]) -> bool {
    if res.len() != groups.iter().map(|g| g.len()).sum::<usize>() {
        ctx.violation(&key(), format!("results for {:?}, expected for {:?}", res.keys(), groups.iter().flatten().map(|&k| items[k].inst.get_code()).collect::<Vec<_>>()));
        return false;
    }
    groups.iter().all(|g| {
        let part: HashMap<String, CalculationResult> = g.iter().filter_map(|&k| res.get(items[k].inst.get_code()).map(|r| (items[k].inst.get_code().clone(), r.clone()))).collect();
        check(ctx, key, m, items, refs, g, &part, on)
    })
}
