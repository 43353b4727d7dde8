//! Q12 selections from collections of instruments and the market data each is matched with.
use crate::engine::{markets, Item, Market};
use crate::flows::S0;
use crate::util::*;
use crate::hol::Cal;
use quantlib::currency::{Currency, FxCode};
use quantlib::enums::{CreditRating, IssuerType, OptionDailySettlementType, OptionExerciseType, OptionType, RankType};
use quantlib::instrument::{Instrument, InstrumentTrait, Instruments};
use quantlib::instruments::bond::Bond;
use quantlib::instruments::futures::Futures;
use quantlib::instruments::fx_futures::FxFutures;
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::instruments::plain_swap::PlainSwap;
use quantlib::instruments::schedule::Schedule;
use quantlib::instruments::stock::Stock;
use quantlib::instruments::vanilla_option::VanillaOption;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::pricing_engines::engine::Engine;
use quantlib::pricing_engines::match_parameter::MatchParameter;
use quantlib::time::conventions::{BusinessDayConvention as B, DayCountConvention as D, PaymentFrequency as F};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use time::OffsetDateTime;
use vcommon::Ctx;
use Currency::{EUR, KRW, USD};

/// What is known of an instrument from how it was made.
struct Fact {
    inst: Instrument,
    kind: &'static str,
    und: Option<&'static str>,
    ccy: Currency,
    other: Option<Currency>,
    mat: Option<OffsetDateTime>,
    fx: Option<FxCode>,
    quanto: bool,
    vol: bool,
    bond: Option<(&'static str, IssuerType)>,
    index: Option<&'static str>,
    fund: bool,
    tag: Option<&'static str>,
}
fn facts(m: &Market) -> Vec<Fact> {
    let t = |d: i64| dt(m.base + d, S0, 9);
    let mut v: Vec<Fact> = vec![];
    for Item { inst, und, .. } in m.items() {
        let code = inst.get_code().clone();
        let (kind, ccy, other): (&str, Currency, Option<Currency>) = match code.as_str() {
            "A" => ("Stock", KRW, None),
            "FA" => ("Futures", KRW, Some(KRW)),
            "FB" => ("Futures", USD, Some(USD)),
            "CA" | "QB" => ("VanillaCall", KRW, None),
            "PA" | "PC" => ("VanillaPut", KRW, None),
            "PB" => ("VanillaPut", USD, None),
            "X" => ("FxFutures", KRW, Some(USD)),
            "B1" | "B2" => ("Bond", KRW, None),
            "S1" => ("IRS", KRW, Some(KRW)),
            "S2" => ("CRS", KRW, Some(USD)),
            "S3" => ("FxSwap", KRW, Some(USD)),
            "K" => ("Cash", USD, None),
            // the collection here has its own under these codes
            "B3" | "Y" => continue,
            _ => unreachable!(),
        };
        let opt = kind.starts_with("Vanilla");
        v.push(Fact {
            kind, und, ccy, other, fx: None, quanto: code == "QB", vol: opt, fund: opt, tag: None,
            mat: ["A", "K"].contains(&code.as_str()).then_some(None).unwrap_or_else(|| Some(*inst.get_maturity().unwrap())),
            bond: match code.as_str() { "B1" => Some(("G", IssuerType::Government)), "B2" => Some(("H", IssuerType::Government)), _ => None },
            index: ["B2", "S1", "S2"].contains(&code.as_str()).then_some("CD"),
            inst,
        });
        let f = v.last_mut().unwrap();
        if ["X", "S2", "S3"].contains(&code.as_str()) {
            f.fx = Some(FxCode::new(USD, KRW));
        }
    }
    let cal = joint(&[Cal::KrSettle]);
    // maturities close to those of the market's instruments, at other times of the day and from other places
    let tm = |d: i64| match d {
        95 => dt(m.base + d, S0 - 1, 9),
        25 => dt(m.base + d, S0 + 3600, 9),
        9 => dt(m.base + d, S0 - 9 * 3600, 0),
        40 => dt(m.base + d - 1, 82800, -10),
        200 => dt(m.base + d, 100, 12),
        _ => dt(m.base + d, S0, -5),
    };
    let plain = |inst: Instrument, kind, ccy, other, mat: Option<i64>| Fact { inst, kind, und: None, ccy, other, mat: mat.map(tm), fx: None, quanto: false, vol: false, bond: None, index: None, fund: false, tag: None };
    // settled every day: nothing to discount
    let so = VanillaOption::new(1.0, 1.0, t(-5), tm(95), tm(95), tm(95), vec!["A".into()], KRW, KRW, OptionType::Put, OptionExerciseType::European, OptionDailySettlementType::Settled, "SO".into(), "SO".into());
    v.push(Fact { und: Some("A"), vol: true, ..plain(so.into(), "VanillaPut", KRW, None, Some(95)) });
    // a second issuer of the same name but another kind, and one nobody knows
    for (code, kind, name) in [("B3", IssuerType::Public, "G"), ("B4", IssuerType::Government, "Z")] {
        let b = Bond::new_from_conventions(
            kind, CreditRating::AAA, name.into(), RankType::Senior, KRW, 1.0, false, t(-9), t(-9), None, tm(25), Some(0.03), None, None, None, cal.clone(), true, D::Actual365Fixed, B::ModifiedFollowing, F::Annually, 1, 0, code.into(), code.into(),
        );
        v.push(Fact { bond: Some((name, kind)), ..plain(b.unwrap().into(), "Bond", KRW, None, Some(25)) });
    }
    let kt = KTBF::new(KRW, 1e6, t(-3), tm(9), tm(9), KtbfVirtualBond::new(3, 0.05, F::SemiAnnually, 1e6), vec![], "KTB".into(), "KT".into(), "KT".into()).unwrap();
    v.push(Fact { tag: Some("KTB"), ..plain(kt.into(), "KTBF", KRW, None, Some(9)) });
    let sw = PlainSwap::new(
        Schedule::default(), Schedule::default(), None, None, None, cal.clone(), 1.0, t(0), t(2), tm(300), USD, EUR, None, None, Some(1.0), Some(1.1), D::Actual365Fixed, D::Actual365Fixed, B::ModifiedFollowing, B::ModifiedFollowing, F::None, F::None, 1, 0, "S4".into(), "S4".into(),
    );
    v.push(Fact { fx: Some(FxCode::new(EUR, USD)), ..plain(sw.unwrap().into(), "FxForward", USD, Some(EUR), Some(300)) });
    let sofr = PlainSwap::new_from_conventions(
        USD, USD, None, None, None, None, 1.0, t(-2), t(0), tm(130), Some(0.04), Some(RateIndex::new("91D".into(), USD, "SOFR".into(), "SOFR".into()).unwrap()), None, true, D::Actual365Fixed, D::Actual365Fixed, B::ModifiedFollowing, B::ModifiedFollowing, F::Annually, F::Annually, 1, 0, cal.clone(), "S5".into(), "S5".into(),
    );
    v.push(Fact { index: Some("SOFR"), ..plain(sofr.unwrap().into(), "IRS", USD, Some(USD), Some(130)) });
    v.push(Fact { fx: Some(FxCode::new(KRW, USD)), ..plain(FxFutures::new(1.0, t(-1), tm(40), tm(40), tm(40), 1.0, USD, KRW, "Y".into(), "Y".into()).into(), "FxFutures", USD, Some(KRW), Some(40)) });
    v.push(Fact { und: Some("D"), ..plain(Stock::new("D".into(), "D".into(), vec!["D".into()], EUR, None).into(), "Stock", EUR, None, None) });
    // a dollar futures on an asset quoted in euros
    v.push(Fact { und: Some("C"), ..plain(Futures::new(1.0, t(-1), tm(200), tm(200), tm(200), 1.0, USD, EUR, "C".into(), "FC".into(), "FC".into()).into(), "Futures", USD, Some(EUR), Some(200)) });
    let eo = VanillaOption::new(1.0, 1.0, t(-5), tm(25), tm(25), tm(25), vec!["C".into()], USD, EUR, OptionType::Call, OptionExerciseType::European, OptionDailySettlementType::NotSettled, "EO".into(), "EO".into());
    v.push(Fact { und: Some("C"), quanto: true, fund: true, vol: true, ..plain(eo.into(), "VanillaCall", EUR, None, Some(25)) });
    v
}

/// Named entries of the matching rules; any of them may be missing.
const RULES: [&str; 13] = ["under A", "under B", "under C", "loan A", "loan B", "loan KTB", "bond G", "bond H", "crs KRW", "crs USD", "index CD", "fund KRW", "fund USD"];
struct Rules(u32);
impl Rules {
    fn has(&self, kind: &str, name: &str) -> Option<String> {
        let full = format!("{kind} {name}");
        let k = RULES.iter().position(|r| *r == full)?;
        // some names are shared
        let target = match full.as_str() {
            "under C" | "bond G" => "KRWGOV".to_string(),
            "under B" | "crs USD" => "USDX".to_string(),
            "index CD" | "fund KRW" => "CDX".to_string(),
            _ => full,
        };
        (self.0 >> k & 1 == 1).then_some(target)
    }
    fn real(&self) -> MatchParameter {
        let m = |kind: &str, names: &[&str]| names.iter().filter_map(|n| self.has(kind, n).map(|x| (n.to_string(), x))).collect::<HashMap<_, _>>();
        let c = |kind: &str| [KRW, USD, EUR].iter().filter_map(|n| self.has(kind, n.as_str()).map(|x| (*n, x))).collect::<HashMap<_, _>>();
        let b = ["G", "H"].iter().filter_map(|n| self.has("bond", n).map(|x| ((n.to_string(), IssuerType::Government, CreditRating::AAA, KRW), x))).collect();
        MatchParameter::new(m("under", &["A", "B", "C", "D"]), m("loan", &["A", "B", "C", "D", "KTB"]), b, c("crs"), m("index", &["CD", "SOFR"]), c("fund"))
    }
    /// The curve in a role: nothing to use, a name, or a name that is not known.
    fn crs(&self, f: &Fact, floating: bool) -> Result<Option<String>, ()> {
        match f.kind {
            "CRS" | "FxSwap" | "FxForward" | "FxSpot" | "FxFutures" => self.has("crs", if floating { f.other.unwrap() } else { f.ccy }.as_str()).map(Some).ok_or(()),
            _ => Ok(None),
        }
    }
    fn index(&self, f: &Fact) -> Result<Option<String>, ()> {
        f.index.map(|i| self.has("index", i).ok_or(())).transpose()
    }
    fn discount(&self, f: &Fact) -> Result<Option<String>, ()> {
        match f.kind {
            "Bond" => Ok(f.bond.filter(|b| b.1 == IssuerType::Government).and_then(|b| self.has("bond", b.0))),
            "IRS" | "CRS" | "FxSwap" | "FxForward" => self.index(f),
            _ if f.fund => self.has("fund", f.ccy.as_str()).map(Some).ok_or(()),
            _ => Ok(None),
        }
    }
    fn under(&self, f: &Fact) -> Result<Vec<String>, ()> {
        f.und.iter().map(|u| self.has("under", u).ok_or(())).collect()
    }
    fn loan(&self, f: &Fact) -> Result<Vec<String>, ()> {
        f.und.iter().chain(f.tag.iter()).map(|u| self.has("loan", u).ok_or(())).collect()
    }
    /// All curves whose change moves the price of the instrument.
    fn curves(&self, f: &Fact) -> Result<BTreeSet<String>, ()> {
        let mut v: BTreeSet<String> = self.under(f)?.into_iter().collect();
        v.extend(self.discount(f)?);
        v.extend(self.index(f)?);
        v.extend(self.crs(f, false)?);
        v.extend(self.crs(f, true)?);
        Ok(v)
    }
}
fn bag<T: Ord>(v: impl IntoIterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = v.into_iter().collect();
    v.sort();
    v
}
fn codes(v: &[Rc<Instrument>]) -> Vec<String> {
    bag(v.iter().map(|i| i.get_code().clone()))
}
/// Every element once.
fn once<T: Ord>(v: Vec<T>) -> Option<BTreeSet<T>> {
    let n = v.len();
    let s: BTreeSet<T> = v.into_iter().collect();
    (s.len() == n).then_some(s)
}

pub fn q12(ctx: &Ctx) {
    let m = &markets(false)[0];
    let n = facts(m).len();
    // instruments alone, under every choice of rules
    ctx.note("rules", format!("every subset of {} entries, on {n} instruments", RULES.len()));
    ctx.par_for(1 << (RULES.len() - 4), |head| {
        let fs = facts(m);
        for tail in 0..16u32 {
            let r = Rules((head as u32) << 4 | tail);
            let real = r.real();
            for f in &fs {
                let key = || format!("rules {:013b} {}", r.0, f.inst.get_code());
                let bad = ctx.run(key, || {
                    ctx.case();
                    let none = "Dummy".to_string();
                    let one = |x: anyhow::Result<&String>| x.map(|s| (*s != none).then(|| s.clone())).map_err(|_| ());
                    let many = |x: anyhow::Result<Vec<&String>>| x.map(|v| v.into_iter().cloned().collect::<Vec<_>>()).map_err(|_| ());
                    let i = &f.inst;
                    for (name, got, want) in [("crs", one(real.get_crs_curve_name(i)), r.crs(f, false)), ("floating crs", one(real.get_floating_crs_curve_name(i)), r.crs(f, true)), ("discount", one(real.get_discount_curve_name(i)), r.discount(f)), ("rate index", one(real.get_rate_index_curve_name(i)), r.index(f))] {
                        if got != want {
                            return Some(format!("{name} curve is {got:?}, expected {want:?}"));
                        }
                    }
                    for (name, got, want) in [("collateral", many(real.get_collateral_curve_names(i)), r.under(f)), ("borrowing", many(real.get_borrowing_curve_names(i)), r.loan(f))] {
                        if got != want {
                            return Some(format!("{name} curves are {got:?}, expected {want:?}"));
                        }
                    }
                    for u in ["A", "B", "C", "D"] {
                        let got = real.get_collateral_curve_name(i, &u.to_string()).ok().cloned();
                        if got != r.has("under", u) {
                            return Some(format!("collateral curve of {u} is {got:?}, expected {:?}", r.has("under", u)));
                        }
                    }
                    None
                });
                match bad {
                    Some(Some(x)) => return ctx.violation(&key(), x),
                    Some(None) => {}
                    None => return,
                }
            }
        }
    });
    // collections
    let depth = ctx.pick(3, 4);
    let total: usize = (0..=depth).map(|d| n.pow(d as u32)).sum();
    ctx.note("collections", format!("{total} lists of up to {depth} of {n} instruments (repetitions included)"));
    ctx.par_for(n + 1, |first| {
        let fs = facts(m);
        let inner: usize = if first == n { 1 } else { (0..depth).map(|d| n.pow(d as u32)).sum() };
        for mut code in 0..inner {
            // the list starts with `first`, then up to depth-1 more
            let mut list = if first == n { vec![] } else { vec![first] };
            if first < n {
                let mut len = 0;
                while code >= n.pow(len) {
                    code -= n.pow(len);
                    len += 1;
                }
                for _ in 0..len {
                    list.push(code % n);
                    code /= n;
                }
            }
            let set: Vec<&Fact> = list.iter().map(|&k| &fs[k]).collect();
            let key = || format!("instruments {}", set.iter().map(|f| f.inst.get_code().as_str()).collect::<Vec<_>>().join(" "));
            match ctx.run(key, || {
                ctx.case();
                collection(m, &fs, &set)
            }) {
                Some(Err(x)) => return ctx.violation(&key(), x),
                Some(Ok(())) => {}
                None => return,
            }
        }
        ctx.sample(format!("all lists starting with {}", if first == n { "nothing" } else { fs[first].inst.get_code() }));
    });
    // which engines may be made at which time
    let fs = facts(m);
    let mut times: Vec<OffsetDateTime> = fs.iter().filter_map(|f| f.mat).flat_map(|t| [t - time::Duration::SECOND, t, t + time::Duration::SECOND]).collect();
    times.sort();
    times.dedup();
    ctx.note("engines", format!("{} moments around the maturities, lists of up to 2 instruments", times.len()));
    ctx.par_for(times.len(), |k| {
        let at = times[k];
        let fs = facts(m);
        let mut lists: Vec<Vec<usize>> = vec![vec![]];
        lists.extend((0..n).map(|a| vec![a]));
        lists.extend((0..n).flat_map(|a| (0..n).map(move |b| vec![a, b])));
        for l in lists {
            let key = || format!("engine at {at} with {:?}", l.iter().map(|&k| fs[k].inst.get_code()).collect::<Vec<_>>());
            ctx.run(key, || {
                ctx.case();
                let e = Engine::builder(0, m.conf([false; 10]), at, Rules(!0).real()).with_instruments(l.iter().map(|&k| fs[k].inst.clone()).collect());
                let want = !l.is_empty() && l.iter().all(|&k| fs[k].mat.is_none_or(|m| m > at));
                if e.is_ok() != want {
                    ctx.violation(&key(), format!("instruments {}, expected {}", if e.is_ok() { "accepted" } else { "refused" }, if want { "accepted" } else { "refused" }));
                }
            });
        }
    });
}

fn collection(m: &Market, fs: &[Fact], set: &[&Fact]) -> Result<(), String> {
    let rc: Vec<Rc<Instrument>> = set.iter().map(|f| Rc::new(f.inst.clone())).collect();
    let all = Instruments::new(rc.clone());
    let own = |p: &dyn Fn(&Fact) -> bool| bag(set.iter().filter(|f| p(f)).map(|f| f.inst.get_code().clone()));
    let same = |what: &str, got: Vec<String>, want: Vec<String>| if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, expected {want:?}")) };
    let inorder: Vec<String> = set.iter().map(|f| f.inst.get_code().clone()).collect();
    if all.len() != set.len() || all.is_empty() != set.is_empty() || (0..set.len()).any(|k| all[k].get_code() != &inorder[k]) {
        return Err(format!("holds {} instruments or another order than given", all.len()));
    }
    same("iteration", all.iter().map(|i| i.get_code().clone()).collect(), inorder.clone())?;
    same("copy", all.get_instruments_clone().iter().map(|i| i.get_code().clone()).collect(), inorder.clone())?;
    same("codes", bag(all.get_all_inst_code_clone(None)), bag(inorder))?;
    // names
    let unique = |what: &str, got: Vec<String>, want: BTreeSet<String>| match once(got.clone()) {
        Some(g) if g == want => Ok(()),
        _ => Err(format!("{what}: {got:?}, expected each of {want:?} once")),
    };
    unique("underlyings", all.get_all_underlying_codes().into_iter().cloned().collect(), set.iter().filter_map(|f| f.und).map(String::from).collect())?;
    unique("underlyings with a volatility", all.get_all_unerlying_codes_requiring_volatility(None), set.iter().filter(|f| f.vol).filter_map(|f| f.und).map(String::from).collect())?;
    unique("exchange rates", all.get_all_fxcodes_for_pricing().iter().map(|x| x.to_string()).collect(), set.iter().filter_map(|f| f.fx).map(|x| x.to_string()).collect())?;
    unique("types", all.get_all_type_names().iter().map(|x| x.to_string()).collect(), set.iter().map(|f| f.kind.to_string()).collect())?;
    let quanto: Vec<String> = all.get_all_quanto_fxcode_und_pairs().iter().map(|(u, c)| format!("{u} {c}")).collect();
    unique("quanto pairs", quanto, set.iter().filter(|f| f.quanto).map(|f| format!("{} {}", f.und.unwrap(), FxCode::new(USD, f.ccy))).collect())?;
    let ccys = all.get_all_currencies().map_err(|e| format!("currencies: {e:#}"))?;
    unique("currencies", ccys.iter().map(|c| c.as_str().to_string()).collect(), set.iter().flat_map(|f| [Some(f.ccy), f.other]).flatten().map(|c| c.as_str().to_string()).collect())?;
    // selections
    for c in [KRW, USD, EUR] {
        same(&format!("in {c:?}"), codes(&all.instruments_with_currency(&c)), own(&|f| f.ccy == c))?;
    }
    let excludes: [Option<Vec<&str>>; 4] = [None, Some(vec![]), Some(vec!["Stock", "Cash"]), Some(vec!["VanillaPut", "Bond", "IRS", "Futures"])];
    for ex in &excludes {
        let keep = |f: &Fact| ex.as_ref().is_none_or(|e| !e.contains(&f.kind));
        for u in ["A", "B", "C", "D", "E"] {
            same(&format!("on {u} without {ex:?}"), codes(&all.instruments_with_underlying(&u.to_string(), ex.clone())), own(&|f| f.und == Some(u) && keep(f)))?;
        }
        if let Some(e) = ex {
            same(&format!("of types {e:?}"), codes(&all.instruments_with_types(e.clone())), own(&|f| e.contains(&f.kind)))?;
        }
        // maturities, within all and within a part
        let part: Vec<Rc<Instrument>> = rc.iter().skip(1).cloned().collect();
        let mut times: BTreeSet<OffsetDateTime> = set.iter().filter_map(|f| f.mat).collect();
        for t in times.clone() {
            times.insert(t - time::Duration::SECOND);
        }
        for t in times {
            let whole = |f: &Fact| keep(f) && f.mat.is_some_and(|x| x <= t);
            same(&format!("up to {t} without {ex:?}"), codes(&all.instruments_with_maturity_upto(None, &t, ex.clone())), own(&whole))?;
            let later = |f: &Fact| keep(f) && f.mat.is_none_or(|x| x > t);
            same(&format!("over {t} without {ex:?}"), codes(&all.instruments_with_maturity_over(None, &t, ex.clone())), own(&later))?;
            let sub = |p: &dyn Fn(&Fact) -> bool| bag(set.iter().skip(1).filter(|f| p(f)).map(|f| f.inst.get_code().clone()));
            same(&format!("of a part up to {t} without {ex:?}"), codes(&all.instruments_with_maturity_upto(Some(&part), &t, ex.clone())), sub(&whole))?;
            same(&format!("of a part over {t} without {ex:?}"), codes(&all.instruments_with_maturity_over(Some(&part), &t, ex.clone())), sub(&later))?;
        }
        for (what, whole, s) in [("all", None, set), ("a part", Some(&part), set.get(1..).unwrap_or(&[]))] {
            let short = s.iter().filter_map(|f| f.mat).min();
            let long = if s.iter().any(|f| f.mat.is_none()) { None } else { s.iter().filter_map(|f| f.mat).max() };
            if all.get_shortest_maturity(whole) != short || all.get_longest_maturity(whole) != long {
                return Err(format!("maturities of {what} from {:?} to {:?}, expected {short:?} to {long:?}", all.get_shortest_maturity(whole), all.get_longest_maturity(whole)));
            }
        }
        // curves: with all rules, and with some missing
        for bits in [!0u32, !0 ^ 1 << 10, 0b1_1111_1111_1111 ^ 1 << 9 ^ 1 << 11, !(1 << 6)] {
            let r = Rules(bits & 0x1fff);
            let real = r.real();
            let want: Result<Vec<BTreeSet<String>>, ()> = set.iter().map(|f| r.curves(f)).collect();
            let got = all.get_all_curve_names(&real);
            match (&want, got) {
                (Err(()), Err(_)) => {}
                (Ok(w), Ok(g)) => unique("curves", g.into_iter().cloned().collect(), w.iter().flatten().cloned().collect())?,
                (w, g) => return Err(format!("curves under rules {bits:b}: {g:?}, expected {w:?}")),
            }
            let kept: Vec<&&Fact> = set.iter().filter(|f| keep(f)).collect();
            let each: Result<BTreeMap<usize, BTreeSet<String>>, ()> = kept.iter().enumerate().map(|(k, f)| r.curves(f).map(|c| (k, c))).collect();
            for name in ["KRWGOV", "USDX", "CDX", "crs KRW", "bond H", "under A", "other"] {
                match (&each, all.instruments_using_curve(&name.to_string(), &real, ex.clone())) {
                    (Err(()), _) => {} // may or may not get as far as the one without a rule
                    (Ok(w), Ok(g)) => same(&format!("using {name} without {ex:?}"), codes(&g), bag(w.iter().filter(|(_, c)| c.contains(name)).map(|(k, _)| kept[*k].inst.get_code().clone())))?,
                    (_, Err(e)) => return Err(format!("using {name}: {e:#}")),
                }
            }
        }
    }
    let _ = (m, fs);
    Ok(())
}
