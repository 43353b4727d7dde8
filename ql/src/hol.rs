//! Reference calendar arithmetic and public-holiday rules, written independently of the code.
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Ymd(pub i32, pub u32, pub u32);

pub fn is_leap(y: i32) -> bool {
    (y % 4 == 0) != (y % 100 == 0) || y % 400 == 0
}
pub fn dim(y: i32, m: u32) -> u32 {
    match m {
        2 => 28 + is_leap(y) as u32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Days since 1970-01-01 (a Thursday).
pub fn num(d: Ymd) -> i64 {
    let y = d.0 as i64 - (d.1 <= 2) as i64;
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let mp = (d.1 as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d.2 as i64 - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
pub fn ymd(n: i64) -> Ymd {
    let z = n + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    Ymd((yoe + era * 400 + (m <= 2) as i64) as i32, m as u32, d as u32)
}
/// 0 = Monday ... 6 = Sunday
pub fn wd(n: i64) -> i64 {
    (n + 3).rem_euclid(7)
}
pub const MON: i64 = 0;
pub const TUE: i64 = 1;
pub const WED: i64 = 2;
pub const THU: i64 = 3;

pub const SAT: i64 = 5;
pub const SUN: i64 = 6;

fn nth(y: i32, m: u32, w: i64, n: u32) -> i64 {
    let first = num(Ymd(y, m, 1));
    first + (w - wd(first)).rem_euclid(7) + 7 * (n as i64 - 1)
}
fn last(y: i32, m: u32, w: i64) -> i64 {
    let l = num(Ymd(y, m, dim(y, m)));
    l - (wd(l) - w).rem_euclid(7)
}
/// Western Easter Sunday (Gauss / anonymous Gregorian computus).
pub fn easter(y: i32) -> i64 {
    let a = y % 19;
    let b = y / 100;
    let c = y % 100;
    let d = b / 4;
    let e = b % 4;
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let i = c / 4;
    let k = c % 4;
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let mo = (h + l - 7 * m + 114) / 31;
    let da = (h + l - 7 * m + 114) % 31 + 1;
    num(Ymd(y, mo as u32, da as u32))
}
/// Orthodox Easter Sunday: Julian computus shifted to the Gregorian calendar.
pub fn orthodox_easter(y: i32) -> i64 {
    let a = y % 4;
    let b = y % 7;
    let c = y % 19;
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let mo = (d + e + 114) / 31;
    let da = (d + e + 114) % 31 + 1;
    let shift = (y / 100 - y / 400 - 2) as i64;
    num(Ymd(y, mo as u32, da as u32)) + shift
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Cal {
    Null,
    KrSettle,
    Krx,
    UsSettle,
    Nyse,
    UsGov,
    Fed,
    Sofr,
}
pub const CALS: [Cal; 8] = [Cal::Null, Cal::KrSettle, Cal::Krx, Cal::UsSettle, Cal::Nyse, Cal::UsGov, Cal::Fed, Cal::Sofr];

impl Cal {
    /// hours east of UTC, None: the date's own offset
    pub fn offset(self) -> Option<i8> {
        match self {
            Cal::Null => None,
            Cal::KrSettle | Cal::Krx => Some(9),
            _ => Some(-5),
        }
    }
}

fn observed(v: &mut BTreeSet<i64>, y: i32, m: u32, d: u32, friday: bool) {
    let n = num(Ymd(y, m, d));
    v.insert(n);
    if wd(n) == SUN {
        v.insert(n + 1);
    }
    if friday && wd(n) == SAT {
        v.insert(n - 1);
    }
}

fn lunar(y: i32, m: u32, d: u32) -> i64 {
    use chrono::Datelike;
    let l = korean_lunar_calendar::date::LunarDate { year: y as _, month: (m as _, false), day: d as _ };
    match korean_lunar_calendar::convert::lunar_to_gregorian(&l) {
        Some(g) => num(Ymd(g.year(), g.month(), g.day())),
        None => panic!("no lunar date {y}-{m}-{d}"),
    }
}

/// Week-day holidays of one year.
pub fn holidays(cal: Cal, y: i32) -> BTreeSet<i64> {
    let mut v = BTreeSet::new();
    match cal {
        Cal::Null => {}
        Cal::KrSettle | Cal::Krx => {
            for (m, d) in [(1, 1), (3, 1), (5, 1), (5, 5), (6, 6), (8, 15), (10, 3), (10, 9), (12, 25)] {
                v.insert(num(Ymd(y, m, d)));
            }
            let s = lunar(y, 1, 1);
            v.extend([s - 1, s, s + 1]);
            v.insert(lunar(y, 4, 8));
            let c = lunar(y, 8, 15);
            v.extend([c - 1, c, c + 1]);
            // substitute and temporary holidays as published
            for d in [Ymd(2023, 1, 24), Ymd(2023, 5, 1), Ymd(2023, 5, 29), Ymd(2023, 10, 2), Ymd(2024, 2, 12), Ymd(2024, 5, 6)] {
                if d.0 == y {
                    v.insert(num(d));
                }
            }
            if cal == Cal::Krx {
                let mut n = num(Ymd(y, 12, 31));
                while wd(n) >= SAT || v.contains(&n) {
                    n -= 1;
                }
                v.insert(n);
            }
        }
        _ => {
            let fed = cal == Cal::Fed;
            // New Year's Day
            v.insert(num(Ymd(y, 1, 1)));
            if wd(num(Ymd(y, 1, 1))) == SUN {
                v.insert(num(Ymd(y, 1, 2)));
            }
            if cal == Cal::UsSettle && wd(num(Ymd(y + 1, 1, 1))) == SAT {
                v.insert(num(Ymd(y, 12, 31)));
            }
            // Martin Luther King
            if y >= if cal == Cal::Nyse { 1998 } else { 1983 } {
                v.insert(nth(y, 1, MON, 3));
            }
            // Washington, Memorial day
            if y >= 1971 {
                v.insert(nth(y, 2, MON, 3));
                v.insert(last(y, 5, MON));
            } else {
                observed(&mut v, y, 2, 22, true);
                observed(&mut v, y, 5, 30, true);
            }
            // Juneteenth
            if y >= 2022 {
                observed(&mut v, y, 6, 19, !fed);
            }
            observed(&mut v, y, 7, 4, !fed);
            v.insert(nth(y, 9, MON, 1));
            if cal != Cal::Nyse {
                if y >= 1971 {
                    v.insert(nth(y, 10, MON, 2));
                }
                if y <= 1970 || y >= 1978 {
                    observed(&mut v, y, 11, 11, false);
                } else {
                    v.insert(nth(y, 10, MON, 4));
                }
            }
            v.insert(nth(y, 11, THU, 4));
            observed(&mut v, y, 12, 25, !fed);
            // Good Friday
            if (1901..=2199).contains(&y) {
                let gf = easter(y) - 2;
                match cal {
                    Cal::Nyse | Cal::Sofr => {
                        v.insert(gf);
                    }
                    Cal::UsGov if ![2015, 2021, 2023].contains(&y) => {
                        v.insert(gf);
                    }
                    _ => {}
                }
            }
            let mut special = |list: &[(i32, u32, u32)]| {
                for &(a, b, c) in list {
                    if a == y {
                        v.insert(num(Ymd(a, b, c)));
                    }
                }
            };
            if cal == Cal::UsGov || cal == Cal::Sofr {
                special(&[(2018, 12, 5), (2012, 10, 30), (2004, 6, 11)]);
            }
            if cal == Cal::Nyse {
                special(&[
                    (2018, 12, 5), (2012, 10, 29), (2012, 10, 30), (2007, 1, 2), (2004, 6, 11),
                    (2001, 9, 11), (2001, 9, 12), (2001, 9, 13), (2001, 9, 14), (1994, 4, 27), (1985, 9, 27),
                    (1977, 7, 14), (1973, 1, 25), (1972, 12, 28), (1969, 7, 21), (1969, 3, 31), (1969, 2, 10),
                    (1968, 7, 5), (1968, 4, 9), (1963, 11, 25), (1961, 5, 29), (1958, 12, 26),
                    (1954, 12, 24), (1956, 12, 24), (1965, 12, 24),
                ]);
                if y <= 1968 || (y <= 1980 && y % 4 == 0) {
                    v.insert(nth(y, 11, TUE, 1));
                }
                if y == 1968 {
                    let mut n = num(Ymd(1968, 6, 12));
                    while ymd(n).0 == 1968 {
                        if wd(n) == WED {
                            v.insert(n);
                        }
                        n += 1;
                    }
                }
            }
        }
    }
    v.retain(|&n| wd(n) < SAT);
    v
}

/// Reference holiday status (weekends included) for a range of years.
pub struct Table {
    #[allow(dead_code)]
    pub cal: Cal,
    first: i64,
    hol: Vec<bool>,
}
impl Table {
    pub fn new(cal: Cal, from: i32, upto: i32) -> Table {
        let first = num(Ymd(from, 1, 1));
        let last = num(Ymd(upto, 12, 31));
        let mut hol = vec![false; (last - first + 1) as usize];
        for n in first..=last {
            hol[(n - first) as usize] = wd(n) >= SAT;
        }
        for y in from..=upto {
            for n in holidays(cal, y) {
                hol[(n - first) as usize] = true;
            }
        }
        Table { cal, first, hol }
    }
    pub fn hol(&self, n: i64) -> bool {
        self.hol[(n - self.first) as usize]
    }
}

/// The day `n` seconds-of-day `s` in offset `off` hours, seen in offset `to`.
pub fn shift(n: i64, s: i64, off: i64, to: i64) -> i64 {
    let t = n * 86400 + s + (to - off) * 3600;
    t.div_euclid(86400)
}

/// Month arithmetic with the day capped at the end of the month.
pub fn add_months(d: Ymd, k: i64) -> Ymd {
    let t = d.0 as i64 * 12 + d.1 as i64 - 1 + k;
    let y = t.div_euclid(12) as i32;
    let m = t.rem_euclid(12) as u32 + 1;
    Ymd(y, m, d.2.min(dim(y, m)))
}
