//! Q01 business-day calendars and adjustment, Q02 public holidays.
use crate::hol::*;
use crate::util::*;
use quantlib::time::calendar::Calendar;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::conventions::BusinessDayConvention as B;
use quantlib::time::holiday::Holidays;
use quantlib::time::jointcalendar::JointCalendar;
use std::collections::BTreeSet;
use vcommon::{guarded, Ctx};

const CONVS: [B; 5] = [B::Unadjusted, B::Following, B::ModifiedFollowing, B::Preceding, B::ModifiedPreceding];

/// Reference adjustment of the instant (n, s, off); `hol(n)` is the holiday status of the
/// date n as written in the instant's own offset.
pub fn adjust_ref(n: i64, conv: B, hol: &dyn Fn(i64) -> bool) -> i64 {
    let up = |mut k: i64| {
        while hol(k) {
            k += 1
        }
        k
    };
    let down = |mut k: i64| {
        while hol(k) {
            k -= 1
        }
        k
    };
    let month = |k: i64| (ymd(k).0, ymd(k).1);
    match conv {
        B::Unadjusted => n,
        B::Following => up(n),
        B::Preceding => down(n),
        B::ModifiedFollowing => {
            let k = up(n);
            if month(k) == month(n) { k } else { down(n) }
        }
        B::ModifiedPreceding => {
            let k = down(n);
            if month(k) == month(n) { k } else { up(n) }
        }
        B::Dummy => unreachable!(),
    }
}

struct Probe<'a> {
    name: String,
    cal: &'a dyn Fn(&time::OffsetDateTime, Option<B>) -> Result<Result<time::OffsetDateTime, bool>, String>,
}

fn probe_trait<C: CalendarTrait>(c: &C, d: &time::OffsetDateTime, conv: Option<B>) -> Result<Result<time::OffsetDateTime, bool>, String> {
    guarded(|| match conv {
        None => {
            let h = c.is_holiday(d);
            if c.is_business_day(d) == h {
                return Err("is_business_day contradicts is_holiday".to_string());
            }
            Ok(Err(h))
        }
        Some(b) => c.adjust(d, &b).map(Ok).map_err(|e| format!("refused: {e}")),
    })
    .and_then(|x| x)
}

fn check_day(ctx: &Ctx, p: &Probe, n: i64, s: i64, off: i64, hol: &dyn Fn(i64) -> bool) {
    let d = dt(n, s, off);
    let key = |w: &str| format!("{w} {} {:?} {:02}:{:02} offset {}", p.name, ymd(n), s / 3600, s / 60 % 60, off);
    match (p.cal)(&d, None) {
        Ok(Err(h)) if h == hol(n) => {}
        r => ctx.violation(&key("holiday status"), format!("got {:?}, expected holiday={}", r, hol(n))),
    }
    for b in CONVS {
        let e = adjust_ref(n, b, hol);
        match (p.cal)(&d, Some(b)) {
            Ok(Ok(r)) if undt(&r) == (e, s, off) => {}
            r => ctx.violation(&key(&format!("adjust {b:?}")), format!("got {:?}, expected {:?}", r, ymd(e))),
        }
    }
    ctx.case();
}

pub fn q01(ctx: &Ctx) {
    let (y0, y1) = ctx.pick((2022, 2026), (2000, 2040));
    let tables: Vec<Table> = CALS.iter().map(|&c| Table::new(c, y0 - 1, y1 + 1)).collect();
    let mut sets: Vec<Vec<usize>> = (0..8).map(|i| vec![i]).collect();
    for i in 0..8 {
        for j in 0..8 {
            if i != j {
                sets.push(vec![i, j]);
            }
        }
    }
    for i in 1..8 {
        for j in i + 1..8 {
            for k in j + 1..8 {
                sets.push(vec![k, i, j]);
            }
        }
    }
    let times: &[(i64, i64)] = &[(0, 9), (57600, 9), (86399, 0), (0, 0), (50400, -5), (68400, -5), (36000, 9), (86399, -5)];
    let lo = num(Ymd(y0, 1, 1));
    let hi = num(Ymd(y1, 12, 31));
    ctx.note("calendars", format!("{} calendars and joint calendars of two and three", sets.len()));
    ctx.note("dates", format!("every day of {y0}-{y1} at {} times of day and offsets, 5 conventions", times.len()));
    ctx.par_for(sets.len(), |si| {
        let set = &sets[si];
        let cs: Vec<Cal> = set.iter().map(|&i| CALS[i]).collect();
        let j = joint(&cs);
        let single = real(cs[0]);
        let name = format!("{cs:?}");
        let pj = |d: &time::OffsetDateTime, b: Option<B>| probe_trait(&j, d, b);
        let ps = |d: &time::OffsetDateTime, b: Option<B>| probe_trait(&single, d, b);
        for (ti, &(s, off)) in times.iter().enumerate() {
            // sets beyond singles: every third combination of time and set keeps the quick tier quick
            if set.len() == 3 && !ctx.thorough() && (si + ti) % 4 != 0 {
                continue;
            }
            let hol = |n: i64| {
                set.iter().any(|&i| {
                    let o = CALS[i].offset().map(|x| x as i64).unwrap_or(off);
                    tables[i].hol(shift(n, s, off, o))
                })
            };
            ctx.begin(|| format!("adjust {name} second {s} offset {off}"));
            for n in lo..=hi {
                if ctx.stopped() {
                    return;
                }
                check_day(ctx, &Probe { name: format!("joint {name}"), cal: &pj }, n, s, off, &hol);
                if set.len() == 1 {
                    check_day(ctx, &Probe { name: name.clone(), cal: &ps }, n, s, off, &hol);
                    let d = dt(n, s, off);
                    let o = cs[0].offset().map(|x| x as i64).unwrap_or(off);
                    let we = wd(shift(n, s, off, o)) >= SAT;
                    if single.is_weekend(&d) != we {
                        ctx.violation(&format!("weekend {name} {d}"), format!("is_weekend = {}", !we));
                    }
                }
            }
        }
        ctx.end();
        if ctx.want_sample() {
            ctx.sample(format!("{name}: {} days x times checked", hi - lo + 1));
        }
    });
    // user-maintained holidays: every history of additions and removals
    let w0 = num(Ymd(2024, 4, 26));
    let w1 = num(Ymd(2024, 5, 20));
    // a business day, a base holiday (Children's day substitute / Labour day, Memorial day is 27 May), a weekend day
    let days = [num(Ymd(2024, 5, 3)), num(Ymd(2024, 5, 6)), num(Ymd(2024, 5, 4)), num(Ymd(2024, 4, 30))];
    let depth = ctx.pick(3usize, 5);
    let nops = days.len() * 2;
    let mut total = 1usize;
    for _ in 0..depth {
        total *= nops + 1;
    }
    for &ci in &[1usize, 2, 3, 4, 5, 6, 7] {
        let t = &tables[ci];
        ctx.par_for(total, |code| {
            let mut c = code;
            let mut ops = vec![];
            for _ in 0..depth {
                let o = c % (nops + 1);
                c /= nops + 1;
                if o == 0 {
                    break;
                }
                ops.push(o - 1);
            }
            if c != 0 {
                return; // not canonical
            }
            let off = CALS[ci].offset().unwrap() as i64;
            let mut real_c: Calendar = real(CALS[ci]);
            let mut added = BTreeSet::new();
            let mut removed = BTreeSet::new();
            for &o in &ops {
                let d = days[o / 2];
                let r = if o % 2 == 0 {
                    added.insert(d);
                    real_c.add_holidays(&date(ymd(d)))
                } else {
                    removed.insert(d);
                    real_c.remove_holidays(&date(ymd(d)))
                };
                if r.is_err() {
                    ctx.violation(&format!("add/remove holiday refused {:?} {ops:?}", CALS[ci]), "refused");
                }
            }
            let base = |n: i64| wd(n) >= SAT || (!removed.contains(&n) && (t.hol(n) || added.contains(&n)));
            let back: Calendar = serde_json::from_str(&serde_json::to_string(&real_c).unwrap()).unwrap();
            let jc = JointCalendar::new(vec![real_c.clone()]).unwrap();
            for n in w0..=w1 {
                for (s, o) in [(43200, off), (79200, 0), (7200, 9)] {
                    let hol = |n: i64| base(shift(n, s, o, off));
                    let pr = |d: &time::OffsetDateTime, b: Option<B>| probe_trait(&real_c, d, b);
                    check_day(ctx, &Probe { name: format!("{:?} edits {ops:?}", CALS[ci]), cal: &pr }, n, s, o, &hol);
                    let pr = |d: &time::OffsetDateTime, b: Option<B>| probe_trait(&back, d, b);
                    check_day(ctx, &Probe { name: format!("{:?} stored and read back, edits {ops:?}", CALS[ci]), cal: &pr }, n, s, o, &hol);
                    let pr = |d: &time::OffsetDateTime, b: Option<B>| probe_trait(&jc, d, b);
                    check_day(ctx, &Probe { name: format!("joint {:?} edits {ops:?}", CALS[ci]), cal: &pr }, n, s, o, &hol);
                }
            }
        });
    }
    ctx.note("edits", format!("every sequence of up to {depth} additions/removals over {} days, on 7 calendars, also after serialisation and inside a joint calendar", days.len()));
    // refusals
    for &c in &CALS {
        let r = real(c).adjust(&dt(w0, 0, 9), &B::Dummy);
        if r.is_ok() {
            ctx.violation(&format!("dummy convention {c:?}"), "accepted");
        }
        let mut j = joint(&[c]);
        if j.add_holidays(&date(Ymd(2024, 5, 3))).is_ok() || j.remove_holidays(&date(Ymd(2024, 5, 3))).is_ok() {
            ctx.violation(&format!("joint calendar edit {c:?}"), "a joint calendar accepted an edit");
        }
        ctx.case();
    }
    if JointCalendar::new(vec![]).is_ok() {
        ctx.violation("empty joint calendar", "accepted");
    }
}

pub fn q02(ctx: &Ctx) {
    // Korean tables cover 1951-2050, the United States rules 1901-2199
    for (ci, &c) in CALS.iter().enumerate() {
        if c == Cal::Null {
            continue;
        }
        let (y0, y1) = if ci < 3 { (1951, 2050) } else { (1901, 2199) };
        let off = c.offset().unwrap() as i64;
        ctx.par_for((y1 - y0 + 1) as usize, |k| {
            let y = y0 + k as i32;
            let cal = real(c);
            let hs = holidays(c, y);
            for n in num(Ymd(y, 1, 1))..=num(Ymd(y, 12, 31)) {
                let e = wd(n) >= SAT || hs.contains(&n);
                for s in [0, 43200, 86399] {
                    match ctx.run(&|| format!("{c:?} {:?}", ymd(n)), || cal.is_holiday(&dt(n, s, off))) {
                        Some(g) if g == e => {}
                        Some(g) => ctx.violation(&format!("{c:?} {:?}", ymd(n)), format!("is_holiday = {g}, expected {e}")),
                        None => return,
                    }
                    ctx.case();
                }
            }
            if ctx.want_sample() {
                ctx.sample(format!("{c:?} {y}: {} weekday holidays", hs.len()));
            }
        });
    }
    // Good Friday of both churches, through the public trait
    use quantlib::time::calendars::unitedstates::UnitedStatesType;
    for y in 1901..=2199 {
        for n in num(Ymd(y, 3, 1))..=num(Ymd(y, 5, 31)) {
            for (o, e) in [(false, easter(y) - 2), (true, orthodox_easter(y) - 2)] {
                let g = UnitedStatesType::Nyse.is_good_friday(&dt(n, 43200, 0), o);
                if g != (n == e) {
                    ctx.violation(&format!("good friday orthodox={o} {:?}", ymd(n)), format!("is_good_friday = {g}"));
                }
                ctx.case();
            }
        }
    }
}
