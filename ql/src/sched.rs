//! Q05 coupon schedules.
use crate::cal::adjust_ref;
use crate::hol::*;
use crate::util::*;
use quantlib::instruments::schedule::build_schedule;
use quantlib::time::conventions::{BusinessDayConvention as B, PaymentFrequency as F};
use vcommon::{guarded, Ctx};

pub const FREQS: [(F, i64, bool); 10] = [
    // (frequency, step, months?)
    (F::Daily, 1, false),
    (F::Weekly, 7, false),
    (F::BiWeekly, 14, false),
    (F::SemiMonthly, 14, false),
    (F::Monthly, 1, true),
    (F::SemiQuarterly, 2, true),
    (F::Quarterly, 3, true),
    (F::TriAnnually, 4, true),
    (F::SemiAnnually, 6, true),
    (F::Annually, 12, true),
];
const CONVS: [B; 5] = [B::Unadjusted, B::Following, B::ModifiedFollowing, B::Preceding, B::ModifiedPreceding];

fn step(n: i64, k: i64, f: (F, i64, bool)) -> i64 {
    if f.2 { num(add_months(ymd(n), k * f.1)) } else { n + k * f.1 }
}

#[derive(Debug, PartialEq, Clone)]
pub struct Period {
    pub fixing: i64,
    pub start: i64,
    pub end: i64,
    pub pay: i64,
}

/// None: the dates do not form increasing periods.
#[allow(clippy::too_many_arguments)]
pub fn schedule_ref(forward: bool, eff: i64, mat: i64, hol: &dyn Fn(i64) -> bool, conv: B, f: (F, i64, bool), fixing_gap: i64, payment_gap: i64) -> Option<Vec<Period>> {
    // unadjusted roll dates
    let mut rolls = vec![];
    if forward {
        let mut k = 0;
        loop {
            let d = step(eff, k, f);
            rolls.push(d);
            if d >= mat {
                break;
            }
            k += 1;
        }
    } else {
        let mut k = 0;
        loop {
            let d = step(mat, -k, f);
            rolls.push(d);
            if d <= eff {
                break;
            }
            k += 1;
        }
        rolls.reverse();
    }
    let m = rolls.len() - 1;
    let mut out = vec![];
    for i in 0..m {
        let start = if i == 0 { eff } else { adjust_ref(rolls[i], conv, hol) };
        let last = i == m - 1;
        let end = if last { mat } else { adjust_ref(rolls[i + 1], conv, hol) };
        if end <= start {
            return None;
        }
        out.push(Period {
            fixing: adjust_ref(start - fixing_gap, B::Preceding, hol),
            start,
            end,
            pay: if last { mat } else { adjust_ref(end + payment_gap, conv, hol) },
        });
    }
    Some(out)
}

pub fn q05(ctx: &Ctx) {
    // a frequency is a number of payments a year, and a time between them
    for (f, n, text) in [(F::Daily, 252, "1D"), (F::Weekly, 52, "1W"), (F::BiWeekly, 26, "2W"), (F::SemiMonthly, 24, "2W"), (F::Monthly, 12, "1M"), (F::SemiQuarterly, 6, "2M"), (F::Quarterly, 4, "3M"), (F::TriAnnually, 3, "4M"), (F::SemiAnnually, 2, "6M"), (F::Annually, 1, "1Y")] {
        ctx.run(|| format!("{f:?}"), || {
            ctx.case();
            if f.as_real() != n as f32 || f.as_str() != text {
                ctx.violation(&format!("{f:?}"), format!("is {} payments a year, every {}", f.as_real(), f.as_str()));
            }
        });
    }
    let tables: Vec<Table> = CALS.iter().map(|&c| Table::new(c, 2018, 2045)).collect();
    let cal_sets: [&[usize]; 4] = [&[1], &[2], &[4, 1], &[0]];
    let mut effs: Vec<i64> = vec![];
    for d in [Ymd(2023, 1, 31), Ymd(2023, 11, 30), Ymd(2024, 2, 29), Ymd(2023, 8, 2), Ymd(2023, 12, 30), Ymd(2024, 5, 5), Ymd(2023, 9, 29), Ymd(2023, 12, 29), Ymd(2024, 6, 15)] {
        effs.push(num(d));
    }
    if ctx.thorough() {
        effs.extend(num(Ymd(2023, 1, 1))..num(Ymd(2024, 3, 15)));
    }
    // maturities: near every roll date of every frequency, and stubs
    let mut jobs = vec![];
    for (fi, f) in FREQS.iter().enumerate() {
        for &e in &effs {
            let mut mats = std::collections::BTreeSet::new();
            let periods = if f.2 { vec![0i64, 1, 2, 3, 5, 12] } else { vec![0, 1, 2, 3, 9] };
            for k in periods {
                let b = step(e, k, *f);
                if b - e > 366 * 6 {
                    continue;
                }
                for j in [-2i64, -1, 0, 1, 2, 17, 45] {
                    mats.insert(b + j);
                }
            }
            for m in mats {
                if m >= e {
                    jobs.push((fi, e, m));
                }
            }
        }
    }
    ctx.note("space", format!("{} (frequency, effective date, maturity) x 2 directions x 5 conventions x 4 calendars x 6 gap pairs", jobs.len()));
    ctx.par_for(jobs.len(), |ji| {
        let (fi, e, m) = jobs[ji];
        let f = FREQS[fi];
        for (si, set) in cal_sets.iter().enumerate() {
            let cs: Vec<Cal> = set.iter().map(|&i| CALS[i]).collect();
            let j = joint(&cs);
            let (s, off) = (59400, 9);
            let hol = |n: i64| set.iter().any(|&i| tables[i].hol(shift(n, s, off, CALS[i].offset().map(|x| x as i64).unwrap_or(off))));
            for conv in CONVS {
                for forward in [true, false] {
                    for (gi, &(fg, pg)) in [(1i64, 0i64), (0, 0), (2, 1), (0, 3), (3, 5), (5, 2)].iter().enumerate() {
                        if !ctx.thorough() && (ji + 2 * si + gi) % 9 != 0 {
                            continue;
                        }
                        let key = || format!("{:?} forward={forward} {:?} -> {:?} {cs:?} {conv:?} fixing {fg} payment {pg}", f.0, ymd(e), ymd(m));
                        let want = schedule_ref(forward, e, m, &hol, conv, f, fg, pg);
                        let got = ctx.run(&key, || build_schedule(forward, &dt(e, s, off), &dt(m, s, off), &j, &conv, &f.0, fg, pg));
                        ctx.case();
                        let Some(got) = got else { return };
                        match (got, want) {
                            (Err(_), None) => ctx.outcome("refused: dates do not increase"),
                            (Ok(g), Some(w)) => {
                                let g: Option<Vec<Period>> = g
                                    .iter()
                                    .map(|p| {
                                        let u = |d: &time::OffsetDateTime| {
                                            let (n, s1, o) = undt(d);
                                            (s1 == s && o == off).then_some(n)
                                        };
                                        if p.get_amount().is_some() {
                                            return None;
                                        }
                                        Some(Period { fixing: u(p.get_fixing_date())?, start: u(p.get_calc_start_date())?, end: u(p.get_calc_end_date())?, pay: u(p.get_payment_date())? })
                                    })
                                    .collect();
                                if g.as_ref() != Some(&w) {
                                    ctx.violation(&key(), format!("got {g:?}, expected {w:?}"));
                                }
                                // what a user relies on, stated without the reference
                                if let Some(g) = g {
                                    let contiguous = g.windows(2).all(|x| x[0].end == x[1].start);
                                    let ends = g.is_empty() || (g[0].start == e && g[g.len() - 1].end == m && g[g.len() - 1].pay == m);
                                    if !contiguous || !ends || g.iter().any(|p| p.start >= p.end || p.fixing > p.start) {
                                        ctx.violation(&key(), format!("periods do not tile the life of the contract: {g:?}"));
                                    }
                                    if ctx.want_sample() && g.len() == 3 {
                                        ctx.sample(format!("{}: {g:?}", key()));
                                    }
                                }
                            }
                            (g, w) => ctx.violation(&key(), format!("got {:?}, expected {w:?}", g.map(|x| x.len()).map_err(|e| e.to_string().chars().take(80).collect::<String>()))),
                        }
                    }
                }
            }
        }
    });
    // negative gaps are refused
    let j = joint(&[Cal::KrSettle]);
    for (fg, pg) in [(-1, 0), (0, -1), (-3, -3)] {
        for fw in [true, false] {
            if !matches!(guarded(|| build_schedule(fw, &dt(effs[0], 0, 9), &dt(effs[0] + 700, 0, 9), &j, &B::Following, &F::Quarterly, fg, pg)), Ok(Err(_))) {
                ctx.violation(&format!("gaps {fg} {pg}"), "negative gap accepted");
            }
            ctx.case();
        }
    }
}
