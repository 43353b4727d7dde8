//! T05: exchange times of a feed become the right instants; T07: instants become the right text.
use time::{Date, Duration, Month};
use trading_engine::data::krx::krx_converter::get_krx_timestamp_converter;
use trading_engine::types::timestamp::*;
use trading_engine::utils::numeric_converter::TimeStampConverter;
use trading_engine::utils::timer::{convert_unix_nano_to_date_and_time, time_components_from_unix_nano};
use vcommon::*;

const US_DAY: u64 = 86_400_000_000;
const KST: u64 = 9 * HOUR_NANOSCALE;

fn hhmmss(us: u64) -> Vec<u8> {
    let s = us / 1_000_000;
    format!("{:02}{:02}{:02}{:06}", s / 3600, s / 60 % 60, s % 60, us % 1_000_000).into_bytes()
}

fn date_nano(d: Date) -> u64 {
    civil_to_days(d.year() as i64, d.month() as u8 as i64, d.day() as i64) as u64 * DAY_NANOSCALE
}

/// Proleptic Gregorian calendar, written independently of the crates under test.
pub fn civil_to_days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
pub fn days_to_civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1)
}

struct Feed<'a> {
    conv: &'a TimeStampConverter,
    offset: u64,
}

impl Feed<'_> {
    /// Feeds the messages at the given local instants (µs since the local midnight of `date`).
    fn replay(&self, date: Date, at: &[u64], pass_sys: bool) -> Result<(), String> {
        let mut g = DateUnixNanoGenerator::from(date);
        for (i, t) in at.iter().enumerate() {
            // the clock of the machine, long before, just after or years after the message: a feed may be replayed at any time
            let clock = [77 + i as u64, date_nano(date) + t * 1000 + self.offset + 1_000_000, date_nano(date) + 1200 * DAY_NANOSCALE];
            let sys = if pass_sys { Some(TimeStamp { stamp: clock[(i + at.len()) % 3] }) } else { None };
            let text = hhmmss(t % US_DAY);
            let got = self.conv.parse_hhmmssuuuuuu(&text, sys, &mut g).map_err(|e| e.to_string())?;
            let want = date_nano(date) + t * 1000 + self.offset;
            let show = || format!("message {i} ({} µs after midnight of {date}, text {:?}) of the feed {at:?}", t, String::from_utf8_lossy(&text));
            if got.stamp != want {
                return Err(format!("{}: stamp {} (off by {} s), expected {want}", show(), got.stamp, (got.stamp as i128 - want as i128) / 1_000_000_000));
            }
            if g.get_prev_timestamp() != want {
                return Err(format!("{}: remembered previous stamp {} instead of {want}", show(), g.get_prev_timestamp()));
            }
            let day = date_nano(date) + (t / US_DAY) * DAY_NANOSCALE;
            if g.get_utcdate_unix_nano() != day {
                return Err(format!("{}: date of the generator is {} instead of {day}", show(), g.get_utcdate_unix_nano()));
            }
        }
        Ok(())
    }
}

pub fn t05(ctx: &Ctx) {
    let conv = get_krx_timestamp_converter();
    let dates: Vec<Date> = [(1970, 1, 1), (2024, 2, 28), (2023, 12, 30), (2100, 2, 27)]
        .iter()
        .map(|(y, m, d)| Date::from_calendar_date(*y, Month::try_from(*m as u8).unwrap(), *d).unwrap())
        .collect();
    // every second of the day, with every microsecond digit position exercised
    let us: Vec<u64> = {
        let mut v = vec![0, 999_999, 123_456, 500_000];
        let mut p = 1;
        for _ in 0..6 {
            v.push(p);
            v.push(9 * p);
            p *= 10;
        }
        v
    };
    ctx.par_for(86_400, |s| {
        for u in &us {
            for d in &dates[..2] {
                let r = guarded(|| Feed { conv, offset: KST }.replay(*d, &[s as u64 * 1_000_000 + u], u % 2 == 0)).and_then(|r| r);
                if let Err(e) = r {
                    ctx.violation("single", e);
                }
            }
        }
        ctx.cases(2 * us.len() as u64);
    });
    ctx.sample("every second of the day x 16 microsecond values, 2 dates");

    // chronological feeds with silent gaps up to 9 hours
    const H: u64 = 3_600_000_000;
    let starts = [0, 1, H, 5 * H + 1, 8 * H + 3_599_999_999, 9 * H, 12 * H, 14 * H + 3_599_999_999, 15 * H, 17 * H, 20 * H + 123_456, 23 * H + 3_599_999_999];
    let gaps: &[u64] = &[0, 1, 999_999, 60_000_000, H, 5 * H, 8 * H + 3_599_999_999, 9 * H];
    let depth = ctx.pick(5, 6);
    let offsets = [KST, 0, 14 * HOUR_NANOSCALE];
    let n = gaps.len().pow(depth as u32);
    let converters: Vec<TimeStampConverter> = offsets.iter().map(|o| TimeStampConverter::new(conv.converter.clone(), *o)).collect();
    ctx.par_for(n, |k| {
        let mut seq = vec![];
        let mut r = k;
        for _ in 0..depth {
            seq.push(gaps[r % gaps.len()]);
            r /= gaps.len();
        }
        for (si, s) in starts.iter().enumerate() {
            let mut at = vec![*s];
            for g in &seq {
                at.push(at.last().unwrap() + g);
            }
            let oi = (k + si) % 3;
            let d = dates[(k / 3 + si) % dates.len()];
            let f = Feed { conv: &converters[oi], offset: offsets[oi] };
            ctx.states_add(at.len() as u64);
            ctx.trans_add(at.len() as u64);
            ctx.traces_add(1);
            ctx.run(|| format!("feed from {d} at {at:?}"), || {
                if let Err(e) = f.replay(d, &at, k % 2 == 0) {
                    ctx.violation("feed", e);
                }
            });
            if k == 4321 % n && si == 8 {
                ctx.sample(format!("feed from {d}, µs after midnight: {at:?}"));
            }
        }
    });

    // a generator behind the stamp it remembers catches up by whole days, none too many
    for d in &dates[..2] {
        for (oi, offset) in offsets.iter().enumerate() {
            for ahead in 0..24 * 8 {
                for tod in 0..24 {
                    for us in [0, 1, H - 1] {
                        let (ahead, t) = (ahead * H / 2, tod * H + us);
                        let mut g = DateUnixNanoGenerator::from(*d);
                        g.cache_timestamp(date_nano(*d) + offset + ahead * 1000);
                        ctx.case();
                        ctx.run(|| format!("feed from {d}, {ahead} µs after it remembered, then {t}"), || {
                            let days = (0..).find(|k| ahead < 15 * H + t + k * US_DAY).unwrap();
                            let want = date_nano(*d) + offset + t * 1000 + days * DAY_NANOSCALE;
                            let got = converters[oi].parse_hhmmssuuuuuu(&hhmmss(t), None, &mut g).map(|s| s.stamp).ok();
                            if got != Some(want) || g.get_utcdate_unix_nano() != date_nano(*d) + days * DAY_NANOSCALE {
                                ctx.violation("catch up", format!("from {d}, remembering {ahead} µs after it, at {t} µs: {got:?} instead of {want}, date {}", g.get_utcdate_unix_nano()));
                            }
                        });
                    }
                }
            }
        }
    }

    // messages of one day delivered out of order by less than a few hours stay on their day
    let jit: &[i64] = &[0, -1, -1_000_000, -(H as i64), -(3 * H as i64), 1, 2_000_000, 4 * H as i64];
    let depth = ctx.pick(4, 5);
    ctx.par_for(jit.len().pow(depth as u32), |k| {
        for s in [4 * H, 9 * H, 12 * H, 15 * H, 18 * H] {
            let mut at = vec![s];
            let mut r = k;
            for _ in 0..depth {
                let t = *at.last().unwrap() as i64 + jit[r % jit.len()];
                r /= jit.len();
                if !(0..US_DAY as i64).contains(&t) {
                    break;
                }
                at.push(t as u64);
            }
            // the same day: neighbours are never 15 hours apart here
            ctx.states_add(at.len() as u64);
            ctx.trans_add(at.len() as u64);
            ctx.traces_add(1);
            ctx.run(|| format!("out of order {at:?}"), || {
                if let Err(e) = (Feed { conv, offset: KST }).replay(dates[1], &at, true) {
                    ctx.violation("out of order", e);
                }
            });
        }
    });
    // the generator's own date arithmetic
    ctx.par_for(ctx.pick(60_000, 106_000), |day| {
        let d = Date::from_calendar_date(1970, Month::January, 1).unwrap() + Duration::days(day as i64);
        let want = day as u64 * DAY_NANOSCALE;
        ctx.run(|| format!("generator {d}"), || {
            if DateUnixNanoGenerator::from(d).get_utcdate_unix_nano() != want {
                ctx.violation("generator from date", format!("{d}: {}", DateUnixNanoGenerator::from(d).get_utcdate_unix_nano()));
            }
            for off in [0, 1, DAY_NANOSCALE / 2, DAY_NANOSCALE - 1] {
                let g = DateUnixNanoGenerator::from_unixnano(want + off);
                let mut h = DateUnixNanoGenerator::default();
                h.set_timestamp(TimeStamp { stamp: want + off });
                if g.get_utcdate_unix_nano() != want || h.get_utcdate_unix_nano() != want || h.get_update_stamp() != want + off {
                    ctx.violation("generator from stamp", format!("{d} + {off} ns: {} / {}", g.get_utcdate_unix_nano(), h.get_utcdate_unix_nano()));
                }
                h.increment(5);
                if h.get_utcdate_unix_nano() != want + DAY_NANOSCALE || h.get_update_stamp() != 5 {
                    ctx.violation("generator increment", format!("{d}"));
                }
                let ts = TimeStamp::new(want + off);
                if ts.to_date_utc().map_err(|e| e.to_string()) != Ok(d) {
                    ctx.violation("date of a stamp", format!("{d} + {off} ns: {:?}", ts.to_date_utc()));
                }
                let dt = ts.to_datetime().unwrap();
                if dt.unix_timestamp_nanos() != (want + off) as i128 {
                    ctx.violation("datetime of a stamp", format!("{d} + {off} ns: {dt}"));
                }
            }
        });
        ctx.cases(5);
    });
    // today's date, asked of the clock
    for _ in 0..1000 {
        ctx.case();
        ctx.run(|| "generator from today".into(), || {
            let day = |t: u64| t / DAY_NANOSCALE * DAY_NANOSCALE;
            let around = |g: &DateUnixNanoGenerator, t0: u64, t1: u64| {
                let (t0, t1) = (t0 - SECOND_NANOSCALE, t1 + SECOND_NANOSCALE);
                let d = g.get_utcdate_unix_nano();
                (d == day(t0) || d == day(t1)) && (t0..=t1).contains(&g.get_update_stamp())
            };
            let t0 = TimeStamp::utc_now().stamp;
            let g = DateUnixNanoGenerator::from_today().unwrap();
            let mut h = DateUnixNanoGenerator::from_unixnano(5);
            h.cache_timestamp(1234);
            h.set_today();
            let t1 = TimeStamp::utc_now().stamp;
            if !around(&g, t0, t1) || g.get_prev_timestamp() != 0 {
                ctx.violation("generator from today", format!("{g:?} between {t0} and {t1}"));
            }
            if !around(&h, t0, t1) || h.get_prev_timestamp() != 1234 {
                ctx.violation("generator set to today", format!("{h:?} between {t0} and {t1}"));
            }
        });
    }
    ctx.assume("gaps between consecutive messages are at most 9 hours, out-of-order deliveries do not cross midnight");
}

pub fn t07(ctx: &Ctx) {
    let days = 213_503usize;
    let tods: Vec<u64> = {
        let mut v = vec![0, 1, 999, 1_000, 999_999, 1_000_000, 999_999_999, DAY_NANOSCALE - 1, 12 * HOUR_NANOSCALE];
        for h in 0..24 {
            v.push(h * HOUR_NANOSCALE + 59 * MINUTE_NANOSCALE + 1_234_567_890);
        }
        v
    };
    ctx.par_for(days, |day| {
        // all offsets on every day; all times of day on some days of every month
        let (y, m, d) = days_to_civil(day as i64);
        assert_eq!(civil_to_days(y, m, d), day as i64);
        let rich = d <= 2 || d >= 27;
        let ts: Vec<u64> = if rich { tods.clone() } else { vec![0, tods[10 + day % 22], DAY_NANOSCALE - 1] };
        let mut n = 0;
        for tod in &ts {
            for off in -12i32..=14 {
                let nano = day as u64 * DAY_NANOSCALE + tod;
                let local = nano as i128 + off as i128 * HOUR_NANOSCALE as i128;
                if local < 0 || !(rich || off % 3 == 0) {
                    continue;
                }
                n += 1;
                let local = local as u128;
                let (y, m, d) = days_to_civil((local / DAY_NANOSCALE as u128) as i64);
                let t = (local % DAY_NANOSCALE as u128) as u64;
                let s = t / SECOND_NANOSCALE;
                let ns = t % SECOND_NANOSCALE;
                let want = (
                    format!("{y:04}{m:02}{d:02}"),
                    format!("{:02}:{:02}:{:02}.{:03}:{:03}:{:03}", s / 3600, s / 60 % 60, s % 60, ns / 1_000_000, ns / 1000 % 1000, ns % 1000),
                );
                let key = || format!("text of {nano} at {off:+}h");
                match guarded(|| convert_unix_nano_to_date_and_time(nano, off)) {
                    Ok(got) if got == want => {}
                    Ok(got) => ctx.violation(&key(), format!("{got:?}, expected {want:?}")),
                    Err(e) => ctx.violation(&key(), e),
                }
                if off == 0 {
                    let got = time_components_from_unix_nano(nano);
                    let want = ((s / 3600) as u8, (s / 60 % 60) as u8, (s % 60) as u8, (ns / 1_000_000) as u16);
                    if got != want {
                        ctx.violation(&format!("components of {nano}"), format!("{got:?}, expected {want:?}"));
                    }
                }
            }
        }
        ctx.cases(n);
    });
    ctx.sample("every day since 1970-01-01, offsets -12..+14 h, text of date and time");
    // every second of a day and every millisecond of a minute
    let base = 19_782u64 * DAY_NANOSCALE;
    ctx.par_for(86_400, |s| {
        for x in [0u64, 7, 70_003, 999_999_999] {
            let nano = base + s as u64 * SECOND_NANOSCALE + x;
            let s = s as u64;
            let want = format!("{:02}:{:02}:{:02}.{:03}:{:03}:{:03}", s / 3600, s / 60 % 60, s % 60, x / 1_000_000, x / 1000 % 1000, x % 1000);
            let got = convert_unix_nano_to_date_and_time(nano, 0);
            if got.1 != want || got.0 != "20240229" {
                ctx.violation("time of day", format!("{nano}: {got:?}, expected {want}"));
            }
            let c = time_components_from_unix_nano(nano);
            if (c.0 as u64, c.1 as u64, c.2 as u64, c.3 as u64) != (s / 3600, s / 60 % 60, s % 60, x / 1_000_000) {
                ctx.violation("components", format!("{nano}: {c:?}"));
            }
        }
        ctx.cases(8);
    });
    // elapsed times between stamps
    let vals: Vec<u64> = {
        let mut v = vec![0, 1, 999, 1000, 1001];
        for u in [MILLI_NANOSCALE, SECOND_NANOSCALE, MINUTE_NANOSCALE, HOUR_NANOSCALE, DAY_NANOSCALE] {
            v.extend([u - 1, u, u + 1, u + u / 2, 7 * u, 365 * u + u / 4]);
        }
        v
    };
    for base in [0u64, 1_700_000_000_123_456_789] {
        for a in &vals {
            for b in &vals {
                if a < b {
                    continue;
                }
                ctx.case();
                let (x, y) = (TimeStamp::new(base + a), TimeStamp::new(base + b));
                let d = a - b;
                ctx.run(|| format!("difference {a} - {b}"), || {
                    for (name, got, unit) in [
                        ("nanos", x.diff_in_nanos(y), 1),
                        ("micros", x.diff_in_micros(y), MICRO_NANOSCALE),
                        ("millis", x.diff_in_millis(y), MILLI_NANOSCALE),
                        ("secs", x.diff_in_secs(y), SECOND_NANOSCALE),
                        ("mins", x.diff_in_mins(y), MINUTE_NANOSCALE),
                        ("hours", x.diff_in_hours(y), HOUR_NANOSCALE),
                        ("days", x.diff_in_days(y), DAY_NANOSCALE),
                    ] {
                        let want = d as f64 / unit as f64;
                        if (got - want).abs() > 1e-12 * want.abs() {
                            ctx.violation(&format!("diff_in_{name}"), format!("{d} ns: {got}, expected {want}"));
                        }
                    }
                });
            }
        }
    }
    ctx.assume("local times from 1970-01-01 on");
}
