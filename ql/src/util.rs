use crate::hol::*;
use quantlib::time::calendar::Calendar;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::calendars::southkorea::{SouthKorea, SouthKoreaType};
use quantlib::time::calendars::unitedstates::{UnitedStates, UnitedStatesType};
use quantlib::time::jointcalendar::JointCalendar;
use time::{Date, Month, OffsetDateTime, Time, UtcOffset};

pub fn real(c: Cal) -> Calendar {
    match c {
        Cal::Null => Calendar::NullCalendar(NullCalendar::default()),
        Cal::KrSettle => Calendar::SouthKorea(SouthKorea::new(SouthKoreaType::Settlement)),
        Cal::Krx => Calendar::SouthKorea(SouthKorea::new(SouthKoreaType::Krx)),
        Cal::UsSettle => Calendar::UnitedStates(UnitedStates::new(UnitedStatesType::Settlement)),
        Cal::Nyse => Calendar::UnitedStates(UnitedStates::new(UnitedStatesType::Nyse)),
        Cal::UsGov => Calendar::UnitedStates(UnitedStates::new(UnitedStatesType::GovernmentBond)),
        Cal::Fed => Calendar::UnitedStates(UnitedStates::new(UnitedStatesType::FederalReserve)),
        Cal::Sofr => Calendar::UnitedStates(UnitedStates::new(UnitedStatesType::Sofr)),
    }
}
pub fn joint(cs: &[Cal]) -> JointCalendar {
    JointCalendar::new(cs.iter().map(|&c| real(c)).collect()).unwrap()
}
pub fn date(d: Ymd) -> Date {
    Date::from_calendar_date(d.0, Month::try_from(d.1 as u8).unwrap(), d.2 as u8).unwrap()
}
/// The instant with local day `n`, second of day `s`, in an offset of `off` hours.
pub fn dt(n: i64, s: i64, off: i64) -> OffsetDateTime {
    let t = Time::from_hms((s / 3600) as u8, (s / 60 % 60) as u8, (s % 60) as u8).unwrap();
    OffsetDateTime::new_in_offset(date(ymd(n)), t, UtcOffset::from_hms(off as i8, 0, 0).unwrap())
}
/// (day number, second of day, offset hours) as written
pub fn undt(d: &OffsetDateTime) -> (i64, i64, i64) {
    (
        num(Ymd(d.year(), u8::from(d.month()) as u32, d.day() as u32)),
        d.hour() as i64 * 3600 + d.minute() as i64 * 60 + d.second() as i64,
        d.offset().whole_hours() as i64,
    )
}
pub fn close(a: f32, b: f64, rel: f64, abs: f64) -> bool {
    let d = (a as f64 - b).abs();
    d <= abs + rel * b.abs() && a.is_finite()
}

use quantlib::currency::Currency;
use quantlib::data::vector_data::VectorData;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::parameters::zero_curve::ZeroCurve;
use std::cell::RefCell;
use std::rc::Rc;
pub type Ed = Rc<RefCell<EvaluationDate>>;
pub type Cv = Rc<RefCell<ZeroCurve>>;
pub fn ed(n: i64, s: i64, off: i64) -> Ed {
    Rc::new(RefCell::new(EvaluationDate::new(dt(n, s, off))))
}
pub fn vdata(times: &[f64], rates: &[f64], code: &str) -> anyhow::Result<VectorData> {
    VectorData::new(
        rates.iter().map(|&x| x as f32).collect(),
        None,
        Some(times.iter().map(|&x| x as f32).collect()),
        None,
        Currency::NIL,
        code.to_string(),
        code.to_string(),
    )
}
pub fn curve(e: &Ed, times: &[f64], rates: &[f64], code: &str) -> Cv {
    Rc::new(RefCell::new(ZeroCurve::new(e.clone(), &vdata(times, rates, code).unwrap(), code.to_string(), code.to_string()).unwrap()))
}
