//! Symbolic stand-in for `chrono`: calendar days may be symbolic (a day number).
use chrono_real as real;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::*;
use symcore::Val;

pub use real::{format, Days, FixedOffset, IsoWeek, Month, Months, NaiveTime, ParseError, ParseResult, Timelike, Weekday};
pub use real::Datelike as RealDatelike;

/// Days `7000-01-01`, `7001-01-01`, ... stand for the symbolic dates 0, 1, ...
pub const BASE_YEAR: i32 = 7000;

#[derive(Clone)]
struct Day(Val);

/// `NaiveDate` has to be `Copy`, so symbolic day numbers live in a table of the run.
#[derive(Copy, Clone)]
pub enum NaiveDate {
    C(real::NaiveDate),
    S(usize),
}
fn intern(v: Val) -> usize {
    symcore::engine::with(|e| {
        e.interned.push(v);
        e.interned.len() - 1
    })
}
fn day(v: Val) -> NaiveDate {
    match &v {
        Val::C(c) => NaiveDate::C(from_days(c)),
        _ => NaiveDate::S(intern(v)),
    }
}
fn from_days(c: &num_rational::BigRational) -> real::NaiveDate {
    use num_traits::ToPrimitive;
    real::NaiveDate::from_num_days_from_ce_opt(c.to_integer().to_i32().expect("date out of range")).expect("date out of range")
}
impl NaiveDate {
    pub const MIN: NaiveDate = NaiveDate::C(real::NaiveDate::MIN);
    pub const MAX: NaiveDate = NaiveDate::C(real::NaiveDate::MAX);
    pub fn sym(&self) -> Val {
        match self {
            NaiveDate::C(d) => Val::int(real::Datelike::num_days_from_ce(d) as i64),
            NaiveDate::S(i) => symcore::engine::with(|e| e.interned[*i].clone()),
        }
    }
    fn lift(d: real::NaiveDate) -> NaiveDate {
        use real::Datelike as _;
        if d.month() == 1 && d.day() == 1 && d.year() >= BASE_YEAR && symcore::engine::active() {
            let i = (d.year() - BASE_YEAR) as usize;
            if let Some(v) = symcore::engine::with(|e| e.dates.get(i).cloned()) {
                return day(v);
            }
        }
        NaiveDate::C(d)
    }
    fn concrete(&self) -> real::NaiveDate {
        match self {
            NaiveDate::C(d) => *d,
            NaiveDate::S(_) => from_days(&self.sym().concretize()),
        }
    }
    pub fn from_ymd(y: i32, m: u32, d: u32) -> NaiveDate {
        NaiveDate::lift(real::NaiveDate::from_ymd_opt(y, m, d).expect("invalid or out-of-range date"))
    }
    pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> Option<NaiveDate> {
        real::NaiveDate::from_ymd_opt(y, m, d).map(NaiveDate::lift)
    }
    pub fn parse_from_str(s: &str, f: &str) -> ParseResult<NaiveDate> {
        real::NaiveDate::parse_from_str(s, f).map(NaiveDate::lift)
    }
    pub fn from_num_days_from_ce(n: i32) -> NaiveDate {
        NaiveDate::C(real::NaiveDate::from_num_days_from_ce_opt(n).unwrap())
    }
    pub fn from_num_days_from_ce_opt(n: i32) -> Option<NaiveDate> {
        real::NaiveDate::from_num_days_from_ce_opt(n).map(NaiveDate::C)
    }
    pub fn succ(&self) -> NaiveDate {
        day(self.sym().add(&Val::int(1)))
    }
    pub fn pred(&self) -> NaiveDate {
        day(self.sym().sub(&Val::int(1)))
    }
    pub fn succ_opt(&self) -> Option<NaiveDate> {
        Some(self.succ())
    }
    pub fn pred_opt(&self) -> Option<NaiveDate> {
        Some(self.pred())
    }
    pub fn signed_duration_since(self, o: NaiveDate) -> Duration {
        self - o
    }
    pub fn checked_add_signed(self, d: Duration) -> Option<NaiveDate> {
        Some(self + d)
    }
    pub fn checked_sub_signed(self, d: Duration) -> Option<NaiveDate> {
        Some(self - d)
    }
    pub fn and_hms(&self, h: u32, m: u32, s: u32) -> NaiveDateTime {
        NaiveDateTime { d: *self, t: NaiveTime::from_hms_opt(h, m, s).expect("invalid time") }
    }
    pub fn and_hms_opt(&self, h: u32, m: u32, s: u32) -> Option<NaiveDateTime> {
        NaiveTime::from_hms_opt(h, m, s).map(|t| NaiveDateTime { d: *self, t })
    }
    pub fn and_time(&self, t: NaiveTime) -> NaiveDateTime {
        NaiveDateTime { d: *self, t }
    }
    pub fn format<'a>(&self, f: &'a str) -> String {
        match self {
            NaiveDate::C(d) => d.format(f).to_string(),
            NaiveDate::S(_) => {
                if f == "%Y-%m-%d" || f == "%F" {
                    self.sym().token()
                } else {
                    self.concrete().format(f).to_string()
                }
            }
        }
    }
}
pub trait Datelike: Sized {
    #[doc(hidden)]
    fn real_date(&self) -> real::NaiveDate;
    #[doc(hidden)]
    fn with_date(&self, d: Option<real::NaiveDate>) -> Option<Self>;
    fn year(&self) -> i32 {
        real::Datelike::year(&self.real_date())
    }
    fn year_ce(&self) -> (bool, u32) {
        real::Datelike::year_ce(&self.real_date())
    }
    fn month(&self) -> u32 {
        real::Datelike::month(&self.real_date())
    }
    fn month0(&self) -> u32 {
        self.month() - 1
    }
    fn day(&self) -> u32 {
        real::Datelike::day(&self.real_date())
    }
    fn day0(&self) -> u32 {
        self.day() - 1
    }
    fn ordinal(&self) -> u32 {
        real::Datelike::ordinal(&self.real_date())
    }
    fn ordinal0(&self) -> u32 {
        self.ordinal() - 1
    }
    fn weekday(&self) -> Weekday {
        real::Datelike::weekday(&self.real_date())
    }
    fn iso_week(&self) -> IsoWeek {
        real::Datelike::iso_week(&self.real_date())
    }
    fn num_days_from_ce(&self) -> i32 {
        real::Datelike::num_days_from_ce(&self.real_date())
    }
    fn with_year(&self, x: i32) -> Option<Self> {
        self.with_date(real::Datelike::with_year(&self.real_date(), x))
    }
    fn with_month(&self, x: u32) -> Option<Self> {
        self.with_date(real::Datelike::with_month(&self.real_date(), x))
    }
    fn with_month0(&self, x: u32) -> Option<Self> {
        self.with_month(x + 1)
    }
    fn with_day(&self, x: u32) -> Option<Self> {
        self.with_date(real::Datelike::with_day(&self.real_date(), x))
    }
    fn with_day0(&self, x: u32) -> Option<Self> {
        self.with_day(x + 1)
    }
    fn with_ordinal(&self, x: u32) -> Option<Self> {
        self.with_date(real::Datelike::with_ordinal(&self.real_date(), x))
    }
    fn with_ordinal0(&self, x: u32) -> Option<Self> {
        self.with_ordinal(x + 1)
    }
}
impl Datelike for NaiveDate {
    fn real_date(&self) -> real::NaiveDate {
        self.concrete()
    }
    fn with_date(&self, d: Option<real::NaiveDate>) -> Option<NaiveDate> {
        d.map(NaiveDate::C)
    }
}
impl Datelike for NaiveDateTime {
    fn real_date(&self) -> real::NaiveDate {
        self.d.concrete()
    }
    fn with_date(&self, d: Option<real::NaiveDate>) -> Option<NaiveDateTime> {
        d.map(|d| NaiveDateTime { d: NaiveDate::C(d), t: self.t })
    }
}
impl<Tz: Copy> Datelike for DateTime<Tz> {
    fn real_date(&self) -> real::NaiveDate {
        self.n.d.concrete()
    }
    fn with_date(&self, d: Option<real::NaiveDate>) -> Option<DateTime<Tz>> {
        Some(DateTime { n: self.n.with_date(d)?, tz: self.tz })
    }
}
impl<Tz: Copy> Datelike for Date<Tz> {
    fn real_date(&self) -> real::NaiveDate {
        self.n.concrete()
    }
    fn with_date(&self, d: Option<real::NaiveDate>) -> Option<Date<Tz>> {
        Some(Date { n: self.n.with_date(d)?, tz: self.tz })
    }
}
impl Timelike for NaiveDateTime {
    fn hour(&self) -> u32 {
        self.t.hour()
    }
    fn minute(&self) -> u32 {
        self.t.minute()
    }
    fn second(&self) -> u32 {
        self.t.second()
    }
    fn nanosecond(&self) -> u32 {
        self.t.nanosecond()
    }
    fn with_hour(&self, x: u32) -> Option<NaiveDateTime> {
        self.t.with_hour(x).map(|t| NaiveDateTime { d: self.d, t })
    }
    fn with_minute(&self, x: u32) -> Option<NaiveDateTime> {
        self.t.with_minute(x).map(|t| NaiveDateTime { d: self.d, t })
    }
    fn with_second(&self, x: u32) -> Option<NaiveDateTime> {
        self.t.with_second(x).map(|t| NaiveDateTime { d: self.d, t })
    }
    fn with_nanosecond(&self, x: u32) -> Option<NaiveDateTime> {
        self.t.with_nanosecond(x).map(|t| NaiveDateTime { d: self.d, t })
    }
}
impl NaiveDate {
    pub fn from_yo(y: i32, o: u32) -> NaiveDate {
        NaiveDate::from_yo_opt(y, o).expect("invalid or out-of-range date")
    }
    pub fn from_yo_opt(y: i32, o: u32) -> Option<NaiveDate> {
        real::NaiveDate::from_yo_opt(y, o).map(NaiveDate::lift)
    }
    pub fn from_isoywd(y: i32, w: u32, d: Weekday) -> NaiveDate {
        NaiveDate::from_isoywd_opt(y, w, d).expect("invalid or out-of-range date")
    }
    pub fn from_isoywd_opt(y: i32, w: u32, d: Weekday) -> Option<NaiveDate> {
        real::NaiveDate::from_isoywd_opt(y, w, d).map(NaiveDate::C)
    }
    pub fn leap_year(&self) -> bool {
        self.concrete().leap_year()
    }
    pub fn years_since(&self, base: NaiveDate) -> Option<u32> {
        self.concrete().years_since(base.concrete())
    }
    pub fn checked_add_days(self, n: Days) -> Option<NaiveDate> {
        let zero = real::NaiveDate::from_ymd_opt(2000, 1, 1).unwrap();
        let d = zero.checked_add_days(n)? - zero;
        Some(self + Duration::C(d))
    }
    pub fn checked_sub_days(self, n: Days) -> Option<NaiveDate> {
        let zero = real::NaiveDate::from_ymd_opt(2000, 1, 1).unwrap();
        let d = zero.checked_add_days(n)? - zero;
        Some(self - Duration::C(d))
    }
    pub fn checked_add_months(self, n: Months) -> Option<NaiveDate> {
        self.concrete().checked_add_months(n).map(NaiveDate::C)
    }
    pub fn checked_sub_months(self, n: Months) -> Option<NaiveDate> {
        self.concrete().checked_sub_months(n).map(NaiveDate::C)
    }
    pub fn iter_days(&self) -> impl Iterator<Item = NaiveDate> {
        let mut d = *self;
        std::iter::from_fn(move || {
            let r = d;
            d = d.succ();
            Some(r)
        })
    }
    pub fn iter_weeks(&self) -> impl Iterator<Item = NaiveDate> {
        self.iter_days().step_by(7)
    }
}
impl Add<Days> for NaiveDate {
    type Output = NaiveDate;
    fn add(self, n: Days) -> NaiveDate {
        self.checked_add_days(n).unwrap()
    }
}
impl Sub<Days> for NaiveDate {
    type Output = NaiveDate;
    fn sub(self, n: Days) -> NaiveDate {
        self.checked_sub_days(n).unwrap()
    }
}
impl Add<Months> for NaiveDate {
    type Output = NaiveDate;
    fn add(self, n: Months) -> NaiveDate {
        self.checked_add_months(n).unwrap()
    }
}
impl Sub<Months> for NaiveDate {
    type Output = NaiveDate;
    fn sub(self, n: Months) -> NaiveDate {
        self.checked_sub_months(n).unwrap()
    }
}
impl SubAssign<Duration> for NaiveDate {
    fn sub_assign(&mut self, o: Duration) {
        *self = *self - o
    }
}
impl From<NaiveDateTime> for NaiveDate {
    fn from(x: NaiveDateTime) -> NaiveDate {
        x.d
    }
}
impl SubAssign for Duration {
    fn sub_assign(&mut self, o: Duration) {
        *self = *self - o
    }
}
impl<'a> std::iter::Sum<&'a Duration> for Duration {
    fn sum<I: Iterator<Item = &'a Duration>>(it: I) -> Duration {
        it.fold(Duration::zero(), |a, b| a + *b)
    }
}
impl Duration {
    pub const MIN: Duration = Duration::C(real::Duration::MIN);
    pub const MAX: Duration = Duration::C(real::Duration::MAX);
    pub fn milliseconds(n: i64) -> Duration {
        Duration::C(real::Duration::milliseconds(n))
    }
    pub fn microseconds(n: i64) -> Duration {
        Duration::C(real::Duration::microseconds(n))
    }
    pub fn nanoseconds(n: i64) -> Duration {
        Duration::C(real::Duration::nanoseconds(n))
    }
    pub fn try_days(n: i64) -> Option<Duration> {
        real::Duration::try_days(n).map(Duration::C)
    }
    pub fn try_weeks(n: i64) -> Option<Duration> {
        real::Duration::try_weeks(n).map(Duration::C)
    }
    pub fn try_hours(n: i64) -> Option<Duration> {
        real::Duration::try_hours(n).map(Duration::C)
    }
    pub fn num_hours(&self) -> i64 {
        self.num_seconds() / 3600
    }
    pub fn num_minutes(&self) -> i64 {
        self.num_seconds() / 60
    }
    pub fn num_milliseconds(&self) -> i64 {
        self.num_seconds() * 1000
    }
    pub fn checked_add(&self, o: &Duration) -> Option<Duration> {
        Some(*self + *o)
    }
    pub fn checked_sub(&self, o: &Duration) -> Option<Duration> {
        Some(*self - *o)
    }
}
impl NaiveDateTime {
    pub fn format(&self, f: &str) -> String {
        real::NaiveDateTime::new(self.d.concrete(), self.t).format(f).to_string()
    }
    pub fn signed_duration_since(self, o: NaiveDateTime) -> Duration {
        self - o
    }
    pub fn parse_from_str(s: &str, f: &str) -> ParseResult<NaiveDateTime> {
        real::NaiveDateTime::parse_from_str(s, f).map(NaiveDateTime::from_real)
    }
    pub fn checked_add_signed(self, o: Duration) -> Option<NaiveDateTime> {
        Some(self + o)
    }
    pub fn checked_sub_signed(self, o: Duration) -> Option<NaiveDateTime> {
        Some(self - o)
    }
}
impl Sub<NaiveDateTime> for NaiveDateTime {
    type Output = Duration;
    fn sub(self, o: NaiveDateTime) -> Duration {
        (self.d - o.d) + Duration::C(self.t - o.t)
    }
}
impl Add<Duration> for NaiveDateTime {
    type Output = NaiveDateTime;
    fn add(self, o: Duration) -> NaiveDateTime {
        match o {
            Duration::S(_) => NaiveDateTime { d: self.d + o, t: self.t },
            Duration::C(o) => {
                let (t, s) = self.t.overflowing_add_signed(o);
                NaiveDateTime { d: self.d + Duration::seconds(s), t }
            }
        }
    }
}
impl Sub<Duration> for NaiveDateTime {
    type Output = NaiveDateTime;
    fn sub(self, o: Duration) -> NaiveDateTime {
        self + -o
    }
}
impl From<NaiveDate> for NaiveDateTime {
    fn from(d: NaiveDate) -> NaiveDateTime {
        NaiveDateTime { d, t: NaiveTime::default() }
    }
}
impl fmt::Display for NaiveDate {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            NaiveDate::C(d) => fmt::Display::fmt(d, f),
            NaiveDate::S(_) => f.pad(&self.sym().token()),
        }
    }
}
impl fmt::Debug for NaiveDate {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl PartialEq for NaiveDate {
    fn eq(&self, o: &NaiveDate) -> bool {
        match (self, o) {
            (NaiveDate::C(a), NaiveDate::C(b)) => a == b,
            _ => self.sym().eq(&o.sym()),
        }
    }
}
impl Eq for NaiveDate {}
impl PartialOrd for NaiveDate {
    fn partial_cmp(&self, o: &NaiveDate) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn lt(&self, o: &NaiveDate) -> bool {
        self.sym().lt(&o.sym())
    }
    fn le(&self, o: &NaiveDate) -> bool {
        self.sym().le(&o.sym())
    }
    fn gt(&self, o: &NaiveDate) -> bool {
        o.sym().lt(&self.sym())
    }
    fn ge(&self, o: &NaiveDate) -> bool {
        o.sym().le(&self.sym())
    }
}
impl Ord for NaiveDate {
    fn cmp(&self, o: &NaiveDate) -> Ordering {
        match (self, o) {
            (NaiveDate::C(a), NaiveDate::C(b)) => a.cmp(b),
            _ => self.sym().cmp(&o.sym()),
        }
    }
}
impl Hash for NaiveDate {
    fn hash<H: Hasher>(&self, h: &mut H) {
        0u8.hash(h)
    }
}
impl Default for NaiveDate {
    fn default() -> NaiveDate {
        NaiveDate::C(Default::default())
    }
}
impl std::str::FromStr for NaiveDate {
    type Err = ParseError;
    fn from_str(s: &str) -> ParseResult<NaiveDate> {
        real::NaiveDate::from_str(s).map(NaiveDate::lift)
    }
}

/// A length of time in (possibly symbolic, possibly fractional) days.
#[derive(Copy, Clone)]
pub enum Duration {
    C(real::Duration),
    S(usize),
}
pub type TimeDelta = Duration;
const DAY: i64 = 86_400;
impl Duration {
    fn val(&self) -> Val {
        match self {
            Duration::C(d) => Val::rat(d.num_seconds(), DAY),
            Duration::S(i) => symcore::engine::with(|e| e.interned[*i].clone()),
        }
    }
    fn of(v: Val) -> Duration {
        use num_traits::ToPrimitive;
        match &v {
            Val::C(c) => {
                let s = (c * num_rational::BigRational::from(num_bigint::BigInt::from(DAY))).to_integer().to_i64().expect("Duration out of range");
                Duration::C(real::Duration::seconds(s))
            }
            _ => Duration::S(intern(v)),
        }
    }
    pub fn zero() -> Duration {
        Duration::C(real::Duration::zero())
    }
    pub fn days(n: i64) -> Duration {
        Duration::C(real::Duration::days(n))
    }
    pub fn weeks(n: i64) -> Duration {
        Duration::C(real::Duration::weeks(n))
    }
    pub fn hours(n: i64) -> Duration {
        Duration::C(real::Duration::hours(n))
    }
    pub fn minutes(n: i64) -> Duration {
        Duration::C(real::Duration::minutes(n))
    }
    pub fn seconds(n: i64) -> Duration {
        Duration::C(real::Duration::seconds(n))
    }
    pub fn max_value() -> Duration {
        Duration::C(real::Duration::MAX)
    }
    pub fn min_value() -> Duration {
        Duration::C(real::Duration::MIN)
    }
    pub fn is_zero(&self) -> bool {
        self.val().is_zero()
    }
    pub fn abs(&self) -> Duration {
        Duration::of(self.val().abs())
    }
    /// exact day counts only
    pub fn num_days(&self) -> i64 {
        use num_traits::ToPrimitive;
        self.val().trunc().concretize().to_integer().to_i64().unwrap()
    }
    pub fn num_seconds(&self) -> i64 {
        match self {
            Duration::C(d) => d.num_seconds(),
            _ => self.num_days() * DAY,
        }
    }
    pub fn num_weeks(&self) -> i64 {
        self.num_days() / 7
    }
}
impl PartialEq for Duration {
    fn eq(&self, o: &Duration) -> bool {
        self.val().eq(&o.val())
    }
}
impl Eq for Duration {}
impl PartialOrd for Duration {
    fn partial_cmp(&self, o: &Duration) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn lt(&self, o: &Duration) -> bool {
        self.val().lt(&o.val())
    }
    fn le(&self, o: &Duration) -> bool {
        self.val().le(&o.val())
    }
    fn gt(&self, o: &Duration) -> bool {
        o.val().lt(&self.val())
    }
    fn ge(&self, o: &Duration) -> bool {
        o.val().le(&self.val())
    }
}
impl Ord for Duration {
    fn cmp(&self, o: &Duration) -> Ordering {
        self.val().cmp(&o.val())
    }
}
impl Hash for Duration {
    fn hash<H: Hasher>(&self, h: &mut H) {
        0u8.hash(h)
    }
}
impl fmt::Debug for Duration {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} days", self.val().show())
    }
}
impl fmt::Display for Duration {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl Default for Duration {
    fn default() -> Duration {
        Duration::zero()
    }
}
impl Add for Duration {
    type Output = Duration;
    fn add(self, o: Duration) -> Duration {
        Duration::of(self.val().add(&o.val()))
    }
}
impl AddAssign for Duration {
    fn add_assign(&mut self, o: Duration) {
        *self = *self + o
    }
}
impl Sub for Duration {
    type Output = Duration;
    fn sub(self, o: Duration) -> Duration {
        Duration::of(self.val().sub(&o.val()))
    }
}
impl Neg for Duration {
    type Output = Duration;
    fn neg(self) -> Duration {
        Duration::of(self.val().neg())
    }
}
impl Mul<i32> for Duration {
    type Output = Duration;
    fn mul(self, o: i32) -> Duration {
        Duration::of(self.val().mul(&Val::int(o as i64)))
    }
}
impl Div<i32> for Duration {
    type Output = Duration;
    fn div(self, o: i32) -> Duration {
        Duration::of(self.val().div(&Val::int(o as i64)))
    }
}
impl std::iter::Sum for Duration {
    fn sum<I: Iterator<Item = Duration>>(it: I) -> Duration {
        it.fold(Duration::zero(), |a, b| a + b)
    }
}
impl Sub<NaiveDate> for NaiveDate {
    type Output = Duration;
    fn sub(self, o: NaiveDate) -> Duration {
        Duration::of(self.sym().sub(&o.sym()))
    }
}
impl Add<Duration> for NaiveDate {
    type Output = NaiveDate;
    fn add(self, o: Duration) -> NaiveDate {
        day(self.sym().add(&o.val().trunc()))
    }
}
impl Sub<Duration> for NaiveDate {
    type Output = NaiveDate;
    fn sub(self, o: Duration) -> NaiveDate {
        day(self.sym().sub(&o.val().trunc()))
    }
}
impl AddAssign<Duration> for NaiveDate {
    fn add_assign(&mut self, o: Duration) {
        *self = *self + o
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct NaiveDateTime {
    d: NaiveDate,
    t: NaiveTime,
}
impl NaiveDateTime {
    pub fn new(d: NaiveDate, t: NaiveTime) -> NaiveDateTime {
        NaiveDateTime { d, t }
    }
    pub fn from_real(r: real::NaiveDateTime) -> NaiveDateTime {
        NaiveDateTime { d: NaiveDate::lift(r.date()), t: r.time() }
    }
    pub fn date(&self) -> NaiveDate {
        self.d
    }
    pub fn time(&self) -> NaiveTime {
        self.t
    }
}
impl fmt::Display for NaiveDateTime {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} {}", self.d, self.t)
    }
}

/// The current instant is a constant of the run.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct DateTime<Tz> {
    n: NaiveDateTime,
    tz: std::marker::PhantomData<Tz>,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Date<Tz> {
    n: NaiveDate,
    tz: std::marker::PhantomData<Tz>,
}
impl<Tz> DateTime<Tz> {
    pub fn naive_local(&self) -> NaiveDateTime {
        self.n
    }
    pub fn naive_utc(&self) -> NaiveDateTime {
        self.n
    }
    pub fn date_naive(&self) -> NaiveDate {
        self.n.d
    }
    pub fn date(&self) -> Date<Tz> {
        Date { n: self.n.d, tz: self.tz }
    }
    pub fn time(&self) -> NaiveTime {
        self.n.t
    }
}
impl<Tz> Date<Tz> {
    pub fn naive_local(&self) -> NaiveDate {
        self.n
    }
    pub fn naive_utc(&self) -> NaiveDate {
        self.n
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Utc;
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Local;
macro_rules! zone {
    ($t:ident) => {
        impl $t {
            pub fn now() -> DateTime<$t> {
                DateTime { n: NaiveDateTime::from_real(real::$t::now().naive_local()), tz: std::marker::PhantomData }
            }
            pub fn today() -> Date<$t> {
                $t::now().date()
            }
        }
    };
}
zone!(Utc);
zone!(Local);
impl<Tz> DateTime<Tz> {
    pub fn format(&self, f: &str) -> String {
        self.n.format(f)
    }
    pub fn with_timezone<T>(&self, _: &T) -> DateTime<T> {
        DateTime { n: self.n, tz: std::marker::PhantomData }
    }
    pub fn timestamp(&self) -> i64 {
        real::NaiveDateTime::new(self.n.d.concrete(), self.n.t).and_utc().timestamp()
    }
}
impl<Tz> fmt::Display for DateTime<Tz> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.n)
    }
}
pub trait TimeZone {
    fn from_local_date(&self, d: &NaiveDate) -> NaiveDate {
        *d
    }
}
impl TimeZone for Utc {}
impl TimeZone for Local {}

pub mod naive {
    pub use crate::{Days, IsoWeek, NaiveDate, NaiveDateTime, NaiveTime};
    pub const MIN_DATE: NaiveDate = NaiveDate::MIN;
    pub const MAX_DATE: NaiveDate = NaiveDate::MAX;
}
pub use naive::{MAX_DATE, MIN_DATE};
pub mod offset {
    pub use crate::{Local, TimeZone, Utc};
}
pub mod prelude {
    pub use crate::{Months, Weekday, DateTime, Datelike, Local, NaiveDate, NaiveDateTime, NaiveTime, TimeZone, Timelike, Utc};
}
