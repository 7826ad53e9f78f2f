use vstd::prelude::*;
verus! {
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct NaiveDateTime { p: () }
impl NaiveDateTime {
    /// seconds since 0001-01-01T00:00:00
    pub uninterp spec fn secs(&self) -> int;
    /// nanoseconds in the second
    pub uninterp spec fn nanos(&self) -> int;
}
/// whether chrono has a date that many seconds from the start of year 1
pub uninterp spec fn dt_range(s: int) -> bool;
pub broadcast axiom fn axiom_dt(d: NaiveDateTime) ensures #![trigger d.secs()] dt_range(d.secs()), dur_ok(d.secs()), 0 <= d.nanos() < 2_000_000_000;
pub broadcast axiom fn axiom_dt_eq(a: NaiveDateTime, b: NaiveDateTime)
    ensures #[trigger] a.secs() == #[trigger] b.secs() && a.nanos() == b.nanos() ==> a == b;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Duration { pub secs: i64, pub nanos: u32 }
pub struct NaiveDate { pub epoch: bool }
pub struct Local { }
#[derive(Debug)]
pub struct ParseError { p: u64 }
pub struct DateTime { d: NaiveDateTime }
pub struct DateTimeLocal { d: NaiveDateTime }
pub trait Timelike {}
/// time between two times
pub open spec fn since(a: NaiveDateTime, b: NaiveDateTime) -> Duration {
    if a.nanos() >= 1_000_000_000 || b.nanos() >= 1_000_000_000 { since_leap(a, b) }
    else if a.nanos() >= b.nanos() { Duration { secs: (a.secs() - b.secs()) as i64, nanos: (a.nanos() - b.nanos()) as u32 } }
    else { Duration { secs: (a.secs() - b.secs() - 1) as i64, nanos: (a.nanos() - b.nanos() + 1_000_000_000) as u32 } }
}
/// with a leap second on either side
pub uninterp spec fn since_leap(a: NaiveDateTime, b: NaiveDateTime) -> Duration;
/// rounded towards zero
pub open spec fn whole_secs(d: Duration) -> i64 { if d.secs < 0 && d.nanos > 0 { (d.secs + 1) as i64 } else { d.secs } }
pub broadcast proof fn lemma_since(a: NaiveDateTime, b: NaiveDateTime)
    ensures b.nanos() == 0 && (a.nanos() == 0 || (a.secs() >= b.secs() && a.nanos() < 1_000_000_000)) ==> whole_secs(#[trigger] since(a, b)) == a.secs() - b.secs()
{ broadcast use axiom_dt; }
/// year 1 is in range
pub axiom fn axiom_year_one() ensures exists|d: NaiveDateTime| d.secs() == 0 && #[trigger] d.nanos() == 0;
/// the whole second of a time
pub open spec fn floored(d: NaiveDateTime) -> NaiveDateTime { choose|x: NaiveDateTime| x.secs() == d.secs() && #[trigger] x.nanos() == 0 }
pub axiom fn axiom_floored(d: NaiveDateTime) ensures floored(d).secs() == d.secs(), floored(d).nanos() == 0;
/// days covered by chrono's Duration (milliseconds in i64)
pub open spec fn dur_ok(s: int) -> bool { -9223372036854775 <= s <= 9223372036854775 }
impl NaiveDate {
    #[verifier::external_body]
    pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<NaiveDate>)
        ensures y == 1 && m == 1 && d == 1 ==> r is Some && r->0.epoch { unimplemented!() }
    #[verifier::external_body]
    pub fn and_hms_opt(&self, h: u32, m: u32, s: u32) -> (r: Option<NaiveDateTime>)
        ensures h < 24 && m < 60 && s < 60 ==> r is Some,
            self.epoch && h < 24 && m < 60 && s < 60 ==> r->0.secs() == h * 3600 + m * 60 + s && r->0.nanos() == 0 { unimplemented!() }
}
impl Duration {
    pub fn try_seconds(s: i64) -> (r: Option<Duration>)
        ensures match r { Some(d) => dur_ok(s as int) && d.secs == s && d.nanos == 0, None => !dur_ok(s as int) }
    { if -9223372036854775 <= s && s <= 9223372036854775 { Some(Duration { secs: s, nanos: 0 }) } else { None } }
    /// panics outside the range
    pub fn seconds(s: i64) -> (r: Duration) requires dur_ok(s as int) ensures r.secs == s, r.nanos == 0 { Duration { secs: s, nanos: 0 } }
    /// rounds towards zero
    pub fn num_seconds(&self) -> (r: i64)
        ensures r == whole_secs(*self), self.nanos == 0 ==> r == self.secs
    { if self.secs < 0 && self.nanos > 0 { self.secs + 1 } else { self.secs } }
}
impl NaiveDateTime {
    #[verifier::external_body]
    pub fn checked_add_signed(self, d: Duration) -> (r: Option<NaiveDateTime>)
        ensures self.nanos() == 0 && d.nanos == 0 ==> match r {
            Some(x) => x.secs() == self.secs() + d.secs && x.nanos() == 0,
            None => !dt_range(self.secs() + d.secs) } { unimplemented!() }
    #[verifier::external_body]
    pub fn signed_duration_since(self, o: NaiveDateTime) -> (r: Duration)
        ensures r == since(self, o) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_nanosecond(&self, n: u32) -> (r: Option<NaiveDateTime>)
        ensures n < 1_000_000_000 ==> r is Some && r->0.secs() == self.secs() && r->0.nanos() == n { unimplemented!() }
}
pub uninterp spec fn rfc3339(s: Seq<char>) -> Option<NaiveDateTime>;
pub broadcast axiom fn axiom_rfc3339_dash(s: Seq<char>) ensures (#[trigger] rfc3339(s)) is Some ==> s.contains('-');
impl DateTime {
    pub closed spec fn utc(&self) -> NaiveDateTime { self.d }
    #[verifier::external_body]
    pub fn parse_from_rfc3339(s: &str) -> (r: Result<DateTime, ParseError>)
        ensures match r { Ok(d) => rfc3339(s@) == Some(d.utc()), Err(_) => rfc3339(s@) is None } { unimplemented!() }
    pub fn naive_utc(&self) -> (r: NaiveDateTime) ensures r == self.utc() { self.d }
}
impl Local {
    #[verifier::external_body]
    pub fn now() -> (r: DateTimeLocal) { unimplemented!() }
}
impl DateTimeLocal {
    pub fn naive_local(&self) -> (r: NaiveDateTime) { self.d }
}
}
