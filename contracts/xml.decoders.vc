@prelude
use crate::ext::base64::prelude::{b64, b64_dec, axiom_b64, axiom_b64_alphabet};
use crate::ext::chrono::{dt_range, dur_ok, rfc3339, axiom_dt, axiom_dt_eq, since, whole_secs, lemma_since, axiom_rfc3339_dash};
use crate::ext::prelude::{le_i64, i64_bytes, lemma_le64};
/// r is the time n seconds after the start of year 1, if there is one
pub open spec fn date_at(n: int, r: Option<NaiveDateTime>) -> bool {
    match r { Some(d) => d.secs() == n && d.nanos() == 0, None => !dt_range(n) || !dur_ok(n) }
}
pub open spec fn date_bytes(d: NaiveDateTime) -> Seq<u8> { i64_bytes(d.secs() as i64) }
pub open spec fn epoch() -> NaiveDateTime { choose|d: NaiveDateTime| d.secs() == 0 && d.nanos() == 0 }
/// the text written for a time
pub open spec fn date_text(d: NaiveDateTime) -> Seq<char> { b64(i64_bytes(whole_secs(since(d, epoch())))) }
pub proof fn lemma_date_text(d: NaiveDateTime, e: NaiveDateTime)
    requires e.secs() == 0, e.nanos() == 0
    ensures d.nanos() == 0 ==> date_text(d) == b64(date_bytes(d)), e == epoch()
{
    broadcast use axiom_dt, axiom_dt_eq, lemma_since;
    assert(e.secs() == 0 && e.nanos() == 0);
    assert(epoch().secs() == 0 && epoch().nanos() == 0);
}
pub proof fn lemma_epoch()
    ensures epoch().secs() == 0, epoch().nanos() == 0
{ crate::ext::chrono::axiom_year_one(); }
/// every whole-second time is decoded from its encoding
pub proof fn lemma_date_reads_back(d: NaiveDateTime, r: Option<NaiveDateTime>)
    requires d.nanos() == 0, date_at(le_i64(date_bytes(d)) as int, r)
    ensures r == Some(d), b64_dec(b64(date_bytes(d))) == Some(date_bytes(d)), date_bytes(d).len() == 8
{
    broadcast use axiom_dt, axiom_dt_eq, axiom_b64;
    let x = d.secs() as i64;
    lemma_le64(x as u64);
    assert((x as u64) as i64 == x) by (bit_vector);
}
pub proof fn lemma_uuid_reads_back(u: Uuid)
    ensures b64_dec(b64(u@)) == Some(u@)
{
    broadcast use axiom_b64;
}
@fn keepass_epoch
@spec
    ensures r.secs() == 0, r.nanos() == 0
@fn decode_uuid
@spec
    ensures match r { Some(u) => b64_dec(b64uuid@) == Some(u@), None => b64_dec(b64uuid@) is None || (b64_dec(b64uuid@)->0).len() != 16 }
@fn decode_datetime_b64
@spec
    ensures match b64_dec(b64date@) { Some(v) => v.len() == 8 ==> date_at(le_i64(v) as int, r), None => r is None }
@fn decode_datetime
@call .contains => contains_e
@spec
    ensures match b64_dec(strdate@) { Some(v) => v.len() == 8 ==> date_at(le_i64(v) as int, r), None => r == rfc3339(strdate@) }
@start
    broadcast use axiom_b64_alphabet, axiom_rfc3339_dash;
@fn encode_uuid
@spec
    ensures r@ == b64(uuid@)
@fn encode_datetime
@spec
    ensures r@ == date_text(date), date.nanos() == 0 ==> r@ == b64(date_bytes(date))
@start
    proof {
        assert forall|e: NaiveDateTime| e.secs() == 0 && #[trigger] e.nanos() == 0 implies e == epoch() by { lemma_date_text(date, e); }
    }
