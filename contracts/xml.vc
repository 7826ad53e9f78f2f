@prelude
use crate::ext::cipher::xored;
use crate::ext::base64::prelude::{b64, b64_dec, axiom_b64, axiom_b64_text};
use crate::ext::string::{utf8, is_utf8, graphic, trimmed, lowered, dec_text, u32_of_text, axiom_trimmed, axiom_lowered, lemma_dec_text, lemma_dec_digits, lemma_utf8_valid, lemma_utf8_inj, lemma_utf8_len};
use crate::ext::chrono::{NaiveDateTime, floored, axiom_floored, axiom_dt, axiom_dt_eq, since, whole_secs, lemma_since};
use crate::ext::prelude::{le_i64, i64_bytes, lemma_le64};
use crate::ext::xml::common_ev::{Ev, xml_text};
use crate::ext::xml::reader::events;
use crate::ext::xml::writer::{emitted, valid, gap, lead, heard, blank, axiom_read_back};
use crate::xml::decoders::*;
use crate::xml::parse::*;
use crate::xml::serialize::*;
use crate::database::{Database, Entry, Field, Group, Meta, MemoryProtection, Times, Value};
/// times that are kept to the second: not in a leap second, and not within a second before some second before year 1
pub open spec fn timely(d: NaiveDateTime) -> bool { d.nanos() == 0 || (d.nanos() < 1_000_000_000 && d.secs() >= 0) }
pub open spec fn times_timely(t: Times) -> bool {
    timely(t.last_modification_time) && timely(t.creation_time) && timely(t.last_access_time) && timely(t.expiry_time) && timely(t.location_changed)
}
pub open spec fn entry_timely(e: Entry) -> bool decreases e { times_timely(e.times) && entries_timely(e.history.entries@) }
#[verifier::opaque]
pub open spec fn entries_timely(es: Seq<Entry>) -> bool decreases es { es.len() == 0 || (entries_timely(es.drop_last()) && entry_timely(es.last())) }
pub open spec fn group_timely(g: Group) -> bool decreases g { times_timely(g.times) && entries_timely(g.entries@) && groups_timely(g.groups@) }
#[verifier::opaque]
pub open spec fn groups_timely(gs: Seq<Group>) -> bool decreases gs { gs.len() == 0 || (groups_timely(gs.drop_last()) && group_timely(gs.last())) }
/// what is read back for each part of a database: the same, with empty texts as empty values and times to the second
pub open spec fn val_back(v: Value) -> ValV {
    match v {
        Value::Standard(s) => if s@.len() == 0 { ValV::Empty } else { ValV::Standard(s@) },
        Value::Protected(s) => if s@.len() == 0 { ValV::ProtectEmpty } else { ValV::Protected(s@) },
        Value::Empty => ValV::Empty,
        Value::ProtectEmpty => ValV::ProtectEmpty,
    }
}
pub open spec fn field_back(f: Field) -> FieldV { FieldV { key: f.key@, value: val_back(f.value) } }
pub open spec fn fields_back(fs: Seq<Field>) -> Seq<FieldV> { Seq::new(fs.len(), |i: int| field_back(fs[i])) }
pub open spec fn times_back(t: Times) -> TimesV {
    TimesV { modified: Some(floored(t.last_modification_time)), created: Some(floored(t.creation_time)), accessed: Some(floored(t.last_access_time)), expiry: Some(floored(t.expiry_time)),
        moved: Some(floored(t.location_changed)), expires: Some(t.expires), usage: Some(t.usage_count) }
}
pub open spec fn entry_back(e: Entry) -> EntryV decreases e {
    EntryV { uuid: Some(e.uuid@), times: times_back(e.times), fields: fields_back(e.fields@), history: entries_back(e.history.entries@) }
}
#[verifier::opaque]
pub open spec fn entries_back(es: Seq<Entry>) -> Seq<EntryV> decreases es {
    if es.len() == 0 { Seq::empty() } else { entries_back(es.drop_last()).push(entry_back(es.last())) }
}
pub open spec fn group_back(g: Group) -> GroupV decreases g {
    GroupV { uuid: Some(g.uuid@), name: Some(g.name@), times: times_back(g.times), entries: entries_back(g.entries@), groups: groups_back(g.groups@) }
}
#[verifier::opaque]
pub open spec fn groups_back(gs: Seq<Group>) -> Seq<GroupV> decreases gs {
    if gs.len() == 0 { Seq::empty() } else { groups_back(gs.drop_last()).push(group_back(gs.last())) }
}
pub open spec fn guard_back(m: MemoryProtection) -> GuardV {
    GuardV { title: Some(m.protect_title), user_name: Some(m.protect_user_name), password: Some(m.protect_password), url: Some(m.protect_url), notes: Some(m.protect_notes) }
}
pub open spec fn meta_back(m: Meta) -> MetaV {
    MetaV { generator: Some("kdbx-rs"@), name: Some(m.database_name@), description: Some(m.database_description@), custom: Some(fields_back(m.custom_data@)), protection: Some(guard_back(m.memory_protection)) }
}
pub open spec fn db_back(db: Database) -> DbV { DbV { meta: Some(meta_back(db.meta)), groups: Some(groups_back(db.groups@)) } }
proof fn lemma_times_names()
    ensures "LastModificationTime"@ != "LastAccessTime"@, "LastModificationTime"@ != "CreationTime"@, "LastModificationTime"@ != "ExpiryTime"@, "LastModificationTime"@ != "LocationChanged"@, "LastModificationTime"@ != "Expires"@, "LastModificationTime"@ != "UsageCount"@, "LastAccessTime"@ != "CreationTime"@, "LastAccessTime"@ != "ExpiryTime"@, "LastAccessTime"@ != "LocationChanged"@, "LastAccessTime"@ != "Expires"@, "LastAccessTime"@ != "UsageCount"@, "CreationTime"@ != "ExpiryTime"@, "CreationTime"@ != "LocationChanged"@, "CreationTime"@ != "Expires"@, "CreationTime"@ != "UsageCount"@, "ExpiryTime"@ != "LocationChanged"@, "ExpiryTime"@ != "Expires"@, "ExpiryTime"@ != "UsageCount"@, "LocationChanged"@ != "Expires"@, "LocationChanged"@ != "UsageCount"@, "Expires"@ != "UsageCount"@
{
    reveal_strlit("LastModificationTime"); assert("LastModificationTime"@.len() == 20); reveal_strlit("LastAccessTime"); assert("LastAccessTime"@.len() == 14); reveal_strlit("CreationTime"); assert("CreationTime"@.len() == 12); reveal_strlit("ExpiryTime"); assert("ExpiryTime"@.len() == 10); reveal_strlit("LocationChanged"); assert("LocationChanged"@.len() == 15); reveal_strlit("Expires"); assert("Expires"@.len() == 7); reveal_strlit("UsageCount"); assert("UsageCount"@.len() == 10);
    assert("ExpiryTime"@[0] != "UsageCount"@[0]);
}
proof fn lemma_entry_names()
    ensures "History"@ != "String"@, "History"@ != "UUID"@, "History"@ != "Times"@, "History"@ != "Key"@, "History"@ != "Value"@, "String"@ != "UUID"@, "String"@ != "Times"@, "String"@ != "Key"@, "String"@ != "Value"@, "UUID"@ != "Times"@, "UUID"@ != "Key"@, "UUID"@ != "Value"@, "Times"@ != "Key"@, "Times"@ != "Value"@, "Key"@ != "Value"@
{
    reveal_strlit("History"); assert("History"@.len() == 7); reveal_strlit("String"); assert("String"@.len() == 6); reveal_strlit("UUID"); assert("UUID"@.len() == 4); reveal_strlit("Times"); assert("Times"@.len() == 5); reveal_strlit("Key"); assert("Key"@.len() == 3); reveal_strlit("Value"); assert("Value"@.len() == 5);
    assert("Times"@[0] != "Value"@[0]);
}
proof fn lemma_group_names()
    ensures "Group"@ != "Entry"@, "Group"@ != "UUID"@, "Group"@ != "Name"@, "Group"@ != "Times"@, "Entry"@ != "UUID"@, "Entry"@ != "Name"@, "Entry"@ != "Times"@, "UUID"@ != "Name"@, "UUID"@ != "Times"@, "Name"@ != "Times"@
{
    reveal_strlit("Group"); assert("Group"@.len() == 5); reveal_strlit("Entry"); assert("Entry"@.len() == 5); reveal_strlit("UUID"); assert("UUID"@.len() == 4); reveal_strlit("Name"); assert("Name"@.len() == 4); reveal_strlit("Times"); assert("Times"@.len() == 5);
    assert("Group"@[0] != "Entry"@[0]);
    assert("Group"@[0] != "Times"@[0]);
    assert("Entry"@[0] != "Times"@[0]);
    assert("UUID"@[0] != "Name"@[0]);
}
proof fn lemma_guard_names()
    ensures "ProtectTitle"@ != "ProtectUserName"@, "ProtectTitle"@ != "ProtectPassword"@, "ProtectTitle"@ != "ProtectURL"@, "ProtectTitle"@ != "ProtectNotes"@, "ProtectUserName"@ != "ProtectPassword"@, "ProtectUserName"@ != "ProtectURL"@, "ProtectUserName"@ != "ProtectNotes"@, "ProtectPassword"@ != "ProtectURL"@, "ProtectPassword"@ != "ProtectNotes"@, "ProtectURL"@ != "ProtectNotes"@
{
    reveal_strlit("ProtectTitle"); assert("ProtectTitle"@.len() == 12); reveal_strlit("ProtectUserName"); assert("ProtectUserName"@.len() == 15); reveal_strlit("ProtectPassword"); assert("ProtectPassword"@.len() == 15); reveal_strlit("ProtectURL"); assert("ProtectURL"@.len() == 10); reveal_strlit("ProtectNotes"); assert("ProtectNotes"@.len() == 12);
    assert("ProtectTitle"@[7] != "ProtectNotes"@[7]);
    assert("ProtectUserName"@[7] != "ProtectPassword"@[7]);
}
proof fn lemma_meta_names()
    ensures "Generator"@ != "DatabaseName"@, "Generator"@ != "DatabaseDescription"@, "Generator"@ != "CustomData"@, "Generator"@ != "MemoryProtection"@, "DatabaseName"@ != "DatabaseDescription"@, "DatabaseName"@ != "CustomData"@, "DatabaseName"@ != "MemoryProtection"@, "DatabaseDescription"@ != "CustomData"@, "DatabaseDescription"@ != "MemoryProtection"@, "CustomData"@ != "MemoryProtection"@
{
    reveal_strlit("Generator"); assert("Generator"@.len() == 9); reveal_strlit("DatabaseName"); assert("DatabaseName"@.len() == 12); reveal_strlit("DatabaseDescription"); assert("DatabaseDescription"@.len() == 19); reveal_strlit("CustomData"); assert("CustomData"@.len() == 10); reveal_strlit("MemoryProtection"); assert("MemoryProtection"@.len() == 16);
}
proof fn lemma_file_names()
    ensures "Root"@ != "Meta"@, "Root"@ != "KeePassFile"@, "Meta"@ != "KeePassFile"@
{
    reveal_strlit("Root"); assert("Root"@.len() == 4); reveal_strlit("Meta"); assert("Meta"@.len() == 4); reveal_strlit("KeePassFile"); assert("KeePassFile"@.len() == 11);
    assert("Root"@[0] != "Meta"@[0]);
}
/// the last event of those written
pub open spec fn last_of(prev: Ev, w: Seq<Ev>) -> Ev { if w.len() == 0 { prev } else { w.last() } }
proof fn lemma_heard_cat(prev: Ev, a: Seq<Ev>, b: Seq<Ev>, evs: Seq<Ev>)
    ensures heard(prev, a + b, evs) == match heard(prev, a, evs) { Some(m) => heard(last_of(prev, a), b, m), None => None }
    decreases a.len()
{
    reveal(heard);
    if a.len() == 0 { assert(a + b =~= b); } else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert((a + b)[0] == a[0]);
        assert(last_of(a[0], a.skip(1)) == last_of(prev, a));
        let e = if gap(prev, a[0]) { lead(evs) } else { evs };
        if a[0] is Text && a[0]->Text_0.len() == 0 { lemma_heard_cat(a[0], a.skip(1), b, evs); } else if e.len() > 0 { lemma_heard_cat(a[0], a.skip(1), b, e.skip(1)); }
    }
}
proof fn lemma_heard_len(prev: Ev, w: Seq<Ev>, evs: Seq<Ev>)
    ensures heard(prev, w, evs) is Some ==> (heard(prev, w, evs)->0).len() <= evs.len()
    decreases w.len()
{
    reveal(heard);
    if w.len() > 0 {
        let e = if gap(prev, w[0]) { lead(evs) } else { evs };
        if w[0] is Text && w[0]->Text_0.len() == 0 { lemma_heard_len(w[0], w.skip(1), evs); } else if e.len() > 0 { lemma_heard_len(w[0], w.skip(1), e.skip(1)); }
    }
}
/// hearing a and then b
proof fn lemma_both(prev: Ev, a: Seq<Ev>, b: Seq<Ev>, evs: Seq<Ev>) -> (m: Seq<Ev>)
    requires heard(prev, a + b, evs) is Some
    ensures heard(prev, a, evs) == Some(m), heard(last_of(prev, a), b, m) == heard(prev, a + b, evs), m.len() <= evs.len()
{
    lemma_heard_cat(prev, a, b, evs);
    lemma_heard_len(prev, a, evs);
    heard(prev, a, evs)->0
}
/// one tag
proof fn lemma_one(prev: Ev, x: Ev, evs: Seq<Ev>)
    requires heard(prev, seq![x], evs) is Some, x is Start || x is End
    ensures lead(evs).len() > 0, lead(evs)[0] == x, heard(prev, seq![x], evs) == Some(lead(evs).skip(1))
{
    reveal_with_fuel(heard, 2);
    let w = seq![x];
    assert(w.skip(1).len() == 0);
}
/// an element with a text in it
proof fn lemma_tag(prev: Ev, n: Seq<char>, at: Seq<(Seq<char>, Seq<char>)>, t: Seq<char>, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, seq![Ev::Start(n, at), Ev::Text(t), Ev::End(n)], evs) is Some
    ensures heard(prev, seq![Ev::Start(n, at), Ev::Text(t), Ev::End(n)], evs) == Some(r), lead(evs).len() > 0, lead(evs)[0] == Ev::Start(n, at), r.len() < lead(evs).len(),
        p_text(None, lead(evs).skip(1)) == Some((if t.len() > 0 { Some(t) } else { None }, r))
{
    let w = seq![Ev::Start(n, at), Ev::Text(t), Ev::End(n)];
    reveal_with_fuel(heard, 4);
    reveal_with_fuel(p_text, 3);
    assert(w.skip(1) =~= seq![Ev::Text(t), Ev::End(n)]);
    assert(w.skip(1).skip(1) =~= seq![Ev::End(n)]);
    assert(w.skip(1).skip(1).skip(1).len() == 0);
    heard(prev, w, evs)->0
}
/// an element with nothing in it
proof fn lemma_bare(prev: Ev, n: Seq<char>, at: Seq<(Seq<char>, Seq<char>)>, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, seq![Ev::Start(n, at), Ev::End(n)], evs) is Some
    ensures heard(prev, seq![Ev::Start(n, at), Ev::End(n)], evs) == Some(r), lead(evs).len() > 0, lead(evs)[0] == Ev::Start(n, at), r.len() < lead(evs).len(),
        p_text(None, lead(evs).skip(1)) == Some((None::<Seq<char>>, r))
{
    let w = seq![Ev::Start(n, at), Ev::End(n)];
    reveal_with_fuel(heard, 3);
    reveal_with_fuel(p_text, 2);
    assert(w.skip(1) =~= seq![Ev::End(n)]);
    assert(w.skip(1).skip(1).len() == 0);
    heard(prev, w, evs)->0
}
proof fn lemma_bools()
    ensures lowered(trimmed("True"@)) == "true"@, lowered(trimmed("False"@)) != "true"@, lowered("True"@) == "true"@, "True"@.len() > 0, "False"@.len() > 0
{
    reveal_strlit("True");
    reveal_strlit("False");
    reveal_strlit("true");
    reveal_strlit("false");
    broadcast use axiom_trimmed;
    axiom_lowered();
    assert(graphic("True"@));
    assert(graphic("False"@));
}
/// elements with a truth value, a number, a UUID and a time
proof fn lemma_bool_tag(prev: Ev, n: Seq<char>, b: bool, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, tag(n, bool_text(b)), evs) is Some
    ensures heard(prev, tag(n, bool_text(b)), evs) == Some(r), lead(evs).len() > 0, lead(evs)[0] == Ev::Start(n, nothing()), r.len() < lead(evs).len(), p_bool(lead(evs).skip(1)) == Some((b, r))
{ lemma_bools(); lemma_tag(prev, n, nothing(), bool_text(b), evs) }
proof fn lemma_u32_tag(prev: Ev, n: Seq<char>, x: u32, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, tag(n, dec_text(x as int)), evs) is Some
    ensures heard(prev, tag(n, dec_text(x as int)), evs) == Some(r), lead(evs).len() > 0, lead(evs)[0] == Ev::Start(n, nothing()), r.len() < lead(evs).len(), p_u32(lead(evs).skip(1)) == Some((x, r))
{
    broadcast use axiom_trimmed, lemma_dec_text, lemma_dec_digits;
    assert(graphic(dec_text(x as int)));
    lemma_tag(prev, n, nothing(), dec_text(x as int), evs)
}
proof fn lemma_uuid_tag(prev: Ev, n: Seq<char>, u: Seq<u8>, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, tag(n, b64(u)), evs) is Some, u.len() == 16
    ensures heard(prev, tag(n, b64(u)), evs) == Some(r), lead(evs).len() > 0, lead(evs)[0] == Ev::Start(n, nothing()), r.len() < lead(evs).len(), p_uuid(lead(evs).skip(1)) == Some((u, r))
{
    broadcast use axiom_trimmed, axiom_b64, axiom_b64_text;
    lemma_tag(prev, n, nothing(), b64(u), evs)
}
pub proof fn lemma_date_back(d: NaiveDateTime)
    requires timely(d)
    ensures date_of(trimmed(date_text(d))) == Some(floored(d)), date_text(d).len() > 0, d.nanos() == 0 ==> floored(d) == d
{
    broadcast use axiom_dt, axiom_dt_eq, axiom_b64, axiom_b64_text, axiom_trimmed, lemma_since;
    axiom_floored(d);
    crate::xml::decoders::lemma_epoch();
    let x = d.secs() as i64;
    assert(whole_secs(since(d, epoch())) == x);
    lemma_le64(x as u64);
    assert((x as u64) as i64 == x) by (bit_vector);
    let v = i64_bytes(x);
    assert(b64_dec(date_text(d)) == Some(v));
    assert(le_i64(v) == x);
    assert(date_at(le_i64(v) as int, Some(floored(d))));
    assert(v.len() == 8);
    assert(trimmed(date_text(d)) == date_text(d));
    let y = choose|y: NaiveDateTime| date_at(le_i64(v) as int, Some(y));
    assert(y.secs() == floored(d).secs() && y.nanos() == floored(d).nanos());
    assert(y == floored(d));
}
proof fn lemma_date_tag(prev: Ev, n: Seq<char>, d: NaiveDateTime, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, tag(n, date_text(d)), evs) is Some, timely(d)
    ensures heard(prev, tag(n, date_text(d)), evs) == Some(r), lead(evs).len() > 0, lead(evs)[0] == Ev::Start(n, nothing()), r.len() < lead(evs).len(), p_date(lead(evs).skip(1)) == Some((floored(d), r))
{
    lemma_date_back(d);
    lemma_tag(prev, n, nothing(), date_text(d), evs)
}
/// white space between elements is passed over
proof fn lemma_over(evs: Seq<Ev>, id: Seq<u8>, pos: nat)
    ensures
        forall|w: Seq<char>, v: FieldV| #[trigger] p_field(w, v, evs, id, pos) == p_field(w, v, lead(evs), id, pos),
        forall|v: TimesV| #[trigger] p_times(v, evs) == p_times(v, lead(evs)),
        forall|v: GuardV| #[trigger] p_memory_protection(v, evs) == p_memory_protection(v, lead(evs)),
        forall|v: Seq<FieldV>| #[trigger] p_custom_data(v, evs, id, pos) == p_custom_data(v, lead(evs), id, pos),
        forall|v: MetaV| #[trigger] p_meta(v, evs, id, pos) == p_meta(v, lead(evs), id, pos),
        forall|v: DbV| #[trigger] p_file(v, evs, id, pos) == p_file(v, lead(evs), id, pos),
        forall|v: Seq<GroupV>| #[trigger] p_root(v, evs, id, pos) == p_root(v, lead(evs), id, pos),
{
    reveal(p_field); reveal(p_times); reveal(p_memory_protection); reveal(p_custom_data); reveal(p_meta); reveal(p_file); reveal(p_root);
}
proof fn lemma_over_entry(v: EntryV, evs: Seq<Ev>, id: Seq<u8>, pos: nat)
    ensures p_entry(v, evs, id, pos) == p_entry(v, lead(evs), id, pos)
{ reveal(p_entry); reveal(p_history); if evs.len() > 0 && evs[0] is Text { assert(s_entry(v, evs, id, pos) == Some((v, evs.skip(1), pos, false))); } }
proof fn lemma_over_history(v: Seq<EntryV>, evs: Seq<Ev>, id: Seq<u8>, pos: nat)
    ensures p_history(v, evs, id, pos) == p_history(v, lead(evs), id, pos)
{ reveal(p_entry); reveal(p_history); if evs.len() > 0 && evs[0] is Text { assert(s_history(v, evs, id, pos) == Some((v, evs.skip(1), pos, false))); } }
proof fn lemma_over_group(v: GroupV, evs: Seq<Ev>, id: Seq<u8>, pos: nat)
    ensures p_group(v, evs, id, pos) == p_group(v, lead(evs), id, pos)
{ reveal(p_group); if evs.len() > 0 && evs[0] is Text { assert(s_group(v, evs, id, pos) == Some((v, evs.skip(1), pos, false))); } }
/// one element more
proof fn lemma_next_times(v: TimesV, evs: Seq<Ev>)
    ensures ({ let s = s_times(v, lead(evs)); s is Some ==> p_times(v, evs) == (if (s->0).2 { Some(((s->0).0, (s->0).1)) } else if (s->0).1.len() < lead(evs).len() { p_times((s->0).0, (s->0).1) } else { None }) })
{ lemma_over(evs, Seq::empty(), 0); reveal(p_times); }
proof fn lemma_next_guard(v: GuardV, evs: Seq<Ev>)
    ensures ({ let s = s_memory_protection(v, lead(evs)); s is Some ==> p_memory_protection(v, evs) == (if (s->0).2 { Some(((s->0).0, (s->0).1)) } else if (s->0).1.len() < lead(evs).len() { p_memory_protection((s->0).0, (s->0).1) } else { None }) })
{ lemma_over(evs, Seq::empty(), 0); reveal(p_memory_protection); }
proof fn lemma_next_entry(v: EntryV, evs: Seq<Ev>, id: Seq<u8>, pos: nat)
    ensures ({ let s = s_entry(v, lead(evs), id, pos); s is Some ==> p_entry(v, evs, id, pos) == (if (s->0).3 { Some(((s->0).0, (s->0).1, (s->0).2)) } else if (s->0).1.len() < lead(evs).len() { p_entry((s->0).0, (s->0).1, id, (s->0).2) } else { None }) })
{ lemma_over_entry(v, evs, id, pos); reveal(p_entry); reveal(p_history); }
proof fn lemma_next_history(v: Seq<EntryV>, evs: Seq<Ev>, id: Seq<u8>, pos: nat)
    ensures ({ let s = s_history(v, lead(evs), id, pos); s is Some ==> p_history(v, evs, id, pos) == (if (s->0).3 { Some(((s->0).0, (s->0).1, (s->0).2)) } else if (s->0).1.len() < lead(evs).len() { p_history((s->0).0, (s->0).1, id, (s->0).2) } else { None }) })
{ lemma_over_history(v, evs, id, pos); reveal(p_entry); reveal(p_history); }
proof fn lemma_next_group(v: GroupV, evs: Seq<Ev>, id: Seq<u8>, pos: nat)
    ensures ({ let s = s_group(v, lead(evs), id, pos); s is Some ==> p_group(v, evs, id, pos) == (if (s->0).3 { Some(((s->0).0, (s->0).1, (s->0).2)) } else if (s->0).1.len() < lead(evs).len() { p_group((s->0).0, (s->0).1, id, (s->0).2) } else { None }) })
{ lemma_over_group(v, evs, id, pos); reveal(p_group); }
proof fn lemma_next_root(v: Seq<GroupV>, evs: Seq<Ev>, id: Seq<u8>, pos: nat)
    ensures ({ let s = s_root(v, lead(evs), id, pos); s is Some ==> p_root(v, evs, id, pos) == (if (s->0).3 { Some(((s->0).0, (s->0).1, (s->0).2)) } else if (s->0).1.len() < lead(evs).len() { p_root((s->0).0, (s->0).1, id, (s->0).2) } else { None }) })
{ lemma_over(evs, id, pos); reveal(p_root); }
proof fn lemma_next_meta(v: MetaV, evs: Seq<Ev>, id: Seq<u8>, pos: nat)
    ensures ({ let s = s_meta(v, lead(evs), id, pos); s is Some ==> p_meta(v, evs, id, pos) == (if (s->0).3 { Some(((s->0).0, (s->0).1, (s->0).2)) } else if (s->0).1.len() < lead(evs).len() { p_meta((s->0).0, (s->0).1, id, (s->0).2) } else { None }) })
{ lemma_over(evs, id, pos); reveal(p_meta); }
proof fn lemma_next_file(v: DbV, evs: Seq<Ev>, id: Seq<u8>, pos: nat)
    ensures ({ let s = s_file(v, lead(evs), id, pos); s is Some ==> p_file(v, evs, id, pos) == (if (s->0).3 { Some(((s->0).0, (s->0).1, (s->0).2)) } else if (s->0).1.len() < lead(evs).len() { p_file((s->0).0, (s->0).1, id, (s->0).2) } else { None }) })
{ lemma_over(evs, id, pos); reveal(p_file); }
/// a value
proof fn lemma_value_back(prev: Ev, v: Value, id: Seq<u8>, pos: nat, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, value_ev(v, id, pos), evs) is Some
    ensures heard(prev, value_ev(v, id, pos), evs) == Some(r), lead(evs).len() > 0, r.len() < lead(evs).len(),
        lead(evs)[0] is Start, lead(evs)[0]->Start_0 == "Value"@,
        ({ let t = p_text(None, lead(evs).skip(1)); t is Some && (t->0).1 == r && value_of((t->0).0, guards(lead(evs)[0]->Start_1), id, pos) == Some((val_back(v), value_use(v))) })
{
    lemma_bools();
    assert(guarded()[0] == ("Protected"@, "True"@));
    assert(guards(guarded()));
    assert(!guards(nothing()));
    match v {
        Value::Protected(s) => {
            broadcast use axiom_trimmed, axiom_b64, axiom_b64_text, lemma_utf8_len, lemma_utf8_valid, lemma_utf8_inj;
            let b = xored(id, pos, utf8(s@));
            assert(b.len() == utf8(s@).len());
            assert forall|x: u8, k: u8| #[trigger] ((x ^ k) ^ k) == x by { assert((x ^ k) ^ k == x) by (bit_vector); }
            assert(xored(id, pos, b) =~= utf8(s@));
            if s@.len() > 0 { assert(b.len() > 0); }
            lemma_tag(prev, "Value"@, guarded(), b64(b), evs)
        },
        Value::Standard(s) => lemma_tag(prev, "Value"@, nothing(), s@, evs),
        Value::Empty => lemma_bare(prev, "Value"@, nothing(), evs),
        Value::ProtectEmpty => lemma_bare(prev, "Value"@, guarded(), evs),
    }
}
proof fn lemma_field_back(prev: Ev, w: Seq<char>, f: Field, id: Seq<u8>, pos: nat, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, field_ev(w, f, id, pos), evs) is Some, field_ok(f)
    ensures heard(prev, field_ev(w, f, id, pos), evs) == Some(r), lead(evs).len() > 0, lead(evs)[0] == Ev::Start(w, nothing()), r.len() < lead(evs).len(),
        p_field(w, no_field(), lead(evs).skip(1), id, pos) == Some((field_back(f), r, pos + value_use(f.value))),
        field_ev(w, f, id, pos).len() > 0, field_ev(w, f, id, pos).last() == Ev::End(w)
{
    let w1 = seq![Ev::Start(w, nothing())];
    let w2 = w1 + tag("Key"@, f.key@);
    let w3 = w2 + value_ev(f.value, id, pos);
    let m3 = lemma_both(prev, w3, seq![Ev::End(w)], evs);
    let m2 = lemma_both(prev, w2, value_ev(f.value, id, pos), evs);
    let m1 = lemma_both(prev, w1, tag("Key"@, f.key@), evs);
    lemma_one(prev, Ev::Start(w, nothing()), evs);
    lemma_entry_names();
    let v1 = FieldV { key: f.key@, value: ValV::Empty };
    lemma_tag(last_of(prev, w1), "Key"@, nothing(), f.key@, m1);
    lemma_over(m1, id, pos);
    assert(p_field(w, no_field(), m1, id, pos) == p_field(w, v1, m2, id, pos)) by { reveal(p_field); }
    lemma_value_back(last_of(prev, w2), f.value, id, pos, m2);
    lemma_over(m2, id, pos);
    let p3 = pos + value_use(f.value);
    assert(p_field(w, v1, m2, id, pos) == p_field(w, field_back(f), m3, id, p3)) by { reveal(p_field); }
    lemma_one(last_of(prev, w3), Ev::End(w), m3);
    lemma_over(m3, id, p3);
    let r = lead(m3).skip(1);
    assert(p_field(w, field_back(f), m3, id, p3) == Some((field_back(f), r, p3))) by { reveal(p_field); }
    r
}
/// the fields of an entry
proof fn lemma_strings_back(prev: Ev, fs: Seq<Field>, id: Seq<u8>, pos: nat, evs: Seq<Ev>, v: EntryV) -> (r: Seq<Ev>)
    requires heard(prev, fields_ev("String"@, fs, id, pos), evs) is Some, fields_ok(fs)
    ensures heard(prev, fields_ev("String"@, fs, id, pos), evs) == Some(r), r.len() <= evs.len(),
        p_entry(v, evs, id, pos) == p_entry(EntryV { fields: v.fields + fields_back(fs), ..v }, r, id, pos + fields_use(fs))
    decreases fs.len()
{
    reveal(fields_ev);
    reveal(fields_use);
    if fs.len() == 0 {
        reveal(heard);
        assert(v.fields + fields_back(fs) =~= v.fields);
        evs
    } else {
        let f0 = fs.drop_last();
        let p1 = pos + fields_use(f0);
        let m = lemma_both(prev, fields_ev("String"@, f0, id, pos), field_ev("String"@, fs.last(), id, p1), evs);
        assert forall|i: int| 0 <= i < f0.len() implies field_ok(#[trigger] f0[i]) by { assert(field_ok(fs[i])); }
        lemma_strings_back(prev, f0, id, pos, evs, v);
        assert(field_ok(fs[fs.len() - 1]));
        let r = lemma_field_back(last_of(prev, fields_ev("String"@, f0, id, pos)), "String"@, fs.last(), id, p1, m);
        let v1 = EntryV { fields: v.fields + fields_back(f0), ..v };
        lemma_entry_names();
        lemma_next_entry(v1, m, id, p1);
        assert((v.fields + fields_back(f0)).push(field_back(fs.last())) =~= v.fields + fields_back(fs));
        r
    }
}
proof fn lemma_items_back(prev: Ev, fs: Seq<Field>, id: Seq<u8>, pos: nat, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, fields_ev("Item"@, fs, id, pos), evs) is Some, fields_ok(fs)
    ensures heard(prev, fields_ev("Item"@, fs, id, pos), evs) == Some(r), r.len() <= evs.len(),
        p_custom_data(Seq::empty(), evs, id, pos) == p_custom_data(fields_back(fs), r, id, pos + fields_use(fs))
    decreases fs.len()
{
    reveal(fields_ev);
    reveal(fields_use);
    if fs.len() == 0 {
        reveal(heard);
        assert(fields_back(fs) =~= Seq::empty());
        evs
    } else {
        let f0 = fs.drop_last();
        let p1 = pos + fields_use(f0);
        let m = lemma_both(prev, fields_ev("Item"@, f0, id, pos), field_ev("Item"@, fs.last(), id, p1), evs);
        assert forall|i: int| 0 <= i < f0.len() implies field_ok(#[trigger] f0[i]) by { assert(field_ok(fs[i])); }
        lemma_items_back(prev, f0, id, pos, evs);
        assert(field_ok(fs[fs.len() - 1]));
        let r = lemma_field_back(last_of(prev, fields_ev("Item"@, f0, id, pos)), "Item"@, fs.last(), id, p1, m);
        lemma_over(m, id, p1);
        assert(fields_back(f0).push(field_back(fs.last())) =~= fields_back(fs));
        let p2 = p1 + value_use(fs.last().value);
        assert(p_custom_data(fields_back(f0), m, id, p1) == p_custom_data(fields_back(fs), r, id, p2)) by { reveal(p_custom_data); }
        r
    }
}
proof fn lemma_times_back(prev: Ev, t: Times, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, times_ev(t), evs) is Some, times_timely(t)
    ensures heard(prev, times_ev(t), evs) == Some(r), lead(evs).len() > 0, lead(evs)[0] == Ev::Start("Times"@, nothing()), r.len() < lead(evs).len(),
        p_times(no_times(), lead(evs).skip(1)) == Some((times_back(t), r)), times_ev(t).len() > 0, times_ev(t).last() == Ev::End("Times"@)
{
    reveal(times_ev);
    lemma_times_names();
    let w0 = seq![Ev::Start("Times"@, nothing())];
    let w1 = w0 + tag("LastModificationTime"@, date_text(t.last_modification_time));
    let w2 = w1 + tag("CreationTime"@, date_text(t.creation_time));
    let w3 = w2 + tag("LastAccessTime"@, date_text(t.last_access_time));
    let w4 = w3 + tag("LocationChanged"@, date_text(t.location_changed));
    let w5 = w4 + tag("ExpiryTime"@, date_text(t.expiry_time));
    let w6 = w5 + tag("UsageCount"@, dec_text(t.usage_count as int));
    let w7 = w6 + tag("Expires"@, bool_text(t.expires));
    let m7 = lemma_both(prev, w7, seq![Ev::End("Times"@)], evs);
    let m6 = lemma_both(prev, w6, tag("Expires"@, bool_text(t.expires)), evs);
    let m5 = lemma_both(prev, w5, tag("UsageCount"@, dec_text(t.usage_count as int)), evs);
    let m4 = lemma_both(prev, w4, tag("ExpiryTime"@, date_text(t.expiry_time)), evs);
    let m3 = lemma_both(prev, w3, tag("LocationChanged"@, date_text(t.location_changed)), evs);
    let m2 = lemma_both(prev, w2, tag("LastAccessTime"@, date_text(t.last_access_time)), evs);
    let m1 = lemma_both(prev, w1, tag("CreationTime"@, date_text(t.creation_time)), evs);
    let m0 = lemma_both(prev, w0, tag("LastModificationTime"@, date_text(t.last_modification_time)), evs);
    lemma_one(prev, Ev::Start("Times"@, nothing()), evs);
    let v0 = no_times();
    let v1 = TimesV { modified: Some(floored(t.last_modification_time)), ..v0 };
    let v2 = TimesV { created: Some(floored(t.creation_time)), ..v1 };
    let v3 = TimesV { accessed: Some(floored(t.last_access_time)), ..v2 };
    let v4 = TimesV { moved: Some(floored(t.location_changed)), ..v3 };
    let v5 = TimesV { expiry: Some(floored(t.expiry_time)), ..v4 };
    let v6 = TimesV { usage: Some(t.usage_count), ..v5 };
    lemma_date_tag(last_of(prev, w0), "LastModificationTime"@, t.last_modification_time, m0);
    lemma_next_times(v0, m0);
    lemma_date_tag(last_of(prev, w1), "CreationTime"@, t.creation_time, m1);
    lemma_next_times(v1, m1);
    lemma_date_tag(last_of(prev, w2), "LastAccessTime"@, t.last_access_time, m2);
    lemma_next_times(v2, m2);
    lemma_date_tag(last_of(prev, w3), "LocationChanged"@, t.location_changed, m3);
    lemma_next_times(v3, m3);
    lemma_date_tag(last_of(prev, w4), "ExpiryTime"@, t.expiry_time, m4);
    lemma_next_times(v4, m4);
    lemma_u32_tag(last_of(prev, w5), "UsageCount"@, t.usage_count, m5);
    lemma_next_times(v5, m5);
    lemma_bool_tag(last_of(prev, w6), "Expires"@, t.expires, m6);
    lemma_next_times(v6, m6);
    lemma_one(last_of(prev, w7), Ev::End("Times"@), m7);
    lemma_next_times(times_back(t), m7);
    lead(m7).skip(1)
}
proof fn lemma_guard_back(prev: Ev, p: MemoryProtection, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, protection_ev(p), evs) is Some
    ensures heard(prev, protection_ev(p), evs) == Some(r), lead(evs).len() > 0, lead(evs)[0] == Ev::Start("MemoryProtection"@, nothing()), r.len() < lead(evs).len(),
        p_memory_protection(no_guard(), lead(evs).skip(1)) == Some((guard_back(p), r))
{
    reveal(protection_ev);
    lemma_guard_names();
    let w0 = seq![Ev::Start("MemoryProtection"@, nothing())];
    let w1 = w0 + tag("ProtectUserName"@, bool_text(p.protect_user_name));
    let w2 = w1 + tag("ProtectPassword"@, bool_text(p.protect_password));
    let w3 = w2 + tag("ProtectTitle"@, bool_text(p.protect_title));
    let w4 = w3 + tag("ProtectNotes"@, bool_text(p.protect_notes));
    let w5 = w4 + tag("ProtectURL"@, bool_text(p.protect_url));
    let m5 = lemma_both(prev, w5, seq![Ev::End("MemoryProtection"@)], evs);
    let m4 = lemma_both(prev, w4, tag("ProtectURL"@, bool_text(p.protect_url)), evs);
    let m3 = lemma_both(prev, w3, tag("ProtectNotes"@, bool_text(p.protect_notes)), evs);
    let m2 = lemma_both(prev, w2, tag("ProtectTitle"@, bool_text(p.protect_title)), evs);
    let m1 = lemma_both(prev, w1, tag("ProtectPassword"@, bool_text(p.protect_password)), evs);
    let m0 = lemma_both(prev, w0, tag("ProtectUserName"@, bool_text(p.protect_user_name)), evs);
    lemma_one(prev, Ev::Start("MemoryProtection"@, nothing()), evs);
    let v0 = no_guard();
    let v1 = GuardV { user_name: Some(p.protect_user_name), ..v0 };
    let v2 = GuardV { password: Some(p.protect_password), ..v1 };
    let v3 = GuardV { title: Some(p.protect_title), ..v2 };
    let v4 = GuardV { notes: Some(p.protect_notes), ..v3 };
    lemma_bool_tag(last_of(prev, w0), "ProtectUserName"@, p.protect_user_name, m0);
    lemma_next_guard(v0, m0);
    lemma_bool_tag(last_of(prev, w1), "ProtectPassword"@, p.protect_password, m1);
    lemma_next_guard(v1, m1);
    lemma_bool_tag(last_of(prev, w2), "ProtectTitle"@, p.protect_title, m2);
    lemma_next_guard(v2, m2);
    lemma_bool_tag(last_of(prev, w3), "ProtectNotes"@, p.protect_notes, m3);
    lemma_next_guard(v3, m3);
    lemma_bool_tag(last_of(prev, w4), "ProtectURL"@, p.protect_url, m4);
    lemma_next_guard(v4, m4);
    lemma_one(last_of(prev, w5), Ev::End("MemoryProtection"@), m5);
    lemma_next_guard(guard_back(p), m5);
    lead(m5).skip(1)
}
/// an entry, with its history
proof fn lemma_entry_back(prev: Ev, e: Entry, id: Seq<u8>, pos: nat, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, entry_ev(e, id, pos), evs) is Some, entry_ok(e), entry_timely(e)
    ensures heard(prev, entry_ev(e, id, pos), evs) == Some(r), lead(evs).len() > 0, lead(evs)[0] == Ev::Start("Entry"@, nothing()), r.len() < lead(evs).len(),
        p_entry(no_entry(), lead(evs).skip(1), id, pos) == Some((entry_back(e), r, pos + entry_use(e)))
    decreases e
{
    lemma_entry(e, id, pos);
    lemma_entry_parts(e);
    lemma_entry_names();
    let p1 = pos + fields_use(e.fields@);
    let p2 = pos + entry_use(e);
    let w0 = seq![Ev::Start("Entry"@, nothing())];
    let w1 = w0 + tag("UUID"@, b64(e.uuid@));
    let w2 = w1 + times_ev(e.times);
    let w3 = w2 + fields_ev("String"@, e.fields@, id, pos);
    let w4 = w3 + history_ev(e, id, p1);
    let m4 = lemma_both(prev, w4, seq![Ev::End("Entry"@)], evs);
    let m3 = lemma_both(prev, w3, history_ev(e, id, p1), evs);
    let m2 = lemma_both(prev, w2, fields_ev("String"@, e.fields@, id, pos), evs);
    let m1 = lemma_both(prev, w1, times_ev(e.times), evs);
    let m0 = lemma_both(prev, w0, tag("UUID"@, b64(e.uuid@)), evs);
    lemma_one(prev, Ev::Start("Entry"@, nothing()), evs);
    let v0 = no_entry();
    let v1 = EntryV { uuid: Some(e.uuid@), ..v0 };
    let v2 = EntryV { times: times_back(e.times), ..v1 };
    let v3 = EntryV { fields: fields_back(e.fields@), ..v2 };
    lemma_uuid_tag(last_of(prev, w0), "UUID"@, e.uuid@, m0);
    lemma_next_entry(v0, m0, id, pos);
    lemma_times_back(last_of(prev, w1), e.times, m1);
    lemma_next_entry(v1, m1, id, pos);
    lemma_strings_back(last_of(prev, w2), e.fields@, id, pos, m2, v2);
    assert(v2.fields + fields_back(e.fields@) =~= fields_back(e.fields@));
    assert(p_entry(v0, m0, id, pos) == p_entry(v3, m3, id, p1));
    let es = e.history.entries@;
    if es.len() > 0 {
        let q = last_of(prev, w3);
        let h0 = seq![Ev::Start("History"@, nothing())];
        let h1 = h0 + entries_ev(es, id, p1);
        let k1 = lemma_both(q, h1, seq![Ev::End("History"@)], m3);
        let k0 = lemma_both(q, h0, entries_ev(es, id, p1), m3);
        lemma_one(q, Ev::Start("History"@, nothing()), m3);
        lemma_history_back(last_of(q, h0), es, id, p1, k0);
        lemma_one(last_of(q, h1), Ev::End("History"@), k1);
        lemma_next_history(entries_back(es), k1, id, p2);
        assert(p_history(Seq::empty(), k0, id, p1) == Some((entries_back(es), m4, p2)));
        assert(s_entry(v3, lead(m3), id, p1) == Some((entry_back(e), m4, p2, false))) by { reveal(p_entry); reveal(p_history); }
        lemma_next_entry(v3, m3, id, p1);
    } else {
        reveal(heard);
        lemma_no_entries(es, id, p1);
        assert(entries_back(es) =~= Seq::empty()) by { reveal(entries_back); }
        assert(m3 == m4);
    }
    assert(p_entry(v3, m3, id, p1) == p_entry(entry_back(e), m4, id, p2));
    lemma_one(last_of(prev, w4), Ev::End("Entry"@), m4);
    lemma_next_entry(entry_back(e), m4, id, p2);
    lead(m4).skip(1)
}
proof fn lemma_entry_parts(e: Entry)
    ensures entry_timely(e) == (times_timely(e.times) && entries_timely(e.history.entries@)), e.uuid@.len() == 16,
        entry_back(e) == (EntryV { uuid: Some(e.uuid@), times: times_back(e.times), fields: fields_back(e.fields@), history: entries_back(e.history.entries@) })
{ reveal(entries_timely); reveal(entries_back); }
proof fn lemma_group_parts(g: Group)
    ensures group_timely(g) == (times_timely(g.times) && entries_timely(g.entries@) && groups_timely(g.groups@)), g.uuid@.len() == 16,
        group_back(g) == (GroupV { uuid: Some(g.uuid@), name: Some(g.name@), times: times_back(g.times), entries: entries_back(g.entries@), groups: groups_back(g.groups@) })
{ reveal(groups_timely); reveal(groups_back); }
proof fn lemma_entries_parts(es: Seq<Entry>, id: Seq<u8>, pos: nat)
    requires es.len() > 0
    ensures entries_ev(es, id, pos) == entries_ev(es.drop_last(), id, pos) + entry_ev(es.last(), id, pos + entries_use(es.drop_last())),
        entries_use(es) == entries_use(es.drop_last()) + entry_use(es.last()),
        entries_ok(es) == (entries_ok(es.drop_last()) && entry_ok(es.last())),
        entries_timely(es) == (entries_timely(es.drop_last()) && entry_timely(es.last())),
        entries_back(es) == entries_back(es.drop_last()).push(entry_back(es.last()))
{ reveal(entries_ev); reveal(entries_use); reveal(entries_ok); reveal(entries_timely); reveal(entries_back); }
proof fn lemma_groups_parts(gs: Seq<Group>, id: Seq<u8>, pos: nat)
    requires gs.len() > 0
    ensures groups_ev(gs, id, pos) == groups_ev(gs.drop_last(), id, pos) + group_ev(gs.last(), id, pos + groups_use(gs.drop_last())),
        groups_use(gs) == groups_use(gs.drop_last()) + group_use(gs.last()),
        groups_ok(gs) == (groups_ok(gs.drop_last()) && group_ok(gs.last())),
        groups_timely(gs) == (groups_timely(gs.drop_last()) && group_timely(gs.last())),
        groups_back(gs) == groups_back(gs.drop_last()).push(group_back(gs.last()))
{ reveal(groups_ev); reveal(groups_use); reveal(groups_ok); reveal(groups_timely); reveal(groups_back); }
proof fn lemma_history_back(prev: Ev, es: Seq<Entry>, id: Seq<u8>, pos: nat, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, entries_ev(es, id, pos), evs) is Some, entries_ok(es), entries_timely(es)
    ensures heard(prev, entries_ev(es, id, pos), evs) == Some(r), r.len() <= evs.len(),
        p_history(Seq::empty(), evs, id, pos) == p_history(entries_back(es), r, id, pos + entries_use(es))
    decreases es
{
    if es.len() == 0 {
        reveal(heard);
        lemma_no_entries(es, id, pos);
        assert(entries_back(es) =~= Seq::empty()) by { reveal(entries_back); }
        evs
    } else {
        let e0 = es.drop_last();
        lemma_entries_parts(es, id, pos);
        let p1 = pos + entries_use(e0);
        let m = lemma_both(prev, entries_ev(e0, id, pos), entry_ev(es.last(), id, p1), evs);
        lemma_history_back(prev, e0, id, pos, evs);
        let r = lemma_entry_back(last_of(prev, entries_ev(e0, id, pos)), es.last(), id, p1, m);
        assert(s_history(entries_back(e0), lead(m), id, p1) == Some((entries_back(es), r, pos + entries_use(es), false))) by { reveal(p_entry); reveal(p_history); }
        lemma_next_history(entries_back(e0), m, id, p1);
        r
    }
}
/// the entries of a group
proof fn lemma_entries_back(prev: Ev, es: Seq<Entry>, id: Seq<u8>, pos: nat, evs: Seq<Ev>, v: GroupV) -> (r: Seq<Ev>)
    requires heard(prev, entries_ev(es, id, pos), evs) is Some, entries_ok(es), entries_timely(es)
    ensures heard(prev, entries_ev(es, id, pos), evs) == Some(r), r.len() <= evs.len(),
        p_group(v, evs, id, pos) == p_group(GroupV { entries: v.entries + entries_back(es), ..v }, r, id, pos + entries_use(es))
    decreases es.len()
{
    if es.len() == 0 {
        reveal(heard);
        lemma_no_entries(es, id, pos);
        assert(v.entries + entries_back(es) =~= v.entries) by { reveal(entries_back); }
        evs
    } else {
        let e0 = es.drop_last();
        lemma_entries_parts(es, id, pos);
        lemma_group_names();
        let p1 = pos + entries_use(e0);
        let m = lemma_both(prev, entries_ev(e0, id, pos), entry_ev(es.last(), id, p1), evs);
        lemma_entries_back(prev, e0, id, pos, evs, v);
        let r = lemma_entry_back(last_of(prev, entries_ev(e0, id, pos)), es.last(), id, p1, m);
        let v1 = GroupV { entries: v.entries + entries_back(e0), ..v };
        lemma_next_group(v1, m, id, p1);
        assert(v1.entries.push(entry_back(es.last())) =~= v.entries + entries_back(es));
        r
    }
}
/// the groups in a group
proof fn lemma_groups_back(prev: Ev, gs: Seq<Group>, id: Seq<u8>, pos: nat, evs: Seq<Ev>, v: GroupV) -> (r: Seq<Ev>)
    requires heard(prev, groups_ev(gs, id, pos), evs) is Some, groups_ok(gs), groups_timely(gs)
    ensures heard(prev, groups_ev(gs, id, pos), evs) == Some(r), r.len() <= evs.len(),
        p_group(v, evs, id, pos) == p_group(GroupV { groups: v.groups + groups_back(gs), ..v }, r, id, pos + groups_use(gs))
    decreases gs
{
    if gs.len() == 0 {
        reveal(heard);
        lemma_no_groups(gs, id, pos);
        assert(v.groups + groups_back(gs) =~= v.groups) by { reveal(groups_back); }
        evs
    } else {
        let g0 = gs.drop_last();
        lemma_groups_parts(gs, id, pos);
        let p1 = pos + groups_use(g0);
        let m = lemma_both(prev, groups_ev(g0, id, pos), group_ev(gs.last(), id, p1), evs);
        lemma_groups_back(prev, g0, id, pos, evs, v);
        let r = lemma_group_back(last_of(prev, groups_ev(g0, id, pos)), gs.last(), id, p1, m);
        let v1 = GroupV { groups: v.groups + groups_back(g0), ..v };
        assert(s_group(v1, lead(m), id, p1) == Some((GroupV { groups: v1.groups.push(group_back(gs.last())), ..v1 }, r, pos + groups_use(gs), false))) by { reveal(p_group); }
        lemma_next_group(v1, m, id, p1);
        assert(v1.groups.push(group_back(gs.last())) =~= v.groups + groups_back(gs));
        r
    }
}
proof fn lemma_group_back(prev: Ev, g: Group, id: Seq<u8>, pos: nat, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, group_ev(g, id, pos), evs) is Some, group_ok(g), group_timely(g)
    ensures heard(prev, group_ev(g, id, pos), evs) == Some(r), lead(evs).len() > 0, lead(evs)[0] == Ev::Start("Group"@, nothing()), r.len() < lead(evs).len(),
        p_group(no_group(), lead(evs).skip(1), id, pos) == Some((group_back(g), r, pos + group_use(g)))
    decreases g
{
    lemma_group(g, id, pos);
    lemma_group_parts(g);
    lemma_group_names();
    let p1 = pos + entries_use(g.entries@);
    let p2 = pos + group_use(g);
    let w0 = seq![Ev::Start("Group"@, nothing())];
    let w1 = w0 + tag("UUID"@, b64(g.uuid@));
    let w2 = w1 + tag("Name"@, g.name@);
    let w3 = w2 + times_ev(g.times);
    let w4 = w3 + entries_ev(g.entries@, id, pos);
    let w5 = w4 + groups_ev(g.groups@, id, p1);
    let m5 = lemma_both(prev, w5, seq![Ev::End("Group"@)], evs);
    let m4 = lemma_both(prev, w4, groups_ev(g.groups@, id, p1), evs);
    let m3 = lemma_both(prev, w3, entries_ev(g.entries@, id, pos), evs);
    let m2 = lemma_both(prev, w2, times_ev(g.times), evs);
    let m1 = lemma_both(prev, w1, tag("Name"@, g.name@), evs);
    let m0 = lemma_both(prev, w0, tag("UUID"@, b64(g.uuid@)), evs);
    lemma_one(prev, Ev::Start("Group"@, nothing()), evs);
    let v0 = no_group();
    let v1 = GroupV { uuid: Some(g.uuid@), ..v0 };
    let v2 = GroupV { name: Some(g.name@), ..v1 };
    let v3 = GroupV { times: times_back(g.times), ..v2 };
    let v4 = GroupV { entries: entries_back(g.entries@), ..v3 };
    lemma_uuid_tag(last_of(prev, w0), "UUID"@, g.uuid@, m0);
    lemma_next_group(v0, m0, id, pos);
    lemma_tag(last_of(prev, w1), "Name"@, nothing(), g.name@, m1);
    if g.name@.len() == 0 { assert(g.name@ =~= Seq::empty()); }
    lemma_next_group(v1, m1, id, pos);
    lemma_times_back(last_of(prev, w2), g.times, m2);
    lemma_next_group(v2, m2, id, pos);
    lemma_entries_back(last_of(prev, w3), g.entries@, id, pos, m3, v3);
    assert(v3.entries + entries_back(g.entries@) =~= entries_back(g.entries@));
    lemma_groups_back(last_of(prev, w4), g.groups@, id, p1, m4, v4);
    assert(v4.groups + groups_back(g.groups@) =~= groups_back(g.groups@));
    assert(p_group(v0, m0, id, pos) == p_group(group_back(g), m5, id, p2));
    lemma_one(last_of(prev, w5), Ev::End("Group"@), m5);
    lemma_next_group(group_back(g), m5, id, p2);
    lead(m5).skip(1)
}
/// the groups of the database
proof fn lemma_root_back(prev: Ev, gs: Seq<Group>, id: Seq<u8>, pos: nat, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, groups_ev(gs, id, pos), evs) is Some, groups_ok(gs), groups_timely(gs)
    ensures heard(prev, groups_ev(gs, id, pos), evs) == Some(r), r.len() <= evs.len(), groups_back(gs).len() == gs.len(),
        p_root(Seq::empty(), evs, id, pos) == p_root(groups_back(gs), r, id, pos + groups_use(gs))
    decreases gs.len()
{
    if gs.len() == 0 {
        reveal(heard);
        lemma_no_groups(gs, id, pos);
        assert(groups_back(gs) =~= Seq::empty()) by { reveal(groups_back); }
        evs
    } else {
        let g0 = gs.drop_last();
        lemma_groups_parts(gs, id, pos);
        let p1 = pos + groups_use(g0);
        let m = lemma_both(prev, groups_ev(g0, id, pos), group_ev(gs.last(), id, p1), evs);
        lemma_root_back(prev, g0, id, pos, evs);
        let r = lemma_group_back(last_of(prev, groups_ev(g0, id, pos)), gs.last(), id, p1, m);
        lemma_next_root(groups_back(g0), m, id, p1);
        r
    }
}
proof fn lemma_meta_back(prev: Ev, m: Meta, id: Seq<u8>, pos: nat, evs: Seq<Ev>) -> (r: Seq<Ev>)
    requires heard(prev, meta_ev(m, id, pos), evs) is Some, meta_ok(m)
    ensures heard(prev, meta_ev(m, id, pos), evs) == Some(r), lead(evs).len() > 0, lead(evs)[0] == Ev::Start("Meta"@, nothing()), r.len() < lead(evs).len(),
        p_meta(no_meta(), lead(evs).skip(1), id, pos) == Some((meta_back(m), r, pos + fields_use(m.custom_data@)))
{
    lemma_meta_names();
    let p1 = pos + fields_use(m.custom_data@);
    let w0 = seq![Ev::Start("Meta"@, nothing())];
    let w1 = w0 + tag("Generator"@, "kdbx-rs"@);
    let w2 = w1 + tag("DatabaseName"@, m.database_name@);
    let w3 = w2 + tag("DatabaseDescription"@, m.database_description@);
    let w4 = w3 + seq![Ev::Start("CustomData"@, nothing())];
    let w5 = w4 + fields_ev("Item"@, m.custom_data@, id, pos);
    let w6 = w5 + seq![Ev::End("CustomData"@)];
    let w7 = w6 + protection_ev(m.memory_protection);
    let m7 = lemma_both(prev, w7, seq![Ev::End("Meta"@)], evs);
    let m6 = lemma_both(prev, w6, protection_ev(m.memory_protection), evs);
    let m5 = lemma_both(prev, w5, seq![Ev::End("CustomData"@)], evs);
    let m4 = lemma_both(prev, w4, fields_ev("Item"@, m.custom_data@, id, pos), evs);
    let m3 = lemma_both(prev, w3, seq![Ev::Start("CustomData"@, nothing())], evs);
    let m2 = lemma_both(prev, w2, tag("DatabaseDescription"@, m.database_description@), evs);
    let m1 = lemma_both(prev, w1, tag("DatabaseName"@, m.database_name@), evs);
    let m0 = lemma_both(prev, w0, tag("Generator"@, "kdbx-rs"@), evs);
    lemma_one(prev, Ev::Start("Meta"@, nothing()), evs);
    let v0 = no_meta();
    let v1 = MetaV { generator: Some("kdbx-rs"@), ..v0 };
    let v2 = MetaV { name: Some(m.database_name@), ..v1 };
    let v3 = MetaV { description: Some(m.database_description@), ..v2 };
    let v4 = MetaV { custom: Some(fields_back(m.custom_data@)), ..v3 };
    reveal_strlit("kdbx-rs");
    lemma_tag(last_of(prev, w0), "Generator"@, nothing(), "kdbx-rs"@, m0);
    lemma_next_meta(v0, m0, id, pos);
    lemma_tag(last_of(prev, w1), "DatabaseName"@, nothing(), m.database_name@, m1);
    if m.database_name@.len() == 0 { assert(m.database_name@ =~= Seq::empty()); }
    lemma_next_meta(v1, m1, id, pos);
    lemma_tag(last_of(prev, w2), "DatabaseDescription"@, nothing(), m.database_description@, m2);
    if m.database_description@.len() == 0 { assert(m.database_description@ =~= Seq::empty()); }
    lemma_next_meta(v2, m2, id, pos);
    lemma_one(last_of(prev, w3), Ev::Start("CustomData"@, nothing()), m3);
    lemma_items_back(last_of(prev, w4), m.custom_data@, id, pos, m4);
    lemma_one(last_of(prev, w5), Ev::End("CustomData"@), m5);
    lemma_over(m5, id, p1);
    assert(p_custom_data(Seq::empty(), m4, id, pos) == Some((fields_back(m.custom_data@), m6, p1))) by { reveal(p_custom_data); }
    lemma_next_meta(v3, m3, id, pos);
    lemma_guard_back(last_of(prev, w6), m.memory_protection, m6);
    lemma_next_meta(v4, m6, id, p1);
    lemma_one(last_of(prev, w7), Ev::End("Meta"@), m7);
    lemma_next_meta(meta_back(m), m7, id, p1);
    lead(m7).skip(1)
}
/// the document written for a database is read as that database, and nothing else
pub proof fn lemma_xml_reads_back(db: Database, id: Seq<u8>, pos: nat, b: Seq<u8>)
    requires xml_form(db, id, pos, b), groups_timely(db.groups@), db.groups@.len() > 0
    ensures xml_ok(b, id, pos), p_file(no_db(), events(b, true, true, true).0, id, pos) == Some((db_back(db), seq![Ev::Done], pos + db_use(db))),
        forall|d: Database| #[trigger] db_is(b, id, pos, d) ==> says(d, db_back(db))
{
    let w = db_ev(db, id, pos);
    let c = choose|c: crate::ext::xml::EmitterConfig| blank(c) && b == #[trigger] emitted(w, c);
    axiom_read_back(w, c);
    let all = events(b, true, true, true).0;
    let evs = all.skip(1);
    lemma_file_names();
    let prev = Ev::Other;
    let p1 = pos + fields_use(db.meta.custom_data@);
    let p2 = pos + db_use(db);
    let w0 = seq![Ev::Start("KeePassFile"@, nothing())];
    let w1 = w0 + meta_ev(db.meta, id, pos);
    let w2 = w1 + seq![Ev::Start("Root"@, nothing())];
    let w3 = w2 + groups_ev(db.groups@, id, p1);
    let w4 = w3 + seq![Ev::End("Root"@)];
    let m4 = lemma_both(prev, w4, seq![Ev::End("KeePassFile"@)], evs);
    let m3 = lemma_both(prev, w3, seq![Ev::End("Root"@)], evs);
    let m2 = lemma_both(prev, w2, groups_ev(db.groups@, id, p1), evs);
    let m1 = lemma_both(prev, w1, seq![Ev::Start("Root"@, nothing())], evs);
    let m0 = lemma_both(prev, w0, meta_ev(db.meta, id, pos), evs);
    let v0 = no_db();
    let v1 = DbV { meta: Some(meta_back(db.meta)), ..v0 };
    assert(p_file(v0, all, id, pos) == p_file(v0, evs, id, pos)) by { reveal(p_file); }
    lemma_one(prev, Ev::Start("KeePassFile"@, nothing()), evs);
    lemma_next_file(v0, evs, id, pos);
    lemma_meta_back(last_of(prev, w0), db.meta, id, pos, m0);
    lemma_next_file(v0, m0, id, pos);
    lemma_one(last_of(prev, w1), Ev::Start("Root"@, nothing()), m1);
    lemma_root_back(last_of(prev, w2), db.groups@, id, p1, m2);
    lemma_one(last_of(prev, w3), Ev::End("Root"@), m3);
    lemma_next_root(groups_back(db.groups@), m3, id, p2);
    assert(p_root(Seq::empty(), m2, id, p1) == Some((groups_back(db.groups@), m4, p2)));
    lemma_next_file(v1, m1, id, p1);
    lemma_one(last_of(prev, w4), Ev::End("KeePassFile"@), m4);
    lemma_next_file(db_back(db), m4, id, p2);
}
