@prelude
use crate::ext::io::Read as _;
use crate::ext::cipher::{StreamCipher as _, xored, null_id, AsMutE as _};
use crate::ext::base64::prelude::b64_dec;
use crate::ext::string::{utf8, is_utf8, trimmed, lowered, u32_of_text, lemma_utf8_valid, lemma_utf8_inj, AsStrE as _};
use crate::ext::xml::common_ev::{Ev, attrs_of};
use crate::ext::xml::reader::{events, ev_of};
use crate::ext::prelude::{UnwrapE as _, EqE as _, le_i64};
use crate::ext::chrono::{rfc3339, axiom_dt, axiom_dt_eq};
use crate::xml::decoders::date_at;
/// what a document says, as far as this crate reads it; None for what it does not say
pub enum ValV { Empty, Standard(Seq<char>), Protected(Seq<char>), ProtectEmpty }
pub struct FieldV { pub key: Seq<char>, pub value: ValV }
pub struct TimesV {
    pub modified: Option<NaiveDateTime>, pub created: Option<NaiveDateTime>, pub accessed: Option<NaiveDateTime>, pub expiry: Option<NaiveDateTime>,
    pub moved: Option<NaiveDateTime>, pub expires: Option<bool>, pub usage: Option<u32>,
}
pub struct EntryV { pub uuid: Option<Seq<u8>>, pub times: TimesV, pub fields: Seq<FieldV>, pub history: Seq<EntryV> }
pub struct GroupV { pub uuid: Option<Seq<u8>>, pub name: Option<Seq<char>>, pub times: TimesV, pub entries: Seq<EntryV>, pub groups: Seq<GroupV> }
pub struct GuardV { pub title: Option<bool>, pub user_name: Option<bool>, pub password: Option<bool>, pub url: Option<bool>, pub notes: Option<bool> }
pub struct MetaV { pub generator: Option<Seq<char>>, pub name: Option<Seq<char>>, pub description: Option<Seq<char>>, pub custom: Option<Seq<FieldV>>, pub protection: Option<GuardV> }
pub struct DbV { pub meta: Option<MetaV>, pub groups: Option<Seq<GroupV>> }
pub open spec fn no_field() -> FieldV { FieldV { key: Seq::empty(), value: ValV::Empty } }
pub open spec fn no_times() -> TimesV { TimesV { modified: None, created: None, accessed: None, expiry: None, moved: None, expires: None, usage: None } }
pub open spec fn no_entry() -> EntryV { EntryV { uuid: None, times: no_times(), fields: Seq::empty(), history: Seq::empty() } }
pub open spec fn no_group() -> GroupV { GroupV { uuid: None, name: None, times: no_times(), entries: Seq::empty(), groups: Seq::empty() } }
pub open spec fn no_guard() -> GuardV { GuardV { title: None, user_name: None, password: None, url: None, notes: None } }
pub open spec fn no_meta() -> MetaV { MetaV { generator: None, name: None, description: None, custom: None, protection: None } }
pub open spec fn no_db() -> DbV { DbV { meta: None, groups: None } }
pub open spec fn said<T>(o: Option<T>, x: T) -> bool { o is Some ==> o->0 == x }
pub open spec fn val_v(v: Value) -> ValV {
    match v { Value::Empty => ValV::Empty, Value::Standard(s) => ValV::Standard(s@), Value::Protected(s) => ValV::Protected(s@), Value::ProtectEmpty => ValV::ProtectEmpty }
}
pub open spec fn field_v(f: Field) -> FieldV { FieldV { key: f.key@, value: val_v(f.value) } }
pub open spec fn fields_v(fs: Seq<Field>) -> Seq<FieldV> { Seq::new(fs.len(), |i: int| field_v(fs[i])) }
pub open spec fn times_is(t: Times, v: TimesV) -> bool {
    said(v.modified, t.last_modification_time) && said(v.created, t.creation_time) && said(v.accessed, t.last_access_time) && said(v.expiry, t.expiry_time)
        && said(v.moved, t.location_changed) && said(v.expires, t.expires) && said(v.usage, t.usage_count)
}
#[verifier::opaque]
pub open spec fn entry_is(e: Entry, v: EntryV) -> bool decreases v {
    said(v.uuid, e.uuid@) && times_is(e.times, v.times) && fields_v(e.fields@) == v.fields && entries_are(e.history.entries@, v.history)
}
#[verifier::opaque]
pub open spec fn entries_are(es: Seq<Entry>, vs: Seq<EntryV>) -> bool decreases vs {
    es.len() == vs.len() && (vs.len() > 0 ==> entries_are(es.drop_last(), vs.drop_last()) && entry_is(es.last(), vs.last()))
}
#[verifier::opaque]
pub open spec fn group_is(g: Group, v: GroupV) -> bool decreases v {
    said(v.uuid, g.uuid@) && said(v.name, g.name@) && times_is(g.times, v.times) && entries_are(g.entries@, v.entries) && groups_are(g.groups@, v.groups)
}
#[verifier::opaque]
pub open spec fn groups_are(gs: Seq<Group>, vs: Seq<GroupV>) -> bool decreases vs {
    gs.len() == vs.len() && (vs.len() > 0 ==> groups_are(gs.drop_last(), vs.drop_last()) && group_is(gs.last(), vs.last()))
}
pub open spec fn guard_is(m: MemoryProtection, v: GuardV) -> bool {
    said(v.title, m.protect_title) && said(v.user_name, m.protect_user_name) && said(v.password, m.protect_password) && said(v.url, m.protect_url) && said(v.notes, m.protect_notes)
}
pub open spec fn meta_is(m: Meta, v: MetaV) -> bool {
    said(v.generator, m.generator@) && said(v.name, m.database_name@) && said(v.description, m.database_description@) && said(v.custom, fields_v(m.custom_data@))
        && (v.protection is Some ==> guard_is(m.memory_protection, v.protection->0))
}
pub open spec fn says(db: Database, v: DbV) -> bool {
    (v.meta is Some ==> meta_is(db.meta, v.meta->0)) && (v.groups is Some ==> groups_are(db.groups@, v.groups->0))
}
pub broadcast proof fn lemma_entry_is(e: Entry, v: EntryV)
    ensures #[trigger] entry_is(e, v) == (said(v.uuid, e.uuid@) && times_is(e.times, v.times) && fields_v(e.fields@) == v.fields && entries_are(e.history.entries@, v.history))
{ reveal(entry_is); reveal(entries_are); }
pub broadcast proof fn lemma_entries_none(es: Seq<Entry>, vs: Seq<EntryV>)
    ensures es.len() == 0 && vs.len() == 0 ==> #[trigger] entries_are(es, vs), entries_are(es, vs) ==> es.len() == vs.len()
{ reveal(entry_is); reveal(entries_are); }
pub broadcast proof fn lemma_entries_push(es: Seq<Entry>, vs: Seq<EntryV>, e: Entry, v: EntryV)
    ensures entries_are(es, vs) && entry_is(e, v) ==> #[trigger] entries_are(es.push(e), vs.push(v))
{
    reveal(entry_is);
    reveal(entries_are);
    assert(es.push(e).drop_last() =~= es);
    assert(vs.push(v).drop_last() =~= vs);
}
pub broadcast proof fn lemma_group_is(g: Group, v: GroupV)
    ensures #[trigger] group_is(g, v) == (said(v.uuid, g.uuid@) && said(v.name, g.name@) && times_is(g.times, v.times) && entries_are(g.entries@, v.entries) && groups_are(g.groups@, v.groups))
{ reveal(group_is); reveal(groups_are); }
pub broadcast proof fn lemma_groups_none(gs: Seq<Group>, vs: Seq<GroupV>)
    ensures gs.len() == 0 && vs.len() == 0 ==> #[trigger] groups_are(gs, vs), groups_are(gs, vs) ==> gs.len() == vs.len()
{ reveal(group_is); reveal(groups_are); }
pub broadcast proof fn lemma_groups_push(gs: Seq<Group>, vs: Seq<GroupV>, g: Group, v: GroupV)
    ensures groups_are(gs, vs) && group_is(g, v) ==> #[trigger] groups_are(gs.push(g), vs.push(v))
{
    reveal(group_is);
    reveal(groups_are);
    assert(gs.push(g).drop_last() =~= gs);
    assert(vs.push(v).drop_last() =~= vs);
}
pub broadcast proof fn lemma_fields_none(fs: Seq<Field>)
    ensures fs.len() == 0 ==> #[trigger] fields_v(fs) == Seq::<FieldV>::empty()
{ if fs.len() == 0 { assert(fields_v(fs) =~= Seq::<FieldV>::empty()); } }
pub broadcast proof fn lemma_fields_push(fs: Seq<Field>, f: Field)
    ensures #[trigger] fields_v(fs.push(f)) == fields_v(fs).push(field_v(f))
{ assert(fields_v(fs.push(f)) =~= fields_v(fs).push(field_v(f))); }
/// text up to the end of the element
pub open spec fn p_text(acc: Option<Seq<char>>, evs: Seq<Ev>) -> Option<(Option<Seq<char>>, Seq<Ev>)> decreases evs.len() {
    if evs.len() == 0 { None } else {
        match evs[0] {
            Ev::Text(t) => p_text(Some(match acc { Some(a) => a + t, None => t }), evs.skip(1)),
            Ev::End(_) => Some((acc, evs.skip(1))),
            Ev::Other => p_text(acc, evs.skip(1)),
            _ => None,
        }
    }
}
pub open spec fn or_nothing(t: Option<Seq<char>>) -> Seq<char> { match t { Some(s) => s, None => Seq::empty() } }
pub open spec fn text_is(o: Option<String>, t: Option<Seq<char>>) -> bool { match t { Some(s) => o is Some && o->0@ == s, None => o is None } }
pub open spec fn p_u32(evs: Seq<Ev>) -> Option<(u32, Seq<Ev>)> {
    match p_text(None, evs) {
        Some((Some(t), r)) => match u32_of_text(trimmed(t)) { Some(x) => Some((x, r)), None => None },
        _ => None,
    }
}
pub open spec fn p_bool(evs: Seq<Ev>) -> Option<(bool, Seq<Ev>)> {
    match p_text(None, evs) { Some((Some(t), r)) => Some((lowered(trimmed(t)) == "true"@, r)), Some((None, r)) => Some((false, r)), None => None }
}
pub open spec fn p_uuid(evs: Seq<Ev>) -> Option<(Seq<u8>, Seq<Ev>)> {
    match p_text(None, evs) {
        Some((Some(t), r)) => match b64_dec(trimmed(t)) { Some(b) => if b.len() == 16 { Some((b, r)) } else { None }, None => None },
        _ => None,
    }
}
/// the time a text stands for
pub open spec fn date_of(s: Seq<char>) -> Option<NaiveDateTime> {
    match b64_dec(s) {
        Some(v) => if v.len() == 8 && exists|d: NaiveDateTime| date_at(le_i64(v) as int, Some(d)) { Some(choose|d: NaiveDateTime| date_at(le_i64(v) as int, Some(d))) } else { None },
        None => rfc3339(s),
    }
}
pub open spec fn p_date(evs: Seq<Ev>) -> Option<(NaiveDateTime, Seq<Ev>)> {
    match p_text(None, evs) {
        Some((Some(t), r)) => match date_of(trimmed(t)) { Some(d) => Some((d, r)), None => None },
        _ => None,
    }
}
pub open spec fn guards(a: Seq<(Seq<char>, Seq<char>)>) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == "Protected"@ && lowered(a[i].1) == "true"@ }
/// an element that is not known, with its children; protected values in there use their part of the key stream
pub open spec fn p_skip(depth: nat, prot: bool, text: Seq<char>, evs: Seq<Ev>, pos: nat) -> Option<(Seq<Ev>, nat)> decreases evs.len() {
    if depth == 0 { Some((evs, pos)) } else if evs.len() == 0 { None } else {
        match evs[0] {
            Ev::Start(_, a) => p_skip(depth + 1, guards(a), Seq::empty(), evs.skip(1), pos),
            Ev::Text(t) => p_skip(depth, prot, text + t, evs.skip(1), pos),
            Ev::End(_) => if prot {
                match b64_dec(trimmed(text)) { Some(b) => p_skip((depth - 1) as nat, false, text, evs.skip(1), pos + b.len()), None => None }
            } else { p_skip((depth - 1) as nat, prot, text, evs.skip(1), pos) },
            Ev::Other => p_skip(depth, prot, text, evs.skip(1), pos),
            Ev::Done => None,
        }
    }
}
pub open spec fn p_unknown(a: Seq<(Seq<char>, Seq<char>)>, evs: Seq<Ev>, pos: nat) -> Option<(Seq<Ev>, nat)> { p_skip(1, guards(a), Seq::empty(), evs, pos) }
/// what the value element holds, and how much key stream it takes
pub open spec fn value_of(t: Option<Seq<char>>, prot: bool, id: Seq<u8>, pos: nat) -> Option<(ValV, nat)> {
    match t {
        Some(s) => if prot {
            match b64_dec(trimmed(s)) {
                Some(b) => if is_utf8(xored(id, pos, b)) { Some((ValV::Protected(choose|s: Seq<char>| utf8(s) == xored(id, pos, b)), b.len())) } else { None },
                None => None,
            }
        } else { Some((ValV::Standard(s), 0)) },
        None => Some((if prot { ValV::ProtectEmpty } else { ValV::Empty }, 0)),
    }
}
#[verifier::opaque]
pub open spec fn p_field(tag: Seq<char>, v: FieldV, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(FieldV, Seq<Ev>, nat)> decreases evs.len() {
    if evs.len() == 0 { None } else {
        let rest = evs.skip(1);
        match evs[0] {
            Ev::Start(n, a) =>
                if n == "Key"@ { match p_text(None, rest) { Some((Some(k), r2)) => if r2.len() < evs.len() { p_field(tag, FieldV { key: k, value: v.value }, r2, id, pos) } else { None }, _ => None } } else
                if n == "Value"@ {
                    match p_text(None, rest) {
                        Some((t, r2)) => match value_of(t, guards(a), id, pos) {
                            Some((x, used)) => if r2.len() < evs.len() { p_field(tag, FieldV { key: v.key, value: x }, r2, id, pos + used) } else { None },
                            None => None,
                        },
                        None => None,
                    }
                } else
                { match p_unknown(a, rest, pos) { Some((r2, p2)) => if r2.len() < evs.len() { p_field(tag, v, r2, id, p2) } else { None }, None => None } },
            Ev::End(n) => if n == tag { Some((v, rest, pos)) } else { None },
            Ev::Done => None,
            _ => p_field(tag, v, rest, id, pos),
        }
    }
}
pub open spec fn s_times(v: TimesV, evs: Seq<Ev>) -> Option<(TimesV, Seq<Ev>, bool)> {
    if evs.len() == 0 { None } else {
        let rest = evs.skip(1);
        match evs[0] {
            Ev::Start(n, a) =>
                if n == "LastModificationTime"@ { match p_date(rest) { Some((x, r2)) => Some((TimesV { modified: Some(x), ..v }, r2, false)), _ => None } } else
                if n == "LastAccessTime"@ { match p_date(rest) { Some((x, r2)) => Some((TimesV { accessed: Some(x), ..v }, r2, false)), _ => None } } else
                if n == "CreationTime"@ { match p_date(rest) { Some((x, r2)) => Some((TimesV { created: Some(x), ..v }, r2, false)), _ => None } } else
                if n == "ExpiryTime"@ { match p_date(rest) { Some((x, r2)) => Some((TimesV { expiry: Some(x), ..v }, r2, false)), _ => None } } else
                if n == "LocationChanged"@ { match p_date(rest) { Some((x, r2)) => Some((TimesV { moved: Some(x), ..v }, r2, false)), _ => None } } else
                if n == "Expires"@ { match p_bool(rest) { Some((x, r2)) => Some((TimesV { expires: Some(x), ..v }, r2, false)), _ => None } } else
                if n == "UsageCount"@ { match p_u32(rest) { Some((x, r2)) => Some((TimesV { usage: Some(x), ..v }, r2, false)), _ => None } } else
                { match p_unknown(a, rest, 0) { Some((r2, p2)) => if p2 == 0 { Some((v, r2, false)) } else { None }, None => None } },
            Ev::End(n) => if n == "Times"@ { Some((v, rest, true)) } else { None },
            Ev::Done => None,
            _ => Some((v, rest, false)),
        }
    }
}
#[verifier::opaque]
pub open spec fn p_times(v: TimesV, evs: Seq<Ev>) -> Option<(TimesV, Seq<Ev>)> decreases evs.len() {
    match s_times(v, evs) {
        Some((x, r2, done)) => if done { Some((x, r2)) } else if r2.len() < evs.len() { p_times(x, r2) } else { None },
        None => None,
    }
}
pub open spec fn s_history(v: Seq<EntryV>, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(Seq<EntryV>, Seq<Ev>, nat, bool)> decreases evs.len(), 0nat {
    if evs.len() == 0 { None } else {
        let rest = evs.skip(1);
        match evs[0] {
            Ev::Start(n, a) =>
                if n == "Entry"@ { match p_entry(no_entry(), rest, id, pos) { Some((x, r2, p2)) => Some((v.push(x), r2, p2, false)), _ => None } } else
                { match p_unknown(a, rest, pos) { Some((r2, p2)) => Some((v, r2, p2, false)), None => None } },
            Ev::End(n) => if n == "History"@ { Some((v, rest, pos, true)) } else { None },
            Ev::Done => None,
            _ => Some((v, rest, pos, false)),
        }
    }
}
#[verifier::opaque]
pub open spec fn p_history(v: Seq<EntryV>, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(Seq<EntryV>, Seq<Ev>, nat)> decreases evs.len(), 1nat {
    match s_history(v, evs, id, pos) {
        Some((x, r2, p2, done)) => if done { Some((x, r2, p2)) } else if r2.len() < evs.len() { p_history(x, r2, id, p2) } else { None },
        None => None,
    }
}
pub open spec fn s_entry(v: EntryV, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(EntryV, Seq<Ev>, nat, bool)> decreases evs.len(), 0nat {
    if evs.len() == 0 { None } else {
        let rest = evs.skip(1);
        match evs[0] {
            Ev::Start(n, a) =>
                if n == "History"@ { match p_history(Seq::empty(), rest, id, pos) { Some((x, r2, p2)) => Some((EntryV { history: x, ..v }, r2, p2, false)), _ => None } } else
                if n == "String"@ { match p_field("String"@, no_field(), rest, id, pos) { Some((x, r2, p2)) => Some((EntryV { fields: v.fields.push(x), ..v }, r2, p2, false)), _ => None } } else
                if n == "UUID"@ { match p_uuid(rest) { Some((x, r2)) => Some((EntryV { uuid: Some(x), ..v }, r2, pos, false)), _ => None } } else
                if n == "Times"@ { match p_times(no_times(), rest) { Some((x, r2)) => Some((EntryV { times: x, ..v }, r2, pos, false)), _ => None } } else
                { match p_unknown(a, rest, pos) { Some((r2, p2)) => Some((v, r2, p2, false)), None => None } },
            Ev::End(n) => if n == "Entry"@ { Some((v, rest, pos, true)) } else { None },
            Ev::Done => None,
            _ => Some((v, rest, pos, false)),
        }
    }
}
#[verifier::opaque]
pub open spec fn p_entry(v: EntryV, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(EntryV, Seq<Ev>, nat)> decreases evs.len(), 1nat {
    match s_entry(v, evs, id, pos) {
        Some((x, r2, p2, done)) => if done { Some((x, r2, p2)) } else if r2.len() < evs.len() { p_entry(x, r2, id, p2) } else { None },
        None => None,
    }
}
pub open spec fn s_group(v: GroupV, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(GroupV, Seq<Ev>, nat, bool)> decreases evs.len(), 0nat {
    if evs.len() == 0 { None } else {
        let rest = evs.skip(1);
        match evs[0] {
            Ev::Start(n, a) =>
                if n == "Group"@ { match p_group(no_group(), rest, id, pos) { Some((x, r2, p2)) => Some((GroupV { groups: v.groups.push(x), ..v }, r2, p2, false)), _ => None } } else
                if n == "Entry"@ { match p_entry(no_entry(), rest, id, pos) { Some((x, r2, p2)) => Some((GroupV { entries: v.entries.push(x), ..v }, r2, p2, false)), _ => None } } else
                if n == "UUID"@ { match p_uuid(rest) { Some((x, r2)) => Some((GroupV { uuid: Some(x), ..v }, r2, pos, false)), _ => None } } else
                if n == "Name"@ { match p_text(None, rest) { Some((x, r2)) => Some((GroupV { name: Some(or_nothing(x)), ..v }, r2, pos, false)), _ => None } } else
                if n == "Times"@ { match p_times(no_times(), rest) { Some((x, r2)) => Some((GroupV { times: x, ..v }, r2, pos, false)), _ => None } } else
                { match p_unknown(a, rest, pos) { Some((r2, p2)) => Some((v, r2, p2, false)), None => None } },
            Ev::End(n) => if n == "Group"@ { Some((v, rest, pos, true)) } else { None },
            Ev::Done => None,
            _ => Some((v, rest, pos, false)),
        }
    }
}
#[verifier::opaque]
pub open spec fn p_group(v: GroupV, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(GroupV, Seq<Ev>, nat)> decreases evs.len(), 1nat {
    match s_group(v, evs, id, pos) {
        Some((x, r2, p2, done)) => if done { Some((x, r2, p2)) } else if r2.len() < evs.len() { p_group(x, r2, id, p2) } else { None },
        None => None,
    }
}
pub open spec fn s_root(v: Seq<GroupV>, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(Seq<GroupV>, Seq<Ev>, nat, bool)> {
    if evs.len() == 0 { None } else {
        let rest = evs.skip(1);
        match evs[0] {
            Ev::Start(n, a) =>
                if n == "Group"@ { match p_group(no_group(), rest, id, pos) { Some((x, r2, p2)) => Some((v.push(x), r2, p2, false)), _ => None } } else
                { match p_unknown(a, rest, pos) { Some((r2, p2)) => Some((v, r2, p2, false)), None => None } },
            Ev::End(n) => if n == "Root"@ { Some((v, rest, pos, true)) } else { None },
            Ev::Done => None,
            _ => Some((v, rest, pos, false)),
        }
    }
}
#[verifier::opaque]
pub open spec fn p_root(v: Seq<GroupV>, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(Seq<GroupV>, Seq<Ev>, nat)> decreases evs.len() {
    match s_root(v, evs, id, pos) {
        Some((x, r2, p2, done)) => if done { Some((x, r2, p2)) } else if r2.len() < evs.len() { p_root(x, r2, id, p2) } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn p_custom_data(v: Seq<FieldV>, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(Seq<FieldV>, Seq<Ev>, nat)> decreases evs.len() {
    if evs.len() == 0 { None } else {
        let rest = evs.skip(1);
        match evs[0] {
            Ev::Start(n, a) =>
                if n == "Item"@ { match p_field("Item"@, no_field(), rest, id, pos) { Some((x, r2, p2)) => if r2.len() < evs.len() { p_custom_data(v.push(x), r2, id, p2) } else { None }, _ => None } } else
                { match p_unknown(a, rest, pos) { Some((r2, p2)) => if r2.len() < evs.len() { p_custom_data(v, r2, id, p2) } else { None }, None => None } },
            Ev::End(n) => if n == "CustomData"@ { Some((v, rest, pos)) } else { None },
            Ev::Done => None,
            _ => p_custom_data(v, rest, id, pos),
        }
    }
}
pub open spec fn s_memory_protection(v: GuardV, evs: Seq<Ev>) -> Option<(GuardV, Seq<Ev>, bool)> {
    if evs.len() == 0 { None } else {
        let rest = evs.skip(1);
        match evs[0] {
            Ev::Start(n, a) =>
                if n == "ProtectTitle"@ { match p_bool(rest) { Some((x, r2)) => Some((GuardV { title: Some(x), ..v }, r2, false)), _ => None } } else
                if n == "ProtectUserName"@ { match p_bool(rest) { Some((x, r2)) => Some((GuardV { user_name: Some(x), ..v }, r2, false)), _ => None } } else
                if n == "ProtectPassword"@ { match p_bool(rest) { Some((x, r2)) => Some((GuardV { password: Some(x), ..v }, r2, false)), _ => None } } else
                if n == "ProtectURL"@ { match p_bool(rest) { Some((x, r2)) => Some((GuardV { url: Some(x), ..v }, r2, false)), _ => None } } else
                if n == "ProtectNotes"@ { match p_bool(rest) { Some((x, r2)) => Some((GuardV { notes: Some(x), ..v }, r2, false)), _ => None } } else
                { match p_unknown(a, rest, 0) { Some((r2, p2)) => if p2 == 0 { Some((v, r2, false)) } else { None }, None => None } },
            Ev::End(n) => if n == "MemoryProtection"@ { Some((v, rest, true)) } else { None },
            Ev::Done => None,
            _ => Some((v, rest, false)),
        }
    }
}
#[verifier::opaque]
pub open spec fn p_memory_protection(v: GuardV, evs: Seq<Ev>) -> Option<(GuardV, Seq<Ev>)> decreases evs.len() {
    match s_memory_protection(v, evs) {
        Some((x, r2, done)) => if done { Some((x, r2)) } else if r2.len() < evs.len() { p_memory_protection(x, r2) } else { None },
        None => None,
    }
}
pub open spec fn s_meta(v: MetaV, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(MetaV, Seq<Ev>, nat, bool)> {
    if evs.len() == 0 { None } else {
        let rest = evs.skip(1);
        match evs[0] {
            Ev::Start(n, a) =>
                if n == "Generator"@ { match p_text(None, rest) { Some((x, r2)) => Some((MetaV { generator: Some(or_nothing(x)), ..v }, r2, pos, false)), _ => None } } else
                if n == "DatabaseName"@ { match p_text(None, rest) { Some((x, r2)) => Some((MetaV { name: Some(or_nothing(x)), ..v }, r2, pos, false)), _ => None } } else
                if n == "DatabaseDescription"@ { match p_text(None, rest) { Some((x, r2)) => Some((MetaV { description: Some(or_nothing(x)), ..v }, r2, pos, false)), _ => None } } else
                if n == "CustomData"@ { match p_custom_data(Seq::empty(), rest, id, pos) { Some((x, r2, p2)) => Some((MetaV { custom: Some(x), ..v }, r2, p2, false)), _ => None } } else
                if n == "MemoryProtection"@ { match p_memory_protection(no_guard(), rest) { Some((x, r2)) => Some((MetaV { protection: Some(x), ..v }, r2, pos, false)), _ => None } } else
                { match p_unknown(a, rest, pos) { Some((r2, p2)) => Some((v, r2, p2, false)), None => None } },
            Ev::End(n) => if n == "Meta"@ { Some((v, rest, pos, true)) } else { None },
            Ev::Done => None,
            _ => Some((v, rest, pos, false)),
        }
    }
}
#[verifier::opaque]
pub open spec fn p_meta(v: MetaV, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(MetaV, Seq<Ev>, nat)> decreases evs.len() {
    match s_meta(v, evs, id, pos) {
        Some((x, r2, p2, done)) => if done { Some((x, r2, p2)) } else if r2.len() < evs.len() { p_meta(x, r2, id, p2) } else { None },
        None => None,
    }
}
pub open spec fn s_file(v: DbV, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(DbV, Seq<Ev>, nat, bool)> {
    if evs.len() == 0 { None } else {
        let rest = evs.skip(1);
        match evs[0] {
            Ev::Start(n, a) =>
                if n == "Root"@ { match p_root(Seq::empty(), rest, id, pos) { Some((x, r2, p2)) => Some((DbV { groups: Some(x), ..v }, r2, p2, false)), _ => None } } else
                if n == "Meta"@ { match p_meta(no_meta(), rest, id, pos) { Some((x, r2, p2)) => Some((DbV { meta: Some(x), ..v }, r2, p2, false)), _ => None } } else
                if n == "KeePassFile"@ { Some((v, rest, pos, false)) } else
                { match p_unknown(a, rest, pos) { Some((r2, p2)) => Some((v, r2, p2, false)), None => None } },
            Ev::End(n) => if n == "KeePassFile"@ && v.groups is Some && (v.groups->0).len() > 0 { Some((v, rest, pos, true)) } else { None },
            Ev::Done => None,
            _ => Some((v, rest, pos, false)),
        }
    }
}
#[verifier::opaque]
pub open spec fn p_file(v: DbV, evs: Seq<Ev>, id: Seq<u8>, pos: nat) -> Option<(DbV, Seq<Ev>, nat)> decreases evs.len() {
    match s_file(v, evs, id, pos) {
        Some((x, r2, p2, done)) => if done { Some((x, r2, p2)) } else if r2.len() < evs.len() { p_file(x, r2, id, p2) } else { None },
        None => None,
    }
}
/// the document can be read
pub open spec fn xml_ok(b: Seq<u8>, ks: Seq<u8>, pos: nat) -> bool { p_file(no_db(), events(b, true, true, true).0, ks, pos) is Some }
/// db is read from the document, with the key stream used from the given position on
pub open spec fn db_is(b: Seq<u8>, ks: Seq<u8>, pos: nat, db: Database) -> bool {
    let p = p_file(no_db(), events(b, true, true, true).0, ks, pos);
    p is Some ==> says(db, (p->0).0)
}
/// the open elements a, and perhaps more inside
pub open spec fn grown(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { b.len() >= a.len() && b.take(a.len() as int) == a }
/// the same elements are open, except perhaps the innermost, and perhaps more
pub open spec fn below(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { a.len() > 0 && grown(a.drop_last(), b) }
pub open spec fn moved<R: Read>(a: EventReader<R>, b: EventReader<R>) -> bool {
    b.firm() == a.firm() && b.fails() == a.fails() && b.evs().len() < a.evs().len() && below(a.stack(), b.stack())
}
/// reading has gone on from a to b
pub open spec fn onward<R: Read>(a: EventReader<R>, b: EventReader<R>) -> bool {
    b.firm() == a.firm() && b.fails() == a.fails() && b.evs().len() <= a.evs().len() && grown(a.stack(), b.stack())
}
pub proof fn lemma_same(s: Seq<Seq<char>>) ensures grown(s, s) { assert(s.take(s.len() as int) =~= s); }
pub proof fn lemma_grown(s0: Seq<Seq<char>>, s: Seq<Seq<char>>)
    requires grown(s0, s)
    ensures forall|n: Seq<char>| grown(s0, #[trigger] s.push(n)) && s.push(n).drop_last() == s,
        s0.len() > 0 ==> below(s0, s), s0.len() > 0 && s.len() > 0 ==> below(s0, s.drop_last()), s.len() > s0.len() ==> grown(s0, s.drop_last()), s.len() == s0.len() ==> s == s0,
        forall|t: Seq<Seq<char>>| #[trigger] grown(s, t) ==> grown(s0, t),
        forall|n: Seq<char>, t: Seq<Seq<char>>| #[trigger] below(s.push(n), t) ==> grown(s0, t),
{
    assert forall|n: Seq<char>| grown(s0, #[trigger] s.push(n)) && s.push(n).drop_last() == s by {
        assert(s.push(n).take(s0.len() as int) =~= s.take(s0.len() as int));
        assert(s.push(n).drop_last() =~= s);
    }
    assert forall|t: Seq<Seq<char>>| #[trigger] grown(s, t) implies grown(s0, t) by { assert(t.take(s0.len() as int) =~= t.take(s.len() as int).take(s0.len() as int)); }
    assert forall|n: Seq<char>, t: Seq<Seq<char>>| #[trigger] below(s.push(n), t) implies grown(s0, t) by { assert(s.push(n).drop_last() =~= s); assert(grown(s, t)); }
    if s0.len() > 0 {
        assert(s.take(s0.len() - 1) =~= s.take(s0.len() as int).drop_last());
        if s.len() > 0 { assert(s.drop_last().take(s0.len() - 1) =~= s.take(s0.len() as int).drop_last()); }
    }
    if s.len() == s0.len() { assert(s.take(s0.len() as int) =~= s); }
    if s.len() > s0.len() { assert(s.drop_last().take(s0.len() as int) =~= s.take(s0.len() as int)); }
}
@fn parse_string
@attr #[verifier::loop_isolation(true)]
@call .push_str => push_str_e
@spec
    requires old(xml_event_reader).stack().len() > 0
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)),
        ({
            let p = p_text(None, old(xml_event_reader).evs());
            p is Some ==> (r is Ok ==> text_is(r->Ok_0, (p->0).0) && final(xml_event_reader).evs() == (p->0).1) && (r is Err ==> !old(xml_event_reader).firm())
        })
@start
    let ghost r0 = *xml_event_reader;
    proof { lemma_same(r0.stack()); }
    let ghost p0 = p_text(None, r0.evs());
@loop 0
    invariant_except_break onward(r0, *xml_event_reader), r0.stack().len() > 0,
        p0 is Some ==> exists|t: Option<Seq<char>>| p0 == #[trigger] p_text(t, xml_event_reader.evs()) && text_is(content, t)
    invariant p0 == p_text(None, r0.evs()), r0 == *old(xml_event_reader)
    ensures moved(r0, *xml_event_reader), p0 is Some ==> text_is(content, (p0->0).0) && xml_event_reader.evs() == (p0->0).1
    decreases xml_event_reader.evs().len()
@loopstart 0
    let ghost t1 = choose|t: Option<Seq<char>>| p0 == #[trigger] p_text(t, xml_event_reader.evs()) && text_is(content, t);
    let ghost e1 = xml_event_reader.evs();
    proof { lemma_grown(r0.stack(), xml_event_reader.stack()); }
@loopend 0
    proof { if p0 is Some { assert(p0 == p_text(if e1[0] is Text { Some(or_nothing(t1) + e1[0]->Text_0) } else { t1 }, xml_event_reader.evs())) by { assert(Seq::<char>::empty() + e1[0]->Text_0 =~= e1[0]->Text_0); } } }
@closure 0
    || -> (r: Option<String>) ensures r is Some, r->0@ == chardata@
@closure 1
    |p__0: String| -> (r: Option<String>) ensures r is Some, r->0@ == p__0@ + chardata@
@fn parse_u32
@spec
    requires old(xml_event_reader).stack().len() > 0
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)),
        ({
            let p = p_u32(old(xml_event_reader).evs());
            p is Some ==> (r is Ok ==> r->Ok_0 == Some((p->0).0) && final(xml_event_reader).evs() == (p->0).1) && (r is Err ==> !old(xml_event_reader).firm())
        })
@closure 0
    |num: String| -> (q: std::result::Result<u32, crate::ext::string::ParseIntError>) ensures match q { Ok(x) => u32_of_text(trimmed(num@)) == Some(x), Err(_) => u32_of_text(trimmed(num@)) is None }
@fn parse_uuid
@spec
    requires old(xml_event_reader).stack().len() > 0
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)),
        ({
            let p = p_uuid(old(xml_event_reader).evs());
            p is Some ==> (r is Ok ==> r->Ok_0@ == (p->0).0 && final(xml_event_reader).evs() == (p->0).1) && (r is Err ==> !old(xml_event_reader).firm())
        })
@closure 0
    |uuid: String| -> (q: Option<Uuid>) ensures match q { Some(u) => b64_dec(trimmed(uuid@)) == Some(u@), None => b64_dec(trimmed(uuid@)) is None || (b64_dec(trimmed(uuid@))->0).len() != 16 }
@fn parse_datetime
@spec
    requires old(xml_event_reader).stack().len() > 0
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)),
        ({
            let p = p_date(old(xml_event_reader).evs());
            p is Some ==> (r is Ok ==> r->Ok_0 == (p->0).0 && final(xml_event_reader).evs() == (p->0).1) && (r is Err ==> !old(xml_event_reader).firm())
        })
@start
    broadcast use axiom_dt, axiom_dt_eq;
@closure 0
    |dt: String| -> (q: Option<NaiveDateTime>) ensures date_of(trimmed(dt@)) is Some ==> q == date_of(trimmed(dt@))
@fn parse_bool
@call == => eq_e
@call .unwrap_or_default => unwrap_or_default_e
@spec
    requires old(xml_event_reader).stack().len() > 0
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)),
        ({
            let p = p_bool(old(xml_event_reader).evs());
            p is Some ==> (r is Ok ==> r->Ok_0 == (p->0).0 && final(xml_event_reader).evs() == (p->0).1) && (r is Err ==> !old(xml_event_reader).firm())
        })
@closure 0
    |b: String| -> (q: bool) ensures q == (lowered(trimmed(b@)) == "true"@)
@fn is_protected
@call == => eq_e
@spec
    ensures r == guards(attrs_of(attributes@))
@closure 0
    |attr: &OwnedAttribute| -> (q: bool) ensures q == (attr.name.local_name@ == "Protected"@ && lowered(attr.value@) == "true"@)
@tail
    proof {
        let a = attrs_of(attributes@);
        let it = Seq::new(attributes@.len(), |i: int| &attributes@[i]);
        if r__ {
            let k = choose|k: int| 0 <= k < attributes@.len() && (#[trigger] attributes@[k]).name.local_name@ == "Protected"@ && lowered(attributes@[k].value@) == "true"@;
            assert(a[k].0 == "Protected"@);
        } else if guards(a) {
            let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == "Protected"@ && lowered(a[k].1) == "true"@;
            assert(attributes@[k].name.local_name@ == a[k].0);
        }
    }
@fn skip_element
@call .clear => clear_e
@call .push_str => push_str_e
@call .as_mut => as_mut_e
@spec
    requires old(xml_event_reader).stack().len() > 0
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)) && final(stream_cipher).ks_id() == old(stream_cipher).ks_id(),
        ({
            let p = p_unknown(attrs_of(attributes@), old(xml_event_reader).evs(), old(stream_cipher).ks_pos());
            p is Some ==> (r is Ok ==> final(xml_event_reader).evs() == (p->0).0 && final(stream_cipher).ks_pos() == (p->0).1) && (r is Err ==> !old(xml_event_reader).firm())
        })
@start
    let ghost r0 = *xml_event_reader;
    let ghost s1 = r0.stack().drop_last();
    let ghost id = stream_cipher.ks_id();
    let ghost p0 = p_unknown(attrs_of(attributes@), r0.evs(), stream_cipher.ks_pos());
    proof { assert(r0.stack().take(s1.len() as int) =~= s1); }
@loop 0
    invariant r0.stack().len() > 0, s1 == r0.stack().drop_last(), r0 == *old(xml_event_reader),
        xml_event_reader.firm() == r0.firm(), xml_event_reader.fails() == r0.fails(), grown(s1, xml_event_reader.stack()),
        depth + s1.len() == xml_event_reader.stack().len(), depth != 1 ==> xml_event_reader.evs().len() < r0.evs().len(), xml_event_reader.evs().len() <= r0.evs().len(),
        stream_cipher.ks_id() == id,
        p0 is Some ==> p_skip(depth as nat, protected, contents@, xml_event_reader.evs(), stream_cipher.ks_pos()) == p0,
    decreases xml_event_reader.evs().len()
@loopstart 0
    proof { lemma_grown(s1, xml_event_reader.stack()); }
@fn parse_field
@attr #[verifier::loop_isolation(true)]
@call == => eq_e
@call .as_mut => as_mut_e
@spec
    requires old(xml_event_reader).stack().len() > 0, old(xml_event_reader).stack().last() == tag_name@
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)) && final(stream_cipher).ks_id() == old(stream_cipher).ks_id(),
        ({
            let p = p_field(tag_name@, no_field(), old(xml_event_reader).evs(), old(stream_cipher).ks_id(), old(stream_cipher).ks_pos());
            p is Some ==> (r is Ok ==> field_v(r->Ok_0) == (p->0).0 && final(xml_event_reader).evs() == (p->0).1 && final(stream_cipher).ks_pos() == (p->0).2) && (r is Err ==> !old(xml_event_reader).firm())
        })
@start
    let ghost r0 = *xml_event_reader;
    let ghost (id, pos) = (stream_cipher.ks_id(), stream_cipher.ks_pos());
    proof { lemma_same(r0.stack()); }
    let ghost p0 = p_field(tag_name@, no_field(), r0.evs(), id, pos);
@loop 0
    invariant_except_break onward(r0, *xml_event_reader),
        p0 is Some ==> p_field(tag_name@, field_v(field), xml_event_reader.evs(), id, stream_cipher.ks_pos()) == p0
    invariant p0 == p_field(tag_name@, no_field(), r0.evs(), id, pos), id == old(stream_cipher).ks_id(), pos == old(stream_cipher).ks_pos(), r0.stack().len() > 0, r0.stack().last() == tag_name@, r0 == *old(xml_event_reader), stream_cipher.ks_id() == id
    ensures moved(r0, *xml_event_reader), p0 is Some ==> field_v(field) == (p0->0).0 && xml_event_reader.evs() == (p0->0).1 && stream_cipher.ks_pos() == (p0->0).2
    decreases xml_event_reader.evs().len()
@loopstart 0
    broadcast use lemma_utf8_valid, lemma_utf8_inj;
    proof { lemma_grown(r0.stack(), xml_event_reader.stack()); reveal(p_field);  }
@fn parse_history
@attr #[verifier::loop_isolation(true)]
@call == => eq_e
@spec
    requires old(xml_event_reader).stack().len() > 0, old(xml_event_reader).stack().last() == "History"@
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)) && final(stream_cipher).ks_id() == old(stream_cipher).ks_id(),
        ({
            let p = p_history(Seq::empty(), old(xml_event_reader).evs(), old(stream_cipher).ks_id(), old(stream_cipher).ks_pos());
            p is Some ==> (r is Ok ==> entries_are(r->Ok_0.entries@, (p->0).0) && final(xml_event_reader).evs() == (p->0).1 && final(stream_cipher).ks_pos() == (p->0).2) && (r is Err ==> !old(xml_event_reader).firm())
        })
    decreases old(xml_event_reader).evs().len()
@start
    let ghost r0 = *xml_event_reader;
    let ghost (id, pos) = (stream_cipher.ks_id(), stream_cipher.ks_pos());
    proof { lemma_same(r0.stack()); }
    let ghost p0 = p_history(Seq::empty(), r0.evs(), id, pos);
    broadcast use lemma_entries_none;
@loop 0
    invariant_except_break onward(r0, *xml_event_reader),
        p0 is Some ==> exists|v: Seq<EntryV>| p0 == #[trigger] p_history(v, xml_event_reader.evs(), id, stream_cipher.ks_pos()) && entries_are(history.entries@, v)
    invariant p0 == p_history(Seq::empty(), r0.evs(), id, pos), id == old(stream_cipher).ks_id(), pos == old(stream_cipher).ks_pos(), r0.stack().len() > 0, r0.stack().last() == "History"@, r0 == *old(xml_event_reader), stream_cipher.ks_id() == id
    ensures moved(r0, *xml_event_reader), p0 is Some ==> entries_are(history.entries@, (p0->0).0) && xml_event_reader.evs() == (p0->0).1 && stream_cipher.ks_pos() == (p0->0).2
    decreases xml_event_reader.evs().len()
@loopstart 0
    broadcast use lemma_entries_push;
    let ghost v1 = choose|v: Seq<EntryV>| p0 == #[trigger] p_history(v, xml_event_reader.evs(), id, stream_cipher.ks_pos()) && entries_are(history.entries@, v);
    let ghost s1 = s_history(v1, xml_event_reader.evs(), id, stream_cipher.ks_pos());
    proof { lemma_grown(r0.stack(), xml_event_reader.stack()); reveal(p_history); reveal(p_entry);  }
@loopend 0
    proof { if p0 is Some { assert(p0 == p_history((s1->0).0, xml_event_reader.evs(), id, stream_cipher.ks_pos())); } }
@fn parse_times
@attr #[verifier::loop_isolation(true)]
@call == => eq_e
@call .unwrap_or_default => unwrap_or_default_e
@call NullStreamCipher => crate::utils::null_stream()
@spec
    requires old(xml_event_reader).stack().len() > 0, old(xml_event_reader).stack().last() == "Times"@
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)),
        ({
            let p = p_times(no_times(), old(xml_event_reader).evs());
            p is Some ==> (r is Ok ==> times_is(r->Ok_0, (p->0).0) && final(xml_event_reader).evs() == (p->0).1) && (r is Err ==> !old(xml_event_reader).firm())
        })
@start
    let ghost r0 = *xml_event_reader;
    proof { lemma_same(r0.stack()); }
    let ghost p0 = p_times(no_times(), r0.evs());
@loop 0
    invariant_except_break onward(r0, *xml_event_reader),
        p0 is Some ==> exists|v: TimesV| p0 == #[trigger] p_times(v, xml_event_reader.evs()) && times_is(times, v)
    invariant p0 == p_times(no_times(), r0.evs()), r0.stack().len() > 0, r0.stack().last() == "Times"@, r0 == *old(xml_event_reader)
    ensures moved(r0, *xml_event_reader), p0 is Some ==> times_is(times, (p0->0).0) && xml_event_reader.evs() == (p0->0).1
    decreases xml_event_reader.evs().len()
@loopstart 0
    let ghost v1 = choose|v: TimesV| p0 == #[trigger] p_times(v, xml_event_reader.evs()) && times_is(times, v);
    let ghost s1 = s_times(v1, xml_event_reader.evs());
    proof { lemma_grown(r0.stack(), xml_event_reader.stack()); reveal(p_times);  }
@loopend 0
    proof { if p0 is Some { assert(p0 == p_times((s1->0).0, xml_event_reader.evs())); } }
@fn parse_entry
@attr #[verifier::loop_isolation(true)]
@call == => eq_e
@spec
    requires old(xml_event_reader).stack().len() > 0, old(xml_event_reader).stack().last() == "Entry"@
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)) && final(stream_cipher).ks_id() == old(stream_cipher).ks_id(),
        ({
            let p = p_entry(no_entry(), old(xml_event_reader).evs(), old(stream_cipher).ks_id(), old(stream_cipher).ks_pos());
            p is Some ==> (r is Ok ==> entry_is(r->Ok_0, (p->0).0) && final(xml_event_reader).evs() == (p->0).1 && final(stream_cipher).ks_pos() == (p->0).2) && (r is Err ==> !old(xml_event_reader).firm())
        })
    decreases old(xml_event_reader).evs().len()
@start
    let ghost r0 = *xml_event_reader;
    let ghost (id, pos) = (stream_cipher.ks_id(), stream_cipher.ks_pos());
    proof { lemma_same(r0.stack()); }
    let ghost p0 = p_entry(no_entry(), r0.evs(), id, pos);
    broadcast use lemma_entry_is, lemma_entries_none, lemma_fields_none;
@loop 0
    invariant_except_break onward(r0, *xml_event_reader),
        p0 is Some ==> exists|v: EntryV| p0 == #[trigger] p_entry(v, xml_event_reader.evs(), id, stream_cipher.ks_pos()) && entry_is(entry, v)
    invariant p0 == p_entry(no_entry(), r0.evs(), id, pos), id == old(stream_cipher).ks_id(), pos == old(stream_cipher).ks_pos(), r0.stack().len() > 0, r0.stack().last() == "Entry"@, r0 == *old(xml_event_reader), stream_cipher.ks_id() == id
    ensures moved(r0, *xml_event_reader), p0 is Some ==> entry_is(entry, (p0->0).0) && xml_event_reader.evs() == (p0->0).1 && stream_cipher.ks_pos() == (p0->0).2
    decreases xml_event_reader.evs().len()
@loopstart 0
    broadcast use lemma_entry_is, lemma_fields_push;
    let ghost v1 = choose|v: EntryV| p0 == #[trigger] p_entry(v, xml_event_reader.evs(), id, stream_cipher.ks_pos()) && entry_is(entry, v);
    let ghost s1 = s_entry(v1, xml_event_reader.evs(), id, stream_cipher.ks_pos());
    proof { lemma_grown(r0.stack(), xml_event_reader.stack()); reveal(p_history); reveal(p_entry);  }
@loopend 0
    proof { if p0 is Some { assert(p0 == p_entry((s1->0).0, xml_event_reader.evs(), id, stream_cipher.ks_pos())); } }
@fn parse_group
@attr #[verifier::loop_isolation(true)]
@call == => eq_e
@call .unwrap_or_default => unwrap_or_default_e
@spec
    requires old(xml_event_reader).stack().len() > 0, old(xml_event_reader).stack().last() == "Group"@
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)) && final(stream_cipher).ks_id() == old(stream_cipher).ks_id(),
        ({
            let p = p_group(no_group(), old(xml_event_reader).evs(), old(stream_cipher).ks_id(), old(stream_cipher).ks_pos());
            p is Some ==> (r is Ok ==> group_is(r->Ok_0, (p->0).0) && final(xml_event_reader).evs() == (p->0).1 && final(stream_cipher).ks_pos() == (p->0).2) && (r is Err ==> !old(xml_event_reader).firm())
        })
    decreases old(xml_event_reader).evs().len()
@start
    let ghost r0 = *xml_event_reader;
    let ghost (id, pos) = (stream_cipher.ks_id(), stream_cipher.ks_pos());
    proof { lemma_same(r0.stack()); }
    let ghost p0 = p_group(no_group(), r0.evs(), id, pos);
    broadcast use lemma_group_is, lemma_entries_none, lemma_groups_none;
@loop 0
    invariant_except_break onward(r0, *xml_event_reader),
        p0 is Some ==> exists|v: GroupV| p0 == #[trigger] p_group(v, xml_event_reader.evs(), id, stream_cipher.ks_pos()) && group_is(group, v)
    invariant p0 == p_group(no_group(), r0.evs(), id, pos), id == old(stream_cipher).ks_id(), pos == old(stream_cipher).ks_pos(), r0.stack().len() > 0, r0.stack().last() == "Group"@, r0 == *old(xml_event_reader), stream_cipher.ks_id() == id
    ensures moved(r0, *xml_event_reader), p0 is Some ==> group_is(group, (p0->0).0) && xml_event_reader.evs() == (p0->0).1 && stream_cipher.ks_pos() == (p0->0).2
    decreases xml_event_reader.evs().len()
@loopstart 0
    broadcast use lemma_group_is, lemma_entries_push, lemma_groups_push;
    let ghost v1 = choose|v: GroupV| p0 == #[trigger] p_group(v, xml_event_reader.evs(), id, stream_cipher.ks_pos()) && group_is(group, v);
    let ghost s1 = s_group(v1, xml_event_reader.evs(), id, stream_cipher.ks_pos());
    proof { lemma_grown(r0.stack(), xml_event_reader.stack()); reveal(p_group);  }
@loopend 0
    proof { if p0 is Some { assert(p0 == p_group((s1->0).0, xml_event_reader.evs(), id, stream_cipher.ks_pos())); } }
@fn parse_root
@attr #[verifier::loop_isolation(true)]
@call == => eq_e
@spec
    requires old(xml_event_reader).stack().len() > 0, old(xml_event_reader).stack().last() == "Root"@
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)) && final(stream_cipher).ks_id() == old(stream_cipher).ks_id(),
        ({
            let p = p_root(Seq::empty(), old(xml_event_reader).evs(), old(stream_cipher).ks_id(), old(stream_cipher).ks_pos());
            p is Some ==> (r is Ok ==> groups_are(r->Ok_0@, (p->0).0) && final(xml_event_reader).evs() == (p->0).1 && final(stream_cipher).ks_pos() == (p->0).2) && (r is Err ==> !old(xml_event_reader).firm())
        })
@start
    let ghost r0 = *xml_event_reader;
    let ghost (id, pos) = (stream_cipher.ks_id(), stream_cipher.ks_pos());
    proof { lemma_same(r0.stack()); }
    let ghost p0 = p_root(Seq::empty(), r0.evs(), id, pos);
    broadcast use lemma_groups_none;
@loop 0
    invariant_except_break onward(r0, *xml_event_reader),
        p0 is Some ==> exists|v: Seq<GroupV>| p0 == #[trigger] p_root(v, xml_event_reader.evs(), id, stream_cipher.ks_pos()) && groups_are(groups@, v)
    invariant p0 == p_root(Seq::empty(), r0.evs(), id, pos), id == old(stream_cipher).ks_id(), pos == old(stream_cipher).ks_pos(), r0.stack().len() > 0, r0.stack().last() == "Root"@, r0 == *old(xml_event_reader), stream_cipher.ks_id() == id
    ensures moved(r0, *xml_event_reader), p0 is Some ==> groups_are(groups@, (p0->0).0) && xml_event_reader.evs() == (p0->0).1 && stream_cipher.ks_pos() == (p0->0).2
    decreases xml_event_reader.evs().len()
@loopstart 0
    broadcast use lemma_groups_push;
    let ghost v1 = choose|v: Seq<GroupV>| p0 == #[trigger] p_root(v, xml_event_reader.evs(), id, stream_cipher.ks_pos()) && groups_are(groups@, v);
    let ghost s1 = s_root(v1, xml_event_reader.evs(), id, stream_cipher.ks_pos());
    proof { lemma_grown(r0.stack(), xml_event_reader.stack()); reveal(p_root);  }
@loopend 0
    proof { if p0 is Some { assert(p0 == p_root((s1->0).0, xml_event_reader.evs(), id, stream_cipher.ks_pos())); } }
@fn parse_custom_data
@attr #[verifier::loop_isolation(true)]
@call == => eq_e
@spec
    requires old(xml_event_reader).stack().len() > 0, old(xml_event_reader).stack().last() == "CustomData"@
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)) && final(stream_cipher).ks_id() == old(stream_cipher).ks_id(),
        ({
            let p = p_custom_data(Seq::empty(), old(xml_event_reader).evs(), old(stream_cipher).ks_id(), old(stream_cipher).ks_pos());
            p is Some ==> (r is Ok ==> fields_v(r->Ok_0@) == (p->0).0 && final(xml_event_reader).evs() == (p->0).1 && final(stream_cipher).ks_pos() == (p->0).2) && (r is Err ==> !old(xml_event_reader).firm())
        })
@start
    let ghost r0 = *xml_event_reader;
    let ghost (id, pos) = (stream_cipher.ks_id(), stream_cipher.ks_pos());
    proof { lemma_same(r0.stack()); }
    let ghost p0 = p_custom_data(Seq::empty(), r0.evs(), id, pos);
    broadcast use lemma_fields_none;
@loop 0
    invariant_except_break onward(r0, *xml_event_reader),
        p0 is Some ==> p_custom_data(fields_v(fields@), xml_event_reader.evs(), id, stream_cipher.ks_pos()) == p0
    invariant p0 == p_custom_data(Seq::empty(), r0.evs(), id, pos), id == old(stream_cipher).ks_id(), pos == old(stream_cipher).ks_pos(), r0.stack().len() > 0, r0.stack().last() == "CustomData"@, r0 == *old(xml_event_reader), stream_cipher.ks_id() == id
    ensures moved(r0, *xml_event_reader), p0 is Some ==> fields_v(fields@) == (p0->0).0 && xml_event_reader.evs() == (p0->0).1 && stream_cipher.ks_pos() == (p0->0).2
    decreases xml_event_reader.evs().len()
@loopstart 0
    broadcast use lemma_fields_push;
    proof { lemma_grown(r0.stack(), xml_event_reader.stack()); reveal(p_custom_data);  }
@fn parse_memory_protection
@attr #[verifier::loop_isolation(true)]
@call == => eq_e
@call NullStreamCipher => crate::utils::null_stream()
@call .as_ref => as_ref_e
@spec
    requires old(xml_event_reader).stack().len() > 0, old(xml_event_reader).stack().last() == "MemoryProtection"@
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)),
        ({
            let p = p_memory_protection(no_guard(), old(xml_event_reader).evs());
            p is Some ==> (r is Ok ==> guard_is(r->Ok_0, (p->0).0) && final(xml_event_reader).evs() == (p->0).1) && (r is Err ==> !old(xml_event_reader).firm())
        })
@start
    let ghost r0 = *xml_event_reader;
    proof { lemma_same(r0.stack()); }
    let ghost p0 = p_memory_protection(no_guard(), r0.evs());
@loop 0
    invariant_except_break onward(r0, *xml_event_reader),
        p0 is Some ==> exists|v: GuardV| p0 == #[trigger] p_memory_protection(v, xml_event_reader.evs()) && guard_is(protection, v)
    invariant p0 == p_memory_protection(no_guard(), r0.evs()), r0.stack().len() > 0, r0.stack().last() == "MemoryProtection"@, r0 == *old(xml_event_reader)
    ensures moved(r0, *xml_event_reader), p0 is Some ==> guard_is(protection, (p0->0).0) && xml_event_reader.evs() == (p0->0).1
    decreases xml_event_reader.evs().len()
@loopstart 0
    let ghost v1 = choose|v: GuardV| p0 == #[trigger] p_memory_protection(v, xml_event_reader.evs()) && guard_is(protection, v);
    let ghost s1 = s_memory_protection(v1, xml_event_reader.evs());
    proof { lemma_grown(r0.stack(), xml_event_reader.stack()); reveal(p_memory_protection);  }
@loopend 0
    proof { if p0 is Some { assert(p0 == p_memory_protection((s1->0).0, xml_event_reader.evs())); } }
@fn parse_meta
@attr #[verifier::loop_isolation(true)]
@call == => eq_e
@call .unwrap_or_default => unwrap_or_default_e
@call .as_ref => as_ref_e
@spec
    requires old(xml_event_reader).stack().len() > 0, old(xml_event_reader).stack().last() == "Meta"@
    ensures r is Ok ==> moved(*old(xml_event_reader), *final(xml_event_reader)) && final(stream_cipher).ks_id() == old(stream_cipher).ks_id(),
        ({
            let p = p_meta(no_meta(), old(xml_event_reader).evs(), old(stream_cipher).ks_id(), old(stream_cipher).ks_pos());
            p is Some ==> (r is Ok ==> meta_is(r->Ok_0, (p->0).0) && final(xml_event_reader).evs() == (p->0).1 && final(stream_cipher).ks_pos() == (p->0).2) && (r is Err ==> !old(xml_event_reader).firm())
        })
@start
    let ghost r0 = *xml_event_reader;
    let ghost (id, pos) = (stream_cipher.ks_id(), stream_cipher.ks_pos());
    proof { lemma_same(r0.stack()); }
    let ghost p0 = p_meta(no_meta(), r0.evs(), id, pos);
@loop 0
    invariant_except_break onward(r0, *xml_event_reader),
        p0 is Some ==> exists|v: MetaV| p0 == #[trigger] p_meta(v, xml_event_reader.evs(), id, stream_cipher.ks_pos()) && meta_is(meta, v)
    invariant p0 == p_meta(no_meta(), r0.evs(), id, pos), id == old(stream_cipher).ks_id(), pos == old(stream_cipher).ks_pos(), r0.stack().len() > 0, r0.stack().last() == "Meta"@, r0 == *old(xml_event_reader), stream_cipher.ks_id() == id
    ensures moved(r0, *xml_event_reader), p0 is Some ==> meta_is(meta, (p0->0).0) && xml_event_reader.evs() == (p0->0).1 && stream_cipher.ks_pos() == (p0->0).2
    decreases xml_event_reader.evs().len()
@loopstart 0
    let ghost v1 = choose|v: MetaV| p0 == #[trigger] p_meta(v, xml_event_reader.evs(), id, stream_cipher.ks_pos()) && meta_is(meta, v);
    let ghost s1 = s_meta(v1, xml_event_reader.evs(), id, stream_cipher.ks_pos());
    proof { lemma_grown(r0.stack(), xml_event_reader.stack()); reveal(p_meta);  }
@loopend 0
    proof { if p0 is Some { assert(p0 == p_meta((s1->0).0, xml_event_reader.evs(), id, stream_cipher.ks_pos())); } }
@fn parse_file
@attr #[verifier::loop_isolation(true)]
@call == => eq_e
@spec
    ensures r is Ok ==> final(stream_cipher).ks_id() == old(stream_cipher).ks_id(),
        ({
            let p = p_file(no_db(), old(xml_event_reader).evs(), old(stream_cipher).ks_id(), old(stream_cipher).ks_pos());
            p is Some ==> (r is Ok ==> says(r->Ok_0, (p->0).0) && final(xml_event_reader).evs() == (p->0).1 && final(stream_cipher).ks_pos() == (p->0).2) && (r is Err ==> !old(xml_event_reader).firm())
        })
@start
    let ghost r0 = *xml_event_reader;
    let ghost (id, pos) = (stream_cipher.ks_id(), stream_cipher.ks_pos());
    broadcast use lemma_groups_none;
    let ghost p0 = p_file(no_db(), r0.evs(), id, pos);
@loop 0
    invariant_except_break xml_event_reader.firm() == r0.firm(), xml_event_reader.fails() == r0.fails(),
        p0 is Some ==> exists|v: DbV| p0 == #[trigger] p_file(v, xml_event_reader.evs(), id, stream_cipher.ks_pos()) && says(db, v)
    invariant p0 == p_file(no_db(), r0.evs(), id, pos), id == old(stream_cipher).ks_id(), pos == old(stream_cipher).ks_pos(), r0 == *old(xml_event_reader), stream_cipher.ks_id() == id
    ensures p0 is Some ==> says(db, (p0->0).0) && ((p0->0).0).groups is Some && (((p0->0).0).groups->0).len() > 0 && xml_event_reader.evs() == (p0->0).1 && stream_cipher.ks_pos() == (p0->0).2
    decreases xml_event_reader.evs().len()
@loopstart 0
    let ghost v1 = choose|v: DbV| p0 == #[trigger] p_file(v, xml_event_reader.evs(), id, stream_cipher.ks_pos()) && says(db, v);
    let ghost s1 = s_file(v1, xml_event_reader.evs(), id, stream_cipher.ks_pos());
    proof { reveal(p_file);  }
@loopend 0
    proof { if p0 is Some { assert(p0 == p_file((s1->0).0, xml_event_reader.evs(), id, stream_cipher.ks_pos())); } }
@fn parse_xml
@spec
    requires xml_data.wf()
    ensures
        r is Ok && xml_data.clean() ==> db_is(xml_data.rem(), old(stream_cipher).ks_id(), old(stream_cipher).ks_pos(), r->Ok_0),
        r is Err && xml_data.reliable() && xml_data.clean() ==> !xml_ok(xml_data.rem(), old(stream_cipher).ks_id(), old(stream_cipher).ks_pos()),
