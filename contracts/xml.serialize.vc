@prelude
use crate::ext::io::{Write as _, wrote};
use crate::ext::cipher::{StreamCipher as _, xored};
use crate::ext::base64::prelude::{b64, axiom_b64_text};
use crate::ext::string::{utf8, dec_text, lemma_dec_digits, AsStrE as _};
use crate::ext::xml::common_ev::{Ev, xml_char, xml_text, known_name};
use crate::ext::xml::writer::{emitted, valid, blank};
use crate::xml::decoders::date_text;
use crate::database::is_refs;
pub open spec fn nothing() -> Seq<(Seq<char>, Seq<char>)> { Seq::empty() }
/// the attribute of protected values
pub open spec fn guarded() -> Seq<(Seq<char>, Seq<char>)> { Seq::empty().push(("Protected"@, "True"@)) }
pub open spec fn tag(n: Seq<char>, t: Seq<char>) -> Seq<Ev> { seq![Ev::Start(n, nothing()), Ev::Text(t), Ev::End(n)] }
pub open spec fn bool_text(b: bool) -> Seq<char> { if b { "True"@ } else { "False"@ } }
/// a value: protected text only as base64 of its encryption
pub open spec fn value_ev(v: Value, id: Seq<u8>, pos: nat) -> Seq<Ev> {
    match v {
        Value::Protected(s) => seq![Ev::Start("Value"@, guarded()), Ev::Text(b64(xored(id, pos, utf8(s@)))), Ev::End("Value"@)],
        Value::Standard(s) => tag("Value"@, s@),
        Value::Empty => seq![Ev::Start("Value"@, nothing()), Ev::End("Value"@)],
        Value::ProtectEmpty => seq![Ev::Start("Value"@, guarded()), Ev::End("Value"@)],
    }
}
/// how much key stream it takes
pub open spec fn value_use(v: Value) -> nat { match v { Value::Protected(s) => utf8(s@).len(), _ => 0 } }
pub open spec fn field_ev(w: Seq<char>, f: Field, id: Seq<u8>, pos: nat) -> Seq<Ev> {
    seq![Ev::Start(w, nothing())] + tag("Key"@, f.key@) + value_ev(f.value, id, pos) + seq![Ev::End(w)]
}
/// has a name and can be represented
pub open spec fn field_ok(f: Field) -> bool { f.key@.len() > 0 && xml_text(f.key@) && (f.value is Standard ==> xml_text(f.value->Standard_0@)) }
pub open spec fn fields_ok(fs: Seq<Field>) -> bool { forall|i: int| 0 <= i < fs.len() ==> field_ok(#[trigger] fs[i]) }
#[verifier::opaque]
pub open spec fn fields_ev(w: Seq<char>, fs: Seq<Field>, id: Seq<u8>, pos: nat) -> Seq<Ev> decreases fs.len() {
    if fs.len() == 0 { Seq::empty() } else { fields_ev(w, fs.drop_last(), id, pos) + field_ev(w, fs.last(), id, pos + fields_use(fs.drop_last())) }
}
#[verifier::opaque]
pub open spec fn fields_use(fs: Seq<Field>) -> nat decreases fs.len() {
    if fs.len() == 0 { 0 } else { fields_use(fs.drop_last()) + value_use(fs.last().value) }
}
#[verifier::opaque]
pub open spec fn protection_ev(p: MemoryProtection) -> Seq<Ev> {
    seq![Ev::Start("MemoryProtection"@, nothing())] + tag("ProtectUserName"@, bool_text(p.protect_user_name))
        + tag("ProtectPassword"@, bool_text(p.protect_password)) + tag("ProtectTitle"@, bool_text(p.protect_title))
        + tag("ProtectNotes"@, bool_text(p.protect_notes)) + tag("ProtectURL"@, bool_text(p.protect_url))
        + seq![Ev::End("MemoryProtection"@)]
}
pub open spec fn meta_ev(m: Meta, id: Seq<u8>, pos: nat) -> Seq<Ev> {
    seq![Ev::Start("Meta"@, nothing())] + tag("Generator"@, "kdbx-rs"@) + tag("DatabaseName"@, m.database_name@)
        + tag("DatabaseDescription"@, m.database_description@) + seq![Ev::Start("CustomData"@, nothing())]
        + fields_ev("Item"@, m.custom_data@, id, pos) + seq![Ev::End("CustomData"@)] + protection_ev(m.memory_protection) + seq![Ev::End("Meta"@)]
}
pub open spec fn meta_ok(m: Meta) -> bool { xml_text(m.database_name@) && xml_text(m.database_description@) && fields_ok(m.custom_data@) }
#[verifier::opaque]
pub open spec fn times_ev(t: Times) -> Seq<Ev> {
    seq![Ev::Start("Times"@, nothing())] + tag("LastModificationTime"@, date_text(t.last_modification_time)) + tag("CreationTime"@, date_text(t.creation_time))
        + tag("LastAccessTime"@, date_text(t.last_access_time)) + tag("LocationChanged"@, date_text(t.location_changed))
        + tag("ExpiryTime"@, date_text(t.expiry_time)) + tag("UsageCount"@, dec_text(t.usage_count as int)) + tag("Expires"@, bool_text(t.expires))
        + seq![Ev::End("Times"@)]
}
pub open spec fn entry_use(e: Entry) -> nat decreases e { fields_use(e.fields@) + entries_use(e.history.entries@) }
#[verifier::opaque]
pub open spec fn entries_use(es: Seq<Entry>) -> nat decreases es {
    if es.len() == 0 { 0 } else { entries_use(es.drop_last()) + entry_use(es.last()) }
}
pub open spec fn entry_ev(e: Entry, id: Seq<u8>, pos: nat) -> Seq<Ev> decreases e {
    seq![Ev::Start("Entry"@, nothing())] + tag("UUID"@, b64(e.uuid@)) + times_ev(e.times) + fields_ev("String"@, e.fields@, id, pos)
        + (if e.history.entries@.len() > 0 {
            seq![Ev::Start("History"@, nothing())] + entries_ev(e.history.entries@, id, pos + fields_use(e.fields@)) + seq![Ev::End("History"@)]
        } else { Seq::empty() })
        + seq![Ev::End("Entry"@)]
}
#[verifier::opaque]
pub open spec fn entries_ev(es: Seq<Entry>, id: Seq<u8>, pos: nat) -> Seq<Ev> decreases es {
    if es.len() == 0 { Seq::empty() } else { entries_ev(es.drop_last(), id, pos) + entry_ev(es.last(), id, pos + entries_use(es.drop_last())) }
}
pub open spec fn entry_ok(e: Entry) -> bool decreases e { fields_ok(e.fields@) && entries_ok(e.history.entries@) }
#[verifier::opaque]
pub open spec fn entries_ok(es: Seq<Entry>) -> bool decreases es { es.len() == 0 || (entries_ok(es.drop_last()) && entry_ok(es.last())) }
pub open spec fn group_use(g: Group) -> nat decreases g { entries_use(g.entries@) + groups_use(g.groups@) }
#[verifier::opaque]
pub open spec fn groups_use(gs: Seq<Group>) -> nat decreases gs { if gs.len() == 0 { 0 } else { groups_use(gs.drop_last()) + group_use(gs.last()) } }
pub open spec fn group_ev(g: Group, id: Seq<u8>, pos: nat) -> Seq<Ev> decreases g {
    seq![Ev::Start("Group"@, nothing())] + tag("UUID"@, b64(g.uuid@)) + tag("Name"@, g.name@) + times_ev(g.times) + entries_ev(g.entries@, id, pos)
        + groups_ev(g.groups@, id, pos + entries_use(g.entries@)) + seq![Ev::End("Group"@)]
}
#[verifier::opaque]
pub open spec fn groups_ev(gs: Seq<Group>, id: Seq<u8>, pos: nat) -> Seq<Ev> decreases gs {
    if gs.len() == 0 { Seq::empty() } else { groups_ev(gs.drop_last(), id, pos) + group_ev(gs.last(), id, pos + groups_use(gs.drop_last())) }
}
pub open spec fn group_ok(g: Group) -> bool decreases g { xml_text(g.name@) && entries_ok(g.entries@) && groups_ok(g.groups@) }
#[verifier::opaque]
pub open spec fn groups_ok(gs: Seq<Group>) -> bool decreases gs { gs.len() == 0 || (groups_ok(gs.drop_last()) && group_ok(gs.last())) }
pub proof fn lemma_fields(w: Seq<char>, s: Seq<Field>, n: int, id: Seq<u8>, pos: nat)
    requires 0 <= n < s.len()
    ensures fields_ev(w, s.take(n + 1), id, pos) == fields_ev(w, s.take(n), id, pos) + field_ev(w, s[n], id, pos + fields_use(s.take(n))),
        fields_use(s.take(n + 1)) == fields_use(s.take(n)) + value_use(s[n].value)
{
    reveal(fields_ev);
    reveal(fields_use);
    assert(s.take(n + 1).drop_last() =~= s.take(n));
}
pub proof fn lemma_no_fields(w: Seq<char>, s: Seq<Field>, id: Seq<u8>, pos: nat)
    requires s.len() == 0
    ensures fields_ev(w, s, id, pos) == Seq::<Ev>::empty(), fields_use(s) == 0
{ reveal(fields_ev); reveal(fields_use); }
pub proof fn lemma_entries(s: Seq<Entry>, n: int, id: Seq<u8>, pos: nat)
    requires 0 <= n < s.len()
    ensures entries_ev(s.take(n + 1), id, pos) == entries_ev(s.take(n), id, pos) + entry_ev(s[n], id, pos + entries_use(s.take(n))),
        entries_use(s.take(n + 1)) == entries_use(s.take(n)) + entry_use(s[n]),
        entries_ok(s.take(0)), entries_ok(s.take(n + 1)) <==> entries_ok(s.take(n)) && entry_ok(s[n]), entries_ok(s) ==> entry_ok(s[n])
{
    reveal(entries_ev);
    reveal(entries_use);
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    reveal(entries_ok);
    if entries_ok(s) { lemma_entries_ok(s, n); }
}
pub proof fn lemma_no_entries(s: Seq<Entry>, id: Seq<u8>, pos: nat)
    requires s.len() == 0
    ensures entries_ev(s, id, pos) == Seq::<Ev>::empty(), entries_use(s) == 0, entries_ok(s)
{ reveal(entries_ev); reveal(entries_use); reveal(entries_ok); }
pub proof fn lemma_entries_ok(s: Seq<Entry>, n: int)
    requires entries_ok(s), 0 <= n < s.len()
    ensures entry_ok(s[n])
    decreases s.len()
{
    reveal(entries_ok);
    if n < s.len() - 1 { lemma_entries_ok(s.drop_last(), n); }
}
pub proof fn lemma_groups(s: Seq<Group>, n: int, id: Seq<u8>, pos: nat)
    requires 0 <= n < s.len()
    ensures groups_ev(s.take(n + 1), id, pos) == groups_ev(s.take(n), id, pos) + group_ev(s[n], id, pos + groups_use(s.take(n))),
        groups_use(s.take(n + 1)) == groups_use(s.take(n)) + group_use(s[n]),
        groups_ok(s.take(0)), groups_ok(s.take(n + 1)) <==> groups_ok(s.take(n)) && group_ok(s[n]), groups_ok(s) ==> group_ok(s[n])
{
    reveal(groups_ev);
    reveal(groups_use);
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    reveal(groups_ok);
    if groups_ok(s) { lemma_groups_ok(s, n); }
}
pub proof fn lemma_no_groups(s: Seq<Group>, id: Seq<u8>, pos: nat)
    requires s.len() == 0
    ensures groups_ev(s, id, pos) == Seq::<Ev>::empty(), groups_use(s) == 0, groups_ok(s)
{ reveal(groups_ev); reveal(groups_use); reveal(groups_ok); }
pub proof fn lemma_groups_ok(s: Seq<Group>, n: int)
    requires groups_ok(s), 0 <= n < s.len()
    ensures group_ok(s[n])
    decreases s.len()
{
    reveal(groups_ok);
    if n < s.len() - 1 { lemma_groups_ok(s.drop_last(), n); }
}
/// the parts of an entry and of a group
pub open spec fn history_ev(e: Entry, id: Seq<u8>, pos: nat) -> Seq<Ev> {
    if e.history.entries@.len() > 0 { seq![Ev::Start("History"@, nothing())] + entries_ev(e.history.entries@, id, pos) + seq![Ev::End("History"@)] } else { Seq::empty() }
}
pub proof fn lemma_entry(e: Entry, id: Seq<u8>, pos: nat)
    ensures entry_ev(e, id, pos) == seq![Ev::Start("Entry"@, nothing())] + tag("UUID"@, b64(e.uuid@)) + times_ev(e.times) + fields_ev("String"@, e.fields@, id, pos)
            + history_ev(e, id, pos + fields_use(e.fields@)) + seq![Ev::End("Entry"@)],
        entry_use(e) == fields_use(e.fields@) + entries_use(e.history.entries@),
        entry_ok(e) <==> fields_ok(e.fields@) && entries_ok(e.history.entries@)
{ reveal(entries_ev); reveal(entries_use); reveal(entries_ok); }
pub proof fn lemma_group(g: Group, id: Seq<u8>, pos: nat)
    ensures group_ev(g, id, pos) == seq![Ev::Start("Group"@, nothing())] + tag("UUID"@, b64(g.uuid@)) + tag("Name"@, g.name@) + times_ev(g.times) + entries_ev(g.entries@, id, pos)
        + groups_ev(g.groups@, id, pos + entries_use(g.entries@)) + seq![Ev::End("Group"@)],
        group_use(g) == entries_use(g.entries@) + groups_use(g.groups@),
        group_ok(g) <==> xml_text(g.name@) && entries_ok(g.entries@) && groups_ok(g.groups@)
{ reveal(groups_ev); reveal(groups_use); reveal(groups_ok); }
/// the whole document
pub open spec fn db_ev(db: Database, id: Seq<u8>, pos: nat) -> Seq<Ev> {
    seq![Ev::Start("KeePassFile"@, nothing())] + meta_ev(db.meta, id, pos) + seq![Ev::Start("Root"@, nothing())]
        + groups_ev(db.groups@, id, pos + fields_use(db.meta.custom_data@)) + seq![Ev::End("Root"@)] + seq![Ev::End("KeePassFile"@)]
}
pub open spec fn db_use(db: Database) -> nat { fields_use(db.meta.custom_data@) + groups_use(db.groups@) }
pub open spec fn db_ok(db: Database) -> bool { meta_ok(db.meta) && groups_ok(db.groups@) }
/// b is the XML document written for the database, with the key stream used from the given position on
pub open spec fn xml_form(db: Database, ks: Seq<u8>, pos: nat, b: Seq<u8>) -> bool {
    db_ok(db) && valid(db_ev(db, ks, pos), Seq::empty()) && exists|c: xml::EmitterConfig| blank(c) && b == #[trigger] emitted(db_ev(db, ks, pos), c)
}
@fn write_bool_tag
@spec
    requires old(writer).inv(), old(writer).open@.len() > 0, known_name(name@)
    ensures r is Ok ==> old(writer).kept(final(writer)) && final(writer).open@ == old(writer).open@ && final(writer).done@ == old(writer).done@ + tag(name@, bool_text(value)),
        old(writer).sink.steady() ==> r is Ok
@start
    proof { reveal_strlit("True"); reveal_strlit("False"); }
    let ghost d = writer.done@;
    let ghost o = writer.open@;
@tail
    proof {
        assert(writer.done@ =~= d + tag(name@, bool_text(value)));
        assert(writer.open@ =~= o);
    }
@fn is_xml_char
@spec
    ensures r == xml_char(c)
@fn write_string_tag
@call .as_ref => as_ref_e
@spec
    requires old(writer).inv(), old(writer).open@.len() > 0, known_name(name@)
    ensures r is Ok ==> old(writer).kept(final(writer)) && final(writer).open@ == old(writer).open@ && final(writer).done@ == old(writer).done@ + tag(name@, value.str_text())
            && xml_text(value.str_text()),
        old(writer).sink.steady() && xml_text(value.str_text()) ==> r is Ok
@start
    let ghost d = writer.done@;
    let ghost o = writer.open@;
@tail
    proof {
        assert(writer.done@ =~= d + tag(name@, value.str_text()));
        assert(writer.open@ =~= o);
    }
@fn write_field
@call .is_empty => is_empty_e
@spec
    requires old(writer).inv(), old(writer).open@.len() > 0, known_name(wrapper@)
    ensures r is Ok ==> old(writer).kept(final(writer)) && final(writer).open@ == old(writer).open@
            && final(writer).done@ == old(writer).done@ + field_ev(wrapper@, *field, old(stream_cipher).ks_id(), old(stream_cipher).ks_pos())
            && final(stream_cipher).ks_id() == old(stream_cipher).ks_id() && final(stream_cipher).ks_pos() == old(stream_cipher).ks_pos() + value_use(field.value)
            && field_ok(*field),
        old(writer).sink.steady() && field_ok(*field) ==> r is Ok
@start
    proof { reveal_strlit("True"); }
    broadcast use axiom_b64_text;
    let ghost d = writer.done@;
    let ghost o = writer.open@;
    let ghost (id, pos) = (stream_cipher.ks_id(), stream_cipher.ks_pos());
@tail
    proof {
        assert(writer.done@ =~= d + field_ev(wrapper@, *field, id, pos));
        assert(writer.open@ =~= o);
    }
@fn write_memory_protection
@spec
    requires old(writer).inv(), old(writer).open@.len() > 0
    ensures r is Ok ==> old(writer).kept(final(writer)) && final(writer).open@ == old(writer).open@ && final(writer).done@ == old(writer).done@ + protection_ev(*protection),
        old(writer).sink.steady() ==> r is Ok
@start
    let ghost d = writer.done@;
    let ghost o = writer.open@;
@tail
    proof {
        reveal(protection_ev);
        assert(writer.done@ =~= d + protection_ev(*protection));
        assert(writer.open@ =~= o);
    }
@fn write_meta
@spec
    requires old(writer).inv(), old(writer).open@.len() > 0
    ensures r is Ok ==> old(writer).kept(final(writer)) && final(writer).open@ == old(writer).open@
            && final(writer).done@ == old(writer).done@ + meta_ev(*meta, old(stream_cipher).ks_id(), old(stream_cipher).ks_pos())
            && final(stream_cipher).ks_id() == old(stream_cipher).ks_id() && final(stream_cipher).ks_pos() == old(stream_cipher).ks_pos() + fields_use(meta.custom_data@)
            && meta_ok(*meta),
        old(writer).sink.steady() && meta_ok(*meta) ==> r is Ok
@start
    proof { reveal_strlit("kdbx-rs"); }
    let ghost w0 = *writer;
    let ghost o = writer.open@;
    let ghost (id, pos) = (stream_cipher.ks_id(), stream_cipher.ks_pos());
    let ghost fs = meta.custom_data@;
    let ghost mut n: int = 0;
    proof { assert(fs.take(0) =~= Seq::empty()); }
@before for field in &meta.custom_data
    let ghost d = writer.done@;
    let ghost o1 = writer.open@;
    proof { lemma_no_fields("Item"@, fs.take(0), id, pos); assert(d + fields_ev("Item"@, fs.take(0), id, pos) =~= d); }
@loop 0
    invariant 0 <= n <= fs.len(), fs == meta.custom_data@, is_refs(it__0@, fs.skip(n)), o1.len() > 0,
        w0.kept(writer), writer.open@ == o1, writer.done@ == d + fields_ev("Item"@, fs.take(n), id, pos),
        stream_cipher.ks_id() == id, stream_cipher.ks_pos() == pos + fields_use(fs.take(n)), fields_ok(fs.take(n))
    decreases it__0@.len()
@loopstart 0
    proof {
        assert(*field == fs[n]);
        lemma_fields("Item"@, fs, n, id, pos);
        assert(fs.skip(n).skip(1) =~= fs.skip(n + 1));
        n = n + 1;
    }
@loopend 0
    proof { assert(writer.done@ =~= d + fields_ev("Item"@, fs.take(n), id, pos)); }
@tail
    proof {
        assert(fs.take(n) =~= fs);
        assert(writer.done@ =~= w0.done@ + meta_ev(*meta, id, pos));
        assert(writer.open@ =~= o);
    }
@fn write_times
@spec
    requires old(writer).inv(), old(writer).open@.len() > 0
    ensures r is Ok ==> old(writer).kept(final(writer)) && final(writer).open@ == old(writer).open@ && final(writer).done@ == old(writer).done@ + times_ev(*times),
        old(writer).sink.steady() ==> r is Ok
@start
    broadcast use axiom_b64_text, lemma_dec_digits;
    let ghost d = writer.done@;
    let ghost o = writer.open@;
@tail
    proof {
        reveal(times_ev);
        assert(writer.done@ =~= d + times_ev(*times));
        assert(writer.open@ =~= o);
    }
@fn write_entry
@spec
    requires old(writer).inv(), old(writer).open@.len() > 0
    ensures r is Ok ==> old(writer).kept(final(writer)) && final(writer).open@ == old(writer).open@
            && final(writer).done@ == old(writer).done@ + entry_ev(*entry, old(stream_cipher).ks_id(), old(stream_cipher).ks_pos())
            && final(stream_cipher).ks_id() == old(stream_cipher).ks_id() && final(stream_cipher).ks_pos() == old(stream_cipher).ks_pos() + entry_use(*entry)
            && entry_ok(*entry),
        old(writer).sink.steady() && entry_ok(*entry) ==> r is Ok
    decreases *entry
@start
    broadcast use axiom_b64_text;
    proof { }
    let ghost w0 = *writer;
    let ghost o = writer.open@;
    let ghost (id, pos) = (stream_cipher.ks_id(), stream_cipher.ks_pos());
    let ghost fs = entry.fields@;
    let ghost es = entry.history.entries@;
    let ghost mut n: int = 0;
    let ghost mut m: int = 0;
    proof { lemma_entry(*entry, id, pos); assert(fs.take(0) =~= Seq::empty()); assert(es.take(0) =~= Seq::empty()); }
@before for field in entry.fields()
    let ghost d = writer.done@;
    let ghost o1 = writer.open@;
    proof { lemma_no_fields("String"@, fs.take(0), id, pos); assert(d + fields_ev("String"@, fs.take(0), id, pos) =~= d); }
@loop 0
    invariant 0 <= n <= fs.len(), fs == entry.fields@, is_refs(it__0@, fs.skip(n)), o1.len() > 0,
        w0.kept(writer), writer.open@ == o1, writer.done@ == d + fields_ev("String"@, fs.take(n), id, pos),
        stream_cipher.ks_id() == id, stream_cipher.ks_pos() == pos + fields_use(fs.take(n)), fields_ok(fs.take(n))
    decreases it__0@.len()
@loopstart 0
    proof {
        assert(*field == fs[n]);
        lemma_fields("String"@, fs, n, id, pos);
        assert(fs.skip(n).skip(1) =~= fs.skip(n + 1));
        n = n + 1;
    }
@loopend 0
    proof { assert(writer.done@ =~= d + fields_ev("String"@, fs.take(n), id, pos)); }
@before for old_entry in
    let ghost d2 = writer.done@;
    let ghost o2 = writer.open@;
    let ghost pos2 = stream_cipher.ks_pos();
    proof { lemma_no_entries(es.take(0), id, pos2); assert(d2 + entries_ev(es.take(0), id, pos2) =~= d2); }
@loop 1
    invariant 0 <= m <= es.len(), es == entry.history.entries@, is_refs(it__1@, es.skip(m)), o2.len() > 0,
        w0.kept(writer), writer.open@ == o2, writer.done@ == d2 + entries_ev(es.take(m), id, pos2),
        stream_cipher.ks_id() == id, stream_cipher.ks_pos() == pos2 + entries_use(es.take(m)), entries_ok(es.take(m))
    decreases it__1@.len()
@loopstart 1
    proof {
        assert(*old_entry == es[m]);
        lemma_entries(es, m, id, pos2);
        assert(es.skip(m).skip(1) =~= es.skip(m + 1));
        m = m + 1;
    }
@loopend 1
    proof { assert(writer.done@ =~= d2 + entries_ev(es.take(m), id, pos2)); }
@tail
    proof {
        assert(fs.take(n) =~= fs);
        assert(es.take(m) =~= es);
        assert(writer.done@ =~= w0.done@ + entry_ev(*entry, id, pos));
        assert(writer.open@ =~= o);
    }
@fn write_group
@spec
    requires old(writer).inv(), old(writer).open@.len() > 0
    ensures r is Ok ==> old(writer).kept(final(writer)) && final(writer).open@ == old(writer).open@
            && final(writer).done@ == old(writer).done@ + group_ev(*group, old(stream_cipher).ks_id(), old(stream_cipher).ks_pos())
            && final(stream_cipher).ks_id() == old(stream_cipher).ks_id() && final(stream_cipher).ks_pos() == old(stream_cipher).ks_pos() + group_use(*group)
            && group_ok(*group),
        old(writer).sink.steady() && group_ok(*group) ==> r is Ok
    decreases *group
@start
    broadcast use axiom_b64_text;
    let ghost g0 = *group;
    let ghost w0 = *writer;
    let ghost o = writer.open@;
    let ghost (id, pos) = (stream_cipher.ks_id(), stream_cipher.ks_pos());
    let ghost es = group.entries@;
    let ghost gs = group.groups@;
    let ghost mut n: int = 0;
    let ghost mut m: int = 0;
    proof { lemma_group(g0, id, pos); assert(gs.take(0) =~= Seq::empty()); assert(es.take(0) =~= Seq::empty()); }
@before for entry in group.entries()
    let ghost d = writer.done@;
    let ghost o1 = writer.open@;
    proof { lemma_no_entries(es.take(0), id, pos); assert(d + entries_ev(es.take(0), id, pos) =~= d); }
@loop 0
    invariant 0 <= n <= es.len(), es == g0.entries@, is_refs(it__0@, es.skip(n)), o1.len() > 0,
        w0.kept(writer), writer.open@ == o1, writer.done@ == d + entries_ev(es.take(n), id, pos),
        stream_cipher.ks_id() == id, stream_cipher.ks_pos() == pos + entries_use(es.take(n)), entries_ok(es.take(n))
    decreases it__0@.len()
@loopstart 0
    proof {
        assert(*entry == es[n]);
        lemma_entries(es, n, id, pos);
        assert(es.skip(n).skip(1) =~= es.skip(n + 1));
        n = n + 1;
    }
@loopend 0
    proof { assert(writer.done@ =~= d + entries_ev(es.take(n), id, pos)); }
@before for group in group.groups()
    let ghost d2 = writer.done@;
    let ghost pos2 = stream_cipher.ks_pos();
    proof { lemma_no_groups(gs.take(0), id, pos2); assert(d2 + groups_ev(gs.take(0), id, pos2) =~= d2); }
@loop 1
    invariant 0 <= m <= gs.len(), gs == g0.groups@, is_refs(it__1@, gs.skip(m)), o1.len() > 0,
        w0.kept(writer), writer.open@ == o1, writer.done@ == d2 + groups_ev(gs.take(m), id, pos2),
        stream_cipher.ks_id() == id, stream_cipher.ks_pos() == pos2 + groups_use(gs.take(m)), groups_ok(gs.take(m))
    decreases it__1@.len()
@loopstart 1
    proof {
        assert(*group == gs[m]);
        lemma_groups(gs, m, id, pos2);
        assert(gs.skip(m).skip(1) =~= gs.skip(m + 1));
        m = m + 1;
    }
@loopend 1
    proof { assert(writer.done@ =~= d2 + groups_ev(gs.take(m), id, pos2)); }
@tail
    proof {
        assert(es.take(n) =~= es);
        assert(gs.take(m) =~= gs);
        assert(writer.done@ =~= w0.done@ + group_ev(g0, id, pos));
        assert(writer.open@ =~= o);
    }
@fn write_xml
@spec
    requires output.sound()
    ensures r is Ok ==> exists|b: Seq<u8>| #[trigger] wrote(output, b) && xml_form(*database, old(stream_cipher).ks_id(), old(stream_cipher).ks_pos(), b),
        r is Ok ==> final(stream_cipher).ks_id() == old(stream_cipher).ks_id() && final(stream_cipher).ks_pos() == old(stream_cipher).ks_pos() + db_use(*database),
        output.steady() && db_ok(*database) ==> r is Ok
@start
    let ghost out0 = output;
    let ghost (id, pos) = (stream_cipher.ks_id(), stream_cipher.ks_pos());
    let ghost gs = database.groups@;
    let ghost mut m: int = 0;
    proof { assert(gs.take(0) =~= Seq::empty()); }
@after let mut writer
    let ghost w0 = writer;
@before for group in &database.groups
    let ghost d = writer.done@;
    let ghost o = writer.open@;
    let ghost pos2 = stream_cipher.ks_pos();
    proof { lemma_no_groups(gs.take(0), id, pos2); assert(d + groups_ev(gs.take(0), id, pos2) =~= d); }
@loop 0
    invariant 0 <= m <= gs.len(), gs == database.groups@, is_refs(it__0@, gs.skip(m)), o.len() > 0,
        w0.kept(&writer), writer.open@ == o, writer.done@ == d + groups_ev(gs.take(m), id, pos2),
        stream_cipher.ks_id() == id, stream_cipher.ks_pos() == pos2 + groups_use(gs.take(m)), groups_ok(gs.take(m))
    decreases it__0@.len()
@loopstart 0
    proof {
        assert(*group == gs[m]);
        lemma_groups(gs, m, id, pos2);
        assert(gs.skip(m).skip(1) =~= gs.skip(m + 1));
        m = m + 1;
    }
@loopend 0
    proof { assert(writer.done@ =~= d + groups_ev(gs.take(m), id, pos2)); }
@tail
    proof {
        assert(gs.take(m) =~= gs);
        assert(writer.done@ =~= db_ev(*database, id, pos));
        assert(writer.open@ =~= Seq::empty());
        reveal_strlit("\t");
        let b = emitted(writer.done@, writer.config);
        assert(has_resolved(writer.sink));
        assert(wrote(out0, b));
    }
