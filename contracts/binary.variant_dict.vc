@prelude
use crate::ext::io::{Read as _, Write as _};
use crate::ext::string::{utf8, is_utf8, lemma_utf8_valid, lemma_utf8_inj};
use crate::ext::io::wrote;
use crate::ext::map::is_listing;
pub open spec fn known_tag(t: u8) -> bool { t == 0x04 || t == 0x05 || t == 0x08 || t == 0x0C || t == 0x0D || t == 0x18 || t == 0x42 }
pub open spec fn vtag(v: Value) -> u8 {
    match v { Value::Uint32(_) => 0x04, Value::Uint64(_) => 0x05, Value::Boolean(_) => 0x08, Value::Int32(_) => 0x0C,
        Value::Int64(_) => 0x0D, Value::String(_) => 0x18, Value::Array(_) => 0x42, Value::Unknown(t, _) => t }
}
pub open spec fn vdata(v: Value) -> Seq<u8> {
    match v { Value::Uint32(x) => le32_bytes(x), Value::Uint64(x) => le64_bytes(x), Value::Boolean(b) => seq![if b { 1u8 } else { 0u8 }],
        Value::Int32(x) => i32_bytes(x), Value::Int64(x) => i64_bytes(x), Value::String(s) => utf8(s@), Value::Array(a) => a@, Value::Unknown(_, a) => a@ }
}
/// values that have an encoding of their own
pub open spec fn value_ok(v: Value) -> bool { v is Unknown ==> !known_tag(vtag(v)) && vtag(v) != 0 }
pub open spec fn decodable(t: u8, d: Seq<u8>) -> bool {
    if t == 0x04 || t == 0x0C { d.len() == 4 } else if t == 0x05 || t == 0x0D { d.len() == 8 } else if t == 0x08 { d.len() == 1 }
    else if t == 0x18 { is_utf8(d) } else { true }
}
pub open spec fn means(t: u8, d: Seq<u8>, v: Value) -> bool {
    &&& vtag(v) == t && (v is Unknown ==> !known_tag(t))
    &&& if t == 0x08 { v == Value::Boolean(d[0] == 1) } else { vdata(v) == d }
}
pub open spec fn value_of(t: u8, d: Seq<u8>) -> Value { choose|v: Value| means(t, d, v) }
pub open spec fn text_of(d: Seq<u8>) -> Seq<char> { choose|c: Seq<char>| utf8(c) == d }
pub proof fn lemma_means(t: u8, d: Seq<u8>, v: Value)
    requires means(t, d, v)
    ensures value_of(t, d) == v
{
    broadcast use axiom_vec_ext, axiom_string_ext, lemma_utf8_inj;
    let w = value_of(t, d);
    assert(means(t, d, w));
    match v {
        Value::Uint32(x) => { lemma_le32(x); if let Value::Uint32(y) = w { lemma_le32(y); } },
        Value::Uint64(x) => { lemma_le64(x); if let Value::Uint64(y) = w { lemma_le64(y); } },
        Value::Int32(x) => { lemma_i32(x); if let Value::Int32(y) = w { lemma_i32(y); } },
        Value::Int64(x) => { lemma_i64(x); if let Value::Int64(y) = w { lemma_i64(y); } },
        _ => {},
    }
}
pub proof fn lemma_text(d: Seq<u8>, c: Seq<char>)
    requires utf8(c) == d
    ensures text_of(d) == c
{
    broadcast use lemma_utf8_inj;
    assert(utf8(text_of(d)) == d);
}
pub proof fn lemma_i32(x: i32) ensures le_i32(i32_bytes(x)) == x {
    lemma_le32(x as u32);
    assert((x as u32) as i32 == x) by (bit_vector);
}
pub proof fn lemma_i64(x: i64) ensures le_i64(i64_bytes(x)) == x {
    lemma_le64(x as u64);
    assert((x as u64) as i64 == x) by (bit_vector);
}
/// every value is decoded from its encoding
pub proof fn lemma_value_reads_back(v: Value)
    requires value_ok(v)
    ensures decodable(vtag(v), vdata(v)), value_of(vtag(v), vdata(v)) == v
{
    broadcast use lemma_utf8_valid;
    lemma_means(vtag(v), vdata(v), v);
}
/// the entry after its type byte: name, value and what follows
pub open spec fn entry_at(t: u8, s: Seq<u8>) -> Option<(Seq<char>, Value, Seq<u8>)> {
    let kl = le_i32(s.take(4)) as int;
    let s1 = s.skip(4);
    let s2 = s1.skip(kl);
    let vl = le_i32(s2.take(4)) as int;
    let s3 = s2.skip(4);
    if s.len() < 4 || kl < 0 || s1.len() < kl || !is_utf8(s1.take(kl)) || s2.len() < 4 || vl < 0 || s3.len() < vl || !decodable(t, s3.take(vl)) { None }
    else { Some((text_of(s1.take(kl)), value_of(t, s3.take(vl)), s3.skip(vl))) }
}
pub open spec fn dict_at(t: u8, s: Seq<u8>, m: Map<Seq<char>, Value>) -> Option<Map<Seq<char>, Value>>
    decreases s.len()
{
    if t == 0 { Some(m) } else {
        match entry_at(t, s) {
            Some((k, v, n)) => if 0 < n.len() && n.len() <= s.len() { dict_at(n[0], n.skip(1), m.insert(k, v)) } else { None },
            None => None,
        }
    }
}
/// the dictionary at the start of s
pub open spec fn dict_of(s: Seq<u8>) -> Option<Map<Seq<char>, Value>> {
    if s.len() < 3 || s[1] > 1 { None } else { dict_at(s[2], s.skip(3), Map::empty()) }
}
pub open spec fn enc_entry(k: Seq<char>, v: Value) -> Seq<u8> {
    seq![vtag(v)] + i32_bytes(utf8(k).len() as i32) + utf8(k) + i32_bytes(vdata(v).len() as i32) + vdata(v)
}
pub open spec fn enc_entries(es: Seq<(Seq<char>, Value)>) -> Seq<u8> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else { enc_entry(es[0].0, es[0].1) + enc_entries(es.skip(1)) }
}
pub open spec fn entry_fits(k: Seq<char>, v: Value) -> bool { utf8(k).len() <= i32::MAX && vdata(v).len() <= i32::MAX && value_ok(v) }
pub open spec fn all_fit(m: Map<Seq<char>, Value>) -> bool { forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> entry_fits(k, m[k]) }
/// es lists the entries of m, each once
pub open spec fn lists(es: Seq<(Seq<char>, Value)>, m: Map<Seq<char>, Value>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> m.dom().contains((#[trigger] es[i]).0) && m[es[i].0] == es[i].1
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0 != (#[trigger] es[j]).0
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k
}
pub open spec fn listed(s: Seq<(&String, &Value)>) -> Seq<(Seq<char>, Value)> { Seq::new(s.len(), |i: int| (s[i].0@, *s[i].1)) }
pub proof fn lemma_listed(s: Seq<(&String, &Value)>, m: Map<Seq<char>, Value>)
    requires is_listing(s, m)
    ensures lists(listed(s), m)
{
    let es = listed(s);
    assert forall|i: int| 0 <= i < es.len() implies m.dom().contains((#[trigger] es[i]).0) && m[es[i].0] == es[i].1 by { assert(m.dom().contains(s[i].0@)); }
    assert forall|i: int, j: int| 0 <= i < j < es.len() implies (#[trigger] es[i]).0 != (#[trigger] es[j]).0 by { assert(s[i].0@ != s[j].0@); }
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k;
        assert(es[i].0 == k);
    }
}
pub open spec fn dict_bytes(es: Seq<(Seq<char>, Value)>) -> Seq<u8> { seq![0u8, 1u8] + enc_entries(es) + seq![0u8] }
pub open spec fn is_dict_bytes(b: Seq<u8>, m: Map<Seq<char>, Value>) -> bool {
    exists|es: Seq<(Seq<char>, Value)>| #[trigger] lists(es, m) && b == dict_bytes(es)
}
pub proof fn lemma_enc_push(es: Seq<(Seq<char>, Value)>, e: (Seq<char>, Value))
    ensures enc_entries(es.push(e)) == enc_entries(es) + enc_entry(e.0, e.1)
    decreases es.len()
{
    if es.len() == 0 {
        assert(es.push(e).skip(1) =~= Seq::<(Seq<char>, Value)>::empty());
        assert(enc_entries(es.push(e).skip(1)) =~= Seq::<u8>::empty());
        assert(enc_entries(es) =~= Seq::<u8>::empty());
        assert(enc_entries(es.push(e)) =~= enc_entry(e.0, e.1));
    } else {
        assert(es.push(e).skip(1) =~= es.skip(1).push(e));
        lemma_enc_push(es.skip(1), e);
        assert(enc_entries(es.push(e)) =~= enc_entries(es) + enc_entry(e.0, e.1));
    }
}
pub open spec fn put_all(m: Map<Seq<char>, Value>, es: Seq<(Seq<char>, Value)>) -> Map<Seq<char>, Value> decreases es.len() {
    if es.len() == 0 { m } else { put_all(m.insert(es[0].0, es[0].1), es.skip(1)) }
}
pub proof fn lemma_entry_reads_back(k: Seq<char>, v: Value, n: Seq<u8>)
    requires entry_fits(k, v)
    ensures entry_at(vtag(v), enc_entry(k, v).skip(1) + n) == Some((k, v, n))
{
    broadcast use lemma_utf8_valid;
    let s = enc_entry(k, v).skip(1) + n;
    let (a, b, c, d) = (i32_bytes(utf8(k).len() as i32), utf8(k), i32_bytes(vdata(v).len() as i32), vdata(v));
    assert(s =~= a + b + c + d + n);
    assert(s.take(4) =~= a);
    lemma_i32(utf8(k).len() as i32);
    lemma_i32(vdata(v).len() as i32);
    assert(s.skip(4) =~= b + c + d + n);
    assert(s.skip(4).take(b.len() as int) =~= b);
    assert(s.skip(4).skip(b.len() as int) =~= c + d + n);
    assert((c + d + n).take(4) =~= c);
    assert((c + d + n).skip(4) =~= d + n);
    assert((d + n).take(d.len() as int) =~= d);
    assert((d + n).skip(d.len() as int) =~= n);
    lemma_text(b, k);
    lemma_value_reads_back(v);
}
pub proof fn lemma_entries_read_back(es: Seq<(Seq<char>, Value)>, n: Seq<u8>, m: Map<Seq<char>, Value>)
    requires forall|i: int| 0 <= i < es.len() ==> entry_fits((#[trigger] es[i]).0, es[i].1)
    ensures ({ let s = enc_entries(es) + seq![0u8] + n; dict_at(s[0], s.skip(1), m) == Some(put_all(m, es)) })
    decreases es.len()
{
    let s = enc_entries(es) + seq![0u8] + n;
    if es.len() > 0 {
        let (k, v) = es[0];
        assert(entry_fits(es[0].0, es[0].1));
        assert(vtag(v) != 0);
        let rest = enc_entries(es.skip(1)) + seq![0u8] + n;
        assert forall|i: int| 0 <= i < es.skip(1).len() implies entry_fits((#[trigger] es.skip(1)[i]).0, es.skip(1)[i].1) by { assert(es.skip(1)[i] == es[i + 1]); }
        lemma_entries_read_back(es.skip(1), n, m.insert(k, v));
        assert(s =~= enc_entry(k, v) + rest);
        assert(s.skip(1) =~= enc_entry(k, v).skip(1) + rest);
        lemma_entry_reads_back(k, v, rest);
    }
}
pub proof fn lemma_put_all(m: Map<Seq<char>, Value>, es: Seq<(Seq<char>, Value)>, k: Seq<char>)
    requires forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0 != (#[trigger] es[j]).0
    ensures
        forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k ==> put_all(m, es).dom().contains(k) && put_all(m, es)[k] == es[i].1,
        (forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).0 != k) ==> put_all(m, es).dom().contains(k) == m.dom().contains(k) && (m.dom().contains(k) ==> put_all(m, es)[k] == m[k]),
    decreases es.len()
{
    if es.len() > 0 {
        let u = es.skip(1);
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).0 != (#[trigger] u[j]).0 by { assert(u[i] == es[i + 1] && u[j] == es[j + 1]); }
        lemma_put_all(m.insert(es[0].0, es[0].1), u, k);
        assert forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k implies put_all(m, es).dom().contains(k) && put_all(m, es)[k] == es[i].1 by {
            if i > 0 { assert(u[i - 1] == es[i]); } else {
                assert forall|j: int| 0 <= j < u.len() implies (#[trigger] u[j]).0 != k by { assert(u[j] == es[j + 1]); assert(es[0].0 != es[j + 1].0); }
            }
        }
        if forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).0 != k {
            assert forall|j: int| 0 <= j < u.len() implies (#[trigger] u[j]).0 != k by { assert(u[j] == es[j + 1]); }
            assert(es[0].0 != k);
        }
    }
}
/// every dictionary is read back from its encoding
pub proof fn lemma_dict_reads_back(b: Seq<u8>, m: Map<Seq<char>, Value>)
    requires is_dict_bytes(b, m), all_fit(m)
    ensures dict_of(b) == Some(m)
{
    let es = choose|es: Seq<(Seq<char>, Value)>| #[trigger] lists(es, m) && b == dict_bytes(es);
    let e = Map::<Seq<char>, Value>::empty();
    lemma_entries_read_back(es, Seq::empty(), e);
    let s = enc_entries(es) + seq![0u8] + Seq::<u8>::empty();
    assert(b.skip(2) =~= s);
    assert(b[2] == b.skip(2)[0]);
    assert(b.skip(3) =~= s.skip(1));
    assert(b[1] == 1);
    assert(put_all(e, es) =~= m) by {
        let p = put_all(e, es);
        assert forall|k: Seq<char>| (#[trigger] p.dom().contains(k) <==> m.dom().contains(k)) && (m.dom().contains(k) ==> p[k] == m[k]) by {
            lemma_put_all(e, es, k);
            if m.dom().contains(k) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k; assert(es[i].0 == k); }
        }
        assert(p.dom() =~= m.dom());
    }
}
@fn Value::tag
@spec
    ensures r == vtag(*self)
@fn Value::data
@call u8::from => crate::ext::prelude::u8_from_bool
@spec
    ensures r@ == vdata(*self)
@tail
    proof { if let Value::Boolean(b) = self { assert(r__@ =~= vdata(*self)); } }
@fn Value::from_bytes
@call .try_into => try_into_e
@spec
    ensures match r { Ok(v) => decodable(ty, buffer@) && means(ty, buffer@, v), Err(_) => !decodable(ty, buffer@) }
@start
    broadcast use lemma_utf8_valid;
    proof {
        if buffer@.len() == 4 { lemma_le32_inj(buffer@); lemma_i32_inj(buffer@); }
        if buffer@.len() == 8 { lemma_le64_inj(buffer@); lemma_i64_inj(buffer@); }
    }
@fn entry_length
@spec
    ensures match r { Ok(n) => n == length, Err(_) => length < 0 }
@fn parse_variant_dict_entry
@spec
    requires (*old(input)).wf()
    ensures (*final(input)).wf(), (*final(input)).reliable() == (*old(input)).reliable(),
        match r {
            Ok(e) => entry_at(ty, (*old(input)).rem()) == Some((e.0@, e.1, (*final(input)).rem())),
            Err(_) => (*old(input)).reliable() ==> entry_at(ty, (*old(input)).rem()) is None,
        }
@start
    broadcast use lemma_utf8_valid;
    let ghost s = (*input).rem();
@tail
    proof {
        let kl = le_i32(s.take(4)) as int;
        let s3 = s.skip(4).skip(kl).skip(4);
        lemma_text(utf8(key@), key@);
        lemma_means(ty, s3.take(value_length as int), value);
    }
@fn parse_variant_dict
@spec
    requires input.wf()
    ensures match r {
        Ok(m) => dict_of(input.rem()) == Some(m@),
        Err(_) => input.reliable() ==> dict_of(input.rem()) is None,
    }
@start
    let ghost r0 = input.rem();
    let ghost rel = input.reliable();
@before while ty != 0
    proof {
        assert(r0.skip(2).skip(1) =~= r0.skip(3));
        assert(r0.skip(2).take(1)[0] == r0[2]);
    }
@loop 0
    invariant input.wf(), input.reliable() == rel, dict_of(r0) == dict_at(ty, input.rem(), map@)
    decreases input.rem().len()
@fn write_variant_dict
@call .len => len_e
@spec
    requires output.sound()
    ensures
        output.steady() ==> r is Ok,
        r is Ok ==> exists|es: Seq<(Seq<char>, Value)>| #[trigger] lists(es, vdict@) && wrote(output, dict_bytes(es))
@start
    let ghost (w0, a0) = (output, output.acc());
    let ghost mut es = Seq::<(Seq<char>, Value)>::empty();
@loop 0
    invariant output.sound(), output.fixed() == w0.fixed(), output.steady() == w0.steady(), output.layer() == w0.layer(),
        it__0@.len() <= all__0.len(), it__0@ == all__0.skip(all__0.len() - it__0@.len()), is_listing(all__0, vdict@),
        es == listed(all__0).take(all__0.len() - it__0@.len()), output.acc() == a0 + (seq![0u8, 1u8] + enc_entries(es)),
    decreases it__0@.len()
@loopend 0
    proof {
        let n = all__0.len() - it__0@.len();
        let all = listed(all__0);
        assert(all.take(n) =~= es.push(all[n - 1]));
        lemma_enc_push(es, all[n - 1]);
        assert(all[n - 1] == (name@, *value));
        es = all.take(n);
        assert(output.acc() =~= a0 + (seq![0u8, 1u8] + enc_entries(es)));
    }
@before output.write_all(&[0])
    proof {
        let a = choose|a: Seq<(&String, &Value)>| #[trigger] is_listing(a, vdict@) && es == listed(a).take(a.len() as int);
        assert(listed(a).take(a.len() as int) =~= listed(a));
        lemma_listed(a, vdict@);
    }
@tail
    proof {
        assert(output.acc() =~= a0 + dict_bytes(es));
        assert(has_resolved(output));
        assert(wrote(w0, dict_bytes(es)));
    }
