@type <Deref for Kdbx<Unlocked>> : inherent
@type <DerefMut for Kdbx<Unlocked>> : inherent
@fn <Deref for Kdbx<Unlocked>>::deref
@spec
    ensures *r == self.state.database
@fn <DerefMut for Kdbx<Unlocked>>::deref_mut
@spec
    ensures *r == (*old(self)).state.database,
        *final(self) == (Kdbx { state: Unlocked { database: *final(r), ..(*old(self)).state } }),
@prelude
use crate::ext::io::{Read as _, Write as _};
use crate::ext::io::{wrote, lemma_wrote, delivered};
use crate::ext::cipher::{StreamCipher as _, AsMutE as _};
use crate::ext::sha2::sha256;
use crate::ext::rand::from_os;
use crate::crypto::{composed_spec, master_spec, hmac_key_spec, cipher_key_spec, header_tag};
use crate::stream::pipeline::{plain3, plain4, is_body4, cipher_ok, compression_ok, decrypted, kw_start, lemma_kw_out, lemma_body4_reads_back};
use crate::stream::random::inner_id;
use crate::xml::serialize::xml_form;
use crate::xml::parse::{db_is, xml_ok, says};
use crate::xml::{groups_timely, db_back, lemma_xml_reads_back};
use super::header::{Raw, fields_at, header_is, header_at, is_header_bytes, argon2i, inner_header_is, inner_readable, inner_header_bytes, is_legacy_inner, plain_header, plain_inner, first_of, InnerHeaderId, OuterHeaderId, KdbxHeader, KdbxInnerHeader, lemma_header_reads_back, lemma_inner_reads_back, lemma_header_unique, lemma_inner_unique};
use super::read::{archive_at, locked_is, tag_is, Parts};

pub open spec fn mkey(u: Unlocked) -> Seq<u8> { let k = u.master_key->0; k.0@ }
pub open spec fn ckey(u: Unlocked) -> Seq<u8> { let k = u.composed_key->0; k.0@ }
/// the first twelve bytes of an archive
pub open spec fn signature(minor: u16, major: u16) -> Seq<u8> {
    le32_bytes(0x9AA2D903) + le32_bytes(0xB54BFB67) + le16_bytes(minor) + le16_bytes(major)
}
/// what is written for a locked archive
pub open spec fn locked_bytes(l: Locked) -> Seq<u8> {
    if l.major_version >= 4 { l.header_data@ + sha256(l.header_data@) + l.hmac->0@ + l.encrypted_data@ } else { l.header_data@ + l.encrypted_data@ }
}
/// body is the encrypted content of the archive: the inner header and an XML document
pub open spec fn is_content(u: Unlocked, mk: Seq<u8>, xml: Seq<u8>, body: Seq<u8>) -> bool {
    let ks = inner_id(u.inner_header.inner_stream_cipher, u.inner_header.inner_stream_key@);
    let seed = u.header.master_seed@;
    &&& ks is Some && xml_form(u.database, ks->0, 0, xml)
    &&& cipher_ok(u.header.cipher, 32, u.header.encryption_iv@.len()) && compression_ok(u.header.compression_type)
    &&& is_body4(body, hmac_key_spec(mk, seed), cipher_key_spec(mk, seed), u.header.cipher, u.header.encryption_iv@, u.header.compression_type, inner_header_bytes(u.inner_header) + xml)
}
pub open spec fn archive_of(u: Unlocked, hb: Seq<u8>, xml: Seq<u8>, body: Seq<u8>, b: Seq<u8>) -> bool {
    let bin = signature(u.minor_version, u.major_version) + hb;
    &&& u.major_version >= 4 && u.master_key is Some
    &&& is_header_bytes(u.header, hb) && !argon2i(u.header.kdf_params)
    &&& is_content(u, mkey(u), xml, body)
    &&& b == bin + sha256(bin) + header_tag(hmac_key_spec(mkey(u), u.header.master_seed@), bin) + body
}
@impl KdbxState
    /// the header
    spec fn hdr(&self) -> KdbxHeader;
    /// after differs from this in nothing but the header, which is h
    spec fn with_hdr(&self, after: &Self, h: KdbxHeader) -> bool;
    spec fn versions(&self) -> (u16, u16);
    /// there is a key to write with
    spec fn keyed(&self) -> bool;
    /// everything needed to write is there
    spec fn complete(&self) -> bool;
    /// b is what is written for the archive
    spec fn archive(&self, b: Seq<u8>) -> bool;
@fn KdbxState::header
@spec
    ensures *r == self.hdr()
@fn KdbxState::header_mut
@spec
    ensures *r == old(self).hdr(), old(self).with_hdr(&*final(self), *final(r))
@fn KdbxState::major_version
@spec
    ensures r == self.versions().0
@fn KdbxState::minor_version
@spec
    ensures r == self.versions().1
@fn KdbxState::write
@spec
    requires self.complete(), output.sound()
    ensures r is Ok ==> exists|b: Seq<u8>| #[trigger] wrote(output, b) && self.archive(b) && (output.layer() || delivered(output.fixed(), output.acc() + b)),
        !self.keyed() ==> r is Err && wrote(output, Seq::empty()),

@fn Kdbx::header
@spec
    ensures *r == self.state.hdr()
@fn Kdbx::header_mut
@spec
    ensures *r == old(self).state.hdr(), old(self).state.with_hdr(&final(self).state, *final(r))
@fn Kdbx::major_version
@spec
    ensures r == self.state.versions().0
@fn Kdbx::minor_version
@spec
    ensures r == self.state.versions().1
@fn Kdbx::write
@spec
    requires self.state.complete(), output.sound()
    ensures r is Ok ==> exists|b: Seq<u8>| #[trigger] wrote(output, b) && self.state.archive(b) && (output.layer() || delivered(output.fixed(), output.acc() + b)),
        !self.state.keyed() ==> r is Err && wrote(output, Seq::empty()),

@pre <From<FailedUnlock> for UnlockError>
impl vstd::std_specs::convert::FromSpecImpl<FailedUnlock> for errors::UnlockError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: FailedUnlock) -> errors::UnlockError { v.1 }
}
@fn <From<FailedUnlock> for UnlockError>::from

@impl <KdbxState for Unlocked>
    open spec fn hdr(&self) -> KdbxHeader { self.header }
    open spec fn with_hdr(&self, after: &Self, h: KdbxHeader) -> bool { *after == (Unlocked { header: h, ..*self }) }
    open spec fn versions(&self) -> (u16, u16) { (self.major_version, self.minor_version) }
    open spec fn keyed(&self) -> bool { self.master_key is Some }
    open spec fn complete(&self) -> bool { true }
    open spec fn archive(&self, b: Seq<u8>) -> bool { exists|hb: Seq<u8>, xml: Seq<u8>, body: Seq<u8>| #[trigger] archive_of(*self, hb, xml, body, b) }
@impl <KdbxState for Locked>
    open spec fn hdr(&self) -> KdbxHeader { self.header }
    open spec fn with_hdr(&self, after: &Self, h: KdbxHeader) -> bool { *after == (Locked { header: h, ..*self }) }
    open spec fn versions(&self) -> (u16, u16) { (self.major_version, self.minor_version) }
    open spec fn keyed(&self) -> bool { true }
    open spec fn complete(&self) -> bool { self.major_version >= 4 ==> self.hmac is Some }
    open spec fn archive(&self, b: Seq<u8>) -> bool { b == locked_bytes(*self) }
@fn <KdbxState for Unlocked>::header
@fn <KdbxState for Unlocked>::header_mut
@fn <KdbxState for Unlocked>::major_version
@fn <KdbxState for Unlocked>::minor_version
@fn <KdbxState for Locked>::header
@fn <KdbxState for Locked>::header_mut
@fn <KdbxState for Locked>::major_version
@fn <KdbxState for Locked>::minor_version

@fn <KdbxState for Locked>::write
@start
    let ghost w0 = output;
@tail
    proof {
        assert(has_resolved(output));
        let b = locked_bytes(*self);
        assert(output.acc() =~= w0.acc() + b);
        assert(wrote(w0, b));
    }

@fn Unlocked::encrypt_inner
@call .as_mut => as_mut_e
@spec
    ensures r is Ok ==> exists|xml: Seq<u8>| #[trigger] is_content(*self, key.0@, xml, r->Ok_0@)
@start
    broadcast use lemma_wrote;
    let ghost hk = hmac_key_spec(key.0@, self.header.master_seed@);
    let ghost ck = cipher_key_spec(key.0@, self.header.master_seed@);
@before encrypted_stream.finish
    let ghost f0 = encrypted_stream.fixed();
    let ghost a0 = encrypted_stream.acc();
    let ghost mut xml0 = Seq::<u8>::empty();
@after encrypted_stream.finish
    proof {
        assert(has_resolved(v__stmt));
        let w = v__stmt;
        assert(exists|dest: Seq<Seq<u8>>| f0 == kw_start(dest, Seq::empty(), true, hk, ck, self.header.cipher, self.header.encryption_iv@, self.header.compression_type));
        let dest = choose|dest: Seq<Seq<u8>>| f0 == kw_start(dest, Seq::empty(), true, hk, ck, self.header.cipher, self.header.encryption_iv@, self.header.compression_type);
        assert(w.fixed().last() == (*final(w)).acc());
        lemma_kw_out(dest, Seq::empty(), true, hk, ck, self.header.cipher, self.header.encryption_iv@, self.header.compression_type, a0, w.acc());
        assert(w.fixed() =~= dest);
        assert(encrypted_buf@ == w.acc());
        let body = choose|body: Seq<u8>| is_body4(body, hk, ck, self.header.cipher, self.header.encryption_iv@, self.header.compression_type, a0) && w.acc() == #[trigger] (Seq::<u8>::empty() + body);
        assert(Seq::<u8>::empty() + body =~= body);
        let ih = inner_header_bytes(self.inner_header);
        let ks = inner_id(self.inner_header.inner_stream_cipher, self.inner_header.inner_stream_key@)->0;
        assert(exists|xml: Seq<u8>| xml_form(self.database, ks, 0, xml) && a0 == #[trigger] (Seq::<u8>::empty() + ih + xml));
        let xml = choose|xml: Seq<u8>| xml_form(self.database, ks, 0, xml) && a0 == #[trigger] (Seq::<u8>::empty() + ih + xml);
        assert(Seq::<u8>::empty() + ih + xml =~= ih + xml);
        assert(is_content(*self, key.0@, xml, encrypted_buf@));
        xml0 = xml;
    }
@tail
    proof { assert(is_content(*self, key.0@, xml0, r__->Ok_0@)); }

@fn <KdbxState for Unlocked>::write
@start
    let ghost w0 = output;
    broadcast use lemma_wrote;
    let ghost sig = signature(self.minor_version, self.major_version);
    proof { assert(w0.acc() + Seq::empty() =~= w0.acc()); }
@before self.header.write(
    proof { assert(header_buf@ =~= sig); }
@after self.header.write(
    let ghost hb = choose|hb: Seq<u8>| is_header_bytes(self.header, hb) && header_buf@ == #[trigger] (sig + hb);
    proof { assert(is_header_bytes(self.header, hb) && header_buf@ == sig + hb); }
@tail
    proof {
        assert(has_resolved(output));
        let bin = header_buf@;
        let b = bin + sha256(bin) + header_tag(hmac_key_spec(mkey(*self), self.header.master_seed@), bin) + encrypted_xml@;
        let xml = choose|xml: Seq<u8>| #[trigger] is_content(*self, mkey(*self), xml, encrypted_xml@);
        assert(archive_of(*self, hb, xml, encrypted_xml@, b));
        assert(output.acc() =~= w0.acc() + b);
        assert(wrote(w0, b));
    }

@fn Kdbx<Unlocked>::inner_header
@spec
    ensures *r == self.state.inner_header
@fn Kdbx<Unlocked>::inner_header_mut
@spec
    ensures *r == old(self).state.inner_header, final(self).state == (Unlocked { inner_header: *final(r), ..old(self).state })
@fn Kdbx<Unlocked>::database
@spec
    ensures *r == self.state.database
@fn Kdbx<Unlocked>::database_mut
@spec
    ensures *r == old(self).state.database, final(self).state == (Unlocked { database: *final(r), ..old(self).state })
@fn Kdbx<Unlocked>::raw_xml
@call .as_deref => as_deref_e
@spec
    ensures match r { Some(x) => self.state.xml_data is Some && x@ == self.state.xml_data->0@, None => self.state.xml_data is None }
@fn Kdbx<Unlocked>::set_key
@spec
    ensures
        r is Ok ==> final(self).state.master_key is Some && master_spec(composed_spec(key), old(self).state.header.kdf_params) == Some(mkey(final(self).state))
            && final(self).state.composed_key is Some && ckey(final(self).state) == composed_spec(key),
        r is Err ==> master_spec(composed_spec(key), old(self).state.header.kdf_params) is None && final(self).state.master_key == old(self).state.master_key,
        final(self).state == (Unlocked { composed_key: final(self).state.composed_key, master_key: final(self).state.master_key, ..old(self).state }),
@fn Kdbx<Unlocked>::from_database
@spec
    ensures
        r.state.database == database, r.state.major_version == 4, r.state.xml_data is None, r.state.composed_key is None, r.state.master_key is None,
        r.state.header.master_seed@.len() == 32, exists|a: int| #[trigger] from_os(r.state.header.master_seed@, a),
        r.state.header.encryption_iv@.len() == 16, exists|a: int| #[trigger] from_os(r.state.header.encryption_iv@, a),
        r.state.header.kdf_params is Argon2, r.state.header.kdf_params->Argon2_salt@.len() == 32, exists|a: int| #[trigger] from_os(r.state.header.kdf_params->Argon2_salt@, a),
        r.state.inner_header.inner_stream_key@.len() == 44, exists|a: int| #[trigger] from_os(r.state.inner_header.inner_stream_key@, a),
        r.state.header.cipher == super::header_fields::Cipher::Aes256, r.state.inner_header.inner_stream_cipher == super::header_fields::InnerStreamCipherAlgorithm::ChaCha20,

@prelude
/// what a KDBX 4 archive holds under the master key: the fields of its inner header and the XML document
pub open spec fn opened4(l: Locked, mk: Seq<u8>) -> Option<(Seq<Raw>, Seq<u8>)> {
    let seed = l.header.master_seed@;
    let p = plain4(l.encrypted_data@, hmac_key_spec(mk, seed), cipher_key_spec(mk, seed), l.header.cipher, l.header.encryption_iv@, l.header.compression_type);
    let a = fields_at::<InnerHeaderId>(p.0, l.major_version);
    if cipher_ok(l.header.cipher, 32, l.header.encryption_iv@.len()) && compression_ok(l.header.compression_type) && p.1 && a is Some && inner_readable((a->0).0) { a } else { None }
}
/// what a KDBX 3 archive holds under the master key: its XML document
pub open spec fn opened3(l: Locked, mk: Seq<u8>) -> Option<Seq<u8>> {
    let ck = cipher_key_spec(mk, l.header.master_seed@);
    let iv = l.header.encryption_iv@;
    let d = decrypted(l.header.cipher, ck, iv, l.encrypted_data@, true).0;
    let p = plain3(l.encrypted_data@, true, ck, l.header.cipher, iv, l.header.compression_type);
    if l.header.stream_start_bytes is Some && cipher_ok(l.header.cipher, 32, iv.len()) && compression_ok(l.header.compression_type)
        && d.len() >= 32 && d.take(32) == l.header.stream_start_bytes->0@ && p.1 { Some(p.0) } else { None }
}
/// everything but the body is kept, and the key is the one given
pub open spec fn same_archive(l: Locked, k: crypto::CompositeKey, u: Unlocked) -> bool {
    &&& u.header == l.header && u.major_version == l.major_version && u.minor_version == l.minor_version
    &&& u.composed_key is Some && ckey(u) == composed_spec(k)
    &&& u.master_key is Some && master_spec(composed_spec(k), l.header.kdf_params) == Some(mkey(u))
}
pub open spec fn same_content(h: KdbxInnerHeader, xml: Seq<u8>, u: Unlocked) -> bool {
    let ks = inner_id(h.inner_stream_cipher, h.inner_stream_key@);
    &&& u.inner_header == h && u.xml_data is Some && u.xml_data->0@ == xml
    &&& ks is Some && db_is(xml, ks->0, 0, u.database)
}
/// u is what l holds under the key
pub open spec fn unlocked_is(l: Locked, k: crypto::CompositeKey, u: Unlocked) -> bool {
    &&& same_archive(l, k, u)
    &&& if l.major_version >= 4 {
        let o = opened4(l, mkey(u));
        &&& l.hmac is Some && l.hmac->0@ == header_tag(hmac_key_spec(mkey(u), l.header.master_seed@), l.header_data@)
        &&& o is Some && inner_header_is(u.inner_header, (o->0).0) && same_content(u.inner_header, (o->0).1, u)
    } else {
        let o = opened3(l, mkey(u));
        o is Some && is_legacy_inner(u.inner_header, l.header.other_headers@) && same_content(u.inner_header, o->0, u)
    }
}
pub open spec fn readable_content(h: KdbxInnerHeader, xml: Seq<u8>) -> bool {
    let ks = inner_id(h.inner_stream_cipher, h.inner_stream_key@);
    ks is Some && xml_ok(xml, ks->0, 0)
}
/// the key opens the archive
pub open spec fn opens(l: Locked, k: crypto::CompositeKey) -> bool {
    let m = master_spec(composed_spec(k), l.header.kdf_params);
    &&& m is Some
    &&& if l.major_version >= 4 {
        let o = opened4(l, m->0);
        &&& l.hmac is Some && l.hmac->0@ == header_tag(hmac_key_spec(m->0, l.header.master_seed@), l.header_data@)
        &&& o is Some && forall|h: KdbxInnerHeader| #[trigger] inner_header_is(h, (o->0).0) ==> readable_content(h, (o->0).1)
    } else {
        let o = opened3(l, m->0);
        &&& o is Some && exists|h: KdbxInnerHeader| #[trigger] is_legacy_inner(h, l.header.other_headers@)
        &&& forall|h: KdbxInnerHeader| #[trigger] is_legacy_inner(h, l.header.other_headers@) ==> readable_content(h, o->0)
    }
}
@fn Kdbx<Locked>::decrypt_v4
@spec
    ensures
        r is Ok ==> {
            let o = opened4(self.state, master_key.0@);
            o is Some && inner_header_is((r->Ok_0).0, (o->0).0) && (r->Ok_0).1@ == (o->0).1
        },
        r is Err ==> opened4(self.state, master_key.0@) is None,
@fn Kdbx<Locked>::decrypt_v3
@spec
    ensures
        r is Ok ==> {
            let o = opened3(self.state, master_key.0@);
            o is Some && is_legacy_inner((r->Ok_0).0, self.state.header.other_headers@) && (r->Ok_0).1@ == o->0
        },
        r is Err ==> opened3(self.state, master_key.0@) is None || forall|h: KdbxInnerHeader| !#[trigger] is_legacy_inner(h, self.state.header.other_headers@),
@fn Kdbx<Locked>::unlock
@spec
    requires self.state.complete()
    ensures
        r is Ok ==> unlocked_is(self.state, *key, r->Ok_0.state),
        r is Err ==> (r->Err_0).0 == self && !opens(self.state, *key),
@fn Kdbx<Locked>::unlock_v4
@call .as_ref => as_slice_e
@call .as_mut => as_mut_e
@spec
    requires self.state.complete(), self.state.major_version >= 4
    ensures
        r is Ok ==> unlocked_is(self.state, *key, r->Ok_0.state),
        r is Err ==> (r->Err_0).0 == self && !opens(self.state, *key),
@closure 0
    |p__0: (header::KdbxInnerHeader, Vec<u8>)| -> (q: Result<(header::KdbxInnerHeader, Vec<u8>, crate::Database), errors::UnlockError>)
        ensures
            q is Ok ==> inner_id(p__0.0.inner_stream_cipher, p__0.0.inner_stream_key@) is Some && (q->Ok_0).0 == p__0.0 && (q->Ok_0).1 == p__0.1 && db_is(p__0.1@, inner_id(p__0.0.inner_stream_cipher, p__0.0.inner_stream_key@)->0, 0, (q->Ok_0).2),
            q is Err ==> !readable_content(p__0.0, p__0.1@),
@fn Kdbx<Locked>::unlock_v3
@call .as_ref => as_slice_e
@call .as_mut => as_mut_e
@spec
    requires self.state.major_version < 4
    ensures
        r is Ok ==> unlocked_is(self.state, *key, r->Ok_0.state),
        r is Err ==> (r->Err_0).0 == self && !opens(self.state, *key),
@closure 0
    |p__0: (header::KdbxInnerHeader, Vec<u8>)| -> (q: Result<(header::KdbxInnerHeader, Vec<u8>, crate::Database), errors::UnlockError>)
        ensures
            q is Ok ==> inner_id(p__0.0.inner_stream_cipher, p__0.0.inner_stream_key@) is Some && (q->Ok_0).0 == p__0.0 && (q->Ok_0).1 == p__0.1 && db_is(p__0.1@, inner_id(p__0.0.inner_stream_cipher, p__0.0.inner_stream_key@)->0, 0, (q->Ok_0).2),
            q is Err ==> !readable_content(p__0.0, p__0.1@),

@prelude
broadcast use {crate::ext::sha2::axiom_sha256_len, crate::ext::hmac::axiom_hmac_len};
/// a locked archive is written as the file it was read from
pub proof fn lemma_locked_writes_back(s: Seq<u8>, l: Locked)
    requires archive_at(s) is Some, locked_is(l, archive_at(s)->0)
    ensures l.complete(), locked_bytes(l) == s
{
    let major = le16(s.subrange(10, 12));
    let t = s.skip(12);
    super::header::lemma_shrinks::<OuterHeaderId>(t, major);
    let (fs, n) = fields_at::<OuterHeaderId>(t, major)->0;
    let bin = s.take(12) + t.take(t.len() - n.len());
    assert(s =~= bin + n);
    if major >= 4 {
        assert(n =~= sha256(bin) + n.skip(32).take(32) + n.skip(32).skip(32));
        assert(locked_bytes(l) =~= s);
    }
}
pub proof fn lemma_signature(minor: u16, major: u16, rest: Seq<u8>)
    ensures ({
        let sig = signature(minor, major);
        let b = sig + rest;
        &&& sig.len() == 12 && b.len() >= 12 && b.take(12) == sig && b.skip(12) == rest
        &&& le32(b.take(4)) == 0x9AA2D903 && le32(b.subrange(4, 8)) == 0xB54BFB67 && le16(b.subrange(8, 10)) == minor && le16(b.subrange(10, 12)) == major
    })
{
    let sig = signature(minor, major);
    let b = sig + rest;
    lemma_le32(0x9AA2D903);
    lemma_le32(0xB54BFB67);
    lemma_le16(minor);
    lemma_le16(major);
    assert(b.take(12) =~= sig);
    assert(b.skip(12) =~= rest);
    assert(b.take(4) =~= le32_bytes(0x9AA2D903));
    assert(b.subrange(4, 8) =~= le32_bytes(0xB54BFB67));
    assert(b.subrange(8, 10) =~= le16_bytes(minor));
    assert(b.subrange(10, 12) =~= le16_bytes(major));
}
/// a checksum and a tag, and then the body
pub proof fn lemma_after_header(sum: Seq<u8>, tag: Seq<u8>, body: Seq<u8>)
    requires sum.len() == 32, tag.len() == 32
    ensures ({
        let t = sum + tag + body;
        t.len() >= 64 && t.take(32) == sum && t.skip(32).len() >= 32 && t.skip(32).take(32) == tag && t.skip(32).skip(32) == body
    })
{
    let t = sum + tag + body;
    assert(t.take(32) =~= sum);
    assert(t.skip(32).take(32) =~= tag);
    assert(t.skip(32).skip(32) =~= body);
}
/// what is written for an unlocked archive opens as the same archive, with the same header
#[verifier::rlimit(30)]
pub proof fn lemma_saved_opens(u: Unlocked, hb: Seq<u8>, xml: Seq<u8>, body: Seq<u8>, b: Seq<u8>)
    requires archive_of(u, hb, xml, body, b), u.major_version == 4, plain_header(u.header), hb.len() <= u32::MAX
    ensures archive_at(b) is Some,
        forall|l: Locked| #[trigger] locked_is(l, archive_at(b)->0) ==> {
            &&& l.header == u.header && l.major_version == u.major_version && l.minor_version == u.minor_version
            &&& l.header_data@ == signature(u.minor_version, u.major_version) + hb
            &&& l.encrypted_data@ == body
            &&& l.hmac is Some && l.hmac->0@ == header_tag(hmac_key_spec(mkey(u), u.header.master_seed@), l.header_data@)
        }
{
    let sig = signature(u.minor_version, u.major_version);
    let bin = sig + hb;
    let tag = header_tag(hmac_key_spec(mkey(u), u.header.master_seed@), bin);
    let t = sha256(bin) + tag + body;
    assert(b =~= sig + (hb + t));
    lemma_signature(u.minor_version, u.major_version, hb + t);
    lemma_after_header(sha256(bin), tag, body);
    lemma_header_reads_back(u.header, hb, t, 4);
    let (fs, n) = fields_at::<OuterHeaderId>(hb + t, 4)->0;
    assert((hb + t).take((hb + t).len() - t.len()) =~= hb);
    assert(archive_at(b) == Some(Parts { minor: u.minor_version, major: u.major_version, fs, bin, tag: Some(tag), body }));
    assert forall|l: Locked| #[trigger] locked_is(l, archive_at(b)->0) implies l.header == u.header by {
        lemma_header_unique(l.header, u.header, fs);
    }
}
/// and unlocks, with credentials that give the same master key, to the same inner header and document
pub proof fn lemma_saved_unlocks(u: Unlocked, hb: Seq<u8>, xml: Seq<u8>, body: Seq<u8>, b: Seq<u8>, l: Locked, k: crypto::CompositeKey, v: Unlocked)
    requires archive_of(u, hb, xml, body, b), u.major_version == 4, plain_header(u.header), hb.len() <= u32::MAX,
        plain_inner(u.inner_header), inner_header_bytes(u.inner_header).len() <= u32::MAX,
        archive_at(b) is Some, locked_is(l, archive_at(b)->0),
        master_spec(composed_spec(k), u.header.kdf_params) == Some(mkey(u)),
    ensures
        opened4(l, mkey(u)) is Some, (opened4(l, mkey(u))->0).1 == xml,
        xml_ok(xml, inner_id(u.inner_header.inner_stream_cipher, u.inner_header.inner_stream_key@)->0, 0) ==> opens(l, k),
        unlocked_is(l, k, v) ==> {
            &&& v.header == u.header && v.inner_header == u.inner_header && v.major_version == u.major_version && v.minor_version == u.minor_version
            &&& mkey(v) == mkey(u) && v.xml_data is Some && v.xml_data->0@ == xml
            &&& db_is(xml, inner_id(u.inner_header.inner_stream_cipher, u.inner_header.inner_stream_key@)->0, 0, v.database)
        }
{
    lemma_saved_opens(u, hb, xml, body, b);
    let seed = u.header.master_seed@;
    let (hk, ck) = (hmac_key_spec(mkey(u), seed), cipher_key_spec(mkey(u), seed));
    let content = inner_header_bytes(u.inner_header) + xml;
    assert(is_body4(body, hk, ck, u.header.cipher, u.header.encryption_iv@, u.header.compression_type, content));
    lemma_body4_reads_back(body, hk, ck, u.header.cipher, u.header.encryption_iv@, u.header.compression_type, content);
    lemma_inner_reads_back(u.inner_header, xml, 4);
    let fs = (fields_at::<InnerHeaderId>(content, 4)->0).0;
    assert forall|h: KdbxInnerHeader| #[trigger] inner_header_is(h, fs) implies h == u.inner_header by { lemma_inner_unique(h, u.inner_header, fs); }
}
/// so that the same database comes back: times to the second, empty texts as empty values and this library as generator
pub proof fn lemma_saved_reads_back(u: Unlocked, hb: Seq<u8>, xml: Seq<u8>, body: Seq<u8>, b: Seq<u8>, l: Locked, k: crypto::CompositeKey, v: Unlocked)
    requires archive_of(u, hb, xml, body, b), u.major_version == 4, plain_header(u.header), hb.len() <= u32::MAX,
        plain_inner(u.inner_header), inner_header_bytes(u.inner_header).len() <= u32::MAX,
        archive_at(b) is Some, locked_is(l, archive_at(b)->0),
        master_spec(composed_spec(k), u.header.kdf_params) == Some(mkey(u)),
        u.database.groups@.len() > 0, groups_timely(u.database.groups@),
    ensures opens(l, k), unlocked_is(l, k, v) ==> says(v.database, db_back(u.database))
{
    lemma_saved_unlocks(u, hb, xml, body, b, l, k, v);
    lemma_xml_reads_back(u.database, inner_id(u.inner_header.inner_stream_cipher, u.inner_header.inner_stream_key@)->0, 0, xml);
}
