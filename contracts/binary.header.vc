@prelude
use crate::ext::io::{Read as _, Write as _};
use crate::ext::io::{wrote, lemma_wrote};
use vstd::std_specs::convert::FromSpec;
use super::header_fields::{cipher_id, cipher_of, cipher_plain, compression_of, compression_code, inner_of, inner_code, kdf_is, kdf_plain, kdf_dict, kdf_fits, lemma_kdf_unique, lemma_ids_differ, Cipher, KdfParams, CompressionType, InnerStreamCipherAlgorithm};
use super::variant_dict::{dict_of, is_dict_bytes, all_fit, lemma_dict_reads_back, Value};
use crate::ext::sha2::sha256;
use crate::ext::uuid::lemma_uuid_ext;
use crate::ext::rand::from_os;
pub open spec fn outer_of(b: u8) -> OuterHeaderId {
    if b == 0 { OuterHeaderId::EndOfHeader } else if b == 1 { OuterHeaderId::Comment } else if b == 2 { OuterHeaderId::CipherId } else if b == 3 { OuterHeaderId::CompressionFlags }
    else if b == 4 { OuterHeaderId::MasterSeed } else if b == 5 { OuterHeaderId::LegacyTransformSeed } else if b == 6 { OuterHeaderId::LegacyTransformRounds }
    else if b == 7 { OuterHeaderId::EncryptionIv } else if b == 8 { OuterHeaderId::ProtectedStreamKey } else if b == 9 { OuterHeaderId::StreamStartBytes }
    else if b == 10 { OuterHeaderId::InnerRandomStreamId } else if b == 11 { OuterHeaderId::KdfParameters } else if b == 12 { OuterHeaderId::PublicCustomData }
    else { OuterHeaderId::Unknown(b) }
}
pub open spec fn outer_code(t: OuterHeaderId) -> u8 {
    match t {
        OuterHeaderId::EndOfHeader => 0, OuterHeaderId::Comment => 1, OuterHeaderId::CipherId => 2, OuterHeaderId::CompressionFlags => 3, OuterHeaderId::MasterSeed => 4,
        OuterHeaderId::LegacyTransformSeed => 5, OuterHeaderId::LegacyTransformRounds => 6, OuterHeaderId::EncryptionIv => 7, OuterHeaderId::ProtectedStreamKey => 8,
        OuterHeaderId::StreamStartBytes => 9, OuterHeaderId::InnerRandomStreamId => 10, OuterHeaderId::KdfParameters => 11, OuterHeaderId::PublicCustomData => 12, OuterHeaderId::Unknown(x) => x,
    }
}
pub open spec fn inner_id_of(b: u8) -> InnerHeaderId {
    if b == 0 { InnerHeaderId::EndOfHeader } else if b == 1 { InnerHeaderId::InnerRandomStreamCipherId } else if b == 2 { InnerHeaderId::InnerRandomStreamKey }
    else if b == 3 { InnerHeaderId::Binary } else { InnerHeaderId::Unknown(b) }
}
pub open spec fn inner_id_code(t: InnerHeaderId) -> u8 {
    match t { InnerHeaderId::EndOfHeader => 0, InnerHeaderId::InnerRandomStreamCipherId => 1, InnerHeaderId::InnerRandomStreamKey => 2, InnerHeaderId::Binary => 3, InnerHeaderId::Unknown(x) => x }
}
/// a field in the file: type byte and contents
pub type Raw = (u8, Seq<u8>);
/// the first field of s, and what follows it
pub open spec fn field_at(s: Seq<u8>, major: u16) -> Option<(u8, Seq<u8>, Seq<u8>)> {
    let n: int = if major >= 4 { 4 } else { 2 };
    let l = s.skip(1).take(n);
    let len = if major >= 4 { le32(l) as int } else { le16(l) as int };
    let t = s.skip(1).skip(n);
    if s.len() < 1 + n || t.len() < len { None } else { Some((s[0], t.take(len), t.skip(len))) }
}
/// the fields of s up to the final one, and what follows that
pub open spec fn fields_at<T: HeaderId>(s: Seq<u8>, major: u16) -> Option<(Seq<Raw>, Seq<u8>)> decreases s.len() {
    match field_at(s, major) {
        None => None,
        Some((b, d, n)) => if T::from_spec(b).fin() { Some((Seq::empty(), n)) } else if n.len() >= s.len() { None } else { before(seq![(b, d)], fields_at::<T>(n, major)) },
    }
}
pub open spec fn before(a: Seq<Raw>, o: Option<(Seq<Raw>, Seq<u8>)>) -> Option<(Seq<Raw>, Seq<u8>)> {
    match o { Some((f, n)) => Some((a + f, n)), None => None }
}
pub open spec fn fields_match<T: HeaderId>(h: Seq<HeaderField<T>>, f: Seq<Raw>) -> bool {
    h.len() == f.len() && forall|i: int| 0 <= i < h.len() ==> field_matches(#[trigger] h[i], f[i])
}
pub open spec fn field_matches<T: HeaderId>(h: HeaderField<T>, f: Raw) -> bool { h.ty == T::from_spec(f.0) && h.data@ == f.1 }
pub proof fn lemma_before(a: Seq<Raw>, b: Seq<Raw>, o: Option<(Seq<Raw>, Seq<u8>)>)
    ensures before(a, before(b, o)) == before(a + b, o)
{
    if let Some((f, n)) = o { assert(a + (b + f) =~= (a + b) + f); }
}
@impl HeaderId
    spec fn fin(&self) -> bool;
@impl <HeaderId for OuterHeaderId>
    open spec fn fin(&self) -> bool { *self == OuterHeaderId::EndOfHeader }
@impl <HeaderId for InnerHeaderId>
    open spec fn fin(&self) -> bool { *self == InnerHeaderId::EndOfHeader }
@fn HeaderId::is_final
@spec
    ensures r == self.fin()
@fn <HeaderId for OuterHeaderId>::is_final
@spec
@fn <HeaderId for InnerHeaderId>::is_final
@spec
@pre <From<u8> for OuterHeaderId>
impl vstd::std_specs::convert::FromSpecImpl<u8> for OuterHeaderId {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u8) -> OuterHeaderId { outer_of(v) }
}
@fn <From<u8> for OuterHeaderId>::from
@spec
@pre <From<OuterHeaderId> for u8>
impl vstd::std_specs::convert::FromSpecImpl<OuterHeaderId> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: OuterHeaderId) -> u8 { outer_code(v) }
}
@fn <From<OuterHeaderId> for u8>::from
@spec
@pre <From<u8> for InnerHeaderId>
impl vstd::std_specs::convert::FromSpecImpl<u8> for InnerHeaderId {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u8) -> InnerHeaderId { inner_id_of(v) }
}
@fn <From<u8> for InnerHeaderId>::from
@spec
@pre <From<InnerHeaderId> for u8>
impl vstd::std_specs::convert::FromSpecImpl<InnerHeaderId> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InnerHeaderId) -> u8 { inner_id_code(v) }
}
@fn <From<InnerHeaderId> for u8>::from
@spec
@fn HeaderField::new
@spec
    ensures r.ty == ty, r.data == data
@fn HeaderParser::new
@spec
    ensures *r.reader == *old(reader), *final(r.reader) == *final(reader)
@fn HeaderParser::read_one_header
@spec
    requires (*old(self).reader).wf(), T::obeys_from_spec()
    ensures (*final(self).reader).wf(), (*final(self).reader).reliable() == (*old(self).reader).reliable(),
        *final(final(self).reader) == *final(old(self).reader),
        (*final(self).reader).fate() == (*old(self).reader).fate(),
        match r {
            Ok(h) => {
                &&& field_at((*old(self).reader).rem(), major_version) is Some
                &&& field_matches(h, ({ let f = field_at((*old(self).reader).rem(), major_version)->0; (f.0, f.1) }))
                &&& (*final(self).reader).rem() == (field_at((*old(self).reader).rem(), major_version)->0).2
                &&& (*final(self).reader).clean() == (*old(self).reader).clean() && (*final(self).reader).tape() == (*old(self).reader).tape()
            },
            Err(_) => (*old(self).reader).reliable() ==> field_at((*old(self).reader).rem(), major_version) is None,
        }
@fn HeaderParser::read_all_headers
@spec
    requires (*old(self).reader).wf(), T::obeys_from_spec()
    ensures (*final(self).reader).wf(), (*final(self).reader).reliable() == (*old(self).reader).reliable(),
        *final(final(self).reader) == *final(old(self).reader),
        (*final(self).reader).fate() == (*old(self).reader).fate(),
        match r {
            Ok(h) => {
                &&& fields_at::<T>((*old(self).reader).rem(), major_version) is Some
                &&& fields_match(h@, (fields_at::<T>((*old(self).reader).rem(), major_version)->0).0)
                &&& (*final(self).reader).rem() == (fields_at::<T>((*old(self).reader).rem(), major_version)->0).1
                &&& (*final(self).reader).clean() == (*old(self).reader).clean() && (*final(self).reader).tape() == (*old(self).reader).tape()
            },
            Err(_) => (*old(self).reader).reliable() ==> fields_at::<T>((*old(self).reader).rem(), major_version) is None,
        }
@start
    let ghost s0 = (*self.reader).rem();
    let ghost c0 = field_at(s0, major_version)->0;
    let ghost mut raw: Seq<Raw> = Seq::empty();
    let ghost mut cur: Raw = (c0.0, c0.1);
@loop 0
    invariant (*self.reader).wf(), (*self.reader).reliable() == (*old(self).reader).reliable(), T::obeys_from_spec(),
        *final(self.reader) == *final(old(self).reader), (*self.reader).fate() == (*old(self).reader).fate(),
        (*self.reader).clean() == (*old(self).reader).clean(), (*self.reader).tape() == (*old(self).reader).tape(),
        s0 == (*old(self).reader).rem(),
        fields_match(headers@, raw), field_matches(header, cur),
        fields_at::<T>(s0, major_version) == (if T::from_spec(cur.0).fin() { Some((raw, (*self.reader).rem())) } else { before(raw.push(cur), fields_at::<T>((*self.reader).rem(), major_version)) }),
    decreases (*self.reader).rem().len()
@loopstart 0
    let ghost rem0 = (*self.reader).rem();
    let ghost raw0 = raw;
    let ghost f = field_at(rem0, major_version)->0;
    proof { raw = raw.push(cur); cur = (f.0, f.1); lemma_before(raw, seq![cur], fields_at::<T>(f.2, major_version)); }
@prelude
/// the contents of the last field of a type
pub open spec fn last(fs: Seq<Raw>, id: u8) -> Option<Seq<u8>> decreases fs.len() {
    if fs.len() == 0 { None } else if fs.last().0 == id { Some(fs.last().1) } else { last(fs.drop_last(), id) }
}
/// the contents of the first field of a type
pub open spec fn first(fs: Seq<Raw>, id: u8) -> Option<Seq<u8>> decreases fs.len() {
    if fs.len() == 0 { None } else if fs[0].0 == id { Some(fs[0].1) } else { first(fs.skip(1), id) }
}
pub open spec fn special(id: u8) -> bool { id == 2 || id == 3 || id == 4 || id == 7 || id == 9 || id == 11 }
/// the fields kept as they are
pub open spec fn others(fs: Seq<Raw>) -> Seq<Raw> decreases fs.len() {
    if fs.len() == 0 { Seq::empty() } else if special(fs.last().0) { others(fs.drop_last()) } else { others(fs.drop_last()).push(fs.last()) }
}
pub open spec fn good_field(f: Raw) -> bool {
    &&& f.0 == 2 ==> f.1.len() == 16
    &&& f.0 == 3 ==> f.1.len() == 4
    &&& f.0 == 11 ==> dict_of(f.1) is Some && exists|k: KdfParams| #[trigger] kdf_is(dict_of(f.1)->0, k)
}
pub open spec fn all_good(fs: Seq<Raw>) -> bool { forall|i: int| 0 <= i < fs.len() ==> good_field(#[trigger] fs[i]) }
pub open spec fn is_bytes(o: Option<Vec<u8>>, d: Option<Seq<u8>>) -> bool { match d { None => o is None, Some(d) => o is Some && o->0@ == d } }
pub open spec fn is_cipher(c: Cipher, d: Seq<u8>) -> bool { d.len() == 16 && cipher_id(c) == d && cipher_plain(c) }
pub open spec fn is_kdf(k: KdfParams, d: Seq<u8>) -> bool { dict_of(d) is Some && kdf_is(dict_of(d)->0, k) }
pub open spec fn is_compression(c: CompressionType, d: Seq<u8>) -> bool { d.len() == 4 && c == compression_of(le32(d)) }
pub open spec fn builder_is(b: KdbxHeaderBuilder, fs: Seq<Raw>) -> bool {
    &&& all_good(fs)
    &&& match last(fs, 2) { None => b.cipher is None, Some(d) => b.cipher is Some && is_cipher(b.cipher->0, d) }
    &&& match last(fs, 3) { None => b.compression_type is None, Some(d) => b.compression_type is Some && is_compression(b.compression_type->0, d) }
    &&& match last(fs, 11) { None => b.kdf_params is None, Some(d) => b.kdf_params is Some && is_kdf(b.kdf_params->0, d) }
    &&& is_bytes(b.master_seed, last(fs, 4)) && is_bytes(b.encryption_iv, last(fs, 7)) && is_bytes(b.stream_start_bytes, last(fs, 9))
    &&& fields_match(b.other_headers@, others(fs))
}
pub proof fn lemma_push(fs: Seq<Raw>, f: Raw)
    ensures all_good(fs.push(f)) <==> all_good(fs) && good_field(f),
        forall|id: u8| #[trigger] last(fs.push(f), id) == (if f.0 == id { Some(f.1) } else { last(fs, id) }),
        others(fs.push(f)) == (if special(f.0) { others(fs) } else { others(fs).push(f) }),
{
    assert(fs.push(f).drop_last() =~= fs);
    if all_good(fs.push(f)) {
        assert forall|i: int| 0 <= i < fs.len() implies good_field(#[trigger] fs[i]) by { assert(fs.push(f)[i] == fs[i]); }
        assert(fs.push(f)[fs.len() as int] == f);
    }
}
/// `.try_into()` with the types of its only use written out
pub trait KdfFrom: Sized { fn kdf_from(self) -> Result<KdfParams>; }
impl KdfFrom for super::variant_dict::VariantDict {
    fn kdf_from(self) -> (r: Result<KdfParams>)
        ensures r is Ok ==> kdf_is(self@, r->Ok_0), r is Err ==> forall|k: KdfParams| !#[trigger] kdf_is(self@, k)
    { KdfParams::try_from(self) }
}
@type KdbxHeaderBuilder : accept
@fn <Default for KdbxHeaderBuilder>::default
@spec
    ensures builder_is(r, Seq::empty())
@fn KdbxHeaderBuilder::add_header
@call .try_into => kdf_from
@spec
    ensures
        r is Ok ==> forall|fs: Seq<Raw>, f: Raw| #[trigger] builder_is(*old(self), fs) && #[trigger] field_matches(header, f) ==> builder_is(*final(self), fs.push(f)),
        r is Err ==> forall|f: Raw| #[trigger] field_matches(header, f) ==> !good_field(f),
@start
    let ghost h = header;
    let ghost b0 = *self;
    proof { lemma_ids_differ(); }
@tail
    proof {
        assert forall|fs: Seq<Raw>, f: Raw| #[trigger] builder_is(b0, fs) && #[trigger] field_matches(h, f) implies builder_is(*self, fs.push(f)) by {
            lemma_push(fs, f);
            assert(f.0 == outer_code(h.ty));
            if f.0 == 11 { assert(is_kdf(self.kdf_params->0, f.1)); assert(good_field(f)); }
            if f.0 == 2 { assert(is_cipher(self.cipher->0, f.1)); }
            if f.0 == 3 { assert(f.1 =~= seq![f.1[0], f.1[1], f.1[2], f.1[3]]); assert(is_compression(self.compression_type->0, f.1)); }
            assert(good_field(f));
        }
    }
@prelude
/// the contents of the first field of a type, among fields already read
pub open spec fn first_of(hs: Seq<HeaderField<OuterHeaderId>>, ty: OuterHeaderId) -> Option<Seq<u8>> decreases hs.len() {
    if hs.len() == 0 { None } else if hs[0].ty == ty { Some(hs[0].data@) } else { first_of(hs.skip(1), ty) }
}
pub proof fn lemma_first_of(hs: Seq<HeaderField<OuterHeaderId>>, ty: OuterHeaderId)
    ensures
        forall|k: int| #![trigger hs[k]] 0 <= k < hs.len() && hs[k].ty == ty && (forall|j: int| 0 <= j < k ==> (#[trigger] hs[j]).ty != ty) ==> first_of(hs, ty) == Some(hs[k].data@),
        (forall|j: int| 0 <= j < hs.len() ==> (#[trigger] hs[j]).ty != ty) ==> first_of(hs, ty) is None,
    decreases hs.len()
{
    if hs.len() > 0 {
        let t = hs.skip(1);
        lemma_first_of(t, ty);
        assert forall|k: int| #![trigger hs[k]] 0 <= k < hs.len() && hs[k].ty == ty && (forall|j: int| 0 <= j < k ==> (#[trigger] hs[j]).ty != ty) implies first_of(hs, ty) == Some(hs[k].data@) by {
            if k > 0 {
                assert(hs[0].ty != ty);
                assert(t[k - 1] == hs[k]);
                assert forall|j: int| 0 <= j < k - 1 implies (#[trigger] t[j]).ty != ty by { assert(t[j] == hs[j + 1]); }
            }
        }
        if forall|j: int| 0 <= j < hs.len() ==> (#[trigger] hs[j]).ty != ty {
            assert(hs[0].ty != ty);
            assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).ty != ty by { assert(t[j] == hs[j + 1]); }
        }
    }
}
pub proof fn lemma_first(hs: Seq<HeaderField<OuterHeaderId>>, fs: Seq<Raw>, id: u8)
    requires fields_match(hs, fs), id <= 12
    ensures first_of(hs, outer_of(id)) == first(fs, id)
    decreases hs.len()
{
    if hs.len() > 0 {
        assert(field_matches(hs[0], fs[0]));
        assert forall|i: int| 0 <= i < hs.skip(1).len() implies field_matches(#[trigger] hs.skip(1)[i], fs.skip(1)[i]) by { assert(field_matches(hs[i + 1], fs[i + 1])); }
        lemma_first(hs.skip(1), fs.skip(1), id);
    }
}
/// the parameters of the AES KDF of KDBX 3
pub open spec fn is_legacy(k: Option<KdfParams>, rounds: Option<Seq<u8>>, seed: Option<Seq<u8>>) -> bool {
    match k {
        Some(KdfParams::Aes { rounds: n, salt }) => rounds is Some && rounds->0.len() >= 8 && n == le64(rounds->0.take(8)) && seed == Some(salt@),
        Some(_) => false,
        None => rounds is None || rounds->0.len() < 8 || seed is None,
    }
}
pub open spec fn readable(fs: Seq<Raw>) -> bool {
    &&& all_good(fs)
    &&& last(fs, 2) is Some && last(fs, 3) is Some && last(fs, 4) is Some && last(fs, 7) is Some
    &&& last(fs, 11) is Some || first(others(fs), 6) is Some && first(others(fs), 6)->0.len() >= 8 && first(others(fs), 5) is Some
}
/// h is the header with the fields fs
pub open spec fn header_is(h: KdbxHeader, fs: Seq<Raw>) -> bool {
    &&& readable(fs)
    &&& is_cipher(h.cipher, last(fs, 2)->0) && is_compression(h.compression_type, last(fs, 3)->0)
    &&& h.master_seed@ == last(fs, 4)->0 && h.encryption_iv@ == last(fs, 7)->0 && is_bytes(h.stream_start_bytes, last(fs, 9))
    &&& match last(fs, 11) { Some(d) => is_kdf(h.kdf_params, d), None => is_legacy(Some(h.kdf_params), first(others(fs), 6), first(others(fs), 5)) }
    &&& fields_match(h.other_headers@, others(fs))
}
@fn KdbxHeaderBuilder::get_kdf_params
@call .get => get_range_e
@call .clone_from_slice => copy_all_e
@spec
    ensures
        old(self).kdf_params is Some ==> r == old(self).kdf_params,
        old(self).kdf_params is None ==> is_legacy(r, first_of(old(self).other_headers@, OuterHeaderId::LegacyTransformRounds), first_of(old(self).other_headers@, OuterHeaderId::LegacyTransformSeed)),
        final(self).other_headers == old(self).other_headers, final(self).cipher == old(self).cipher, final(self).compression_type == old(self).compression_type,
        final(self).stream_start_bytes == old(self).stream_start_bytes, final(self).master_seed == old(self).master_seed, final(self).encryption_iv == old(self).encryption_iv,
@start
    proof { lemma_first_of(self.other_headers@, OuterHeaderId::LegacyTransformRounds); lemma_first_of(self.other_headers@, OuterHeaderId::LegacyTransformSeed); }
@closure 0
    |h: &&HeaderField<OuterHeaderId>| -> (b: bool) ensures b == (h.ty == OuterHeaderId::LegacyTransformRounds)
@closure 1
    |h: &HeaderField<OuterHeaderId>| -> (o: Option<u64>) ensures o == (if h.data@.len() >= 8 { Some(le64(h.data@.take(8))) } else { None })
@closure 2
    |h: &&HeaderField<OuterHeaderId>| -> (b: bool) ensures b == (h.ty == OuterHeaderId::LegacyTransformSeed)
@closure 3
    |h: &HeaderField<OuterHeaderId>| -> (v: Vec<u8>) ensures v@ == h.data@
@fn KdbxHeaderBuilder::build
@spec
    ensures
        r is Ok ==> forall|fs: Seq<Raw>| #[trigger] builder_is(self, fs) ==> header_is(r->Ok_0, fs),
        r is Err ==> forall|fs: Seq<Raw>| #[trigger] builder_is(self, fs) ==> !readable(fs),
@start
    proof {
        assert forall|fs: Seq<Raw>| #[trigger] builder_is(self, fs) implies first_of(self.other_headers@, OuterHeaderId::LegacyTransformRounds) == first(others(fs), 6) && first_of(self.other_headers@, OuterHeaderId::LegacyTransformSeed) == first(others(fs), 5) by {
            lemma_first(self.other_headers@, others(fs), 6);
            lemma_first(self.other_headers@, others(fs), 5);
        }
    }
@prelude
/// what read accepts: complete fields, then (from KDBX 4) the SHA-256 of everything up to there
pub open spec fn header_at(d: Seq<u8>, s: Seq<u8>, major: u16) -> Option<(Seq<Raw>, Seq<u8>, Seq<u8>)> {
    match fields_at::<OuterHeaderId>(s, major) {
        None => None,
        Some((fs, n)) => {
            let bin = d + s.take(s.len() - n.len());
            if !readable(fs) { None } else if major < 4 { Some((fs, bin, n)) }
            else if n.len() >= 32 && n.take(32) == sha256(bin) { Some((fs, bin, n.skip(32))) } else { None }
        },
    }
}
pub proof fn lemma_shrinks<T: HeaderId>(s: Seq<u8>, major: u16)
    ensures fields_at::<T>(s, major) is Some ==> (fields_at::<T>(s, major)->0).1.len() < s.len() && (fields_at::<T>(s, major)->0).1 == s.skip(s.len() - (fields_at::<T>(s, major)->0).1.len())
    decreases s.len()
{
    if let Some((b, d, n)) = field_at(s, major) {
        let k: int = if major >= 4 { 4 } else { 2 };
        assert(n =~= s.skip(1 + k + d.len()));
        if !T::from_spec(b).fin() {
            lemma_shrinks::<T>(n, major);
            if let Some((f, m)) = fields_at::<T>(n, major) { assert(n.skip(n.len() - m.len()) =~= s.skip(s.len() - m.len())); }
        }
    }
}
@fn KdbxHeader::read
@spec
    requires (*caching_reader.inner).wf()
    ensures
        (*final(caching_reader.inner)).reliable() == (*old(caching_reader.inner)).reliable(),
        (*final(caching_reader.inner)).wf(),
        r is Ok ==> {
            let a = header_at(caching_reader.data@, (*old(caching_reader.inner)).rem(), major_version);
            &&& a is Some
            &&& header_is((r->Ok_0).0, (a->0).0)
            &&& (r->Ok_0).1@ == (a->0).1
            &&& (*final(caching_reader.inner)).rem() == (a->0).2
            &&& (*final(caching_reader.inner)).clean() == (*old(caching_reader.inner)).clean()
        },
        r is Err && (*old(caching_reader.inner)).reliable() ==> header_at(caching_reader.data@, (*old(caching_reader.inner)).rem(), major_version) is None,
@start
    let ghost d0 = caching_reader.data@;
    let ghost s0 = (*caching_reader.inner).rem();
    let ghost fs = (fields_at::<OuterHeaderId>(s0, major_version)->0).0;
    let ghost n0 = (fields_at::<OuterHeaderId>(s0, major_version)->0).1;
    proof { lemma_shrinks::<OuterHeaderId>(s0, major_version); assert(fs.take(0) =~= Seq::empty()); }
@loop 0
    invariant
        0 <= it__0@.len() <= all__0.len(), fields_match(all__0, fs), fields_at::<OuterHeaderId>(s0, major_version) is Some,
        it__0@ == all__0.skip(all__0.len() - it__0@.len()),
        builder_is(header_builder, fs.take(all__0.len() - it__0@.len())),
    decreases it__0@.len()
@loopstart 0
    let ghost k = all__0.len() - it__0@.len() - 1;
    proof {
        assert(header == all__0[k]);
        assert(field_matches(all__0[k], fs[k]));
        assert(fs.take(k + 1) =~= fs.take(k).push(fs[k]));
    }
@before if major_version < 4
    proof {
        let t0 = d0 + s0;
        assert(header_bin@ + n0 == t0);
        assert(header_bin@ =~= t0.take(t0.len() - n0.len()));
        assert(header_bin@ =~= d0 + s0.take(s0.len() - n0.len()));
        assert(fs.take(fs.len() as int) =~= fs);
        assert(builder_is(header_builder, fs));
    }
@prelude
/// a field as it is written
pub open spec fn enc_field(f: Raw) -> Seq<u8> { seq![f.0] + le32_bytes(f.1.len() as u32) + f.1 }
pub open spec fn enc_fields(fs: Seq<Raw>) -> Seq<u8> decreases fs.len() {
    if fs.len() == 0 { Seq::empty() } else { enc_fields(fs.drop_last()) + enc_field(fs.last()) }
}
pub open spec fn outer_raw(h: HeaderField<OuterHeaderId>) -> Raw { (outer_code(h.ty), h.data@) }
pub open spec fn outer_raws(hs: Seq<HeaderField<OuterHeaderId>>) -> Seq<Raw> { Seq::new(hs.len(), |i: int| outer_raw(hs[i])) }
/// kd is an encoding of the KDF parameters
pub open spec fn kdf_bytes(k: KdfParams, kd: Seq<u8>) -> bool { kdf_plain(k) ==> exists|m: Map<Seq<char>, Value>| #[trigger] kdf_dict(k, m) && is_dict_bytes(kd, m) }
pub open spec fn own_fields(h: KdbxHeader, kd: Seq<u8>) -> Seq<Raw> {
    seq![(2u8, cipher_id(h.cipher)), (3u8, le32_bytes(compression_code(h.compression_type))), (4u8, h.master_seed@), (7u8, h.encryption_iv@), (11u8, kd), (0u8, Seq::empty())]
}
/// the fields written for h
pub open spec fn written(h: KdbxHeader, kd: Seq<u8>) -> Seq<Raw> { outer_raws(h.other_headers@) + own_fields(h, kd) }
pub open spec fn argon2i(k: KdfParams) -> bool { match k { KdfParams::Argon2 { variant, .. } => variant == argon2::Variant::Argon2i, _ => false } }
/// b is an encoding of the header h
pub open spec fn is_header_bytes(h: KdbxHeader, b: Seq<u8>) -> bool { exists|kd: Seq<u8>| #[trigger] kdf_bytes(h.kdf_params, kd) && b == enc_fields(written(h, kd)) }
@fn KdbxHeader::write
@spec
    requires writer.sound()
    ensures r is Ok ==> !argon2i(self.kdf_params) && exists|b: Seq<u8>| #[trigger] wrote(writer, b) && is_header_bytes(*self, b),
        writer.steady() && !argon2i(self.kdf_params) ==> r is Ok,
@start
    let ghost w0 = writer;
    let ghost mut done: Seq<Raw> = Seq::empty();
@before let headers
    proof { assert(!argon2i(self.kdf_params)); }
@before for header in headers
    let ghost kd = headers@[headers@.len() - 2].data@;
    let ghost hs = headers@;
    proof {
        assert(kdf_bytes(self.kdf_params, kd));
        assert(outer_raws(hs) =~= written(*self, kd));
    }
@loop 0
    invariant all__0 == hs, 0 <= it__0@.len() <= hs.len(), it__0@ == hs.skip(hs.len() - it__0@.len()),
        done == outer_raws(hs).take(hs.len() - it__0@.len()),
        writer.acc() == w0.acc() + enc_fields(done), writer.sound(), writer.fixed() == w0.fixed(), writer.steady() == w0.steady(), writer.layer() == w0.layer(),
    decreases it__0@.len()
@loopstart 0
    let ghost k = hs.len() - it__0@.len() - 1;
    let ghost d0 = done;
    let ghost a0 = writer.acc();
    proof {
        assert(header == hs[k]);
        done = done.push(outer_raw(header));
        assert(done =~= outer_raws(hs).take(k + 1));
        assert(done.drop_last() =~= d0);
    }
@loopend 0
    proof { assert(writer.acc() =~= a0 + enc_field(outer_raw(hs[k]))); assert(writer.acc() =~= w0.acc() + enc_fields(done)); }
@tail
    proof {
        assert(done =~= outer_raws(hs));
        assert(is_header_bytes(*self, enc_fields(done)));
        assert(has_resolved(writer));
        assert(wrote(w0, enc_fields(done)));
    }
@prelude
pub proof fn lemma_field_reads_back(f: Raw, t: Seq<u8>, major: u16)
    requires f.1.len() <= u32::MAX, major >= 4
    ensures field_at(enc_field(f) + t, major) == Some((f.0, f.1, t))
{
    let s = enc_field(f) + t;
    let l = le32_bytes(f.1.len() as u32);
    lemma_le32(f.1.len() as u32);
    assert(s.skip(1).take(4) =~= l);
    assert(s.skip(1).skip(4) =~= f.1 + t);
    assert((f.1 + t).take(f.1.len() as int) =~= f.1);
    assert((f.1 + t).skip(f.1.len() as int) =~= t);
    assert(s[0] == f.0);
}
pub proof fn lemma_enc_front(fs: Seq<Raw>)
    requires fs.len() > 0
    ensures enc_fields(fs) == enc_field(fs[0]) + enc_fields(fs.skip(1))
    decreases fs.len()
{
    if fs.len() == 1 {
        assert(fs.drop_last() =~= Seq::empty() && fs.skip(1) =~= Seq::empty());
        assert(enc_fields(fs.drop_last()) =~= Seq::empty() && enc_fields(fs.skip(1)) =~= Seq::empty());
        assert(enc_fields(fs) =~= enc_field(fs[0]) + enc_fields(fs.skip(1)));
    } else {
        lemma_enc_front(fs.drop_last());
        assert(fs.drop_last().skip(1) =~= fs.skip(1).drop_last());
        assert(enc_fields(fs) =~= enc_field(fs[0]) + enc_fields(fs.skip(1)));
    }
}
pub open spec fn lens_fit(fs: Seq<Raw>) -> bool { forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).1.len() <= u32::MAX }
/// the last field, and no other, is final
pub open spec fn ends<T: HeaderId>(fs: Seq<Raw>) -> bool {
    fs.len() > 0 && T::from_spec(fs.last().0).fin() && forall|i: int| 0 <= i < fs.len() - 1 ==> !T::from_spec((#[trigger] fs[i]).0).fin()
}
/// fields written one after the other are read back
pub proof fn lemma_fields_read_back<T: HeaderId>(fs: Seq<Raw>, t: Seq<u8>, major: u16)
    requires ends::<T>(fs), lens_fit(fs), major >= 4
    ensures fields_at::<T>(enc_fields(fs) + t, major) == Some((fs.drop_last(), t))
    decreases fs.len()
{
    lemma_enc_front(fs);
    let n = enc_fields(fs.skip(1)) + t;
    assert(enc_fields(fs) + t =~= enc_field(fs[0]) + n);
    lemma_field_reads_back(fs[0], n, major);
    if fs.len() == 1 {
        assert(fs.skip(1) =~= Seq::empty());
        assert(n =~= t);
        assert(fs.drop_last() =~= Seq::empty());
    } else {
        let g = fs.skip(1);
        assert(g.last() == fs.last());
        assert forall|i: int| 0 <= i < g.len() - 1 implies !T::from_spec((#[trigger] g[i]).0).fin() by { assert(g[i] == fs[i + 1]); }
        lemma_fields_read_back::<T>(g, t, major);
        assert(seq![fs[0]] + g.drop_last() =~= fs.drop_last());
    }
}
pub proof fn lemma_enc_len(fs: Seq<Raw>, i: int)
    requires 0 <= i < fs.len()
    ensures fs[i].1.len() <= enc_fields(fs).len()
    decreases fs.len()
{
    if i < fs.len() - 1 { lemma_enc_len(fs.drop_last(), i); }
}
/// fields without a place of their own in KdbxHeader
pub open spec fn plain_other(h: HeaderField<OuterHeaderId>) -> bool { h.ty == outer_of(outer_code(h.ty)) && !special(outer_code(h.ty)) && !h.ty.fin() }
pub open spec fn plain_header(h: KdbxHeader) -> bool {
    &&& forall|i: int| 0 <= i < h.other_headers@.len() ==> plain_other(#[trigger] h.other_headers@[i])
    &&& cipher_plain(h.cipher) && compression_of(compression_code(h.compression_type)) == h.compression_type && kdf_plain(h.kdf_params) && kdf_fits(h.kdf_params)
    &&& h.stream_start_bytes is None
}
pub proof fn lemma_others_plain(fs: Seq<Raw>, id: u8)
    requires forall|i: int| 0 <= i < fs.len() ==> !special((#[trigger] fs[i]).0)
    ensures others(fs) == fs, special(id) ==> last(fs, id) is None, all_good(fs)
    decreases fs.len()
{
    if fs.len() > 0 {
        lemma_others_plain(fs.drop_last(), id);
        assert(fs.drop_last().push(fs.last()) =~= fs);
    } else { assert(others(fs) =~= fs); }
}
/// what is found in the fields written for a header
pub proof fn lemma_written(h: KdbxHeader, kd: Seq<u8>)
    requires plain_header(h), good_field((11u8, kd))
    ensures ({
        let p = written(h, kd).drop_last();
        &&& others(p) == outer_raws(h.other_headers@) && all_good(p)
        &&& last(p, 2) == Some(cipher_id(h.cipher)) && last(p, 3) == Some(le32_bytes(compression_code(h.compression_type)))
        &&& last(p, 4) == Some(h.master_seed@) && last(p, 7) == Some(h.encryption_iv@) && last(p, 9) is None && last(p, 11) == Some(kd)
    })
{
    let o = outer_raws(h.other_headers@);
    let p = written(h, kd).drop_last();
    let f = own_fields(h, kd);
    assert(p =~= o.push(f[0]).push(f[1]).push(f[2]).push(f[3]).push(f[4]));
    assert forall|i: int| 0 <= i < o.len() implies !special((#[trigger] o[i]).0) by { assert(plain_other(h.other_headers@[i])); }
    lemma_others_plain(o, 2); lemma_others_plain(o, 3); lemma_others_plain(o, 4); lemma_others_plain(o, 7); lemma_others_plain(o, 9); lemma_others_plain(o, 11);
    lemma_push(o, f[0]);
    lemma_push(o.push(f[0]), f[1]);
    lemma_push(o.push(f[0]).push(f[1]), f[2]);
    lemma_push(o.push(f[0]).push(f[1]).push(f[2]), f[3]);
    lemma_push(o.push(f[0]).push(f[1]).push(f[2]).push(f[3]), f[4]);
    assert(good_field(f[0]) && good_field(f[1]) && good_field(f[2]) && good_field(f[3]));
}
/// a header is read back from what is written for it
#[verifier::rlimit(30)]
pub proof fn lemma_header_reads_back(h: KdbxHeader, b: Seq<u8>, t: Seq<u8>, major: u16)
    requires plain_header(h), is_header_bytes(h, b), b.len() <= u32::MAX, major >= 4
    ensures fields_at::<OuterHeaderId>(b + t, major) is Some,
        (fields_at::<OuterHeaderId>(b + t, major)->0).1 == t,
        header_is(h, (fields_at::<OuterHeaderId>(b + t, major)->0).0),
{
    let kd = choose|kd: Seq<u8>| #[trigger] kdf_bytes(h.kdf_params, kd) && b == enc_fields(written(h, kd));
    let fs = written(h, kd);
    let o = outer_raws(h.other_headers@);
    assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] fs[i]).1.len() <= u32::MAX by { lemma_enc_len(fs, i); }
    assert forall|i: int| 0 <= i < fs.len() - 1 implies !(#[trigger] OuterHeaderId::from_spec(fs[i].0)).fin() by {
        if i < o.len() { assert(fs[i] == o[i]); assert(plain_other(h.other_headers@[i])); } else { assert(fs[i] == own_fields(h, kd)[i - o.len()]); }
    }
    lemma_fields_read_back::<OuterHeaderId>(fs, t, major);
    lemma_kdf_back(h, kd);
    lemma_written(h, kd);
    lemma_le32(compression_code(h.compression_type));
    assert forall|i: int| 0 <= i < o.len() implies field_matches(#[trigger] h.other_headers@[i], o[i]) by { assert(plain_other(h.other_headers@[i])); }
}
pub proof fn lemma_kdf_back(h: KdbxHeader, kd: Seq<u8>)
    requires plain_header(h), kdf_bytes(h.kdf_params, kd)
    ensures dict_of(kd) is Some, kdf_is(dict_of(kd)->0, h.kdf_params), good_field((11u8, kd))
{
    let m = choose|m: Map<Seq<char>, Value>| #[trigger] kdf_dict(h.kdf_params, m) && is_dict_bytes(kd, m);
    lemma_dict_reads_back(kd, m);
    assert(kdf_is(dict_of(kd)->0, h.kdf_params));
}
pub proof fn lemma_header_unique(a: KdbxHeader, b: KdbxHeader, fs: Seq<Raw>)
    requires header_is(a, fs), header_is(b, fs)
    ensures a == b
{
    broadcast use axiom_vec_ext, lemma_uuid_ext;
    lemma_ids_differ();
    if last(fs, 11) is Some { lemma_kdf_unique(dict_of(last(fs, 11)->0)->0, a.kdf_params, b.kdf_params); }
    let (x, y) = (a.other_headers@, b.other_headers@);
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(field_matches(x[i], others(fs)[i]) && field_matches(y[i], others(fs)[i])); }
    assert(x =~= y);
}
@fn KdbxHeader::from_os_random
@spec
    ensures r.master_seed@.len() == 32, r.encryption_iv@.len() == 16,
        r.cipher == Cipher::Aes256, r.compression_type == CompressionType::None, r.stream_start_bytes is None, r.other_headers@.len() == 0,
        match r.kdf_params {
            KdfParams::Argon2 { variant, memory_bytes, version, salt, lanes, iterations } => {
                &&& salt@.len() == 32 && variant != argon2::Variant::Argon2i
                &&& exists|a: int, b: int, c: int| a != b && a != c && b != c && #[trigger] from_os(r.master_seed@, a) && #[trigger] from_os(r.encryption_iv@, b) && #[trigger] from_os(salt@, c)
            },
            _ => false,
        }
@tail
    proof {
        let (x, y, z) = (r__.master_seed@, r__.encryption_iv@, r__.kdf_params->Argon2_salt@);
        assert(z.len() == 32);
        assert(see(from_os(x, 0)) && see(from_os(x, 1)) && see(from_os(x, 2)));
        assert(see(from_os(y, 0)) && see(from_os(y, 1)) && see(from_os(y, 2)));
        assert(see(from_os(z, 0)) && see(from_os(z, 1)) && see(from_os(z, 2)));
    }
@prelude
pub open spec fn inner_others(fs: Seq<Raw>) -> Seq<Raw> decreases fs.len() {
    if fs.len() == 0 { Seq::empty() } else if fs.last().0 == 1 || fs.last().0 == 2 { inner_others(fs.drop_last()) } else { inner_others(fs.drop_last()).push(fs.last()) }
}
/// no stream id too short
pub open spec fn inner_good(fs: Seq<Raw>) -> bool { forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).0 == 1 ==> fs[i].1.len() >= 4 }
pub open spec fn inner_readable(fs: Seq<Raw>) -> bool { inner_good(fs) && last(fs, 1) is Some && last(fs, 2) is Some }
pub open spec fn inner_builder_is(b: KdbxInnerHeaderBuilder, fs: Seq<Raw>) -> bool {
    &&& inner_good(fs)
    &&& match last(fs, 1) { None => b.inner_stream_cipher is None, Some(d) => b.inner_stream_cipher == Some(inner_of(le32(d.take(4)))) }
    &&& is_bytes(b.inner_stream_key, last(fs, 2))
    &&& fields_match(b.other_headers@, inner_others(fs))
}
/// h is the inner header with the fields fs
pub open spec fn inner_header_is(h: KdbxInnerHeader, fs: Seq<Raw>) -> bool {
    &&& inner_readable(fs)
    &&& h.inner_stream_cipher == inner_of(le32((last(fs, 1)->0).take(4)))
    &&& h.inner_stream_key@ == last(fs, 2)->0
    &&& fields_match(h.other_headers@, inner_others(fs))
}
pub proof fn lemma_inner_push(fs: Seq<Raw>, f: Raw)
    ensures inner_good(fs.push(f)) <==> inner_good(fs) && (f.0 == 1 ==> f.1.len() >= 4),
        forall|id: u8| #[trigger] last(fs.push(f), id) == (if f.0 == id { Some(f.1) } else { last(fs, id) }),
        inner_others(fs.push(f)) == (if f.0 == 1 || f.0 == 2 { inner_others(fs) } else { inner_others(fs).push(f) }),
{
    assert(fs.push(f).drop_last() =~= fs);
    if inner_good(fs.push(f)) {
        assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] fs[i]).0 == 1 ==> fs[i].1.len() >= 4 by { assert(fs.push(f)[i] == fs[i]); }
        assert(fs.push(f)[fs.len() as int] == f);
    }
}
@type KdbxInnerHeaderBuilder : accept
@fn <Default for KdbxInnerHeaderBuilder>::default
@spec
    ensures inner_builder_is(r, Seq::empty())
@fn KdbxInnerHeaderBuilder::add_header
@spec
    ensures
        r is Ok ==> forall|fs: Seq<Raw>, f: Raw| #[trigger] inner_builder_is(*old(self), fs) && #[trigger] field_matches(header, f) ==> inner_builder_is(*final(self), fs.push(f)),
        r is Err ==> forall|f: Raw| #[trigger] field_matches(header, f) ==> f.0 == 1 && f.1.len() < 4,
@start
    let ghost h = header;
    let ghost b0 = *self;
@tail
    proof {
        assert forall|fs: Seq<Raw>, f: Raw| #[trigger] inner_builder_is(b0, fs) && #[trigger] field_matches(h, f) implies inner_builder_is(*self, fs.push(f)) by {
            lemma_inner_push(fs, f);
            assert(f.0 == inner_id_code(h.ty));
            if f.0 == 1 { assert(f.1.take(4) =~= seq![f.1[0], f.1[1], f.1[2], f.1[3]]); }
        }
    }
@fn KdbxInnerHeaderBuilder::build
@spec
    ensures
        r is Ok ==> forall|fs: Seq<Raw>| #[trigger] inner_builder_is(self, fs) ==> inner_header_is(r->Ok_0, fs),
        r is Err ==> forall|fs: Seq<Raw>| #[trigger] inner_builder_is(self, fs) ==> !inner_readable(fs),
@fn KdbxInnerHeader::read
@spec
    requires (*old(reader)).wf()
    ensures (*final(reader)).wf(), (*final(reader)).reliable() == (*old(reader)).reliable(), (*final(reader)).fate() == (*old(reader)).fate(),
        r is Ok ==> {
            let a = fields_at::<InnerHeaderId>((*old(reader)).rem(), major_version);
            &&& a is Some && inner_header_is(r->Ok_0, (a->0).0)
            &&& (*final(reader)).rem() == (a->0).1
            &&& (*final(reader)).clean() == (*old(reader)).clean() && (*final(reader)).tape() == (*old(reader)).tape()
        },
        r is Err && (*old(reader)).reliable() ==> {
            let a = fields_at::<InnerHeaderId>((*old(reader)).rem(), major_version);
            a is None || !inner_readable((a->0).0)
        },
@start
    let ghost s0 = (*reader).rem();
    let ghost fs = (fields_at::<InnerHeaderId>(s0, major_version)->0).0;
    proof { assert(fs.take(0) =~= Seq::empty()); }
@loop 0
    invariant
        0 <= it__0@.len() <= all__0.len(), fields_match(all__0, fs), fields_at::<InnerHeaderId>(s0, major_version) is Some,
        it__0@ == all__0.skip(all__0.len() - it__0@.len()),
        inner_builder_is(header_builder, fs.take(all__0.len() - it__0@.len())),
    decreases it__0@.len()
@loopstart 0
    let ghost k = all__0.len() - it__0@.len() - 1;
    proof {
        assert(header == all__0[k]);
        assert(field_matches(all__0[k], fs[k]));
        assert(fs.take(k + 1) =~= fs.take(k).push(fs[k]));
    }
@before header_builder.build()
    proof { assert(fs.take(fs.len() as int) =~= fs); assert(inner_builder_is(header_builder, fs)); }
@prelude
pub open spec fn inner_raw(h: HeaderField<InnerHeaderId>) -> Raw { (inner_id_code(h.ty), h.data@) }
pub open spec fn inner_raws(hs: Seq<HeaderField<InnerHeaderId>>) -> Seq<Raw> { Seq::new(hs.len(), |i: int| inner_raw(hs[i])) }
pub open spec fn own_inner(h: KdbxInnerHeader) -> Seq<Raw> { seq![(1u8, le32_bytes(inner_code(h.inner_stream_cipher))), (2u8, h.inner_stream_key@), (0u8, Seq::empty())] }
/// the fields written for h
pub open spec fn inner_written(h: KdbxInnerHeader) -> Seq<Raw> { inner_raws(h.other_headers@) + own_inner(h) }
pub open spec fn inner_header_bytes(h: KdbxInnerHeader) -> Seq<u8> { enc_fields(inner_written(h)) }
pub proof fn lemma_len32(n: usize) ensures (n as i32) as u32 == n as u32 { assert((n as i32) as u32 == n as u32) by (bit_vector); }
@fn KdbxInnerHeader::write
@spec
    requires writer.sound()
    ensures r is Ok ==> wrote(writer, inner_header_bytes(*self)), writer.steady() ==> r is Ok
@start
    let ghost w0 = writer;
    let ghost mut done: Seq<Raw> = Seq::empty();
@before for header in headers
    let ghost hs = headers@;
    proof { assert(inner_raws(hs) =~= inner_written(*self)); }
@loop 0
    invariant all__0 == hs, 0 <= it__0@.len() <= hs.len(), it__0@ == hs.skip(hs.len() - it__0@.len()),
        done == inner_raws(hs).take(hs.len() - it__0@.len()),
        writer.acc() == w0.acc() + enc_fields(done), writer.sound(), writer.fixed() == w0.fixed(), writer.steady() == w0.steady(), writer.layer() == w0.layer(),
    decreases it__0@.len()
@loopstart 0
    let ghost k = hs.len() - it__0@.len() - 1;
    let ghost d0 = done;
    let ghost a0 = writer.acc();
    proof {
        assert(header == hs[k]);
        done = done.push(inner_raw(header));
        assert(done =~= inner_raws(hs).take(k + 1));
        assert(done.drop_last() =~= d0);
        lemma_len32(header.data@.len() as usize);
    }
@loopend 0
    proof { assert(writer.acc() =~= a0 + enc_field(inner_raw(hs[k]))); assert(writer.acc() =~= w0.acc() + enc_fields(done)); }
@tail
    proof {
        assert(done =~= inner_raws(hs));
        assert(has_resolved(writer));
        assert(wrote(w0, enc_fields(done)));
    }
@fn KdbxInnerHeader::from_os_random
@spec
    ensures r.inner_stream_cipher == InnerStreamCipherAlgorithm::ChaCha20, r.inner_stream_key@.len() == 44, r.other_headers@.len() == 0,
        exists|a: int| #[trigger] from_os(r.inner_stream_key@, a),
@prelude
/// the inner header of a KDBX 3 archive, taken from its outer header
pub open spec fn is_legacy_inner(h: KdbxInnerHeader, o: Seq<HeaderField<OuterHeaderId>>) -> bool {
    let c = first_of(o, OuterHeaderId::InnerRandomStreamId);
    &&& c is Some && c->0.len() >= 4 && h.inner_stream_cipher == inner_of(le32(c->0.take(4)))
    &&& first_of(o, OuterHeaderId::ProtectedStreamKey) == Some(h.inner_stream_key@)
    &&& h.other_headers@.len() == 0
}
@fn KdbxInnerHeader::from_legacy_fields
@call .get => get_range_e
@call .clone_from_slice => copy_all_e
@spec
    ensures r is Ok ==> is_legacy_inner(r->Ok_0, header.other_headers@),
        r is Err ==> first_of(header.other_headers@, OuterHeaderId::InnerRandomStreamId) is None || first_of(header.other_headers@, OuterHeaderId::InnerRandomStreamId)->0.len() < 4
            || first_of(header.other_headers@, OuterHeaderId::ProtectedStreamKey) is None,
@start
    proof { lemma_first_of(header.other_headers@, OuterHeaderId::InnerRandomStreamId); lemma_first_of(header.other_headers@, OuterHeaderId::ProtectedStreamKey); }
@closure 0
    |h: &&HeaderField<OuterHeaderId>| -> (b: bool) ensures b == (h.ty == OuterHeaderId::InnerRandomStreamId)
@closure 1
    |h: &&HeaderField<OuterHeaderId>| -> (b: bool) ensures b == (h.ty == OuterHeaderId::ProtectedStreamKey)
@prelude
pub open spec fn plain_inner_other(h: HeaderField<InnerHeaderId>) -> bool { h.ty == inner_id_of(inner_id_code(h.ty)) && h.ty != InnerHeaderId::InnerRandomStreamCipherId && h.ty != InnerHeaderId::InnerRandomStreamKey && !h.ty.fin() }
pub open spec fn plain_inner(h: KdbxInnerHeader) -> bool {
    &&& forall|i: int| 0 <= i < h.other_headers@.len() ==> plain_inner_other(#[trigger] h.other_headers@[i])
    &&& inner_of(inner_code(h.inner_stream_cipher)) == h.inner_stream_cipher
}
pub proof fn lemma_inner_others_plain(fs: Seq<Raw>)
    requires forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).0 != 1 && fs[i].0 != 2
    ensures inner_others(fs) == fs, last(fs, 1) is None, last(fs, 2) is None, inner_good(fs)
    decreases fs.len()
{
    if fs.len() > 0 {
        lemma_inner_others_plain(fs.drop_last());
        assert(fs.drop_last().push(fs.last()) =~= fs);
    } else { assert(inner_others(fs) =~= fs); }
}
/// an inner header is read back from what is written for it
pub proof fn lemma_inner_reads_back(h: KdbxInnerHeader, t: Seq<u8>, major: u16)
    requires plain_inner(h), inner_header_bytes(h).len() <= u32::MAX, major >= 4
    ensures fields_at::<InnerHeaderId>(inner_header_bytes(h) + t, major) is Some,
        (fields_at::<InnerHeaderId>(inner_header_bytes(h) + t, major)->0).1 == t,
        inner_header_is(h, (fields_at::<InnerHeaderId>(inner_header_bytes(h) + t, major)->0).0),
{
    let fs = inner_written(h);
    let o = inner_raws(h.other_headers@);
    let f = own_inner(h);
    assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] fs[i]).1.len() <= u32::MAX by { lemma_enc_len(fs, i); }
    assert forall|i: int| 0 <= i < fs.len() - 1 implies !(#[trigger] InnerHeaderId::from_spec(fs[i].0)).fin() by {
        if i < o.len() { assert(fs[i] == o[i]); assert(plain_inner_other(h.other_headers@[i])); } else { assert(fs[i] == f[i - o.len()]); }
    }
    lemma_fields_read_back::<InnerHeaderId>(fs, t, major);
    assert(fs.drop_last() =~= o.push(f[0]).push(f[1]));
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).0 != 1 && o[i].0 != 2 by { assert(plain_inner_other(h.other_headers@[i])); }
    lemma_inner_others_plain(o);
    lemma_inner_push(o, f[0]);
    lemma_inner_push(o.push(f[0]), f[1]);
    lemma_le32(inner_code(h.inner_stream_cipher));
    assert(f[0].1.take(4) =~= f[0].1);
    assert forall|i: int| 0 <= i < o.len() implies field_matches(#[trigger] h.other_headers@[i], o[i]) by { assert(plain_inner_other(h.other_headers@[i])); }
}
pub proof fn lemma_inner_unique(a: KdbxInnerHeader, b: KdbxInnerHeader, fs: Seq<Raw>)
    requires inner_header_is(a, fs), inner_header_is(b, fs)
    ensures a == b
{
    broadcast use axiom_vec_ext;
    let (x, y) = (a.other_headers@, b.other_headers@);
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(field_matches(x[i], inner_others(fs)[i]) && field_matches(y[i], inner_others(fs)[i])); }
    assert(x =~= y);
}
