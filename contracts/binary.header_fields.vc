@prelude
use crate::ext::uuid::{uuid_of_text, uuid_text, axiom_uuid_text, hex_digit, hex2, lemma_uuid_ext};
use crate::utils::{table_ok, row_uuid};
use crate::ext::map::lemma_map_ext;
use crate::ext::io::lemma_wrote;
use super::variant_dict::{Value, is_dict_bytes, dict_of, all_fit, entry_fits, lemma_dict_reads_back};
// ---- the identifiers of the KDBX format
pub open spec fn id_aes128() -> Seq<u8> { seq![0x61u8, 0xabu8, 0x05u8, 0xa1u8, 0x94u8, 0x64u8, 0x41u8, 0xc3u8, 0x8du8, 0x74u8, 0x3au8, 0x56u8, 0x3du8, 0xf8u8, 0xddu8, 0x35u8] }
pub open spec fn id_aes256() -> Seq<u8> { seq![0x31u8, 0xc1u8, 0xf2u8, 0xe6u8, 0xbfu8, 0x71u8, 0x43u8, 0x50u8, 0xbeu8, 0x58u8, 0x05u8, 0x21u8, 0x6au8, 0xfcu8, 0x5au8, 0xffu8] }
pub open spec fn id_twofish() -> Seq<u8> { seq![0xadu8, 0x68u8, 0xf2u8, 0x9fu8, 0x57u8, 0x6fu8, 0x4bu8, 0xb9u8, 0xa3u8, 0x6au8, 0xd4u8, 0x7au8, 0xf9u8, 0x65u8, 0x34u8, 0x6cu8] }
pub open spec fn id_chacha20() -> Seq<u8> { seq![0xd6u8, 0x03u8, 0x8au8, 0x2bu8, 0x8bu8, 0x6fu8, 0x4cu8, 0xb5u8, 0xa5u8, 0x24u8, 0x33u8, 0x9au8, 0x31u8, 0xdbu8, 0xb5u8, 0x9au8] }
pub open spec fn id_aes_kdf() -> Seq<u8> { seq![0xc9u8, 0xd9u8, 0xf3u8, 0x9au8, 0x62u8, 0x8au8, 0x44u8, 0x60u8, 0xbfu8, 0x74u8, 0x0du8, 0x08u8, 0xc1u8, 0x8au8, 0x4fu8, 0xeau8] }
pub open spec fn id_aes_kdf4() -> Seq<u8> { seq![0x7cu8, 0x02u8, 0xbbu8, 0x82u8, 0x79u8, 0xa7u8, 0x4au8, 0xc0u8, 0x92u8, 0x7du8, 0x11u8, 0x4au8, 0x00u8, 0x64u8, 0x82u8, 0x38u8] }
pub open spec fn id_argon2d() -> Seq<u8> { seq![0xefu8, 0x63u8, 0x6du8, 0xdfu8, 0x8cu8, 0x29u8, 0x44u8, 0x4bu8, 0x91u8, 0xf7u8, 0xa9u8, 0xa4u8, 0x03u8, 0xe3u8, 0x0au8, 0x0cu8] }
pub open spec fn id_argon2id() -> Seq<u8> { seq![0x9eu8, 0x29u8, 0x8bu8, 0x19u8, 0x56u8, 0xdbu8, 0x47u8, 0x73u8, 0xb2u8, 0x3du8, 0xfcu8, 0x3eu8, 0xc6u8, 0xf0u8, 0xa1u8, 0xe6u8] }
pub proof fn lemma_text_aes128() ensures uuid_of_text("61ab05a1-9464-41c3-8d74-3a563df8dd35"@) is Some, uuid_of_text("61ab05a1-9464-41c3-8d74-3a563df8dd35"@)->0@ == id_aes128() {
    broadcast use axiom_uuid_text;
    reveal_strlit("0123456789abcdef");
    reveal_strlit("61ab05a1-9464-41c3-8d74-3a563df8dd35");
    assert("61ab05a1-9464-41c3-8d74-3a563df8dd35"@ =~= uuid_text(id_aes128()));
}
pub proof fn lemma_text_aes256() ensures uuid_of_text("31c1f2e6-bf71-4350-be58-05216afc5aff"@) is Some, uuid_of_text("31c1f2e6-bf71-4350-be58-05216afc5aff"@)->0@ == id_aes256() {
    broadcast use axiom_uuid_text;
    reveal_strlit("0123456789abcdef");
    reveal_strlit("31c1f2e6-bf71-4350-be58-05216afc5aff");
    assert("31c1f2e6-bf71-4350-be58-05216afc5aff"@ =~= uuid_text(id_aes256()));
}
pub proof fn lemma_text_twofish() ensures uuid_of_text("ad68f29f-576f-4bb9-a36a-d47af965346c"@) is Some, uuid_of_text("ad68f29f-576f-4bb9-a36a-d47af965346c"@)->0@ == id_twofish() {
    broadcast use axiom_uuid_text;
    reveal_strlit("0123456789abcdef");
    reveal_strlit("ad68f29f-576f-4bb9-a36a-d47af965346c");
    assert("ad68f29f-576f-4bb9-a36a-d47af965346c"@ =~= uuid_text(id_twofish()));
}
pub proof fn lemma_text_chacha20() ensures uuid_of_text("d6038a2b-8b6f-4cb5-a524-339a31dbb59a"@) is Some, uuid_of_text("d6038a2b-8b6f-4cb5-a524-339a31dbb59a"@)->0@ == id_chacha20() {
    broadcast use axiom_uuid_text;
    reveal_strlit("0123456789abcdef");
    reveal_strlit("d6038a2b-8b6f-4cb5-a524-339a31dbb59a");
    assert("d6038a2b-8b6f-4cb5-a524-339a31dbb59a"@ =~= uuid_text(id_chacha20()));
}
pub proof fn lemma_text_aes_kdf() ensures uuid_of_text("c9d9f39a-628a-4460-bf74-0d08c18a4fea"@) is Some, uuid_of_text("c9d9f39a-628a-4460-bf74-0d08c18a4fea"@)->0@ == id_aes_kdf() {
    broadcast use axiom_uuid_text;
    reveal_strlit("0123456789abcdef");
    reveal_strlit("c9d9f39a-628a-4460-bf74-0d08c18a4fea");
    assert("c9d9f39a-628a-4460-bf74-0d08c18a4fea"@ =~= uuid_text(id_aes_kdf()));
}
pub proof fn lemma_text_aes_kdf4() ensures uuid_of_text("7c02bb82-79a7-4ac0-927d-114a00648238"@) is Some, uuid_of_text("7c02bb82-79a7-4ac0-927d-114a00648238"@)->0@ == id_aes_kdf4() {
    broadcast use axiom_uuid_text;
    reveal_strlit("0123456789abcdef");
    reveal_strlit("7c02bb82-79a7-4ac0-927d-114a00648238");
    assert("7c02bb82-79a7-4ac0-927d-114a00648238"@ =~= uuid_text(id_aes_kdf4()));
}
pub proof fn lemma_text_argon2d() ensures uuid_of_text("ef636ddf-8c29-444b-91f7-a9a403e30a0c"@) is Some, uuid_of_text("ef636ddf-8c29-444b-91f7-a9a403e30a0c"@)->0@ == id_argon2d() {
    broadcast use axiom_uuid_text;
    reveal_strlit("0123456789abcdef");
    reveal_strlit("ef636ddf-8c29-444b-91f7-a9a403e30a0c");
    assert("ef636ddf-8c29-444b-91f7-a9a403e30a0c"@ =~= uuid_text(id_argon2d()));
}
pub proof fn lemma_text_argon2id() ensures uuid_of_text("9e298b19-56db-4773-b23d-fc3ec6f0a1e6"@) is Some, uuid_of_text("9e298b19-56db-4773-b23d-fc3ec6f0a1e6"@)->0@ == id_argon2id() {
    broadcast use axiom_uuid_text;
    reveal_strlit("0123456789abcdef");
    reveal_strlit("9e298b19-56db-4773-b23d-fc3ec6f0a1e6");
    assert("9e298b19-56db-4773-b23d-fc3ec6f0a1e6"@ =~= uuid_text(id_argon2id()));
}
pub proof fn lemma_ids_differ()
    ensures
        id_aes128() != id_aes256(), id_aes128() != id_twofish(), id_aes128() != id_chacha20(), id_aes256() != id_twofish(), id_aes256() != id_chacha20(), id_twofish() != id_chacha20(),
        id_aes_kdf() != id_aes_kdf4(), id_aes_kdf() != id_argon2d(), id_aes_kdf() != id_argon2id(), id_aes_kdf4() != id_argon2d(), id_aes_kdf4() != id_argon2id(), id_argon2d() != id_argon2id(),
{
    assert(id_aes128()[0] == 0x61 && id_aes256()[0] == 0x31 && id_twofish()[0] == 0xad && id_chacha20()[0] == 0xd6);
    assert(id_aes_kdf()[0] == 0xc9 && id_aes_kdf4()[0] == 0x7c && id_argon2d()[0] == 0xef && id_argon2id()[0] == 0x9e);
}
pub proof fn lemma_cipher_texts()
    ensures
        uuid_of_text("61ab05a1-9464-41c3-8d74-3a563df8dd35"@) is Some, uuid_of_text("61ab05a1-9464-41c3-8d74-3a563df8dd35"@)->0@ == id_aes128(),
        uuid_of_text("31c1f2e6-bf71-4350-be58-05216afc5aff"@) is Some, uuid_of_text("31c1f2e6-bf71-4350-be58-05216afc5aff"@)->0@ == id_aes256(),
        uuid_of_text("ad68f29f-576f-4bb9-a36a-d47af965346c"@) is Some, uuid_of_text("ad68f29f-576f-4bb9-a36a-d47af965346c"@)->0@ == id_twofish(),
        uuid_of_text("d6038a2b-8b6f-4cb5-a524-339a31dbb59a"@) is Some, uuid_of_text("d6038a2b-8b6f-4cb5-a524-339a31dbb59a"@)->0@ == id_chacha20(),
{ lemma_text_aes128(); lemma_text_aes256(); lemma_text_twofish(); lemma_text_chacha20(); }
pub proof fn lemma_kdf_texts()
    ensures
        uuid_of_text("c9d9f39a-628a-4460-bf74-0d08c18a4fea"@) is Some, uuid_of_text("c9d9f39a-628a-4460-bf74-0d08c18a4fea"@)->0@ == id_aes_kdf(),
        uuid_of_text("7c02bb82-79a7-4ac0-927d-114a00648238"@) is Some, uuid_of_text("7c02bb82-79a7-4ac0-927d-114a00648238"@)->0@ == id_aes_kdf4(),
        uuid_of_text("ef636ddf-8c29-444b-91f7-a9a403e30a0c"@) is Some, uuid_of_text("ef636ddf-8c29-444b-91f7-a9a403e30a0c"@)->0@ == id_argon2d(),
        uuid_of_text("9e298b19-56db-4773-b23d-fc3ec6f0a1e6"@) is Some, uuid_of_text("9e298b19-56db-4773-b23d-fc3ec6f0a1e6"@)->0@ == id_argon2id(),
{ lemma_text_aes_kdf(); lemma_text_aes_kdf4(); lemma_text_argon2d(); lemma_text_argon2id(); }
pub open spec fn cipher_id(c: Cipher) -> Seq<u8> {
    match c { Cipher::Aes128 => id_aes128(), Cipher::Aes256 => id_aes256(), Cipher::TwoFish => id_twofish(), Cipher::ChaCha20 => id_chacha20(), Cipher::Unknown(u) => u@ }
}
pub open spec fn cipher_of(u: Uuid) -> Cipher {
    if u@ == id_aes128() { Cipher::Aes128 } else if u@ == id_aes256() { Cipher::Aes256 } else if u@ == id_twofish() { Cipher::TwoFish }
    else if u@ == id_chacha20() { Cipher::ChaCha20 } else { Cipher::Unknown(u) }
}
/// not an unknown cipher under the id of a known one
pub open spec fn cipher_plain(c: Cipher) -> bool { match c { Cipher::Unknown(u) => cipher_of(u) == c, _ => true } }
pub open spec fn kdf_id(k: KdfAlgorithm) -> Seq<u8> {
    match k { KdfAlgorithm::Argon2d => id_argon2d(), KdfAlgorithm::Argon2id => id_argon2id(), KdfAlgorithm::Aes256_Kdbx4 => id_aes_kdf4(),
        KdfAlgorithm::Aes256_Kdbx3_1 => id_aes_kdf(), KdfAlgorithm::Unknown(u) => u@ }
}
pub open spec fn kdf_of(u: Uuid) -> KdfAlgorithm {
    if u@ == id_aes_kdf() { KdfAlgorithm::Aes256_Kdbx3_1 } else if u@ == id_aes_kdf4() { KdfAlgorithm::Aes256_Kdbx4 } else if u@ == id_argon2d() { KdfAlgorithm::Argon2d }
    else if u@ == id_argon2id() { KdfAlgorithm::Argon2id } else { KdfAlgorithm::Unknown(u) }
}
pub open spec fn inner_code(a: InnerStreamCipherAlgorithm) -> u32 {
    match a { InnerStreamCipherAlgorithm::ArcFour => 1, InnerStreamCipherAlgorithm::Salsa20 => 2, InnerStreamCipherAlgorithm::ChaCha20 => 3, InnerStreamCipherAlgorithm::Unknown(x) => x }
}
pub open spec fn inner_of(x: u32) -> InnerStreamCipherAlgorithm {
    if x == 1 { InnerStreamCipherAlgorithm::ArcFour } else if x == 2 { InnerStreamCipherAlgorithm::Salsa20 } else if x == 3 { InnerStreamCipherAlgorithm::ChaCha20 }
    else { InnerStreamCipherAlgorithm::Unknown(x) }
}
pub open spec fn compression_code(a: CompressionType) -> u32 {
    match a { CompressionType::None => 0, CompressionType::Gzip => 1, CompressionType::Unknown(x) => x }
}
pub open spec fn compression_of(x: u32) -> CompressionType {
    if x == 0 { CompressionType::None } else if x == 1 { CompressionType::Gzip } else { CompressionType::Unknown(x) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Cipher { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Cipher) -> bool { *self == *o } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for KdfAlgorithm { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &KdfAlgorithm) -> bool { *self == *o } }
@pre <From<uuid::Uuid> for Cipher>
impl vstd::std_specs::convert::FromSpecImpl<uuid::Uuid> for Cipher {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: uuid::Uuid) -> Cipher { cipher_of(v) }
}
@fn <From<uuid::Uuid> for Cipher>::from
@start
    broadcast use lemma_uuid_ext;
    proof {
        lemma_cipher_texts();
        lemma_ids_differ();
        let t = CIPHER_TABLE@;
        assert(see(row_uuid(t, 0)@) && see(row_uuid(t, 1)@) && see(row_uuid(t, 2)@) && see(row_uuid(t, 3)@));
    }
@pre <From<Cipher> for Uuid>
impl vstd::std_specs::convert::FromSpecImpl<Cipher> for uuid::Uuid {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Cipher) -> uuid::Uuid { arbitrary() }
}
@fn <From<Cipher> for Uuid>::from
@spec
    ensures r@ == cipher_id(cipher), cipher is Unknown ==> r == cipher->Unknown_0
@start
    proof {
        lemma_cipher_texts();
        let t = CIPHER_TABLE@;
        assert(see(t[0]) && see(t[1]) && see(t[2]) && see(t[3]));
    }
@pre <From<Cipher> for HeaderField<OuterHeaderId>>
impl vstd::std_specs::convert::FromSpecImpl<Cipher> for HeaderField<OuterHeaderId> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Cipher) -> HeaderField<OuterHeaderId> { arbitrary() }
}
@fn <From<Cipher> for HeaderField<OuterHeaderId>>::from
@spec
    ensures r.ty == OuterHeaderId::CipherId, r.data@ == cipher_id(cipher)
@pre <From<InnerStreamCipherAlgorithm> for HeaderField<InnerHeaderId>>
impl vstd::std_specs::convert::FromSpecImpl<InnerStreamCipherAlgorithm> for HeaderField<InnerHeaderId> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: InnerStreamCipherAlgorithm) -> HeaderField<InnerHeaderId> { arbitrary() }
}
@fn <From<InnerStreamCipherAlgorithm> for HeaderField<InnerHeaderId>>::from
@call .as_ref => as_slice_e
@spec
    ensures r.ty == InnerHeaderId::InnerRandomStreamCipherId, r.data@ == le32_bytes(inner_code(cipher))
@pre <From<u32> for InnerStreamCipherAlgorithm>
impl vstd::std_specs::convert::FromSpecImpl<u32> for InnerStreamCipherAlgorithm {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u32) -> InnerStreamCipherAlgorithm { inner_of(v) }
}
@fn <From<u32> for InnerStreamCipherAlgorithm>::from
@spec
@pre <From<InnerStreamCipherAlgorithm> for u32>
impl vstd::std_specs::convert::FromSpecImpl<InnerStreamCipherAlgorithm> for u32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InnerStreamCipherAlgorithm) -> u32 { inner_code(v) }
}
@fn <From<InnerStreamCipherAlgorithm> for u32>::from
@spec
@pre <From<uuid::Uuid> for KdfAlgorithm>
impl vstd::std_specs::convert::FromSpecImpl<uuid::Uuid> for KdfAlgorithm {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: uuid::Uuid) -> KdfAlgorithm { kdf_of(v) }
}
@fn <From<uuid::Uuid> for KdfAlgorithm>::from
@start
    broadcast use lemma_uuid_ext;
    proof {
        lemma_kdf_texts();
        lemma_ids_differ();
        let t = KDF_TABLE@;
        assert(see(row_uuid(t, 0)@) && see(row_uuid(t, 1)@) && see(row_uuid(t, 2)@) && see(row_uuid(t, 3)@));
    }
@pre <From<KdfAlgorithm> for Uuid>
impl vstd::std_specs::convert::FromSpecImpl<KdfAlgorithm> for uuid::Uuid {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: KdfAlgorithm) -> uuid::Uuid { arbitrary() }
}
@fn <From<KdfAlgorithm> for Uuid>::from
@spec
    ensures r@ == kdf_id(algo), algo is Unknown ==> r == algo->Unknown_0
@start
    proof {
        lemma_kdf_texts();
        let t = KDF_TABLE@;
        assert(see(t[0]) && see(t[1]) && see(t[2]) && see(t[3]));
    }
@pre <From<CompressionType> for u32>
impl vstd::std_specs::convert::FromSpecImpl<CompressionType> for u32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: CompressionType) -> u32 { compression_code(v) }
}
@fn <From<CompressionType> for u32>::from
@spec
@pre <From<u32> for CompressionType>
impl vstd::std_specs::convert::FromSpecImpl<u32> for CompressionType {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u32) -> CompressionType { compression_of(v) }
}
@fn <From<u32> for CompressionType>::from
@spec
@pre <From<CompressionType> for HeaderField<OuterHeaderId>>
impl vstd::std_specs::convert::FromSpecImpl<CompressionType> for HeaderField<OuterHeaderId> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: CompressionType) -> HeaderField<OuterHeaderId> { arbitrary() }
}
@fn <From<CompressionType> for HeaderField<OuterHeaderId>>::from
@call .as_ref => as_slice_e
@call Vec::from => crate::ext::prelude::vec_from
@spec
    ensures r.ty == OuterHeaderId::CompressionFlags, r.data@ == le32_bytes(compression_code(compression_type))
@prelude
pub open spec fn has(m: Map<Seq<char>, Value>, k: Seq<char>, v: Value) -> bool { m.dom().contains(k) && m[k] == v }
pub open spec fn known_kdf(id: Seq<u8>) -> bool { id == id_aes_kdf() || id == id_aes_kdf4() || id == id_argon2d() || id == id_argon2id() }
/// the id in a dictionary of KDF parameters
pub open spec fn dict_id(m: Map<Seq<char>, Value>) -> Option<Seq<u8>> {
    if m.dom().contains("$UUID"@) { match m["$UUID"@] { Value::Array(a) => if a@.len() == 16 { Some(a@) } else { None }, _ => None } } else { None }
}
/// k are the parameters the dictionary m stands for
pub open spec fn kdf_is(m: Map<Seq<char>, Value>, k: KdfParams) -> bool {
    match dict_id(m) {
        None => false,
        Some(id) => match k {
            KdfParams::Argon2 { variant, memory_bytes, version, salt, lanes, iterations } => {
                &&& (id == id_argon2d() && variant == argon2::Variant::Argon2d || id == id_argon2id() && variant == argon2::Variant::Argon2id)
                &&& has(m, "M"@, Value::Uint64(memory_bytes)) && has(m, "V"@, Value::Uint32(version)) && has(m, "S"@, Value::Array(salt))
                &&& has(m, "I"@, Value::Uint64(iterations)) && has(m, "P"@, Value::Uint32(lanes))
            },
            KdfParams::Aes { rounds, salt } => (id == id_aes_kdf() || id == id_aes_kdf4()) && has(m, "R"@, Value::Uint64(rounds)) && has(m, "S"@, Value::Array(salt)),
            KdfParams::Unknown { uuid, params } => !known_kdf(id) && uuid@ == id && params@ == m.remove("$UUID"@),
        },
    }
}
/// parameters that have an encoding of their own
pub open spec fn kdf_plain(k: KdfParams) -> bool {
    match k {
        KdfParams::Argon2 { variant, .. } => variant != argon2::Variant::Argon2i,
        KdfParams::Aes { .. } => true,
        KdfParams::Unknown { uuid, params } => !known_kdf(uuid@) && !params@.dom().contains("$UUID"@),
    }
}
pub open spec fn kdf_fits(k: KdfParams) -> bool {
    match k { KdfParams::Argon2 { salt, .. } => salt@.len() <= i32::MAX, KdfParams::Aes { rounds, salt } => salt@.len() <= i32::MAX, KdfParams::Unknown { uuid, params } => all_fit(params@) }
}
/// the dictionary written for k
pub open spec fn kdf_dict(k: KdfParams, m: Map<Seq<char>, Value>) -> bool { kdf_is(m, k) && (kdf_fits(k) ==> all_fit(m)) }
pub proof fn lemma_names()
    ensures "$UUID"@ == seq!['$', 'U', 'U', 'I', 'D'], "M"@ == seq!['M'], "V"@ == seq!['V'], "S"@ == seq!['S'], "I"@ == seq!['I'], "P"@ == seq!['P'], "R"@ == seq!['R'],
        "$UUID"@.len() == 5, "M"@[0] == 'M', "V"@[0] == 'V', "S"@[0] == 'S', "I"@[0] == 'I', "P"@[0] == 'P', "R"@[0] == 'R',
        "M"@.len() == 1, "V"@.len() == 1, "S"@.len() == 1, "I"@.len() == 1, "P"@.len() == 1, "R"@.len() == 1,
{
    reveal_strlit("$UUID"); reveal_strlit("M"); reveal_strlit("V"); reveal_strlit("S"); reveal_strlit("I"); reveal_strlit("P"); reveal_strlit("R");
    assert("$UUID"@ =~= seq!['$', 'U', 'U', 'I', 'D']); assert("M"@ =~= seq!['M']); assert("V"@ =~= seq!['V']); assert("S"@ =~= seq!['S']);
    assert("I"@ =~= seq!['I']); assert("P"@ =~= seq!['P']); assert("R"@ =~= seq!['R']);
}
/// the dictionary determines the parameters
pub proof fn lemma_kdf_unique(m: Map<Seq<char>, Value>, a: KdfParams, b: KdfParams)
    requires kdf_is(m, a), kdf_is(m, b)
    ensures a == b
{
    broadcast use lemma_uuid_ext, lemma_map_ext;
    lemma_ids_differ();
}
@pre <TryFrom<VariantDict> for KdfParams>
impl vstd::std_specs::convert::TryFromSpecImpl<VariantDict> for KdfParams {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: VariantDict) -> Result<KdfParams, HeaderError> { arbitrary() }
}
@fn <TryFrom<VariantDict> for KdfParams>::try_from
@spec
    ensures r is Ok ==> kdf_is(vdict@, r->Ok_0), r is Err ==> forall|k: KdfParams| !#[trigger] kdf_is(vdict@, k)
@start
    proof { lemma_names(); lemma_ids_differ(); }
@fn KdfParams::opt_from_vdict
@spec
    ensures final(vdict)@ == old(vdict)@.remove(key@),
        <T as vstd::std_specs::convert::TryFromSpec<Value>>::obeys_try_from_spec() ==> match r {
            Ok(v) => old(vdict)@.dom().contains(key@) && <T as vstd::std_specs::convert::TryFromSpec<Value>>::try_from_spec(old(vdict)@[key@]) == Ok::<T, <T as TryFrom<Value>>::Error>(v),
            Err(_) => !old(vdict)@.dom().contains(key@) || <T as vstd::std_specs::convert::TryFromSpec<Value>>::try_from_spec(old(vdict)@[key@]) is Err,
        }
@closure 0
    |val: Value| -> (o: Option<T>) ensures <T as vstd::std_specs::convert::TryFromSpec<Value>>::obeys_try_from_spec() ==> o == <T as vstd::std_specs::convert::TryFromSpec<Value>>::try_from_spec(val).ok()
@pre <From<KdfParams> for VariantDict>
impl vstd::std_specs::convert::FromSpecImpl<KdfParams> for VariantDict {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: KdfParams) -> VariantDict { arbitrary() }
}
@fn <From<KdfParams> for VariantDict>::from
@call .into => to_string_e
@spec
    ensures kdf_plain(params) ==> kdf_dict(params, r@)
@start
    broadcast use crate::ext::string::lemma_utf8_len;
    let ghost k = params;
    proof { lemma_names(); lemma_ids_differ(); }
@tail
    proof {
        if let KdfParams::Unknown { uuid, params } = k {
            assert(dict_id(r__@) == Some(uuid@) || params@.dom().contains("$UUID"@));
            assert(kdf_plain(k) ==> params@ =~= r__@.remove("$UUID"@));
        }
        assert(kdf_plain(k) ==> kdf_is(r__@, k));
        if kdf_fits(k) && kdf_plain(k) {
            assert forall|n: Seq<char>| #[trigger] r__@.dom().contains(n) implies entry_fits(n, r__@[n]) by {
                if let KdfParams::Unknown { uuid, params } = k { assert(n == "$UUID"@ || params@.dom().contains(n)); }
            }
        }
    }
@pre <From<KdfParams> for HeaderField<OuterHeaderId>>
impl vstd::std_specs::convert::FromSpecImpl<KdfParams> for HeaderField<OuterHeaderId> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: KdfParams) -> HeaderField<OuterHeaderId> { arbitrary() }
}
@fn <From<KdfParams> for HeaderField<OuterHeaderId>>::from
@spec
    ensures r.ty == OuterHeaderId::KdfParameters,
        kdf_plain(params) ==> exists|m: Map<Seq<char>, Value>| #[trigger] kdf_dict(params, m) && is_dict_bytes(r.data@, m)
@start
    broadcast use lemma_wrote;
