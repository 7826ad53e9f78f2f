@prelude
broadcast use {crate::ext::sha2::axiom_sha256_len, crate::ext::sha2::axiom_sha512_len, crate::ext::hmac::axiom_hmac_len};

// ---- the KDBX key formula (oracle: KDBX 4 format description)
pub open spec fn pw_hash(pw: Option<String>) -> Seq<u8> {
    match pw { Some(p) => sha2::sha256(string::utf8(p@)), None => Seq::empty() }
}
pub open spec fn keyfile_hash(k: Option<Vec<u8>>) -> Seq<u8> {
    match k { Some(k) => sha2::sha256(k@), None => Seq::empty() }
}
pub open spec fn composed_spec(k: CompositeKey) -> Seq<u8> {
    sha2::sha256(pw_hash(k.pw) + keyfile_hash(k.keyfile))
}
pub open spec fn aes_rounds(key: Seq<u8>, block: Seq<u8>, n: nat) -> Seq<u8> decreases n {
    if n == 0 { block } else { cipher::blk_enc(cipher::cid::<Aes256>(), key, aes_rounds(key, block, (n - 1) as nat)) }
}
pub open spec fn master_spec(ck: Seq<u8>, p: binary::KdfParams) -> Option<Seq<u8>> {
    match p {
        binary::KdfParams::Argon2 { variant, memory_bytes, version, salt, lanes, iterations } =>
            if argon2::version_of(version) is Some && memory_bytes / 1024 <= u32::MAX && iterations <= u32::MAX {
                argon2::argon2(ck, salt@, variant, argon2::version_of(version)->0, memory_bytes as int / 1024, iterations as int,
                    lanes as int, 32, Seq::empty(), Seq::empty())
            } else { None },
        binary::KdfParams::Aes { rounds, salt } =>
            if salt@.len() == 32 {
                Some(sha2::sha256(aes_rounds(salt@, ck.subrange(0, 16), rounds as nat) + aes_rounds(salt@, ck.subrange(16, 32), rounds as nat)))
            } else { None },
        binary::KdfParams::Unknown { uuid, params } => None,
    }
}
pub open spec fn hmac_key_spec(mk: Seq<u8>, seed: Seq<u8>) -> Seq<u8> { sha2::sha512(seed + mk + seq![1u8]) }
pub open spec fn cipher_key_spec(mk: Seq<u8>, seed: Seq<u8>) -> Seq<u8> { sha2::sha256(seed + mk) }
pub open spec fn block_key_spec(hk: Seq<u8>, idx: u64) -> Seq<u8> { sha2::sha512(le64_bytes(idx) + hk) }
/// authentication code of a data block
pub open spec fn block_tag(hk: Seq<u8>, idx: u64, data: Seq<u8>) -> Seq<u8> {
    hmac::hmac_sha256(block_key_spec(hk, idx), le64_bytes(idx) + le32_bytes(data.len() as u32) + data)
}
/// authentication code of the header
pub open spec fn header_tag(hk: Seq<u8>, header: Seq<u8>) -> Seq<u8> {
    hmac::hmac_sha256(block_key_spec(hk, u64::MAX), header)
}

@impl ComposedKey
    pub open spec fn wf(&self) -> bool { self.0@.len() == 32 }

@impl HmacBlockKey
    pub open spec fn of(&self, hk: Seq<u8>, idx: u64) -> bool { self.0 == idx && self.1@ == block_key_spec(hk, idx) }

@fn CompositeKey::new
@spec
    ensures r.pw == pw, r.keyfile == keyfile

@fn CompositeKey::from_password
@call .into => to_string_e
@spec
    ensures r.pw is Some, r.pw->0@ == pw@, r.keyfile is None

@fn CompositeKey::composed
@spec
    ensures r.0@ == composed_spec(*self), r.wf()
@before ComposedKey(
    proof { assert(buffer@ =~= pw_hash(self.pw) + keyfile_hash(self.keyfile)); }
@tail
    proof { assert(r__.0@ =~= composed_spec(*self)); }

@fn ComposedKey::master_key
@spec
    requires self.wf()
    ensures
        r is Ok ==> master_spec(self.0@, *kdf_options) == Some(r->Ok_0.0@),
        r is Ok ==> r->Ok_0.0@.len() == 32,
        r is Err ==> master_spec(self.0@, *kdf_options) is None,
@closure 5
    |chunk: &[u8]| -> (q: [u8; 16]) requires chunk@.len() == 16 ensures q@ == chunk@
@before for _ in
    proof {
        assert(chunked@[0]@ == self.0@.subrange(0, 16));
        assert(chunked@[1]@ == self.0@.subrange(16, 32));
    }
@before let transformed = 
    proof { assert(transformed_hasher.fed() =~= blocks@[0]@ + blocks@[1]@); }
@loop 0
    invariant
        cur__0 <= end__0, end__0 == *rounds,
        cipher.key() == salt@,
        blocks@[0]@ == aes_rounds(salt@, self.0@.subrange(0, 16), cur__0 as nat),
        blocks@[1]@ == aes_rounds(salt@, self.0@.subrange(16, 32), cur__0 as nat),
    decreases end__0 - cur__0

@fn MasterKey::hmac_key
@spec
    ensures r.0@ == hmac_key_spec(self.0@, seed@)
@tail
    proof {
        assert(data_to_hash@ =~= seed@ + self.0@ + seq![1u8]);
        assert(r__.0@ =~= hmac_key_spec(self.0@, seed@));
    }

@fn MasterKey::cipher_key
@spec
    ensures r.0@ == cipher_key_spec(self.0@, seed@), r.0@.len() == 32
@tail
    proof {
        assert(data_to_hash@ =~= seed@ + self.0@);
        assert(r__.0@ =~= cipher_key_spec(self.0@, seed@));
    }

@fn HmacKey::block_key
@spec
    ensures r.of(self.0@, block_idx)
@tail
    proof { assert(Seq::<u8>::empty() + le64_bytes(block_idx) + self.0@ =~= le64_bytes(block_idx) + self.0@); }

@fn HmacBlockKey::verify_data_block
@spec
    ensures r <==> hmac@ == hmac::hmac_sha256(self.1@, le64_bytes(self.0) + le32_bytes(data@.len() as u32) + data@)
@before calc_hmac.verify_slice
    proof { assert(calc_hmac.fed() =~= le64_bytes(self.0) + le32_bytes(data@.len() as u32) + data@); }

@fn HmacBlockKey::calculate_data_hmac
@spec
    ensures r is Ok, r->Ok_0@ == hmac::hmac_sha256(self.1@, le64_bytes(self.0) + le32_bytes(data@.len() as u32) + data@), r->Ok_0@.len() == 32
@before Ok(calc_hmac
    proof { assert(calc_hmac.fed() =~= le64_bytes(self.0) + le32_bytes(data@.len() as u32) + data@); }

@fn HmacBlockKey::calculate_header_hmac
@spec
    ensures r is Ok, r->Ok_0@ == hmac::hmac_sha256(self.1@, data@), r->Ok_0@.len() == 32
@before Ok(calc_hmac
    proof { assert(calc_hmac.fed() =~= data@); }

@fn HmacBlockKey::verify_header_block
@spec
    ensures r <==> hmac@ == hmac::hmac_sha256(self.1@, data@)
@before calc_hmac.verify_slice
    proof { assert(calc_hmac.fed() =~= data@); }

@fn verify_sha256
@call == => eq_e
@spec
    ensures r <==> expected_sha@ == sha2::sha256(data@)

@fn sha256
@spec
    ensures r@ == sha2::sha256(data@), r@.len() == 32
