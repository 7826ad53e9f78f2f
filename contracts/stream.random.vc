@prelude
use crate::ext::chacha20::chacha_id;
use crate::ext::salsa20::salsa_id;
use crate::ext::sha2::{sha256, sha512};
broadcast use {crate::ext::sha2::axiom_sha256_len, crate::ext::sha2::axiom_sha512_len};

/// Box::new, with the type of the contents forgotten
#[verifier::external_body]
pub fn box_cipher<C: StreamCipher + 'static>(c: C) -> (b: Box<dyn StreamCipher>)
    ensures (*b).ks_id() == c.ks_id(), (*b).ks_pos() == c.ks_pos()
{ unimplemented!() }
pub open spec fn salsa_iv() -> Seq<u8> { seq![0xe8u8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a] }
/// the key stream that protects values
pub open spec fn inner_id(a: InnerStreamCipherAlgorithm, key: Seq<u8>) -> Option<Seq<u8>> {
    match a {
        InnerStreamCipherAlgorithm::ChaCha20 => Some(chacha_id(sha512(key).subrange(0, 32), sha512(key).subrange(32, 44))),
        InnerStreamCipherAlgorithm::Salsa20 => Some(salsa_id(sha256(key), salsa_iv())),
        _ => None,
    }
}
@fn InnerStreamCipherAlgorithm::stream_cipher
@call Box::new => box_cipher
@spec
    ensures
        r is Ok <==> inner_id(self, key@) is Some,
        r matches Ok(c) ==> (*c).ks_id() == inner_id(self, key@)->Some_0 && (*c).ks_pos() == 0
@start
    proof {
        assert(SALSA20_IV@ =~= salsa_iv());
        assert(sha256(key@).subrange(0, 32) =~= sha256(key@));
    }
