use vstd::prelude::*;
use crate::ext::cipher::*;
verus! {
#[verifier::external_body]
pub struct ChaCha20 { p: () }
pub uninterp spec fn chacha_id(key: Seq<u8>, nonce: Seq<u8>) -> Seq<u8>;
impl ChaCha20 {
    #[verifier::external_body]
    pub fn new_from_slices(k: &[u8], iv: &[u8]) -> (r: Result<ChaCha20, InvalidLength>)
        ensures r is Ok <==> k@.len() == 32 && iv@.len() == 12,
            r is Ok ==> r->Ok_0.ks_id() == chacha_id(k@, iv@) && r->Ok_0.ks_pos() == 0 { unimplemented!() }
}
impl StreamCipher for ChaCha20 {
    uninterp spec fn ks_id(&self) -> Seq<u8>;
    uninterp spec fn ks_pos(&self) -> nat;
    #[verifier::external_body] fn try_apply_keystream_inout(&mut self, buf: inout::InOutBuf<'_, '_, u8>) -> (r: Result<(), StreamCipherError>) { unimplemented!() }
}
}
