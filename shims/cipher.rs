use vstd::prelude::*;
verus! {
#[derive(Debug)]
pub struct InvalidLength { p: u64 }
pub fn invalid_length() -> InvalidLength { InvalidLength { p: crate::ext::prelude::unknown() } }
impl crate::ext::string::ToStringE for InvalidLength { uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] fn to_string_e(&self) -> (r: String) { unimplemented!() } }

/// names the block cipher C
pub uninterp spec fn cid<C>() -> Seq<u8>;
/// one-block encryption and decryption of the block cipher named `id` under a key
pub uninterp spec fn blk_enc(id: Seq<u8>, key: Seq<u8>, b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn blk_dec(id: Seq<u8>, key: Seq<u8>, b: Seq<u8>) -> Seq<u8>;
/// key lengths the cipher accepts
pub uninterp spec fn key_ok<C>(len: nat) -> bool;
pub broadcast axiom fn axiom_blk(id: Seq<u8>, key: Seq<u8>, b: Seq<u8>)
    requires b.len() == 16
    ensures (#[trigger] blk_enc(id, key, b)).len() == 16, blk_dec(id, key, blk_enc(id, key, b)) == b;
pub broadcast axiom fn axiom_blk_dec_len(id: Seq<u8>, key: Seq<u8>, b: Seq<u8>)
    requires b.len() == 16
    ensures (#[trigger] blk_dec(id, key, b)).len() == 16;

pub trait BlockCipher {}
pub trait BlockEncryptMut {}
pub trait BlockDecryptMut {}
pub trait BlockEncrypt: BlockEncryptMut {}
pub trait BlockDecrypt: BlockDecryptMut {}
pub trait KeyInit {}
pub trait KeyIvInit {}
}
pub mod crypto_common { pub use super::InvalidLength; }
pub mod generic_array {
    use vstd::prelude::*;
    verus! {
    pub struct GenericArray { }
    impl GenericArray {
        /// panics when the length differs from the block size
        #[verifier::external_body]
        pub fn from_slice(s: &[u8]) -> (r: &[u8; 16]) requires s@.len() == 16 ensures r@ == s@ { unimplemented!() }
        pub fn default() -> (r: [u8; 16]) ensures r@ == Seq::new(16, |i: int| 0u8) { let r = [0u8; 16]; proof { assert(r@ =~= Seq::new(16, |i: int| 0u8)); } r }
    }
    }
}
verus! {
/// byte i of the key stream with the given identity
pub uninterp spec fn ks(id: Seq<u8>, i: nat) -> u8;
pub open spec fn xored(id: Seq<u8>, pos: nat, b: Seq<u8>) -> Seq<u8> {
    Seq::new(b.len(), |i: int| b[i] ^ ks(id, (pos + i) as nat))
}
#[derive(Debug)]
pub struct StreamCipherError { p: u64 }
/// A stream cipher: which key stream it is, and how much of it was used.
pub trait StreamCipher {
    spec fn ks_id(&self) -> Seq<u8>;
    spec fn ks_pos(&self) -> nat;
    /// in truth an error when the key stream is used up (256 GiB for ChaCha20); taken as unlimited
    fn try_apply_keystream_inout(&mut self, buf: inout::InOutBuf<'_, '_, u8>) -> (r: Result<(), StreamCipherError>)
        ensures r is Ok, final(self).ks_id() == old(self).ks_id(), final(self).ks_pos() == old(self).ks_pos() + old(buf.buf)@.len(),
            final(buf.buf)@ == xored(old(self).ks_id(), old(self).ks_pos(), old(buf.buf)@);
    /// provided methods
    fn try_apply_keystream(&mut self, buf: &mut [u8]) -> (r: Result<(), StreamCipherError>)
        ensures r is Ok, final(self).ks_id() == old(self).ks_id(), final(self).ks_pos() == old(self).ks_pos() + old(buf)@.len(),
            final(buf)@ == xored(old(self).ks_id(), old(self).ks_pos(), old(buf)@),
    { self.try_apply_keystream_inout(inout::InOutBuf { buf, p: core::marker::PhantomData }) }
    fn apply_keystream(&mut self, buf: &mut [u8])
        ensures final(self).ks_id() == old(self).ks_id(), final(self).ks_pos() == old(self).ks_pos() + old(buf)@.len(),
            final(buf)@ == xored(old(self).ks_id(), old(self).ks_pos(), old(buf)@),
    { self.try_apply_keystream(buf).unwrap() }
}
}
verus! {
/// Box::as_mut
pub trait AsMutE { type T: ?Sized; fn as_mut_e(&mut self) -> (r: &mut Self::T); }
impl AsMutE for Box<dyn StreamCipher> { type T = dyn StreamCipher;
    #[verifier::external_body]
    fn as_mut_e(&mut self) -> (r: &mut (dyn StreamCipher + 'static)) ensures r.ks_id() == (**old(self)).ks_id(), r.ks_pos() == (**old(self)).ks_pos() { unimplemented!() } }
impl AsMutE for Vec<u8> { type T = [u8];
    fn as_mut_e(&mut self) -> (r: &mut [u8]) ensures r@ == old(self)@, final(self)@ == final(r)@ { self.as_mut_slice() } }
/// the key stream that changes nothing
pub uninterp spec fn null_id() -> Seq<u8>;
pub broadcast axiom fn axiom_null(i: nat) ensures #[trigger] ks(null_id(), i) == 0;
}
pub mod inout {
    use vstd::prelude::*;
    verus! {
    /// in place: what is read and what is written are the same bytes
    pub struct InOutBuf<'a, 'b, T> { pub buf: &'b mut [T], pub p: core::marker::PhantomData<&'a T> }
    }
}
pub mod block_padding {
    use vstd::prelude::*;
    verus! {
    pub trait Padding {}
    pub struct Pkcs7 { }
#[derive(Debug)]
    pub struct UnpadError { p: u64 }
    /// PKCS#7 on 16-byte blocks
    pub open spec fn pad_ok(b: Seq<u8>) -> bool {
        &&& b.len() == 16
        &&& 1 <= b[15] <= 16
        &&& forall|i: int| 16 - b[15] <= i < 16 ==> #[trigger] b[i] == b[15]
    }
    impl Pkcs7 {
        pub fn unpad(b: &[u8; 16]) -> (r: Result<&[u8], UnpadError>)
            ensures match r { Ok(s) => pad_ok(b@) && s@ == b@.take(16 - b@[15]), Err(_) => !pad_ok(b@) } {
            let n = b[15];
            if n == 0 || n > 16 { return Err(UnpadError { p: crate::ext::prelude::unknown() }); }
            let k = 16 - n as usize;
            let mut i = k;
            while i < 16
                invariant n == b@[15], k == 16 - n, k <= i <= 16, b@.len() == 16, forall|j: int| k <= j < i ==> #[trigger] b@[j] == n
                decreases 16 - i
            {
                if b[i] != n { return Err(UnpadError { p: crate::ext::prelude::unknown() }); }
                i += 1;
            }
            let s: &[u8] = b;
            let r = vstd::slice::slice_subrange(s, 0, k);
            proof { assert(r@ =~= b@.take(k as int)); }
            Ok(r)
        }
        /// panics when pos is not inside the block
        pub fn pad(b: &mut [u8; 16], pos: usize)
            requires pos < 16
            ensures final(b)@.take(pos as int) == old(b)@.take(pos as int),
                forall|i: int| pos <= i < 16 ==> #[trigger] final(b)@[i] == (16 - pos) as u8 {
            let n = (16 - pos) as u8;
            let mut i = pos;
            while i < 16
                invariant pos <= i <= 16, pos < 16, n == (16 - pos) as u8, b@.len() == 16, forall|j: int| pos <= j < i ==> #[trigger] b@[j] == n,
                    forall|j: int| 0 <= j < pos ==> #[trigger] b@[j] == old(b)@[j]
                decreases 16 - i
            {
                b[i] = n;
                i += 1;
            }
            proof { assert(b@.take(pos as int) =~= old(b)@.take(pos as int)); }
        }
    }
    }
}
