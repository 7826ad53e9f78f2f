use vstd::prelude::*;
use crate::ext::cipher::*;
verus! {
pub open spec fn xor16(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(16, |i: int| a[i] ^ b[i]) }
fn xored16(a: &[u8; 16], b: &[u8; 16]) -> (r: [u8; 16]) ensures r@ == xor16(a@, b@) {
    let mut o = [0u8; 16];
    let mut i = 0;
    while i < 16
        invariant i <= 16, o@.len() == 16, forall|k: int| 0 <= k < i ==> o@[k] == a@[k] ^ b@[k],
        decreases 16 - i
    {
        o[i] = a[i] ^ b[i];
        i += 1;
    }
    proof { assert(o@ =~= xor16(a@, b@)); }
    o
}
/// the block cipher C with a key
#[verifier::reject_recursive_types(C)]
struct Keyed<C> { key: Vec<u8>, p: core::marker::PhantomData<C> }
impl<C> Keyed<C> {
    #[verifier::external_body]
    fn new(k: &[u8]) -> (r: Option<Keyed<C>>)
        ensures r is Some <==> key_ok::<C>(k@.len()), r is Some ==> r->0.key@ == k@ { unimplemented!() }
    #[verifier::external_body]
    fn encrypt(&self, b: &[u8; 16]) -> (r: [u8; 16]) ensures r@ == blk_enc(cid::<C>(), self.key@, b@) { unimplemented!() }
    #[verifier::external_body]
    fn decrypt(&self, b: &[u8; 16]) -> (r: [u8; 16]) ensures r@ == blk_dec(cid::<C>(), self.key@, b@) { unimplemented!() }
}
fn iv16(iv: &[u8]) -> (r: [u8; 16]) requires iv@.len() == 16 ensures r@ == iv@ {
    let mut o = [0u8; 16];
    let mut i = 0;
    while i < 16
        invariant i <= 16, iv@.len() == 16, forall|k: int| 0 <= k < i ==> o@[k] == iv@[k],
        decreases 16 - i
    {
        o[i] = iv[i];
        i += 1;
    }
    proof { assert(o@ =~= iv@); }
    o
}
#[verifier::reject_recursive_types(C)]
pub struct Decryptor<C> { c: Keyed<C>, prev: [u8; 16] }
#[verifier::reject_recursive_types(C)]
pub struct Encryptor<C> { c: Keyed<C>, prev: [u8; 16] }
impl<C> Decryptor<C> {
    pub closed spec fn key(&self) -> Seq<u8> { self.c.key@ }
    pub closed spec fn prev(&self) -> Seq<u8> { self.prev@ }
    pub fn new_from_slices(k: &[u8], iv: &[u8]) -> (r: Result<Decryptor<C>, InvalidLength>)
        ensures r is Ok <==> key_ok::<C>(k@.len()) && iv@.len() == 16,
            r is Ok ==> r->Ok_0.key() == k@ && r->Ok_0.prev() == iv@
    {
        match Keyed::new(k) {
            Some(c) => if iv.len() == 16 { Ok(Decryptor { c, prev: iv16(iv) }) } else { Err(invalid_length()) },
            None => Err(invalid_length()),
        }
    }
    pub fn decrypt_blocks_mut(&mut self, b: &mut [[u8; 16]; 1])
        ensures final(self).key() == old(self).key(),
            final(self).prev() == old(b)@[0]@,
            final(b)@[0]@ == xor16(blk_dec(cid::<C>(), old(self).key(), old(b)@[0]@), old(self).prev())
    {
        let t = b[0];
        let d = self.c.decrypt(&t);
        b[0] = xored16(&d, &self.prev);
        self.prev = t;
    }
}
impl<C> Encryptor<C> {
    pub closed spec fn key(&self) -> Seq<u8> { self.c.key@ }
    pub closed spec fn prev(&self) -> Seq<u8> { self.prev@ }
    pub fn new_from_slices(k: &[u8], iv: &[u8]) -> (r: Result<Encryptor<C>, InvalidLength>)
        ensures r is Ok <==> key_ok::<C>(k@.len()) && iv@.len() == 16,
            r is Ok ==> r->Ok_0.key() == k@ && r->Ok_0.prev() == iv@
    {
        match Keyed::new(k) {
            Some(c) => if iv.len() == 16 { Ok(Encryptor { c, prev: iv16(iv) }) } else { Err(invalid_length()) },
            None => Err(invalid_length()),
        }
    }
    pub fn encrypt_blocks_mut(&mut self, b: &mut [[u8; 16]; 1])
        ensures final(self).key() == old(self).key(),
            final(b)@[0]@ == blk_enc(cid::<C>(), old(self).key(), xor16(old(b)@[0]@, old(self).prev())),
            final(self).prev() == final(b)@[0]@
    {
        let t = b[0];
        let x = xored16(&t, &self.prev);
        let e = self.c.encrypt(&x);
        b[0] = e;
        self.prev = e;
    }
}
}
