@prelude
use crate::ext::io::{Read as _, Write as _};
@ghost NullStreamCipher
    g_pos: nat = 0
@prelude
use crate::ext::cipher::StreamCipher as _;
/// the value of that name
pub fn null_stream() -> (r: NullStreamCipher) ensures r.ks_id() == crate::ext::cipher::null_id(), r.ks_pos() == 0 { NullStreamCipher { g_pos: Ghost(0) } }
@impl <StreamCipher for NullStreamCipher>
    open spec fn ks_id(&self) -> Seq<u8> { crate::ext::cipher::null_id() }
    /// how much was asked of it
    open spec fn ks_pos(&self) -> nat { self.g_pos@ }
@fn <StreamCipher for NullStreamCipher>::try_apply_keystream_inout
@start
    proof {
        let b = _buf.buf@;
        assert forall|i: int| 0 <= i < b.len() implies b[i] == b[i] ^ 0u8 by { let x = b[i]; assert(x ^ 0u8 == x) by (bit_vector); }
        broadcast use crate::ext::cipher::axiom_null;
        assert(b =~= crate::ext::cipher::xored(crate::ext::cipher::null_id(), self.g_pos@, b));
    }
    self.g_pos = Ghost(self.g_pos@ + _buf.buf@.len());
@impl <Read for CachingReader>
    open spec fn rem(&self) -> Seq<u8> { (*self.inner).rem() }
    open spec fn clean(&self) -> bool { (*self.inner).clean() }
    open spec fn reliable(&self) -> bool { (*self.inner).reliable() }
    open spec fn wf(&self) -> bool { (*self.inner).wf() }
    /// everything read is in the cache
    open spec fn tape(&self) -> Seq<u8> { self.data@ + (*self.inner).rem() }
    #[verifier::prophetic]
    open spec fn fate(&self) -> (Seq<u8>, bool, bool, bool) { self.inner.fate() }
@fn <Read for CachingReader>::read
@start
    let ghost d0 = self.data@;
    let ghost r0 = (*self.inner).rem();
@tail
    proof {
        assert(Seq::new(size as nat, |i: int| buf@.subrange(0, size as int)[i]) =~= buf@.take(size as int));
        if size > 0 {
            assert(self.data@ =~= d0 + r0.take(size as int));
            assert(d0 + r0 =~= self.data@ + r0.skip(size as int));
        }
    }
@fn CachingReader::new
@spec
    ensures r.data@ == Seq::<u8>::empty(), *r.inner == *old(inner), *final(r.inner) == *final(inner)
@fn CachingReader::into_inner
@spec
    ensures r.0 == self.data, *r.1 == *old(self.inner), *final(r.1) == *final(self.inner)
@fn buffer
@spec
    ensures r@.len() == len, forall|i: int| 0 <= i < len ==> r@[i] == 0
@prelude
use vstd::std_specs::cmp::PartialEqSpec;
/// every text in the table is a UUID
pub open spec fn table_ok<T>(t: Seq<(&str, T)>) -> bool { forall|i: int| 0 <= i < t.len() ==> crate::ext::uuid::uuid_of_text((#[trigger] t[i]).0@) is Some }
pub open spec fn row_uuid<T>(t: Seq<(&str, T)>, i: int) -> Uuid { crate::ext::uuid::uuid_of_text(t[i].0@)->0 }
@fn value_from_uuid_table
@call == => eq_e
@spec
    ensures table_ok(table@) ==> match r {
        Some(v) => exists|i: int| 0 <= i < table@.len() && #[trigger] row_uuid(table@, i) == lookup && call_ensures(T::clone, (&table@[i].1,), v)
            && (forall|j: int| 0 <= j < i ==> #[trigger] row_uuid(table@, j) != lookup),
        None => forall|j: int| 0 <= j < table@.len() ==> #[trigger] row_uuid(table@, j) != lookup,
    }
@loop 0
    invariant it__0@.len() <= all__0.len(), all__0.len() == table@.len(), it__0@ == all__0.skip(all__0.len() - it__0@.len()),
        forall|i: int| 0 <= i < table@.len() ==> *(#[trigger] all__0[i]) == table@[i],
        forall|j: int| 0 <= j < all__0.len() - it__0@.len() ==> #[trigger] row_uuid(table@, j) != lookup,
    decreases it__0@.len()
@loopstart 0
    let ghost n = all__0.len() - it__0@.len() - 1;
@before return Some(value.clone())
    proof { assert(row_uuid(table@, n) == lookup); }
@fn uuid_from_uuid_table
@spec
    ensures table_ok(table@) && <T as PartialEqSpec>::obeys_eq_spec() && (forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b) ==> match r {
        Some(u) => exists|i: int| 0 <= i < table@.len() && #[trigger] row_uuid(table@, i) == u && table@[i].1.eq_spec(&lookup)
            && (forall|j: int| 0 <= j < i ==> !(#[trigger] table@[j]).1.eq_spec(&lookup)),
        None => forall|j: int| 0 <= j < table@.len() ==> !(#[trigger] table@[j]).1.eq_spec(&lookup),
    }
@loop 0
    invariant it__0@.len() <= all__0.len(), all__0.len() == table@.len(), it__0@ == all__0.skip(all__0.len() - it__0@.len()),
        forall|i: int| 0 <= i < table@.len() ==> *(#[trigger] all__0[i]) == table@[i],
        table_ok(table@) && <T as PartialEqSpec>::obeys_eq_spec() && (forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b) ==>
            forall|j: int| 0 <= j < all__0.len() - it__0@.len() ==> !(#[trigger] table@[j]).1.eq_spec(&lookup),
    decreases it__0@.len()
@loopstart 0
    let ghost n = all__0.len() - it__0@.len() - 1;
@before return Some(item_uuid)
    proof { assert(row_uuid(table@, n) == item_uuid); }
@fn argon2_algo_to_variant
@spec
    requires algo is Argon2d || algo is Argon2id
    ensures r == (if algo is Argon2d { argon2::Variant::Argon2d } else { argon2::Variant::Argon2id })
@fn argon2_variant_to_algo
@call panic! => crate::ext::prelude::diverge
@spec
    ensures variant is Argon2d || variant is Argon2id,
        r == (if variant is Argon2d { KdfAlgorithm::Argon2d } else { KdfAlgorithm::Argon2id })
