use vstd::prelude::*;
pub use crate::ext::eiter::{IterE, IterMutE, IntoIterE, ExtendE, ChunksE};
pub use crate::ext::string::{ToStringE, StrE, StrLenE, ContainsE, SplitE, ParseE, StrMoreE, StringE};
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- little endian
pub open spec fn le16_bytes(x: u16) -> Seq<u8> {
    seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8]
}
pub open spec fn le32_bytes(x: u32) -> Seq<u8> {
    seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8]
}
pub open spec fn le64_bytes(x: u64) -> Seq<u8> {
    seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8,
         ((x >> 32) & 0xff) as u8, ((x >> 40) & 0xff) as u8, ((x >> 48) & 0xff) as u8, ((x >> 56) & 0xff) as u8]
}
pub open spec fn le16(s: Seq<u8>) -> u16 { (s[0] as u16) | ((s[1] as u16) << 8) }
pub open spec fn le32(s: Seq<u8>) -> u32 {
    (s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) | ((s[3] as u32) << 24)
}
pub open spec fn le64(s: Seq<u8>) -> u64 {
    (s[0] as u64) | ((s[1] as u64) << 8) | ((s[2] as u64) << 16) | ((s[3] as u64) << 24)
    | ((s[4] as u64) << 32) | ((s[5] as u64) << 40) | ((s[6] as u64) << 48) | ((s[7] as u64) << 56)
}
pub proof fn lemma_le16(x: u16) ensures le16(le16_bytes(x)) == x {
    assert(((x & 0xff) as u8 as u16) | ((((x >> 8) & 0xff) as u8 as u16) << 8) == x) by (bit_vector);
}
pub proof fn lemma_le32(x: u32) ensures le32(le32_bytes(x)) == x {
    assert(((x & 0xff) as u8 as u32) | ((((x >> 8) & 0xff) as u8 as u32) << 8)
        | ((((x >> 16) & 0xff) as u8 as u32) << 16) | ((((x >> 24) & 0xff) as u8 as u32) << 24) == x) by (bit_vector);
}
pub proof fn lemma_le64(x: u64) ensures le64(le64_bytes(x)) == x {
    assert(((x & 0xff) as u8 as u64) | ((((x >> 8) & 0xff) as u8 as u64) << 8)
        | ((((x >> 16) & 0xff) as u8 as u64) << 16) | ((((x >> 24) & 0xff) as u8 as u64) << 24)
        | ((((x >> 32) & 0xff) as u8 as u64) << 32) | ((((x >> 40) & 0xff) as u8 as u64) << 40)
        | ((((x >> 48) & 0xff) as u8 as u64) << 48) | ((((x >> 56) & 0xff) as u8 as u64) << 56) == x) by (bit_vector);
}
pub proof fn lemma_le32_inj(s: Seq<u8>) requires s.len() == 4 ensures le32_bytes(le32(s)) == s {
    let (a, b, c, d) = (s[0], s[1], s[2], s[3]);
    let x = (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24);
    assert((x & 0xff) as u8 == a && ((x >> 8) & 0xff) as u8 == b && ((x >> 16) & 0xff) as u8 == c && ((x >> 24) & 0xff) as u8 == d) by (bit_vector)
        requires x == (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24);
    assert(le32_bytes(x) =~= s);
}
pub proof fn lemma_le64_inj(s: Seq<u8>) requires s.len() == 8 ensures le64_bytes(le64(s)) == s {
    let (a, b, c, d, e, f, g, h) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    let x = (a as u64) | ((b as u64) << 8) | ((c as u64) << 16) | ((d as u64) << 24) | ((e as u64) << 32) | ((f as u64) << 40) | ((g as u64) << 48) | ((h as u64) << 56);
    assert((x & 0xff) as u8 == a && ((x >> 8) & 0xff) as u8 == b && ((x >> 16) & 0xff) as u8 == c && ((x >> 24) & 0xff) as u8 == d
        && ((x >> 32) & 0xff) as u8 == e && ((x >> 40) & 0xff) as u8 == f && ((x >> 48) & 0xff) as u8 == g && ((x >> 56) & 0xff) as u8 == h) by (bit_vector)
        requires x == (a as u64) | ((b as u64) << 8) | ((c as u64) << 16) | ((d as u64) << 24) | ((e as u64) << 32) | ((f as u64) << 40) | ((g as u64) << 48) | ((h as u64) << 56);
    assert(le64_bytes(x) =~= s);
}
pub proof fn lemma_i32_inj(s: Seq<u8>) requires s.len() == 4 ensures i32_bytes(le_i32(s)) == s {
    lemma_le32_inj(s);
    let x = le32(s);
    assert((x as i32) as u32 == x) by (bit_vector);
}
pub proof fn lemma_i64_inj(s: Seq<u8>) requires s.len() == 8 ensures i64_bytes(le_i64(s)) == s {
    lemma_le64_inj(s);
    let x = le64(s);
    assert((x as i64) as u64 == x) by (bit_vector);
}
pub fn u8_from_bool(b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 }) { if b { 1 } else { 0 } }
pub open spec fn i32_bytes(x: i32) -> Seq<u8> { le32_bytes(x as u32) }
pub open spec fn i64_bytes(x: i64) -> Seq<u8> { le64_bytes(x as u64) }
pub open spec fn le_i32(s: Seq<u8>) -> i32 { le32(s) as i32 }
pub open spec fn le_i64(s: Seq<u8>) -> i64 { le64(s) as i64 }

// std::{u16,u32,u64,i32,i64}::{to,from}_le_bytes
pub fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == le16(b@) { (b[0] as u16) | ((b[1] as u16) << 8) }
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le32(b@) { (b[0] as u32) | ((b[1] as u32) << 8) | ((b[2] as u32) << 16) | ((b[3] as u32) << 24) }
pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == le64(b@) {
    (b[0] as u64) | ((b[1] as u64) << 8) | ((b[2] as u64) << 16) | ((b[3] as u64) << 24)
    | ((b[4] as u64) << 32) | ((b[5] as u64) << 40) | ((b[6] as u64) << 48) | ((b[7] as u64) << 56)
}
pub fn i32_from_le_bytes(b: [u8; 4]) -> (r: i32) ensures r == le_i32(b@) { u32_from_le_bytes(b) as i32 }
pub fn i64_from_le_bytes(b: [u8; 8]) -> (r: i64) ensures r == le_i64(b@) { u64_from_le_bytes(b) as i64 }
pub open spec fn be16(s: Seq<u8>) -> u16 { le16(s.reverse()) }
pub open spec fn be32(s: Seq<u8>) -> u32 { le32(s.reverse()) }
pub open spec fn be64(s: Seq<u8>) -> u64 { le64(s.reverse()) }
fn turned<const N: usize>(b: [u8; N]) -> (r: [u8; N]) ensures r@ == b@.reverse() {
    let mut r = b;
    let mut i: usize = 0;
    while i < N
        invariant i <= N, r@.len() == N, b@.len() == N, forall|k: int| 0 <= k < i ==> #[trigger] r@[k] == b@[N - 1 - k],
        decreases N - i
    {
        r[i] = b[N - 1 - i];
        i += 1;
    }
    proof { assert(r@ =~= b@.reverse()); }
    r
}
pub fn u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r == be16(b@) { u16_from_le_bytes(turned(b)) }
pub fn u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == be32(b@) { u32_from_le_bytes(turned(b)) }
pub fn u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r == be64(b@) { u64_from_le_bytes(turned(b)) }

pub trait LeBytes2: Sized { spec fn le2(self) -> Seq<u8>; fn to_le_bytes_e(self) -> (r: [u8; 2]) ensures r@ == self.le2(); }
pub trait LeBytes4: Sized { spec fn le4(self) -> Seq<u8>; fn to_le_bytes_e(self) -> (r: [u8; 4]) ensures r@ == self.le4();
    spec fn be4(self) -> Seq<u8>; fn to_be_bytes_e(self) -> (r: [u8; 4]) ensures r@ == self.be4(); }
pub trait LeBytes8: Sized { spec fn le8(self) -> Seq<u8>; fn to_le_bytes_e(self) -> (r: [u8; 8]) ensures r@ == self.le8();
    spec fn be8(self) -> Seq<u8>; fn to_be_bytes_e(self) -> (r: [u8; 8]) ensures r@ == self.be8(); }
impl LeBytes2 for u16 { open spec fn le2(self) -> Seq<u8> { le16_bytes(self) }
    fn to_le_bytes_e(self) -> (r: [u8; 2]) { let r = [(self & 0xff) as u8, ((self >> 8) & 0xff) as u8]; proof { assert(r@ =~= le16_bytes(self)); } r } }
impl LeBytes4 for u32 { open spec fn le4(self) -> Seq<u8> { le32_bytes(self) }
    fn to_le_bytes_e(self) -> (r: [u8; 4]) { let r = [(self & 0xff) as u8, ((self >> 8) & 0xff) as u8, ((self >> 16) & 0xff) as u8, ((self >> 24) & 0xff) as u8]; proof { assert(r@ =~= le32_bytes(self)); } r }
    open spec fn be4(self) -> Seq<u8> { self.le4().reverse() }
    fn to_be_bytes_e(self) -> (r: [u8; 4]) { turned(self.to_le_bytes_e()) } }
impl LeBytes4 for i32 { open spec fn le4(self) -> Seq<u8> { i32_bytes(self) }
    fn to_le_bytes_e(self) -> (r: [u8; 4]) { let x = self as u32; let r = [(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8]; proof { assert(r@ =~= le32_bytes(x)); } r }
    open spec fn be4(self) -> Seq<u8> { self.le4().reverse() }
    fn to_be_bytes_e(self) -> (r: [u8; 4]) { turned(self.to_le_bytes_e()) } }
impl LeBytes8 for u64 { open spec fn le8(self) -> Seq<u8> { le64_bytes(self) }
    fn to_le_bytes_e(self) -> (r: [u8; 8]) { let r = [(self & 0xff) as u8, ((self >> 8) & 0xff) as u8, ((self >> 16) & 0xff) as u8, ((self >> 24) & 0xff) as u8, ((self >> 32) & 0xff) as u8, ((self >> 40) & 0xff) as u8, ((self >> 48) & 0xff) as u8, ((self >> 56) & 0xff) as u8]; proof { assert(r@ =~= le64_bytes(self)); } r }
    open spec fn be8(self) -> Seq<u8> { self.le8().reverse() }
    fn to_be_bytes_e(self) -> (r: [u8; 8]) { turned(self.to_le_bytes_e()) } }
impl LeBytes8 for i64 { open spec fn le8(self) -> Seq<u8> { i64_bytes(self) }
    fn to_le_bytes_e(self) -> (r: [u8; 8]) { let x = self as u64; let r = [(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8, ((x >> 32) & 0xff) as u8, ((x >> 40) & 0xff) as u8, ((x >> 48) & 0xff) as u8, ((x >> 56) & 0xff) as u8]; proof { assert(r@ =~= le64_bytes(x)); } r }
    open spec fn be8(self) -> Seq<u8> { self.le8().reverse() }
    fn to_be_bytes_e(self) -> (r: [u8; 8]) { turned(self.to_le_bytes_e()) } }

// ---------------------------------------------------------------- byte views
/// AsRef<[u8]> as taken by the digest and cipher crates.
pub trait Bytes { spec fn bytes(&self) -> Seq<u8>; }
impl Bytes for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl Bytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<const N: usize> Bytes for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<'a, T: Bytes + ?Sized> Bytes for &'a T { open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() } }
impl Bytes for str { open spec fn bytes(&self) -> Seq<u8> { crate::ext::string::utf8(self@) } }
impl Bytes for String { open spec fn bytes(&self) -> Seq<u8> { crate::ext::string::utf8(self@) } }

// `&*x` on owned containers
pub trait DerefE { type T: ?Sized; fn deref_e(&self) -> &Self::T; }
impl<X> DerefE for Vec<X> { type T = [X];
    fn deref_e(&self) -> (r: &[X]) ensures r@ == self@ { self.as_slice() } }
impl<const N: usize> DerefE for [u8; N] { type T = [u8];
    fn deref_e(&self) -> (r: &[u8]) ensures r@ == self@ { self } }

pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](o: Option<T>, d: D, f: F) -> (r: U)
    requires match o { Some(x) => f.requires((x,)), None => d.requires(()) }
    ensures match o { Some(x) => f.ensures((x,), r), None => d.ensures((), r) };
pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures match o { Some(Ok(x)) => r == Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => r == Err::<Option<T>, E>(e), None => r == Ok::<Option<T>, E>(None) };
/// values of Default::default()
pub trait DefaultE: Sized { spec fn is_default(&self) -> bool; fn default_e() -> (r: Self) ensures r.is_default(); }
impl DefaultE for bool { open spec fn is_default(&self) -> bool { !*self } fn default_e() -> (r: bool) { false } }
impl DefaultE for u32 { open spec fn is_default(&self) -> bool { *self == 0 } fn default_e() -> (r: u32) { 0 } }
impl DefaultE for String { open spec fn is_default(&self) -> bool { self@ == Seq::<char>::empty() }
    fn default_e() -> (r: String) { proof { reveal_strlit(""); } let r = "".to_owned(); proof { assert(r@ =~= Seq::<char>::empty()); } r } }
pub trait UnwrapE<T> { fn unwrap_or_default_e(self) -> T; }
impl<T: DefaultE> UnwrapE<T> for Option<T> {
    fn unwrap_or_default_e(self) -> (r: T) ensures match self { Some(x) => r == x, None => r.is_default() } { match self { Some(x) => x, None => T::default_e() } } }
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](r: Result<T, E>, f: F) -> (q: Result<U, E>)
    requires r is Ok ==> call_requires(f, (r->Ok_0,)),
    ensures r is Ok ==> call_ensures(f, (r->Ok_0,), q), r is Err ==> q is Err && q->Err_0 == r->Err_0;
// Option<Vec<_>>::as_deref
pub trait AsDerefE<'a> { type T; fn as_deref_e(&'a self) -> (r: Self::T); }
impl<'a, X: 'a> AsDerefE<'a> for Option<Vec<X>> { type T = Option<&'a [X]>;
    fn as_deref_e(&'a self) -> (r: Option<&'a [X]>) ensures match r { Some(x) => self is Some && x@ == self->0@, None => self is None } { match self { Some(v) => Some(v.as_slice()), None => None } } }

// `.to_vec()`, `.as_slice()`
pub trait ToVecE<X> { spec fn elems(&self) -> Seq<X>; fn to_vec_e(&self) -> (r: Vec<X>) ensures r@ == self.elems();
    fn as_slice_e(&self) -> (r: &[X]) ensures r@ == self.elems(); }
impl ToVecE<u8> for [u8] { open spec fn elems(&self) -> Seq<u8> { self@ }
    fn to_vec_e(&self) -> (r: Vec<u8>) { vec_from(self) }
    fn as_slice_e(&self) -> (r: &[u8]) { self } }
impl ToVecE<u8> for Vec<u8> { open spec fn elems(&self) -> Seq<u8> { self@ }
    fn to_vec_e(&self) -> (r: Vec<u8>) { vec_from(self.as_slice()) }
    fn as_slice_e(&self) -> (r: &[u8]) { self.as_slice() } }
impl<const N: usize> ToVecE<u8> for [u8; N] { open spec fn elems(&self) -> Seq<u8> { self@ }
    fn to_vec_e(&self) -> (r: Vec<u8>) { vec_from(self) }
    fn as_slice_e(&self) -> (r: &[u8]) { self } }

// Vec<u8>::resize_with(n, Default::default)
pub trait ResizeE { fn resize_default(&mut self, n: usize); }
impl ResizeE for Vec<u8> {
    fn resize_default(&mut self, n: usize)
        ensures final(self)@.len() == n,
            forall|i: int| 0 <= i < n ==> #[trigger] final(self)@[i] == (if i < old(self)@.len() { old(self)@[i] } else { 0u8 }),
    { self.resize(n, 0u8); }
}

/// nothing is known about it: keeps error values apart
#[verifier::external_body]
pub fn unknown() -> (r: u64) { unimplemented!() }
/// names a term for the solver
pub open spec fn see<T>(x: T) -> bool { true }
pub uninterp spec fn derived_error() -> &'static str;
/// `.try_into()` from a slice to an array
#[derive(Debug)]
pub struct TryFromSliceError { p: u64 }
pub trait TryIntoE<T>: Sized { type Error; spec fn tries(&self, r: Result<T, Self::Error>) -> bool;
    fn try_into_e(self) -> (r: Result<T, Self::Error>) ensures self.tries(r); }
impl<'a, const N: usize> TryIntoE<[u8; N]> for &'a [u8] { type Error = TryFromSliceError;
    open spec fn tries(&self, r: Result<[u8; N], TryFromSliceError>) -> bool { match r { Ok(a) => a@ == self@, Err(_) => self@.len() != N } }
    fn try_into_e(self) -> (r: Result<[u8; N], TryFromSliceError>) {
        if self.len() != N { return Err(TryFromSliceError { p: crate::ext::prelude::unknown() }); }
        let mut a = [0u8; N];
        a.copy_from_slice(self);
        Ok(a)
    } }

pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }

#[verifier::external_body]
pub fn fmt_any() -> (r: String) { unimplemented!() }
pub fn cat_lit(s: String, l: &str) -> (r: String) ensures r@ == s@ + l@ { let mut s = s; s.append(l); s }
/// assumes Display and ToString agree
pub fn cat_arg<T: ToStringE + ?Sized>(s: String, a: &T) -> (r: String) ensures r@ == s@ + a.text() { let t = a.to_string_e(); cat_lit(s, t.as_str()) }
#[verifier::external_body]
pub fn never() -> ! requires false { unimplemented!() }
/// a panic whose absence is an obligation of the callers instead
#[verifier::external_body]
pub fn diverge() -> ! { unimplemented!() }
pub fn vec_from(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { let mut v = Vec::new(); v.extend_from_slice(s); proof { assert(v@ =~= s@); } v }
pub fn rt_assert(b: bool) requires b { }
pub fn vec_rep<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) {
    let mut v = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v@ == Seq::new(i as nat, |i: int| x)
        decreases n - i
    {
        v.push(x);
        i += 1;
        proof { assert(v@ =~= Seq::new(i as nat, |i: int| x)); }
    }
    v
}

/// `.get_mut(i)`
pub trait GetMutE<T>: Sized { spec fn gm_items(&self) -> Seq<T>;
    fn get_mut_e(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures match r {
            Some(e) => i < old(self).gm_items().len() && *e == old(self).gm_items()[i as int] && final(self).gm_items() == old(self).gm_items().update(i as int, *final(e)),
            None => i >= old(self).gm_items().len() && *final(self) == *old(self) };
}
impl<T> GetMutE<T> for Vec<T> { open spec fn gm_items(&self) -> Seq<T> { self@ }
    fn get_mut_e(&mut self, i: usize) -> (r: Option<&mut T>) { if i < self.len() { Some(&mut self[i]) } else { None } } }
/// `.sort()` and `.reverse()` on index lists
pub trait SortE { fn sort_e(&mut self); fn reverse_e(&mut self); }
impl SortE for Vec<usize> {
    fn sort_e(&mut self) ensures final(self)@.to_multiset() == old(self)@.to_multiset(), final(self)@.len() == old(self)@.len(),
        forall|i: int, j: int| 0 <= i <= j < final(self)@.len() ==> final(self)@[i] <= final(self)@[j],
        (forall|i: int, j: int| 0 <= i < j < old(self)@.len() ==> old(self)@[i] <= old(self)@[j]) ==> final(self)@ == old(self)@
    {
        let mut out: Vec<usize> = Vec::new();
        let mut n: usize = 0;
        proof { assert(self@.take(0) =~= Seq::empty()); assert(out@ =~= self@.take(0)); }
        while n < self.len()
            invariant n <= self@.len(), self@ == old(self)@, out@.len() == n, out@.to_multiset() == self@.take(n as int).to_multiset(),
                forall|i: int, j: int| 0 <= i <= j < n ==> out@[i] <= out@[j],
            decreases self@.len() - n
        {
            let x = self[n];
            let mut k: usize = n;
            while k > 0 && out[k - 1] > x
                invariant k <= n, out@.len() == n, forall|i: int| k <= i < n ==> out@[i] > x,
                decreases k
            { k -= 1; }
            let ghost o = out@;
            out.insert(k, x);
            proof {
                assert(self@.take(n as int + 1) =~= self@.take(n as int).push(x));
                vstd::seq_lib::to_multiset_build(self@.take(n as int), x);
                vstd::seq_lib::to_multiset_insert(o, k as int, x);
            }
            n += 1;
        }
        proof {
            assert(self@.take(n as int) =~= self@);
            out@.to_multiset_ensures();
            self@.to_multiset_ensures();
            if forall|i: int, j: int| 0 <= i < j < self@.len() ==> self@[i] <= self@[j] {
                assert(vstd::relations::total_ordering(|a: usize, b: usize| a <= b));
                vstd::seq_lib::lemma_sorted_unique(out@, self@, |a: usize, b: usize| a <= b);
            }
        }
        *self = out;
    }
    fn reverse_e(&mut self) ensures final(self)@ == old(self)@.reverse() {
        let mut out: Vec<usize> = Vec::new();
        let n = self.len();
        while out.len() < n
            invariant n == old(self)@.len(), self@ == old(self)@, out@.len() <= n,
                forall|k: int| 0 <= k < out@.len() ==> #[trigger] out@[k] == old(self)@[n - 1 - k],
            decreases n - out@.len()
        {
            let k = out.len();
            out.push(self[n - 1 - k]);
        }
        proof { assert(out@ =~= old(self)@.reverse()); }
        *self = out;
    }
}
/// containers are identified with their contents
pub broadcast axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures #[trigger] a@ =~= #[trigger] b@ ==> a == b;
pub broadcast axiom fn axiom_string_ext(a: String, b: String) ensures #[trigger] a@ =~= #[trigger] b@ ==> a == b;
/// a predicate is asked without being changed: its answers depend on its argument only
#[verifier::external_body]
pub fn ask<A, R, F: FnMut(A) -> R>(f: &F, a: A) -> (r: R) requires f.requires((a,)) ensures f.ensures((a,), r) { unimplemented!() }

/// `x[a..b].copy_from_slice(s)`
pub fn copy_range<const N: usize>(x: &mut [u8; N], a: usize, b: usize, s: &[u8])
    requires a <= b <= N, s@.len() == b - a
    ensures final(x)@ == old(x)@.take(a as int) + s@ + old(x)@.skip(b as int)
{
    x[a..b].copy_from_slice(s);
    proof { assert(x@ =~= old(x)@.take(a as int) + s@ + old(x)@.skip(b as int)); }
}
/// `.get(a..b)` on bytes
pub trait GetRangeE { spec fn gr_bytes(&self) -> Seq<u8>;
    fn get_range_e(&self, i: core::ops::Range<usize>) -> (r: Option<&[u8]>)
        ensures r is Some <==> i.start <= i.end <= self.gr_bytes().len(), r is Some ==> r->0@ == self.gr_bytes().subrange(i.start as int, i.end as int);
}
impl GetRangeE for Vec<u8> { open spec fn gr_bytes(&self) -> Seq<u8> { self@ }
    fn get_range_e(&self, i: core::ops::Range<usize>) -> (r: Option<&[u8]>) { if i.start <= i.end && i.end <= self.len() { Some(&self[i.start..i.end]) } else { None } } }
impl GetRangeE for [u8] { open spec fn gr_bytes(&self) -> Seq<u8> { self@ }
    fn get_range_e(&self, i: core::ops::Range<usize>) -> (r: Option<&[u8]>) { if i.start <= i.end && i.end <= self.len() { Some(&self[i.start..i.end]) } else { None } } }
/// `.clone_from_slice(..)`, `.copy_from_slice(..)`: panics on different lengths
pub trait CopyAllE { spec fn ca(&self) -> Seq<u8>; fn copy_all_e(&mut self, s: &[u8]) requires s@.len() == old(self).ca().len() ensures final(self).ca() == s@; }
impl<const N: usize> CopyAllE for [u8; N] { open spec fn ca(&self) -> Seq<u8> { self@ }
    fn copy_all_e(&mut self, s: &[u8]) { self.copy_from_slice(s); } }
pub fn mem_take<T: Default>(d: &mut T) -> (r: T) ensures r == *old(d), call_ensures(T::default, (), *final(d)) { let mut v = T::default(); core::mem::swap(d, &mut v); v }
pub fn mem_replace<T>(d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v { let mut v = v; core::mem::swap(d, &mut v); v }

// `a == b` where vstd has no usable PartialEq contract
pub trait EqE<B: ?Sized> { spec fn eqv(&self, b: &B) -> bool; fn eq_e(&self, b: &B) -> (r: bool) ensures r == self.eqv(b); }
fn eq_bytes(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ =~= b@) {
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a@.len(), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> a@[k] == b@[k]
        decreases a@.len() - i
    {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
fn eq_str(a: &str, b: &str) -> (r: bool) ensures r == (a@ =~= b@) { a == b }
macro_rules! eq_e { ($f:ident $([$($g:tt)*] $a:ty, $b:ty);* $(;)?) => { verus!{ $(
    impl<$($g)*> EqE<$b> for $a { open spec fn eqv(&self, b: &$b) -> bool { self@ =~= b@ }
        fn eq_e(&self, b: &$b) -> (r: bool) { $f(self, b) } } )* } } }
macro_rules! eq_p { ($($a:ty),*) => { verus!{ $(
    impl EqE<$a> for $a { open spec fn eqv(&self, b: &$a) -> bool { *self == *b }
        fn eq_e(&self, b: &$a) -> (r: bool) { *self == *b } } )* } } }
eq_e! { eq_bytes
    ['a] [u8], &'a [u8]; [] [u8], [u8]; ['a, const N: usize] [u8], [u8; N];
    ['a] Vec<u8>, &'a [u8]; [] Vec<u8>, [u8]; [] Vec<u8>, Vec<u8>;
    [const N: usize] [u8; N], [u8; N]; ['a, const N: usize] [u8; N], &'a [u8]; [const N: usize] [u8; N], [u8];
}
impl<'a, const N: usize> EqE<&'a [u8; N]> for [u8] { open spec fn eqv(&self, b: &&'a [u8; N]) -> bool { self@ =~= b@ }
    fn eq_e(&self, b: &&'a [u8; N]) -> (r: bool) { eq_bytes(self, *b) } }
eq_e! { eq_str
    [] str, str; ['a] str, &'a str; [] String, str; ['a] String, &'a str; [] String, String; [] str, String;
}
eq_p! { usize, u8, u32, u64, bool, crate::ext::uuid::Uuid }
}
