//! std iterators, taken eagerly: an iterator is the sequence of items it yields.
//! The adapters are written out over a vector of those items and verified; what remains
//! assumed is that std's lazy ones yield the same.
use vstd::prelude::*;
use vstd::slice::slice_subrange;
verus! {

#[verifier::reject_recursive_types(T)]
pub struct EIter<T> { v: Vec<T> }

impl<T> EIter<T> {
    pub closed spec fn view(&self) -> Seq<T> { self.v@ }

    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    {
        if self.v.len() == 0 { return None; }
        let r = self.v.remove(0);
        proof { assert(self@ =~= old(self)@.skip(1)); }
        Some(r)
    }

    pub fn enumerate(self) -> (r: EIter<(usize, T)>)
        ensures r@.len() == self@.len(), self@.len() <= usize::MAX,
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i] == (i as usize, self@[i]),
    {
        let mut a = self;
        let mut out: Vec<(usize, T)> = Vec::new();
        let mut i: usize = 0;
        let n = a.v.len();
        proof { assert(n == self@.len()); assert(self@.skip(0) =~= self@); }
        while a.v.len() > 0
            invariant a@ == self@.skip(i as int), out@.len() == i, i + a@.len() == self@.len(), self@.len() <= usize::MAX,
                forall|k: int| 0 <= k < i ==> #[trigger] out@[k] == (k as usize, self@[k]),
            decreases a@.len()
        {
            let x = a.v.remove(0);
            proof { assert(a@ =~= self@.skip(i + 1)); }
            out.push((i, x));
            i += 1;
        }
        EIter { v: out }
    }

    pub fn chain<I: IntoIterE<T>>(self, o: I) -> (r: EIter<T>)
        ensures r@ == self@ + o.items(),
    {
        let mut a = self;
        let mut b = o.into_iter_e();
        a.v.append(&mut b.v);
        a
    }

    pub fn take(self, n: usize) -> (r: EIter<T>)
        ensures r@ == self@.take(if n <= self@.len() { n as int } else { self@.len() as int }),
    {
        let mut a = self;
        if n < a.v.len() { a.v.truncate(n); }
        proof { assert(a@ =~= self@.take(if n <= self@.len() { n as int } else { self@.len() as int })); }
        a
    }

    pub fn skip(self, n: usize) -> (r: EIter<T>)
        ensures r@ == self@.skip(if n <= self@.len() { n as int } else { self@.len() as int }),
    {
        let mut a = self;
        let n = if n < a.v.len() { n } else { a.v.len() };
        EIter { v: a.v.split_off(n) }
    }

    pub fn rev_e(self) -> (r: EIter<T>)
        ensures r@ == self@.reverse(),
    {
        let mut a = self;
        let mut out: Vec<T> = Vec::new();
        while a.v.len() > 0
            invariant a.v@.len() + out@.len() == self@.len(), a.v@ == self@.take(a.v@.len() as int),
                out@ == self@.skip(a.v@.len() as int).reverse(),
            decreases a.v@.len()
        {
            let ghost n = a.v@.len() as int;
            let ghost o1 = out@;
            let x = a.v.pop().unwrap();
            out.push(x);
            proof {
                assert(self@.skip(n - 1) =~= seq![self@[n - 1]] + self@.skip(n));
                assert(out@ =~= self@.skip(n - 1).reverse());
                assert(a.v@ =~= self@.take(n - 1));
            }
        }
        proof { assert(self@.skip(0) =~= self@); }
        EIter { v: out }
    }

    pub fn count(self) -> (r: usize)
        ensures r == self@.len(),
    { self.v.len() }

    pub fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: EIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(),
            forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
    {
        let mut f = f;
        let ghost f0 = f;
        let mut a = self;
        let mut out: Vec<U> = Vec::new();
        let ghost mut n: int = 0;
        proof { assert(self@.skip(0) =~= self@); }
        while a.v.len() > 0
            invariant n + a@.len() == self@.len(), n >= 0, a@ == self@.skip(n), f == f0,
                forall|i: int| 0 <= i < self@.len() ==> f0.requires((#[trigger] self@[i],)),
                n == out@.len(), forall|i: int| 0 <= i < n ==> f0.ensures((self@[i],), #[trigger] out@[i]),
            decreases a@.len()
        {
            let x = a.v.remove(0);
            proof { assert(x == self@[n]); assert(a@ =~= self@.skip(n + 1)); }
            let u = f(x);
            out.push(u);
            proof { n = n + 1; }
        }
        
        EIter { v: out }
    }

    /// kept: the positions whose closure result is Some, in order
    pub fn filter_map<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: EIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures exists|outs: Seq<Option<U>>| outs.len() == self@.len()
            && (forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] outs[i]))
            && r@ == #[trigger] somes(outs),
    {
        let mut f = f;
        let ghost f0 = f;
        let mut a = self;
        let mut out: Vec<U> = Vec::new();
        let ghost mut n: int = 0;
        let ghost mut outs: Seq<Option<U>> = Seq::empty();
        proof { assert(self@.skip(0) =~= self@); }
        while a.v.len() > 0
            invariant n + a@.len() == self@.len(), n >= 0, a@ == self@.skip(n), f == f0,
                forall|i: int| 0 <= i < self@.len() ==> f0.requires((#[trigger] self@[i],)),
                outs.len() == n, forall|i: int| 0 <= i < n ==> f0.ensures((self@[i],), #[trigger] outs[i]), out@ == somes(outs),
            decreases a@.len()
        {
            let x = a.v.remove(0);
            proof { assert(x == self@[n]); assert(a@ =~= self@.skip(n + 1)); }
            let u = f(x);
            proof { let o1 = outs; outs = outs.push(u); n = n + 1; assert(outs.drop_last() =~= o1); }
            if let Some(y) = u { out.push(y); }
        }
        
        EIter { v: out }
    }

    pub fn filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: EIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures exists|keep: Seq<bool>| keep.len() == self@.len()
            && (forall|i: int| 0 <= i < self@.len() ==> f.ensures((&self@[i],), #[trigger] keep[i]))
            && r@ == #[trigger] kept(self@, keep),
    {
        let mut f = f;
        let ghost f0 = f;
        let mut a = self;
        let mut out: Vec<T> = Vec::new();
        let ghost mut n: int = 0;
        let ghost mut keep: Seq<bool> = Seq::empty();
        proof { assert(self@.skip(0) =~= self@); }
        while a.v.len() > 0
            invariant n + a@.len() == self@.len(), n >= 0, a@ == self@.skip(n), f == f0,
                forall|i: int| 0 <= i < self@.len() ==> f0.requires((&#[trigger] self@[i],)),
                keep.len() == n, forall|i: int| 0 <= i < n ==> f0.ensures((&self@[i],), #[trigger] keep[i]), out@ == kept(self@.take(n), keep),
            decreases a@.len()
        {
            let x = a.v.remove(0);
            proof { assert(x == self@[n]); assert(a@ =~= self@.skip(n + 1)); }
            let u = f(&x);
            proof {
                let k1 = keep; keep = keep.push(u); n = n + 1;
                assert(keep.drop_last() =~= k1); assert(self@.take(n).drop_last() =~= self@.take(n - 1));
            }
            if u { out.push(x); }
        }
        proof { assert(self@.take(n) =~= self@); }
        EIter { v: out }
    }

    pub fn flat_map<U, J: IntoIterE<U>, F: FnMut(T) -> J>(self, f: F) -> (r: EIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures exists|outs: Seq<J>| outs.len() == self@.len()
            && (forall|i: int| #![trigger self@[i]] #![trigger outs[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), outs[i]))
            && r@ == #[trigger] flat_items(outs),
    {
        let mut f = f;
        let ghost f0 = f;
        let mut a = self;
        let mut out: Vec<U> = Vec::new();
        let ghost mut n: int = 0;
        let ghost mut outs: Seq<J> = Seq::empty();
        proof { assert(self@.skip(0) =~= self@); }
        while a.v.len() > 0
            invariant n + a@.len() == self@.len(), n >= 0, a@ == self@.skip(n), f == f0,
                forall|i: int| 0 <= i < self@.len() ==> f0.requires((#[trigger] self@[i],)),
                outs.len() == n, forall|i: int| 0 <= i < n ==> f0.ensures((self@[i],), #[trigger] outs[i]), out@ == flat_items::<U, J>(outs),
            decreases a@.len()
        {
            let x = a.v.remove(0);
            proof { assert(x == self@[n]); assert(a@ =~= self@.skip(n + 1)); }
            let u = f(x);
            proof { let o1 = outs; outs = outs.push(u); n = n + 1; assert(outs.drop_last() =~= o1); }
            let mut more = u.into_iter_e();
            out.append(&mut more.v);
        }
        
        EIter { v: out }
    }

    pub fn find<F: FnMut(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((&#[trigger] old(self)@[i],)),
        ensures match r {
            Some(x) => exists|k: int| 0 <= k < old(self)@.len() && x == #[trigger] old(self)@[k] && f.ensures((&x,), true)
                && final(self)@ == old(self)@.skip(k + 1)
                && (forall|j: int| k < j < old(self)@.len() ==> #[trigger] old(self)@[j] == final(self)@[j - k - 1])
                && (forall|j: int| 0 <= j < k ==> f.ensures((&#[trigger] old(self)@[j],), false) && has_resolved::<T>(old(self)@[j])),
            None => final(self)@.len() == 0
                && forall|j: int| 0 <= j < old(self)@.len() ==> f.ensures((&#[trigger] old(self)@[j],), false) && has_resolved::<T>(old(self)@[j]),
        },
    {
        let mut f = f;
        let ghost f0 = f;
        let ghost s0 = self@;
        let mut n: usize = 0;
        let len = self.v.len();
        proof { assert(s0.skip(0) =~= s0); }
        while self.v.len() > 0
            invariant n + self@.len() == s0.len(), len == s0.len(), s0 == old(self)@, self@ == s0.skip(n as int), f == f0,
                forall|i: int| 0 <= i < s0.len() ==> f0.requires((&#[trigger] s0[i],)),
                forall|j: int| 0 <= j < n ==> f0.ensures((&#[trigger] s0[j],), false) && has_resolved::<T>(s0[j]),
            decreases self@.len()
        {
            let x = self.v.remove(0);
            proof { assert(x == s0[n as int]); assert(self@ =~= s0.skip(n + 1)); }
            let u = f(&x);
            if u { return Some(x); }
            n += 1;
        }
        None
    }

    pub fn position<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
        ensures match r {
            Some(k) => 0 <= k < old(self)@.len() && f.ensures((old(self)@[k as int],), true)
                && (forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] old(self)@[j],), false)),
            None => forall|j: int| 0 <= j < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[j],), false),
        },
    {
        let mut f = f;
        let ghost f0 = f;
        let ghost s0 = self@;
        let mut n: usize = 0;
        let len = self.v.len();
        proof { assert(s0.skip(0) =~= s0); }
        while self.v.len() > 0
            invariant n + self@.len() == s0.len(), len == s0.len(), s0 == old(self)@, self@ == s0.skip(n as int), f == f0,
                forall|i: int| 0 <= i < s0.len() ==> f0.requires((#[trigger] s0[i],)),
                forall|j: int| 0 <= j < n ==> f0.ensures((#[trigger] s0[j],), false),
            decreases self@.len()
        {
            let x = self.v.remove(0);
            proof { assert(x == s0[n as int]); assert(self@ =~= s0.skip(n + 1)); }
            let u = f(x);
            if u { return Some(n); }
            n += 1;
        }
        None
    }

    pub fn any<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
        ensures
            r ==> exists|k: int| 0 <= k < old(self)@.len() && f.ensures((#[trigger] old(self)@[k],), true),
            !r ==> forall|j: int| 0 <= j < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[j],), false),
    {
        let mut f = f;
        let ghost f0 = f;
        let ghost s0 = self@;
        let mut n: usize = 0;
        let len = self.v.len();
        proof { assert(s0.skip(0) =~= s0); }
        while self.v.len() > 0
            invariant n + self@.len() == s0.len(), len == s0.len(), s0 == old(self)@, self@ == s0.skip(n as int), f == f0,
                forall|i: int| 0 <= i < s0.len() ==> f0.requires((#[trigger] s0[i],)),
                forall|j: int| 0 <= j < n ==> f0.ensures((#[trigger] s0[j],), false),
            decreases self@.len()
        {
            let x = self.v.remove(0);
            proof { assert(x == s0[n as int]); assert(self@ =~= s0.skip(n + 1)); }
            let u = f(x);
            if u { return true; }
            n += 1;
        }
        false
    }

    pub fn all<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
        ensures
            r ==> forall|j: int| 0 <= j < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[j],), true),
            !r ==> exists|k: int| 0 <= k < old(self)@.len() && f.ensures((#[trigger] old(self)@[k],), false),
    {
        let mut f = f;
        let ghost f0 = f;
        let ghost s0 = self@;
        let mut n: usize = 0;
        let len = self.v.len();
        proof { assert(s0.skip(0) =~= s0); }
        while self.v.len() > 0
            invariant n + self@.len() == s0.len(), len == s0.len(), s0 == old(self)@, self@ == s0.skip(n as int), f == f0,
                forall|i: int| 0 <= i < s0.len() ==> f0.requires((#[trigger] s0[i],)),
                forall|j: int| 0 <= j < n ==> f0.ensures((#[trigger] s0[j],), true),
            decreases self@.len()
        {
            let x = self.v.remove(0);
            proof { assert(x == s0[n as int]); assert(self@ =~= s0.skip(n + 1)); }
            let u = f(x);
            if !u { return false; }
            n += 1;
        }
        true
    }

    pub fn collect(self) -> (r: Vec<T>)
        ensures r@ == self@,
    { self.v }
}

pub open spec fn somes<U>(s: Seq<Option<U>>) -> Seq<U> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let p = somes(s.drop_last());
        match s.last() { Some(x) => p.push(x), None => p }
    }
}
pub open spec fn kept<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let p = kept(s.drop_last(), keep.drop_last());
        if keep.last() { p.push(s.last()) } else { p }
    }
}
pub open spec fn flat_items<U, J: IntoIterE<U>>(s: Seq<J>) -> Seq<U> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { flat_items::<U, J>(s.drop_last()) + s.last().items() }
}

impl<'a, T: Clone> EIter<&'a T> {
    /// assumes Clone::clone returns an equal value
    #[verifier::external_body]
    pub fn cloned(self) -> (r: EIter<T>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == *self@[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: EIter<T>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == *self@[i],
    { unimplemented!() }
}

pub fn once<T>(x: T) -> (r: EIter<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } EIter { v } }

fn refs<'a, T>(s: &'a [T]) -> (r: Vec<&'a T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == s@[i],
{
    let mut v: Vec<&'a T> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), v@.len() == i, forall|k: int| 0 <= k < i ==> *(#[trigger] v@[k]) == s@[k],
        decreases s@.len() - i
    {
        v.push(&s[i]);
        i += 1;
    }
    v
}
fn muts<T>(s: &mut [T]) -> (r: Vec<&mut T>)
    ensures r@.len() == old(s)@.len(), final(s)@.len() == r@.len(),
        forall|i: int| #![trigger r@[i]] #![trigger old(s)@[i]] 0 <= i < r@.len() ==> *r@[i] == old(s)@[i],
        forall|i: int| #![trigger r@[i]] #![trigger final(s)@[i]] 0 <= i < r@.len() ==> *final(r@[i]) == final(s)@[i],
    decreases old(s)@.len()
{
    if s.len() == 0 { return Vec::new(); }
    let (a, b) = s.split_at_mut(1);
    let mut t = muts(b);
    t.insert(0, &mut a[0]);
    t
}
/// `.iter()`
pub trait IterE<T> {
    spec fn iter_items(&self) -> Seq<T>;
    fn iter_e(&self) -> (r: EIter<&T>)
        ensures r@.len() == self.iter_items().len(), forall|i: int| #![trigger r@[i]] #![trigger self.iter_items()[i]] 0 <= i < r@.len() ==> *r@[i] == self.iter_items()[i];
}
impl<T> IterE<T> for [T] { open spec fn iter_items(&self) -> Seq<T> { self@ }
    fn iter_e(&self) -> (r: EIter<&T>) { EIter { v: refs(self) } } }
impl<T> IterE<T> for Vec<T> { open spec fn iter_items(&self) -> Seq<T> { self@ }
    fn iter_e(&self) -> (r: EIter<&T>) { EIter { v: refs(self) } } }
impl<T, const N: usize> IterE<T> for [T; N] { open spec fn iter_items(&self) -> Seq<T> { self@ }
    fn iter_e(&self) -> (r: EIter<&T>) { EIter { v: refs(self) } } }

/// dropping an iterator drops the items it has not yielded
pub broadcast proof fn lemma_eiter_resolved<T>(it: EIter<T>, i: int)
    requires 0 <= i < it@.len(), #[trigger] has_resolved::<EIter<T>>(it)
    ensures has_resolved::<T>(#[trigger] it@[i])
{
    assert(has_resolved::<Vec<T>>(it.v));
}
/// `.iter_mut()`
pub trait IterMutE<T> {
    spec fn mut_items(&self) -> Seq<T>;
    fn iter_mut_e(&mut self) -> (r: EIter<&mut T>)
        ensures r@.len() == old(self).mut_items().len(), final(self).mut_items().len() == r@.len(),
            forall|i: int| #![trigger r@[i]] #![trigger old(self).mut_items()[i]] 0 <= i < r@.len() ==> *r@[i] == old(self).mut_items()[i],
            forall|i: int| #![trigger r@[i]] #![trigger final(self).mut_items()[i]] 0 <= i < r@.len() ==> *final(r@[i]) == final(self).mut_items()[i];
}
impl<T> IterMutE<T> for Vec<T> { open spec fn mut_items(&self) -> Seq<T> { self@ }
    fn iter_mut_e(&mut self) -> (r: EIter<&mut T>) { EIter { v: muts(self) } } }
impl<T> IterMutE<T> for [T] { open spec fn mut_items(&self) -> Seq<T> { self@ }
    fn iter_mut_e(&mut self) -> (r: EIter<&mut T>) { EIter { v: muts(self) } } }

/// `.into_iter()` and `for x in ..`
pub trait IntoIterE<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn into_iter_e(self) -> (r: EIter<T>) ensures r@ == self.items();
}
impl<T> IntoIterE<T> for EIter<T> { open spec fn items(&self) -> Seq<T> { self@ }
    fn into_iter_e(self) -> (r: EIter<T>) { self } }
impl<T> IntoIterE<T> for Box<EIter<T>> { open spec fn items(&self) -> Seq<T> { (**self)@ }
    fn into_iter_e(self) -> (r: EIter<T>) { *self } }
impl<T> IntoIterE<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ }
    fn into_iter_e(self) -> (r: EIter<T>) { EIter { v: self } } }
impl<'a, T> IntoIterE<&'a T> for &'a Vec<T> { open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    fn into_iter_e(self) -> (r: EIter<&'a T>) { let v = refs(self); proof { assert(v@ =~= Seq::new(self@.len(), |i: int| &self@[i])); } EIter { v } } }
impl<'a, T> IntoIterE<&'a T> for &'a [T] { open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    fn into_iter_e(self) -> (r: EIter<&'a T>) { let v = refs(self); proof { assert(v@ =~= Seq::new(self@.len(), |i: int| &self@[i])); } EIter { v } } }
impl<const N: usize> IntoIterE<u8> for [u8; N] { open spec fn items(&self) -> Seq<u8> { self@ }
    fn into_iter_e(self) -> (r: EIter<u8>) { let mut v = Vec::new(); v.extend_from_slice(&self); proof { assert(v@ =~= self@); } EIter { v } } }

/// `.extend(..)` on byte vectors
pub trait ByteSource: Sized { spec fn src_bytes(&self) -> Seq<u8>;
    fn add_to(self, v: &mut Vec<u8>) ensures final(v)@ == old(v)@ + self.src_bytes(); }
impl ByteSource for EIter<u8> { open spec fn src_bytes(&self) -> Seq<u8> { self@ }
    fn add_to(self, v: &mut Vec<u8>) { let mut a = self; v.append(&mut a.v); } }
impl<'a> ByteSource for EIter<&'a u8> { open spec fn src_bytes(&self) -> Seq<u8> { Seq::new(self@.len(), |i: int| *self@[i]) }
    fn add_to(self, v: &mut Vec<u8>) {
        let mut i: usize = 0;
        proof { assert(v@ =~= old(v)@ + self.src_bytes().take(0)); }
        while i < self.v.len()
            invariant i <= self@.len(), v@ == old(v)@ + self.src_bytes().take(i as int), self@ == self.v@,
            decreases self@.len() - i
        {
            v.push(*self.v[i]);
            proof { assert(v@ =~= old(v)@ + self.src_bytes().take(i + 1)); }
            i += 1;
        }
        proof { assert(self.src_bytes().take(i as int) =~= self.src_bytes()); }
    } }
impl<const N: usize> ByteSource for [u8; N] { open spec fn src_bytes(&self) -> Seq<u8> { self@ }
    fn add_to(self, v: &mut Vec<u8>) { v.extend_from_slice(&self); } }
impl<'a> ByteSource for &'a [u8] { open spec fn src_bytes(&self) -> Seq<u8> { self@ }
    fn add_to(self, v: &mut Vec<u8>) { v.extend_from_slice(self); } }
impl<'a> ByteSource for &'a Vec<u8> { open spec fn src_bytes(&self) -> Seq<u8> { self@ }
    fn add_to(self, v: &mut Vec<u8>) { v.extend_from_slice(self.as_slice()); } }
impl ByteSource for Vec<u8> { open spec fn src_bytes(&self) -> Seq<u8> { self@ }
    fn add_to(self, v: &mut Vec<u8>) { let mut a = self; v.append(&mut a); } }
pub trait ExtendE<S> { fn extend_e(&mut self, s: S); }
impl<S: ByteSource> ExtendE<S> for Vec<u8> {
    fn extend_e(&mut self, s: S) ensures final(self)@ == old(self)@ + s.src_bytes() { s.add_to(self) }
}

fn chunks<'a>(s: &'a [u8], n: usize) -> (r: Vec<&'a [u8]>)
    requires n > 0
    ensures r@.len() == s@.len() / (n as nat), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == s@.subrange(i * n, i * n + n),
{
    let mut v: Vec<&'a [u8]> = Vec::new();
    let mut at: usize = 0;
    proof { assert(0 * n == 0) by (nonlinear_arith); }
    while s.len() - at >= n
        invariant n > 0, at <= s@.len(), at == v@.len() * n,
            forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@ == s@.subrange(i * n, i * n + n),
        decreases s@.len() - at
    {
        v.push(slice_subrange(s, at, at + n));
        at += n;
        proof { assert((v@.len() - 1) * n + n == v@.len() * n) by (nonlinear_arith); }
    }
    proof {
        let (l, k) = (s@.len() as int, v@.len() as int);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(l, n as int, k, l - at);
    }
    v
}
/// `.chunks_exact(n)`
pub trait ChunksE { spec fn whole(&self) -> Seq<u8>;
    fn chunks_exact_e(&self, n: usize) -> (r: EIter<&[u8]>)
        requires n > 0
        ensures r@.len() == self.whole().len() / (n as nat),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.whole().subrange(i * n, i * n + n);
}
impl ChunksE for [u8] { open spec fn whole(&self) -> Seq<u8> { self@ }
    fn chunks_exact_e(&self, n: usize) -> (r: EIter<&[u8]>) { EIter { v: chunks(self, n) } } }
impl ChunksE for Vec<u8> { open spec fn whole(&self) -> Seq<u8> { self@ }
    fn chunks_exact_e(&self, n: usize) -> (r: EIter<&[u8]>) { EIter { v: chunks(self, n) } } }
}
