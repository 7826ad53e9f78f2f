use vstd::prelude::*;
use crate::ext::eiter::*;
verus! {
/// std::collections::HashMap with string keys: a finite map from the key's characters
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: Ghost<Map<Seq<char>, V>>, k: core::marker::PhantomData<K> }
impl<V> HashMap<String, V> {
    pub closed spec fn view(&self) -> Map<Seq<char>, V> { self.m@ }
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { HashMap { m: Ghost(Map::empty()), k: core::marker::PhantomData } }
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v),
            r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None })
    {
        let r = self.remove(k.as_str());
        let ghost m = self.m@;
        self.m = Ghost(m.insert(k@, v));
        proof { assert(self.m@ =~= old(self)@.insert(k@, v)); }
        r
    }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k@),
            r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
    pub fn extend_e(&mut self, o: HashMap<String, V>)
        ensures final(self)@ == old(self)@.union_prefer_right(o@) { self.m = Ghost(self.m@.union_prefer_right(o.m@)); }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    /// every key once, in some order
    #[verifier::external_body]
    pub fn iter_e(&self) -> (r: EIter<(&String, &V)>)
        ensures is_listing(r@, self@) { unimplemented!() }
}
pub broadcast proof fn lemma_map_ext<V>(a: HashMap<String, V>, b: HashMap<String, V>) ensures #[trigger] a@ =~= #[trigger] b@ ==> a == b {}
pub open spec fn is_listing<V>(s: Seq<(&String, &V)>, m: Map<Seq<char>, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0@) && m[s[i].0@] == *s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k
}
impl<V> Clone for HashMap<String, V> {
    /// the values are copies
    fn clone(&self) -> (r: Self) ensures r == *self { HashMap { m: Ghost(self.m@), k: core::marker::PhantomData } }
}
}
