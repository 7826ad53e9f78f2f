@prelude
use crate::ext::string::{first_char, lemma_first_char, pieces, texts, dec_text, u32_of_text, lemma_dec_text, lemma_dec_digits};
/// text of a field, if it has one
pub open spec fn fval(f: Field) -> Option<Seq<char>> {
    match f.value { Value::Protected(s) => Some(s@), Value::Standard(s) => Some(s@), _ => None }
}
/// whether a field is to be encrypted
pub open spec fn fprot(f: Field) -> bool { f.value is Protected || f.value is ProtectEmpty }
/// an iterator over the items of s
pub open spec fn is_refs<T>(r: Seq<&T>, s: Seq<T>) -> bool {
    r.len() == s.len() && forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < s.len() ==> *r[i] == s[i]
}
/// an iterator over the items of a; what is done to them gives b
#[verifier::prophetic]
pub open spec fn is_mut_refs<T>(r: Seq<&mut T>, a: Seq<T>, b: Seq<T>) -> bool {
    &&& r.len() == a.len() && b.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> *(#[trigger] r[i]) == a[i]
    &&& forall|i: int| #![trigger r[i]] #![trigger b[i]] 0 <= i < a.len() ==> *final(r[i]) == b[i]
}
pub open spec fn opt_text(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// position of the first field with key k, or the number of fields
pub open spec fn first_key(s: Seq<Field>, k: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 || s[0].key@ == k { 0 } else { 1 + first_key(s.skip(1), k) }
}
pub open spec fn has_key(s: Seq<Field>, k: Seq<char>) -> bool { first_key(s, k) < s.len() }
pub proof fn lemma_first_key(s: Seq<Field>, k: Seq<char>)
    ensures 0 <= first_key(s, k) <= s.len(),
        first_key(s, k) < s.len() ==> s[first_key(s, k)].key@ == k,
        forall|j: int| 0 <= j < first_key(s, k) ==> (#[trigger] s[j]).key@ != k
    decreases s.len()
{
    if s.len() > 0 && s[0].key@ != k {
        let t = s.skip(1);
        lemma_first_key(t, k);
        assert forall|j: int| 0 <= j < first_key(s, k) implies (#[trigger] s[j]).key@ != k by {
            if j > 0 { assert(s[j] == t[j - 1]); }
        }
    }
}
pub open spec fn key_value(s: Seq<Field>, k: Seq<char>) -> Option<Seq<char>> {
    if has_key(s, k) { fval(s[first_key(s, k)]) } else { None }
}
/// b is a with the first field named k set to text, everything else as it was
pub open spec fn set_field(a: Entry, b: Entry, k: Seq<char>, text: Seq<char>, prot: bool) -> bool {
    &&& a.uuid == b.uuid && a.history == b.history && a.times == b.times
    &&& if has_key(a.fields@, k) {
        let i = first_key(a.fields@, k);
        0 <= i && b.fields@ =~= a.fields@.update(i, b.fields@[i]) && b.fields@[i].key == a.fields@[i].key
            && fval(b.fields@[i]) == Some(text) && fprot(b.fields@[i]) == prot
    } else {
        b.fields@.len() == a.fields@.len() + 1 && b.fields@.drop_last() =~= a.fields@ && b.fields@.last().key@ == k
            && fval(b.fields@.last()) == Some(text) && fprot(b.fields@.last()) == prot
    }
}
/// the fields not named k
#[verifier::opaque]
pub open spec fn without(s: Seq<Field>, k: Seq<char>) -> Seq<Field> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s.last().key@ == k { without(s.drop_last(), k) }
    else { without(s.drop_last(), k).push(s.last()) }
}
/// the positions of the fields named k
#[verifier::opaque]
pub open spec fn idxs(s: Seq<Field>, k: Seq<char>) -> Seq<usize> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s.last().key@ == k { idxs(s.drop_last(), k).push((s.len() - 1) as usize) }
    else { idxs(s.drop_last(), k) }
}
pub proof fn lemma_without_add(a: Seq<Field>, b: Seq<Field>, k: Seq<char>)
    ensures without(a + b, k) == without(a, k) + without(b, k)
    decreases b.len()
{
    reveal(without);
    if b.len() == 0 { assert(a + b =~= a); assert(without(a, k) + without(b, k) =~= without(a, k)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_without_add(a, b.drop_last(), k);
        assert(without(a + b, k) =~= without(a, k) + without(b, k));
    }
}
pub proof fn lemma_without_none(a: Seq<Field>, k: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).key@ != k
    ensures without(a, k) == a
    decreases a.len()
{
    reveal(without);
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies (#[trigger] a.drop_last()[i]).key@ != k by { assert(a.drop_last()[i] == a[i]); }
        lemma_without_none(a.drop_last(), k);
        assert(without(a, k) =~= a);
    }
}
pub proof fn lemma_idxs(s: Seq<Field>, k: Seq<char>)
    requires s.len() <= usize::MAX
    ensures ({
        let j = idxs(s, k);
        if j.len() > 0 {
            let x = j.last() as int;
            0 <= x < s.len() && s[x].key@ == k && j.drop_last() == idxs(s.take(x), k)
                && (forall|i: int| x < i < s.len() ==> (#[trigger] s[i]).key@ != k)
        } else { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).key@ != k }
    })
    decreases s.len()
{
    reveal(idxs);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_idxs(d, k);
        if s.last().key@ == k {
            assert(idxs(s, k).drop_last() =~= idxs(d, k));
            assert(s.take(s.len() - 1) =~= d);
        } else {
            assert forall|i: int| 0 <= i < d.len() implies d[i] == s[i] by {}
            if idxs(s, k).len() > 0 {
                let x = idxs(s, k).last() as int;
                assert(s.take(x) =~= d.take(x));
                assert forall|i: int| x < i < s.len() implies (#[trigger] s[i]).key@ != k by { if i < d.len() { assert(d[i] == s[i]); } }
            } else {
                assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).key@ != k by { if i < d.len() { assert(d[i] == s[i]); } }
            }
        }
    }
}
pub proof fn lemma_idxs_sorted(s: Seq<Field>, k: Seq<char>)
    requires s.len() <= usize::MAX
    ensures forall|i: int| 0 <= i < idxs(s, k).len() ==> #[trigger] idxs(s, k)[i] < s.len(),
        forall|i: int, j: int| 0 <= i < j < idxs(s, k).len() ==> idxs(s, k)[i] < idxs(s, k)[j]
    decreases s.len()
{
    reveal(idxs);
    if s.len() > 0 {
        lemma_idxs_sorted(s.drop_last(), k);
        let (a, d) = (idxs(s, k), idxs(s.drop_last(), k));
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] < s.len() by { if i < d.len() { assert(a[i] == d[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies a[i] < a[j] by { assert(a[i] == d[i]); if j < d.len() { assert(a[j] == d[j]); } }
    }
}
pub proof fn lemma_somes_idxs(s: Seq<Field>, k: Seq<char>, outs: Seq<Option<usize>>)
    requires outs.len() == s.len(), s.len() <= usize::MAX,
        forall|i: int| 0 <= i < s.len() ==> #[trigger] outs[i] == (if s[i].key@ == k { Some(i as usize) } else { None })
    ensures crate::ext::eiter::somes(outs) == idxs(s, k)
    decreases s.len()
{
    reveal(idxs);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] outs.drop_last()[i] == (if s.drop_last()[i].key@ == k { Some(i as usize) } else { None }) by {
            assert(outs.drop_last()[i] == outs[i]);
        }
        lemma_somes_idxs(s.drop_last(), k, outs.drop_last());
    }
}
pub proof fn lemma_remove_step(s: Seq<Field>, k: Seq<char>, n: int, x: int)
    requires s.len() <= usize::MAX, 0 <= n <= s.len(), idxs(s.take(n), k).len() > 0, x == idxs(s.take(n), k).last()
    ensures 0 <= x < n, (s.take(n) + without(s.skip(n), k)).remove(x) == s.take(x) + without(s.skip(x), k),
        idxs(s.take(x), k) == idxs(s.take(n), k).drop_last()
{
    lemma_idxs(s.take(n), k);
    let mid = s.subrange(x + 1, n);
    assert forall|i: int| 0 <= i < mid.len() implies (#[trigger] mid[i]).key@ != k by { assert(mid[i] == s.take(n)[x + 1 + i]); }
    lemma_without_none(mid, k);
    assert(s.skip(x) =~= seq![s[x]] + mid + s.skip(n));
    lemma_without_add(seq![s[x]] + mid, s.skip(n), k);
    lemma_without_add(seq![s[x]], mid, k);
    assert(s.take(n)[x] == s[x]);
    assert(seq![s[x]].drop_last() =~= Seq::<Field>::empty());
    assert(without(seq![s[x]], k) =~= Seq::<Field>::empty()) by { reveal_with_fuel(without, 2); }
    assert((s.take(n) + without(s.skip(n), k)).remove(x) =~= s.take(x) + without(s.skip(x), k));
    assert(s.take(n).take(x) =~= s.take(x));
}
/// groups below, each before its own subgroups
#[verifier::opaque]
pub open spec fn pre_groups(gs: Seq<Group>) -> Seq<Group> decreases gs {
    if gs.len() == 0 { Seq::empty() } else { pre_groups(gs.drop_last()) + seq![gs.last()] + pre_groups(gs.last().groups@) }
}
/// entries of groups, each group's own before those of its subgroups
#[verifier::opaque]
pub open spec fn sub_entries(gs: Seq<Group>) -> Seq<Entry> decreases gs {
    if gs.len() == 0 { Seq::empty() } else { sub_entries(gs.drop_last()) + gs.last().entries@ + sub_entries(gs.last().groups@) }
}
pub open spec fn same_but_entries(a: Group, b: Group) -> bool { a.uuid == b.uuid && a.name == b.name && a.groups == b.groups && a.times == b.times }
pub open spec fn same_but_groups(a: Group, b: Group) -> bool { a.uuid == b.uuid && a.name == b.name && a.entries == b.entries && a.times == b.times }
/// position of the first entry with that id, or the number of entries
pub open spec fn first_entry(s: Seq<Entry>, u: Uuid) -> int decreases s.len() {
    if s.len() == 0 || s[0].uuid == u { 0 } else { 1 + first_entry(s.skip(1), u) }
}
pub proof fn lemma_first_entry(s: Seq<Entry>, u: Uuid)
    ensures 0 <= first_entry(s, u) <= s.len(), first_entry(s, u) < s.len() ==> s[first_entry(s, u)].uuid == u,
        forall|j: int| 0 <= j < first_entry(s, u) ==> (#[trigger] s[j]).uuid != u
    decreases s.len()
{
    if s.len() > 0 && s[0].uuid != u {
        let t = s.skip(1);
        lemma_first_entry(t, u);
        assert forall|j: int| 0 <= j < first_entry(s, u) implies (#[trigger] s[j]).uuid != u by { if j > 0 { assert(s[j] == t[j - 1]); } }
    }
}
pub open spec fn first_group(s: Seq<Group>, u: Uuid) -> int decreases s.len() {
    if s.len() == 0 || s[0].uuid == u { 0 } else { 1 + first_group(s.skip(1), u) }
}
pub proof fn lemma_first_group(s: Seq<Group>, u: Uuid)
    ensures 0 <= first_group(s, u) <= s.len(), first_group(s, u) < s.len() ==> s[first_group(s, u)].uuid == u,
        forall|j: int| 0 <= j < first_group(s, u) ==> (#[trigger] s[j]).uuid != u
    decreases s.len()
{
    if s.len() > 0 && s[0].uuid != u {
        let t = s.skip(1);
        lemma_first_group(t, u);
        assert forall|j: int| 0 <= j < first_group(s, u) implies (#[trigger] s[j]).uuid != u by { if j > 0 { assert(s[j] == t[j - 1]); } }
    }
}
/// the condition holds for none of s
pub open spec fn none_in<T, F: FnMut(&T) -> bool>(f: F, s: Seq<T>) -> bool { forall|j: int| 0 <= j < s.len() ==> f.ensures((&#[trigger] s[j],), false) }
/// r is the first of s for which the condition holds
pub open spec fn first_of<T, F: FnMut(&T) -> bool>(f: F, s: Seq<T>, r: Option<T>) -> bool {
    match r {
        None => none_in(f, s),
        Some(x) => f.ensures((&x,), true) && exists|k: int| 0 <= k < s.len() && x == #[trigger] s[k] && none_in(f, s.take(k)),
    }
}
pub open spec fn found_group<F: FnMut(&Group) -> bool>(f: F, gs: Seq<Group>, r: Option<Group>) -> bool { first_of(f, pre_groups(gs), r) }
pub open spec fn found_entry<F: FnMut(&Entry) -> bool>(f: F, s: Seq<Entry>, r: Option<Entry>) -> bool { first_of(f, s, r) }
/// what is found below a[n], once nothing before it matched
pub proof fn lemma_found_group<F: FnMut(&Group) -> bool>(f: F, a: Seq<Group>, n: int, r: Option<Group>)
    requires 0 <= n < a.len(), none_in(f, pre_groups(a.take(n))), first_of(f, seq![a[n]] + pre_groups(a[n].groups@), r)
    ensures r is Some ==> first_of(f, pre_groups(a), r), r is None ==> none_in(f, pre_groups(a.take(n + 1)))
{
    lemma_pre_groups_take(a, n);
    let t = choose|t: Seq<Group>| pre_groups(a) == #[trigger] (pre_groups(a.take(n + 1)) + t);
    lemma_first_of(f, pre_groups(a.take(n)), seq![a[n]] + pre_groups(a[n].groups@), t, r);
    assert(pre_groups(a.take(n + 1)) =~= pre_groups(a.take(n)) + (seq![a[n]] + pre_groups(a[n].groups@)));
}
pub proof fn lemma_first_of<T, F: FnMut(&T) -> bool>(f: F, a: Seq<T>, b: Seq<T>, c: Seq<T>, r: Option<T>)
    requires none_in(f, a), first_of(f, b, r)
    ensures r is Some ==> first_of(f, a + b + c, r), r is None ==> none_in(f, a + b)
{
    match r {
        Some(x) => {
            let k = choose|k: int| 0 <= k < b.len() && x == #[trigger] b[k] && none_in(f, b.take(k));
            let s = a + b + c;
            assert(s[a.len() + k] == b[k]);
            let u = s.take(a.len() + k);
            assert forall|j: int| 0 <= j < u.len() implies f.ensures((&#[trigger] u[j],), false) by {
                if j < a.len() { assert(u[j] == a[j]); } else { assert(u[j] == b.take(k)[j - a.len()]); }
            }
        }
        None => {
            let u = a + b;
            assert forall|j: int| 0 <= j < u.len() implies f.ensures((&#[trigger] u[j],), false) by {
                if j < a.len() { assert(u[j] == a[j]); } else { assert(u[j] == b[j - a.len()]); }
            }
        }
    }
}
/// an item and what is found below it
pub proof fn lemma_first_of_head<T, F: FnMut(&T) -> bool>(f: F, x: T, b: Seq<T>, r: Option<T>)
    ensures f.ensures((&x,), true) ==> first_of(f, seq![x] + b, Some(x)),
        f.ensures((&x,), false) && first_of(f, b, r) ==> first_of(f, seq![x] + b, r)
{
    let s = seq![x] + b;
    if f.ensures((&x,), true) {
        assert(s[0] == x);
        assert(none_in(f, s.take(0)));
    }
    if f.ensures((&x,), false) && first_of(f, b, r) {
        assert(none_in(f, seq![x]));
        lemma_first_of(f, seq![x], b, Seq::empty(), r);
        assert(seq![x] + b + Seq::<T>::empty() =~= s);
    }
}
pub proof fn lemma_pre_groups_take(a: Seq<Group>, n: int)
    requires 0 <= n < a.len()
    ensures pre_groups(a.take(n + 1)) == pre_groups(a.take(n)) + seq![a[n]] + pre_groups(a[n].groups@),
        exists|t: Seq<Group>| pre_groups(a) == #[trigger] (pre_groups(a.take(n + 1)) + t)
    decreases a.len() - n
{
    reveal(pre_groups);
    assert(a.take(n + 1).drop_last() =~= a.take(n));
    assert(a.take(n + 1).last() == a[n]);
    if n + 1 < a.len() {
        lemma_pre_groups_take(a, n + 1);
        let t = choose|t: Seq<Group>| pre_groups(a) == #[trigger] (pre_groups(a.take(n + 2)) + t);
        let u = seq![a[n + 1]] + pre_groups(a[n + 1].groups@) + t;
        assert(pre_groups(a) =~= pre_groups(a.take(n + 1)) + u);
    } else {
        assert(a.take(n + 1) =~= a);
        assert(pre_groups(a) =~= pre_groups(a.take(n + 1)) + Seq::<Group>::empty());
    }
}
pub proof fn lemma_sub_entries_take(a: Seq<Group>, n: int)
    requires 0 <= n < a.len()
    ensures sub_entries(a.take(n + 1)) == sub_entries(a.take(n)) + a[n].entries@ + sub_entries(a[n].groups@),
        exists|t: Seq<Entry>| sub_entries(a) == #[trigger] (sub_entries(a.take(n + 1)) + t)
    decreases a.len() - n
{
    reveal(sub_entries);
    assert(a.take(n + 1).drop_last() =~= a.take(n));
    assert(a.take(n + 1).last() == a[n]);
    if n + 1 < a.len() {
        lemma_sub_entries_take(a, n + 1);
        let t = choose|t: Seq<Entry>| sub_entries(a) == #[trigger] (sub_entries(a.take(n + 2)) + t);
        let u = a[n + 1].entries@ + sub_entries(a[n + 1].groups@) + t;
        assert(sub_entries(a) =~= sub_entries(a.take(n + 1)) + u);
    } else {
        assert(a.take(n + 1) =~= a);
        assert(sub_entries(a) =~= sub_entries(a.take(n + 1)) + Seq::<Entry>::empty());
    }
}
/// what is found in a[n], once nothing before it matched
pub proof fn lemma_found_entry<F: FnMut(&Entry) -> bool>(f: F, es: Seq<Entry>, a: Seq<Group>, n: int, r: Option<Entry>)
    requires 0 <= n < a.len(), none_in(f, es), none_in(f, sub_entries(a.take(n))), first_of(f, a[n].entries@ + sub_entries(a[n].groups@), r)
    ensures r is Some ==> first_of(f, es + sub_entries(a), r), r is None ==> none_in(f, sub_entries(a.take(n + 1)))
{
    lemma_sub_entries_take(a, n);
    let t = choose|t: Seq<Entry>| sub_entries(a) == #[trigger] (sub_entries(a.take(n + 1)) + t);
    lemma_first_of(f, sub_entries(a.take(n)), a[n].entries@ + sub_entries(a[n].groups@), t, r);
    assert(sub_entries(a.take(n + 1)) =~= sub_entries(a.take(n)) + (a[n].entries@ + sub_entries(a[n].groups@)));
    if r is Some {
        lemma_first_of(f, es, sub_entries(a), Seq::empty(), r);
        assert(es + sub_entries(a) + Seq::<Entry>::empty() =~= es + sub_entries(a));
    }
}
/// the group reached from g by the child positions p
pub open spec fn grp_node(g: Group, p: Seq<int>) -> Option<Group> decreases p.len() {
    if p.len() == 0 { Some(g) } else if 0 <= p[0] < g.groups@.len() { grp_node(g.groups@[p[0]], p.skip(1)) } else { None }
}
/// b is a with v in the place p
pub open spec fn grp_put(a: Group, b: Group, p: Seq<int>, v: Group) -> bool decreases p.len() {
    if p.len() == 0 { b == v } else {
        &&& same_but_groups(b, a) && a.groups@.len() == b.groups@.len() && 0 <= p[0] < a.groups@.len()
        &&& forall|j: int| 0 <= j < a.groups@.len() && j != p[0] ==> #[trigger] b.groups@[j] == a.groups@[j]
        &&& grp_put(a.groups@[p[0]], b.groups@[p[0]], p.skip(1), v)
    }
}
/// number of groups before the place p, g itself being the first
pub open spec fn grp_idx(g: Group, p: Seq<int>) -> int decreases p.len() {
    if p.len() == 0 { 0 } else { 1 + pre_groups(g.groups@.take(p[0])).len() + grp_idx(g.groups@[p[0]], p.skip(1)) }
}
/// p is the place of the first group below g matching the condition
pub open spec fn first_grp_place<F: FnMut(&Group) -> bool>(f: F, g: Group, p: Seq<int>) -> bool {
    p.len() > 0 && none_in(f, pre_groups(g.groups@).take(grp_idx(g, p) - 1))
}
pub proof fn lemma_grp_idx(g: Group, p: Seq<int>)
    requires grp_node(g, p) is Some
    ensures 0 <= grp_idx(g, p) <= pre_groups(g.groups@).len(), (seq![g] + pre_groups(g.groups@))[grp_idx(g, p)] == grp_node(g, p)->0
    decreases p.len()
{
    if p.len() > 0 {
        let (a, n) = (g.groups@, p[0]);
        lemma_grp_idx(a[n], p.skip(1));
        lemma_pre_groups_take(a, n);
        let t = choose|t: Seq<Group>| pre_groups(a) == #[trigger] (pre_groups(a.take(n + 1)) + t);
        let k = grp_idx(a[n], p.skip(1));
        let c = seq![a[n]] + pre_groups(a[n].groups@);
        assert(pre_groups(a) =~= pre_groups(a.take(n)) + c + t);
        assert((seq![g] + pre_groups(a))[grp_idx(g, p)] == pre_groups(a)[grp_idx(g, p) - 1]);
        assert(pre_groups(a)[pre_groups(a.take(n)).len() + k] == c[k]);
    }
}
pub proof fn lemma_first_grp_place<F: FnMut(&Group) -> bool>(f: F, g: Group, n: int)
    requires 0 <= n < g.groups@.len(), none_in(f, pre_groups(g.groups@.take(n)))
    ensures first_grp_place(f, g, seq![n]), grp_node(g, seq![n]) == Some(g.groups@[n]),
        forall|q: Seq<int>| f.ensures((&g.groups@[n],), false) && #[trigger] grp_node(g.groups@[n], q) is Some && first_grp_place(f, g.groups@[n], q)
            ==> first_grp_place(f, g, seq![n] + q) && grp_node(g, seq![n] + q) == grp_node(g.groups@[n], q)
{
    let a = g.groups@;
    lemma_pre_groups_take(a, n);
    let t = choose|t: Seq<Group>| pre_groups(a) == #[trigger] (pre_groups(a.take(n + 1)) + t);
    assert(seq![n].skip(1) =~= Seq::<int>::empty());
    assert(grp_idx(a[n], seq![n].skip(1)) == 0 && grp_node(a[n], seq![n].skip(1)) == Some(a[n]));
    assert(grp_idx(g, seq![n]) - 1 == pre_groups(a.take(n)).len());
    assert(pre_groups(a).take(grp_idx(g, seq![n]) - 1) =~= pre_groups(a.take(n)));
    assert forall|q: Seq<int>| f.ensures((&a[n],), false) && #[trigger] grp_node(a[n], q) is Some && first_grp_place(f, a[n], q)
        implies first_grp_place(f, g, seq![n] + q) && grp_node(g, seq![n] + q) == grp_node(a[n], q) by {
        let p = seq![n] + q;
        lemma_grp_idx(a[n], q);
        assert(p.skip(1) =~= q);
        let k = grp_idx(a[n], q) - 1;
        assert(q.len() > 0 && 0 <= q[0] < a[n].groups@.len());
        lemma_grp_idx(a[n].groups@[q[0]], q.skip(1));
        let u = pre_groups(a).take(grp_idx(g, p) - 1);
        assert(u =~= pre_groups(a.take(n)) + seq![a[n]] + pre_groups(a[n].groups@).take(k));
        assert forall|j: int| 0 <= j < u.len() implies f.ensures((&#[trigger] u[j],), false) by {
            let x = pre_groups(a.take(n)).len();
            if j < x { assert(u[j] == pre_groups(a.take(n))[j]); } else if j == x { assert(u[j] == a[n]); }
            else { assert(u[j] == pre_groups(a[n].groups@).take(k)[j - x - 1]); }
        }
    }
}
/// the entry i of the group reached from g by the child positions p
pub open spec fn ent_node(g: Group, p: Seq<int>, i: int) -> Option<Entry> decreases p.len() {
    if p.len() == 0 { if 0 <= i < g.entries@.len() { Some(g.entries@[i]) } else { None } }
    else if 0 <= p[0] < g.groups@.len() { ent_node(g.groups@[p[0]], p.skip(1), i) } else { None }
}
/// b is a with v in that place
pub open spec fn ent_put(a: Group, b: Group, p: Seq<int>, i: int, v: Entry) -> bool decreases p.len() {
    if p.len() == 0 { same_but_entries(b, a) && 0 <= i < a.entries@.len() && b.entries@ == a.entries@.update(i, v) } else {
        &&& same_but_groups(b, a) && a.groups@.len() == b.groups@.len() && 0 <= p[0] < a.groups@.len()
        &&& forall|j: int| 0 <= j < a.groups@.len() && j != p[0] ==> #[trigger] b.groups@[j] == a.groups@[j]
        &&& ent_put(a.groups@[p[0]], b.groups@[p[0]], p.skip(1), i, v)
    }
}
/// number of entries before that place
pub open spec fn ent_idx(g: Group, p: Seq<int>, i: int) -> int decreases p.len() {
    if p.len() == 0 { i } else { g.entries@.len() + sub_entries(g.groups@.take(p[0])).len() + ent_idx(g.groups@[p[0]], p.skip(1), i) }
}
/// it is the place of the first entry in g matching the condition
pub open spec fn first_ent_place<F: FnMut(&Entry) -> bool>(f: F, g: Group, p: Seq<int>, i: int) -> bool {
    none_in(f, (g.entries@ + sub_entries(g.groups@)).take(ent_idx(g, p, i)))
}
pub proof fn lemma_ent_idx(g: Group, p: Seq<int>, i: int)
    requires ent_node(g, p, i) is Some
    ensures 0 <= ent_idx(g, p, i) < g.entries@.len() + sub_entries(g.groups@).len(),
        (g.entries@ + sub_entries(g.groups@))[ent_idx(g, p, i)] == ent_node(g, p, i)->0
    decreases p.len()
{
    if p.len() > 0 {
        let (a, n) = (g.groups@, p[0]);
        lemma_ent_idx(a[n], p.skip(1), i);
        lemma_sub_entries_take(a, n);
        let t = choose|t: Seq<Entry>| sub_entries(a) == #[trigger] (sub_entries(a.take(n + 1)) + t);
        let k = ent_idx(a[n], p.skip(1), i);
        let c = a[n].entries@ + sub_entries(a[n].groups@);
        assert(sub_entries(a) =~= sub_entries(a.take(n)) + c + t);
        assert(sub_entries(a)[sub_entries(a.take(n)).len() + k] == c[k]);
        assert((g.entries@ + sub_entries(a))[ent_idx(g, p, i)] == sub_entries(a)[ent_idx(g, p, i) - g.entries@.len()]);
    }
}
pub proof fn lemma_first_ent_place<F: FnMut(&Entry) -> bool>(f: F, g: Group, n: int)
    requires 0 <= n < g.groups@.len(), none_in(f, g.entries@), none_in(f, sub_entries(g.groups@.take(n)))
    ensures forall|q: Seq<int>, i: int| #[trigger] ent_node(g.groups@[n], q, i) is Some && first_ent_place(f, g.groups@[n], q, i)
            ==> first_ent_place(f, g, seq![n] + q, i) && ent_node(g, seq![n] + q, i) == ent_node(g.groups@[n], q, i)
{
    let (es, a) = (g.entries@, g.groups@);
    lemma_sub_entries_take(a, n);
    let t = choose|t: Seq<Entry>| sub_entries(a) == #[trigger] (sub_entries(a.take(n + 1)) + t);
    assert forall|q: Seq<int>, i: int| #[trigger] ent_node(a[n], q, i) is Some && first_ent_place(f, a[n], q, i)
        implies first_ent_place(f, g, seq![n] + q, i) && ent_node(g, seq![n] + q, i) == ent_node(a[n], q, i) by {
        let p = seq![n] + q;
        lemma_ent_idx(a[n], q, i);
        assert(p.skip(1) =~= q);
        let k = ent_idx(a[n], q, i);
        let c = a[n].entries@ + sub_entries(a[n].groups@);
        let b = sub_entries(a.take(n));
        assert(sub_entries(a) =~= b + c + t);
        let u = (es + sub_entries(a)).take(ent_idx(g, p, i));
        assert(u =~= es + b + c.take(k));
        assert forall|j: int| 0 <= j < u.len() implies f.ensures((&#[trigger] u[j],), false) by {
            if j < es.len() { assert(u[j] == es[j]); } else if j < es.len() + b.len() { assert(u[j] == b[j - es.len()]); }
            else { assert(u[j] == c.take(k)[j - es.len() - b.len()]); }
        }
    }
}
pub open spec fn vals<T>(r: Seq<&T>) -> Seq<T> { r.map(|i: int, x: &T| *x) }
/// an iterator over exactly the items of s, in any order
pub open spec fn visits<T>(r: Seq<&T>, s: Seq<T>) -> bool { vals(r).to_multiset() == s.to_multiset() }
pub proof fn lemma_visits_add<T>(r: Seq<&T>, s: Seq<T>, q: Seq<&T>, t: Seq<T>)
    requires visits(r, s), visits(q, t)
    ensures visits(r + q, s + t), visits(q + r, s + t)
{
    assert(vals(r + q) =~= vals(r) + vals(q));
    assert(vals(q + r) =~= vals(q) + vals(r));
    vstd::seq_lib::lemma_multiset_commutative(vals(r), vals(q));
    vstd::seq_lib::lemma_multiset_commutative(vals(q), vals(r));
    vstd::seq_lib::lemma_multiset_commutative(s, t);
    assert(vals(r + q).to_multiset() =~= (s + t).to_multiset());
    assert(vals(q + r).to_multiset() =~= (s + t).to_multiset());
}
pub proof fn lemma_visits_refs<T>(r: Seq<&T>, s: Seq<T>)
    requires is_refs(r, s)
    ensures visits(r, s)
{
    assert(vals(r) =~= s);
}
pub proof fn lemma_rec_entries(a: Seq<Group>, outs: Seq<Box<crate::ext::eiter::EIter<&Entry>>>)
    requires outs.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> visits((*#[trigger] outs[i])@, a[i].entries@ + sub_entries(a[i].groups@))
    ensures visits(crate::ext::eiter::flat_items(outs), sub_entries(a))
    decreases a.len()
{
    reveal(sub_entries);
    if a.len() > 0 {
        let (b, o, k) = (a.drop_last(), outs.drop_last(), a.len() - 1);
        assert forall|i: int| 0 <= i < b.len() implies visits((*#[trigger] o[i])@, b[i].entries@ + sub_entries(b[i].groups@)) by { assert(o[i] == outs[i]); }
        lemma_rec_entries(b, o);
        lemma_visits_add(crate::ext::eiter::flat_items(o), sub_entries(b), (*outs[k])@, a[k].entries@ + sub_entries(a[k].groups@));
        assert(sub_entries(a) =~= sub_entries(b) + (a[k].entries@ + sub_entries(a[k].groups@)));
    } else {
        assert(vals(crate::ext::eiter::flat_items(outs)) =~= sub_entries(a));
    }
}
pub proof fn lemma_rec_groups(a: Seq<Group>, outs: Seq<Box<crate::ext::eiter::EIter<&Group>>>)
    requires outs.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> visits((*#[trigger] outs[i])@, pre_groups(a[i].groups@))
    ensures (vals(crate::ext::eiter::flat_items(outs)) + a).to_multiset() == pre_groups(a).to_multiset()
    decreases a.len()
{
    reveal(pre_groups);
    let f = crate::ext::eiter::flat_items(outs);
    vstd::seq_lib::lemma_multiset_commutative(vals(f), a);
    if a.len() > 0 {
        let (b, o, k) = (a.drop_last(), outs.drop_last(), a.len() - 1);
        assert forall|i: int| 0 <= i < b.len() implies visits((*#[trigger] o[i])@, pre_groups(b[i].groups@)) by { assert(o[i] == outs[i]); }
        lemma_rec_groups(b, o);
        let fo = crate::ext::eiter::flat_items(o);
        assert(vals(f) =~= vals(fo) + vals((*outs[k])@));
        assert(a =~= b + seq![a[k]]);
        vstd::seq_lib::lemma_multiset_commutative(b, seq![a[k]]);
        vstd::seq_lib::lemma_multiset_commutative(vals(fo), b);
        vstd::seq_lib::lemma_multiset_commutative(vals(fo), vals((*outs[k])@));
        let pb = pre_groups(b);
        vstd::seq_lib::lemma_multiset_commutative(pb, seq![a[k]]);
        vstd::seq_lib::lemma_multiset_commutative(pb + seq![a[k]], pre_groups(a[k].groups@));
        assert((vals(f) + a).to_multiset() =~= pre_groups(a).to_multiset());
    } else {
        assert(vals(f) + a =~= pre_groups(a));
    }
}
pub open spec fn zip2<T>(a: Seq<T>, b: Seq<T>) -> Seq<(T, T)> { Seq::new(a.len(), |i: int| (a[i], b[i])) }
/// b is a tree of the same groups as a, apart from what is in its entries
pub open spec fn same_tree(a: Group, b: Group) -> bool decreases a {
    &&& a.uuid == b.uuid && a.name == b.name && a.times == b.times
    &&& a.entries@.len() == b.entries@.len() && a.groups@.len() == b.groups@.len()
    &&& forall|i: int| 0 <= i < a.groups@.len() ==> same_tree(#[trigger] a.groups@[i], b.groups@[i])
}
/// the entries below a, each with the entry in its place in b
#[verifier::opaque]
pub open spec fn sub_pairs(a: Seq<Group>, b: Seq<Group>) -> Seq<(Entry, Entry)> decreases a {
    if a.len() == 0 || b.len() != a.len() { Seq::empty() } else {
        sub_pairs(a.drop_last(), b.drop_last()) + zip2(a.last().entries@, b.last().entries@) + sub_pairs(a.last().groups@, b.last().groups@)
    }
}
pub open spec fn all_pairs(a: Group, b: Group) -> Seq<(Entry, Entry)> { zip2(a.entries@, b.entries@) + sub_pairs(a.groups@, b.groups@) }
#[verifier::prophetic]
pub open spec fn ref_pairs(r: Seq<&mut Entry>) -> Seq<(Entry, Entry)> decreases r.len() {
    if r.len() == 0 { Seq::empty() } else { ref_pairs(r.drop_last()).push((*r.last(), *final(r.last()))) }
}
/// an iterator over exactly the entries in a, in any order; what is done to them gives b
#[verifier::prophetic]
pub open spec fn visits_mut(r: Seq<&mut Entry>, s: Seq<(Entry, Entry)>) -> bool { ref_pairs(r).to_multiset() == s.to_multiset() }
pub proof fn lemma_ref_pairs_add(r: Seq<&mut Entry>, q: Seq<&mut Entry>)
    ensures ref_pairs(r + q) == ref_pairs(r) + ref_pairs(q)
    decreases q.len()
{
    if q.len() > 0 {
        lemma_ref_pairs_add(r, q.drop_last());
        assert((r + q).drop_last() =~= r + q.drop_last());
        assert(ref_pairs(r + q) =~= ref_pairs(r) + ref_pairs(q));
    } else {
        assert(r + q =~= r);
        assert(ref_pairs(r + q) =~= ref_pairs(r) + ref_pairs(q));
    }
}
pub proof fn lemma_visits_mut_add(r: Seq<&mut Entry>, s: Seq<(Entry, Entry)>, q: Seq<&mut Entry>, t: Seq<(Entry, Entry)>)
    requires visits_mut(r, s), visits_mut(q, t)
    ensures visits_mut(r + q, s + t), visits_mut(q + r, s + t)
{
    lemma_ref_pairs_add(r, q);
    lemma_ref_pairs_add(q, r);
    vstd::seq_lib::lemma_multiset_commutative(ref_pairs(r), ref_pairs(q));
    vstd::seq_lib::lemma_multiset_commutative(ref_pairs(q), ref_pairs(r));
    vstd::seq_lib::lemma_multiset_commutative(s, t);
    assert(ref_pairs(r + q).to_multiset() =~= (s + t).to_multiset());
    assert(ref_pairs(q + r).to_multiset() =~= (s + t).to_multiset());
}
pub proof fn lemma_ref_pairs(r: Seq<&mut Entry>, a: Seq<Entry>, b: Seq<Entry>)
    requires is_mut_refs(r, a, b)
    ensures ref_pairs(r) == zip2(a, b)
    decreases r.len()
{
    if r.len() > 0 {
        assert forall|i: int| 0 <= i < a.len() - 1 implies *(#[trigger] r.drop_last()[i]) == a.drop_last()[i] by { assert(r.drop_last()[i] == r[i]); }
        lemma_ref_pairs(r.drop_last(), a.drop_last(), b.drop_last());
        assert(r.last() == r[r.len() - 1]);
        assert(zip2(a, b) =~= zip2(a.drop_last(), b.drop_last()).push((a.last(), b.last())));
    } else {
        assert(zip2(a, b) =~= Seq::<(Entry, Entry)>::empty());
    }
}
pub proof fn lemma_rec_entries_mut(a: Seq<Group>, b: Seq<Group>, outs: Seq<Box<crate::ext::eiter::EIter<&mut Entry>>>)
    requires outs.len() == a.len(), a.len() == b.len(),
        forall|i: int| 0 <= i < a.len() ==> visits_mut((*#[trigger] outs[i])@, all_pairs(a[i], b[i]))
    ensures visits_mut(crate::ext::eiter::flat_items(outs), sub_pairs(a, b))
    decreases a.len()
{
    reveal(sub_pairs);
    if a.len() > 0 {
        let (c, d, o, k) = (a.drop_last(), b.drop_last(), outs.drop_last(), a.len() - 1);
        assert forall|i: int| 0 <= i < c.len() implies visits_mut((*#[trigger] o[i])@, all_pairs(c[i], d[i])) by { assert(o[i] == outs[i]); }
        lemma_rec_entries_mut(c, d, o);
        lemma_visits_mut_add(crate::ext::eiter::flat_items(o), sub_pairs(c, d), (*outs[k])@, all_pairs(a[k], b[k]));
        assert(sub_pairs(a, b) =~= sub_pairs(c, d) + all_pairs(a[k], b[k]));
    } else {
        assert(ref_pairs(crate::ext::eiter::flat_items(outs)) =~= sub_pairs(a, b));
    }
}
/// r is the first group in a matching the condition; what is done to it gives b
#[verifier::prophetic]
pub open spec fn found_group_mut<F: FnMut(&Group) -> bool>(f: F, a: Group, b: Group, r: Option<&mut Group>) -> bool {
    match r {
        None => none_in(f, pre_groups(a.groups@)) && b == a,
        Some(g) => f.ensures((&*g,), true) && exists|p: Seq<int>| #[trigger] grp_node(a, p) == Some(*g)
            && first_grp_place(f, a, p) && grp_put(a, b, p, *final(g)),
    }
}
#[verifier::prophetic]
pub open spec fn found_entry_mut<F: FnMut(&Entry) -> bool>(f: F, a: Group, b: Group, r: Option<&mut Entry>) -> bool {
    match r {
        None => none_in(f, a.entries@ + sub_entries(a.groups@)) && b == a,
        Some(g) => f.ensures((&*g,), true) && exists|p: Seq<int>, i: int| #[trigger] ent_node(a, p, i) == Some(*g)
            && first_ent_place(f, a, p, i) && ent_put(a, b, p, i, *final(g)),
    }
}
/// value of the first parameter with that name
pub open spec fn pval(ps: Seq<Seq<char>>, key: Seq<char>) -> Option<Seq<char>> decreases ps.len() {
    if ps.len() == 0 { None } else {
        let i = first_char(ps[0], '=');
        if i < ps[0].len() { if ps[0].take(i) == key { Some(ps[0].skip(i + 1)) } else { pval(ps.skip(1), key) } }
        else if ps[0] == key { None } else { pval(ps.skip(1), key) }
    }
}
pub open spec fn url_param(url: Seq<char>, key: Seq<char>) -> Option<Seq<char>> {
    if pieces(url, '?').len() < 2 { None } else { pval(pieces(pieces(url, '?')[1], '&'), key) }
}
pub open spec fn is_base32(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> ('A' <= #[trigger] s[i] && s[i] <= 'Z') || ('2' <= s[i] && s[i] <= '7') || s[i] == '='
}
pub proof fn lemma_pieces(a: Seq<char>, c: char, b: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != c
    ensures pieces(a, c) == seq![a], first_char(a, c) == a.len(),
        first_char(a + seq![c] + b, c) == a.len(), pieces(a + seq![c] + b, c) == seq![a] + pieces(b, c)
{
    let s = a + seq![c] + b;
    lemma_first_char(a, c);
    lemma_first_char(s, c);
    assert(s[a.len() as int] == c);
    assert forall|i: int| 0 <= i < a.len() implies s[i] == a[i] by {}
    if first_char(s, c) < a.len() { assert(a[first_char(s, c)] != c); }
    assert(first_char(s, c) == a.len());
    assert(s.take(a.len() as int) =~= a);
    assert(s.skip((a.len() + 1) as int) =~= b);
    assert(a.skip(0) =~= a);
}
pub broadcast proof fn lemma_texts(s: Seq<&str>)
    ensures #![trigger texts(s)] texts(s).len() == s.len(), s.len() > 0 ==> texts(s)[0] == s[0]@ && texts(s.skip(1)) == texts(s).skip(1),
        s.len() > 1 ==> texts(s)[1] == s[1]@ && s[1] == s.skip(1)[0]
{
    if s.len() > 0 { assert(texts(s.skip(1)) =~= texts(s).skip(1)); }
}
pub proof fn lemma_otp(base: Seq<char>, secret: Seq<char>, period: u32, digits: u32, url: Seq<char>)
    requires is_base32(secret), forall|i: int| 0 <= i < base.len() ==> #[trigger] base[i] != '?',
        url == base + seq!['?'] + ("secret"@ + seq!['='] + secret + seq!['&'] + ("period"@ + seq!['='] + dec_text(period as int)
            + seq!['&'] + ("digits"@ + seq!['='] + dec_text(digits as int))))
    ensures url_param(url, "secret"@) == Some(secret), url_param(url, "period"@) == Some(dec_text(period as int)),
        url_param(url, "digits"@) == Some(dec_text(digits as int)), u32_of_text(dec_text(period as int)) == Some(period),
        u32_of_text(dec_text(digits as int)) == Some(digits)
{
    broadcast use lemma_dec_text, lemma_dec_digits;
    reveal_strlit("secret");
    reveal_strlit("period");
    reveal_strlit("digits");
    let (dp, dd) = (dec_text(period as int), dec_text(digits as int));
    let p0 = "secret"@ + seq!['='] + secret;
    let p1 = "period"@ + seq!['='] + dp;
    let p2 = "digits"@ + seq!['='] + dd;
    let q = p0 + seq!['&'] + (p1 + seq!['&'] + p2);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != '?' by {
        let k0 = p0.len(); let k1 = p0.len() + 1 + p1.len();
        if i < k0 { if i >= 7 { assert(q[i] == secret[i - 7]); } }
        else if i > k0 && i < k1 { if i - k0 - 1 >= 7 { assert(q[i] == dp[i - k0 - 1 - 7]); } }
        else if i > k1 { if i - k1 - 1 >= 7 { assert(q[i] == dd[i - k1 - 1 - 7]); } }
    }
    assert forall|i: int| 0 <= i < p0.len() implies #[trigger] p0[i] != '&' by { if i >= 7 { assert(p0[i] == secret[i - 7]); } }
    assert forall|i: int| 0 <= i < p1.len() implies #[trigger] p1[i] != '&' by { if i >= 7 { assert(p1[i] == dp[i - 7]); } }
    assert forall|i: int| 0 <= i < p2.len() implies #[trigger] p2[i] != '&' by { if i >= 7 { assert(p2[i] == dd[i - 7]); } }
    lemma_pieces(base, '?', q);
    lemma_pieces(q, '?', q);
    assert(pieces(url, '?') =~= seq![base, q]);
    lemma_pieces(p0, '&', p1 + seq!['&'] + p2);
    lemma_pieces(p1, '&', p2);
    lemma_pieces(p2, '&', p2);
    let ps = seq![p0, p1, p2];
    assert(pieces(q, '&') =~= ps);
    lemma_pieces("secret"@, '=', secret);
    lemma_pieces("period"@, '=', dp);
    lemma_pieces("digits"@, '=', dd);
    assert(p0.take(6) =~= "secret"@ && p0.skip(7) =~= secret);
    assert(p1.take(6) =~= "period"@ && p1.skip(7) =~= dp);
    assert(p2.take(6) =~= "digits"@ && p2.skip(7) =~= dd);
    assert("secret"@[0] != "period"@[0] && "secret"@[0] != "digits"@[0] && "period"@[0] != "digits"@[0]);
    assert(ps.skip(1) =~= seq![p1, p2]);
    assert(ps.skip(1).skip(1) =~= seq![p2]);
    reveal_with_fuel(pval, 4);
}
pub open spec fn otp_url(o: Otp) -> Seq<char> { o.url@ }
pub open spec fn whole_seconds(t: Times) -> bool {
    t.last_modification_time.nanos() == 0 && t.creation_time.nanos() == 0 && t.last_access_time.nanos() == 0
        && t.expiry_time.nanos() == 0 && t.location_changed.nanos() == 0
}
@type <Index<usize> for History> : inherent
@type <IndexMut<usize> for History> : inherent
@fn <Index<usize> for History>::index
@spec
    requires index < self.entries@.len()
    ensures *r == self.entries@[index as int]
@fn <IndexMut<usize> for History>::index_mut
@spec
    requires index < (*old(self)).entries@.len()
    ensures *r == (*old(self)).entries@[index as int],
        (*final(self)).entries@ == (*old(self)).entries@.update(index as int, *final(r)),
@fn <Default for Value>::default
@spec
    ensures r == Value::Empty
@fn <Default for Field>::default
@spec
    ensures r.key@ == Seq::<char>::empty(), r.value == Value::Empty
@fn Field::new
@spec
    ensures r.key@ == key@, fval(r) == Some(value@), !fprot(r)
@fn Field::new_protected
@spec
    ensures r.key@ == key@, fval(r) == Some(value@), fprot(r)
@fn Field::key
@spec
    ensures r@ == self.key@
@fn Field::set_key
@spec
    ensures final(self).key@ == new_key@, final(self).value == old(self).value
@fn Field::value
@spec
    ensures match r { Some(s) => fval(*self) == Some(s@), None => fval(*self) is None }
@fn Field::set_value
@spec
    ensures final(self).key == old(self).key, fprot(*final(self)) == fprot(*old(self)), fval(*final(self)) == Some(value@)
@fn Field::clear
@spec
    ensures final(self).key == old(self).key, fprot(*final(self)) == fprot(*old(self)), fval(*final(self)) is None
@fn Field::protected
@spec
    ensures r == fprot(*self)
@fn Field::set_protected
@spec
    ensures final(self).key == old(self).key, fprot(*final(self)) == protected, fval(*final(self)) == fval(*old(self))
@fn <Default for History>::default
@spec
    ensures r.entries@ == Seq::<Entry>::empty()
@fn History::get
@spec
    ensures match r { Some(e) => index < self.entries@.len() && *e == self.entries@[index as int], None => index >= self.entries@.len() }
@fn History::get_mut
@call .get_mut => get_mut_e
@spec
    ensures match r {
        Some(e) => index < old(self).entries@.len() && *e == old(self).entries@[index as int]
            && final(self).entries@ == old(self).entries@.update(index as int, *final(e)),
        None => index >= old(self).entries@.len() && *final(self) == *old(self) }
@fn History::push
@spec
    ensures final(self).entries@ == old(self).entries@.push(entry)
@fn History::len
@spec
    ensures r == self.entries@.len()
@fn History::is_empty
@spec
    ensures r == (self.entries@.len() == 0)
@fn History::remove
@spec
    requires idx < old(self).entries@.len()
    ensures r == old(self).entries@[idx as int], final(self).entries@ == old(self).entries@.remove(idx as int)
@fn History::entries
@spec
    ensures is_refs(r@, self.entries@)
@fn History::entries_mut
@spec
    ensures is_mut_refs(r@, old(self).entries@, final(self).entries@)
@fn Entry::add_field
@spec
    ensures final(self).fields@ == old(self).fields@.push(field), final(self).uuid == old(self).uuid,
        final(self).history == old(self).history, final(self).times == old(self).times
@fn Entry::new_version
@spec
    ensures final(self).uuid == old(self).uuid, final(self).fields == old(self).fields, final(self).times == old(self).times,
        final(self).history.entries@.len() == old(self).history.entries@.len() + 1,
        final(self).history.entries@.drop_last() == old(self).history.entries@,
        final(self).history.entries@.last().uuid == old(self).uuid, final(self).history.entries@.last().fields == old(self).fields,
        final(self).history.entries@.last().times == old(self).times,
        final(self).history.entries@.last().history.entries@.len() == 0
@tail
    proof { assert(self.history.entries@.drop_last() =~= old(self).history.entries@); }
@fn Entry::fields
@spec
    ensures is_refs(r@, self.fields@)
@fn Entry::fields_mut
@spec
    ensures is_mut_refs(r@, old(self).fields@, final(self).fields@), final(self).uuid == old(self).uuid,
        final(self).history == old(self).history, final(self).times == old(self).times
@fn Entry::history
@spec
    ensures *r == self.history
@fn Entry::history_mut
@spec
    ensures *r == old(self).history, *final(r) == final(self).history, final(self).uuid == old(self).uuid,
        final(self).fields == old(self).fields, final(self).times == old(self).times
@fn Entry::find
@spec
    ensures match r {
        Some(f) => has_key(self.fields@, key@) && *f == self.fields@[first_key(self.fields@, key@)],
        None => !has_key(self.fields@, key@) }
@start
    proof { lemma_first_key(self.fields@, key@); }
@closure 0
    |i: &&Field| -> (b: bool) ensures b == (i.key@ == key@)
@fn Entry::find_mut
@spec
    ensures match r {
        Some(f) => has_key(old(self).fields@, key@) && 0 <= first_key(old(self).fields@, key@) && *f == old(self).fields@[first_key(old(self).fields@, key@)]
            && final(self).fields@ =~= old(self).fields@.update(first_key(old(self).fields@, key@), *final(f))
            && final(self).uuid == old(self).uuid && final(self).history == old(self).history && final(self).times == old(self).times,
        None => !has_key(old(self).fields@, key@) && *final(self) == *old(self) }
@start
    broadcast use crate::ext::eiter::lemma_eiter_resolved, crate::ext::prelude::axiom_vec_ext;
    proof { lemma_first_key(self.fields@, key@); }
@closure 0
    |i: &&mut Field| -> (b: bool) ensures b == (old(*i).key@ == key@)
@fn Entry::times
@spec
    ensures *r == self.times
@fn Entry::times_mut
@spec
    ensures *r == old(self).times, *final(r) == final(self).times, final(self).uuid == old(self).uuid,
        final(self).fields == old(self).fields, final(self).history == old(self).history
@fn Entry::find_string_value
@spec
    ensures opt_text(r) == key_value(self.fields@, key@)
@closure 0
    |f: &Field| -> (v: Option<&str>) ensures opt_text(v) == fval(*f)
@fn Entry::uuid
@spec
    ensures r == self.uuid
@fn Entry::set_uuid
@spec
    ensures final(self).uuid == uuid, final(self).fields == old(self).fields, final(self).history == old(self).history, final(self).times == old(self).times
@fn Entry::title
@spec
    ensures opt_text(r) == key_value(self.fields@, "Title"@)
@fn Entry::username
@spec
    ensures opt_text(r) == key_value(self.fields@, "UserName"@)
@fn Entry::url
@spec
    ensures opt_text(r) == key_value(self.fields@, "URL"@)
@fn Entry::password
@spec
    ensures opt_text(r) == key_value(self.fields@, "Password"@)
@fn Entry::set_title
@spec
    ensures set_field(*old(self), *final(self), "Title"@, title.text(), false)
@fn Entry::set_username
@spec
    ensures set_field(*old(self), *final(self), "UserName"@, username.text(), false)
@fn Entry::set_url
@spec
    ensures set_field(*old(self), *final(self), "URL"@, url.text(), false)
@fn Entry::set_password
@spec
    ensures set_field(*old(self), *final(self), "Password"@, password.text(), true)
@fn Entry::otp
@spec
    ensures match r { Some(o) => key_value(self.fields@, "otp"@) == Some(otp_url(o)), None => key_value(self.fields@, "otp"@) is None }
@closure 0
    |url: &str| -> (o: Otp) ensures otp_url(o) == url@
@fn Entry::set_otp
@spec
    ensures set_field(*old(self), *final(self), "otp"@, otp_url(otp), true)
@fn <Default for Entry>::default
@spec
    ensures crate::ext::uuid::uuid_random(r.uuid), r.fields@.len() == 0, r.history.entries@.len() == 0, whole_seconds(r.times)
@fn <Default for Times>::default
@spec
    ensures whole_seconds(r)
@fn Entry::remove_field
@call == => eq_e
@spec
    ensures final(self).fields@ == without(old(self).fields@, key@),
        final(self).uuid == old(self).uuid, final(self).history == old(self).history, final(self).times == old(self).times
@start
    let ghost s = self.fields@;
    let ghost mut n = s.len() as int;
    proof {
        assert forall|outs: Seq<Option<usize>>| outs.len() == s.len() && s.len() <= usize::MAX
            && (forall|i: int| 0 <= i < s.len() ==> #[trigger] outs[i] == (if s[i].key@ == key@ { Some(i as usize) } else { None }))
            implies #[trigger] crate::ext::eiter::somes(outs) == idxs(s, key@) by { lemma_somes_idxs(s, key@, outs); }
    }
@closure 0
    |p__0: (usize, &Field)| -> (o: Option<usize>) ensures o == (if p__0.1.key@ == key@ { Some(p__0.0) } else { None })
@after .collect()
    proof {
        assert(matching_field_indices@ == idxs(s, key@));
        lemma_idxs_sorted(s, key@);
    }
@after .sort()
    proof { assert(matching_field_indices@ == idxs(s, key@)); }
@before for index in
    let ghost all = idxs(s, key@);
    let ghost mut m = all.len() as int;
    proof {
        reveal(without);
        assert(all.take(m) =~= all);
        assert(s.take(n) =~= s);
        assert(s.skip(n) =~= Seq::<Field>::empty());
        assert(self.fields@ =~= s.take(n) + without(s.skip(n), key@));
    }
@loop 0
    invariant 0 <= n <= s.len(), s.len() <= usize::MAX, 0 <= m <= all.len(), all == idxs(s, key@),
        it__0@ == all.reverse().skip(all.len() - m),
        idxs(s.take(n), key@) == all.take(m),
        self.fields@ == s.take(n) + without(s.skip(n), key@),
        self.uuid == old(self).uuid, self.history == old(self).history, self.times == old(self).times
    decreases it__0@.len()
@loopstart 0
    proof {
        lemma_idxs(s.take(n), key@);
        assert(all.reverse().skip(all.len() - m)[0] == all.reverse()[all.len() - m]);
        assert(all.reverse()[all.len() - m] == all[m - 1]);
        assert(all.take(m).last() == all[m - 1]);
        assert(all.reverse().skip(all.len() - m).skip(1) =~= all.reverse().skip(all.len() - (m - 1)));
    }
@loopend 0
    proof {
        let x = index as int;
        lemma_remove_step(s, key@, n, x);
        assert(self.fields@ =~= s.take(x) + without(s.skip(x), key@));
        assert(all.take(m).drop_last() =~= all.take(m - 1));
        n = x;
        m = m - 1;
    }
@tail
    proof {
        lemma_idxs(s.take(n), key@);
        lemma_without_none(s.take(n), key@);
        assert(s =~= s.take(n) + s.skip(n));
        lemma_without_add(s.take(n), s.skip(n), key@);
    }
@fn Group::new
@spec
    ensures crate::ext::uuid::uuid_random(r.uuid), r.name@ == name.text(), r.entries@.len() == 0, r.groups@.len() == 0, whole_seconds(r.times)
@fn <Default for Group>::default
@spec
    ensures crate::ext::uuid::uuid_random(r.uuid), r.name@.len() == 0, r.entries@.len() == 0, r.groups@.len() == 0, whole_seconds(r.times)
@fn Group::uuid
@spec
    ensures r == self.uuid
@fn Group::set_uuid
@spec
    ensures final(self).uuid == uuid, final(self).name == old(self).name, final(self).entries == old(self).entries,
        final(self).groups == old(self).groups, final(self).times == old(self).times
@fn Group::name
@spec
    ensures r@ == self.name@
@fn Group::set_name
@spec
    ensures final(self).name@ == name.text(), final(self).uuid == old(self).uuid, final(self).entries == old(self).entries,
        final(self).groups == old(self).groups, final(self).times == old(self).times
@fn Group::add_entry
@spec
    ensures same_but_entries(*final(self), *old(self)), final(self).entries@ == old(self).entries@.push(entry)
@fn Group::add_group
@spec
    ensures same_but_groups(*final(self), *old(self)), final(self).groups@ == old(self).groups@.push(group)
@fn Group::remove_entry
@call == => eq_e
@spec
    ensures same_but_entries(*final(self), *old(self)), ({
        let (s, k) = (old(self).entries@, first_entry(old(self).entries@, uuid));
        if k < s.len() { r == Some(s[k]) && final(self).entries@ == s.remove(k) } else { r is None && final(self).entries@ == s } })
@start
    proof { lemma_first_entry(self.entries@, uuid); }
@closure 0
    |p__0: &(usize, &Entry)| -> (b: bool) ensures b == (p__0.1.uuid == uuid)
@closure 1
    |p__0: (usize, &Entry)| -> (i: usize) ensures i == p__0.0
@fn Group::remove_group
@call == => eq_e
@spec
    ensures same_but_groups(*final(self), *old(self)), ({
        let (s, k) = (old(self).groups@, first_group(old(self).groups@, uuid));
        if k < s.len() { r == Some(s[k]) && final(self).groups@ == s.remove(k) } else { r is None && final(self).groups@ == s } })
@start
    proof { lemma_first_group(self.groups@, uuid); }
@closure 0
    |p__0: &(usize, &Group)| -> (b: bool) ensures b == (p__0.1.uuid == uuid)
@closure 1
    |p__0: (usize, &Group)| -> (i: usize) ensures i == p__0.0
@fn Group::groups
@spec
    ensures is_refs(r@, self.groups@)
@fn Group::groups_mut
@spec
    ensures is_mut_refs(r@, old(self).groups@, final(self).groups@), same_but_groups(*final(self), *old(self))
@fn Group::group_count
@spec
    ensures r == self.groups@.len()
@fn Group::entry_count
@spec
    ensures r == self.entries@.len()
@fn Group::entries
@spec
    ensures is_refs(r@, self.entries@)
@fn Group::entries_mut
@spec
    ensures is_mut_refs(r@, old(self).entries@, final(self).entries@), same_but_entries(*final(self), *old(self))
@fn Group::times
@spec
    ensures *r == self.times
@fn Group::times_mut
@spec
    ensures *r == old(self).times, *final(r) == final(self).times, final(self).uuid == old(self).uuid, final(self).name == old(self).name,
        final(self).entries == old(self).entries, final(self).groups == old(self).groups
@fn Group::find_group
@spec
    requires forall|g: &Group| f.requires((g,))
    ensures found_group(f, self.groups@, match r { Some(g) => Some(*g), None => None })
@fn Group::find_group_internal
@call f => crate::ext::prelude::ask
@spec
    requires forall|g: &Group| (*old(f)).requires((g,))
    ensures *final(f) == *old(f), found_group(*old(f), self.groups@, match r { Some(g) => Some(*g), None => None })
    decreases *self
@start
    let ghost a = self.groups@;
    let ghost mut n: int = 0;
    proof { reveal(pre_groups); assert(a.skip(0) =~= a); }
@loop 0
    invariant *f == *old(f), forall|g: &Group| (*f).requires((g,)), 0 <= n <= a.len(), a == self.groups@,
        is_refs(it__0@, a.skip(n)), none_in(*f, pre_groups(a.take(n)))
    decreases it__0@.len()
@loopstart 0
    proof {
        assert(a.skip(n)[0] == a[n]);
        assert(*group == a[n]);
        let q = a[n];
        assert(a.skip(n).skip(1) =~= a.skip(n + 1));
        assert forall|r: Option<Group>| (*f).ensures((&q,), false) && first_of(*f, pre_groups(q.groups@), r)
            implies (r is Some ==> first_of(*f, pre_groups(a), r)) && (r is None ==> none_in(*f, pre_groups(a.take(n + 1)))) by {
            lemma_first_of_head(*f, q, pre_groups(q.groups@), r);
            lemma_found_group(*f, a, n, r);
        }
        if (*f).ensures((&q,), true) {
            lemma_first_of_head(*f, q, pre_groups(q.groups@), None);
            lemma_found_group(*f, a, n, Some(q));
        }
        n = n + 1;
    }
@loopend 0
    proof {
        lemma_first_of_head(*f, *group, pre_groups(group.groups@), None);
        lemma_found_group(*f, a, n - 1, None);
    }
@tail
    proof { assert(a.take(a.len() as int) =~= a); }
@fn Group::find_entry
@spec
    requires forall|g: &Entry| f.requires((g,))
    ensures found_entry(f, self.entries@ + sub_entries(self.groups@), match r { Some(g) => Some(*g), None => None })
@fn Group::find_entry_internal
@call f => crate::ext::prelude::ask
@spec
    requires forall|g: &Entry| (*old(f)).requires((g,))
    ensures *final(f) == *old(f), found_entry(*old(f), self.entries@ + sub_entries(self.groups@), match r { Some(g) => Some(*g), None => None })
    decreases *self
@start
    let ghost es = self.entries@;
    let ghost a = self.groups@;
    let ghost mut m: int = 0;
    let ghost mut n: int = 0;
    proof { reveal(sub_entries); assert(a.skip(0) =~= a); assert(es.skip(0) =~= es); }
@loop 0
    invariant *f == *old(f), forall|g: &Entry| (*f).requires((g,)), 0 <= m <= es.len(), es == self.entries@, a == self.groups@, n == 0,
        is_refs(it__0@, es.skip(m)), none_in(*f, es.take(m)), es + sub_entries(a) == self.entries@ + sub_entries(self.groups@)
    decreases it__0@.len()
@loopstart 0
    proof {
        assert(es.skip(m)[0] == es[m]);
        assert(es.skip(m).skip(1) =~= es.skip(m + 1));
        let s = es + sub_entries(a);
        assert(s[m] == es[m] && s.take(m) =~= es.take(m));
        m = m + 1;
    }
@loopend 0
    proof {
        assert forall|j: int| 0 <= j < m implies (*f).ensures((&#[trigger] es.take(m)[j],), false) by {
            if j < m - 1 { assert(es.take(m)[j] == es.take(m - 1)[j]); }
        }
    }
@loop 1
    invariant *f == *old(f), forall|g: &Entry| (*f).requires((g,)), 0 <= n <= a.len(), a == self.groups@, es == self.entries@,
        is_refs(it__1@, a.skip(n)), none_in(*f, es), none_in(*f, sub_entries(a.take(n)))
    decreases it__1@.len()
@loopstart 1
    proof {
        if n == 0 { assert(es.take(es.len() as int) =~= es); }
        assert(a.skip(n)[0] == a[n]);
        assert(a.skip(n).skip(1) =~= a.skip(n + 1));
        let q = a[n];
        assert forall|r: Option<Entry>| #[trigger] first_of(*f, q.entries@ + sub_entries(q.groups@), r) && r is Some
            implies first_of(*f, es + sub_entries(a), r) by { lemma_found_entry(*f, es, a, n, r); }
        n = n + 1;
    }
@loopend 1
    proof { lemma_found_entry(*f, es, a, n - 1, None); }
@tail
    proof {
        assert(a.take(a.len() as int) =~= a);
        lemma_first_of(*f, es, sub_entries(a), Seq::empty(), None);
    }
@fn Group::find_group_mut
@spec
    requires forall|g: &Group| f.requires((g,))
    ensures found_group_mut(f, *old(self), *final(self), r)
@fn Group::find_group_mut_internal
@call f => crate::ext::prelude::ask
@spec
    requires forall|g: &Group| (*old(f)).requires((g,))
    ensures *final(f) == *old(f), found_group_mut(*old(f), *old(self), *final(self), r)
    decreases *old(self)
@start
    broadcast use crate::ext::eiter::lemma_eiter_resolved, crate::ext::prelude::axiom_vec_ext;
    let ghost s0 = *self;
    let ghost a = self.groups@;
    let ghost mut n: int = 0;
    proof { reveal(pre_groups); }
@loop 0
    invariant *f == *old(f), forall|g: &Group| (*f).requires((g,)), a == s0.groups@, s0 == *old(self), 0 <= n <= a.len(),
        all__0.len() == a.len(), it__0@ == all__0.skip(n),
        forall|i: int| 0 <= i < n ==> *final(#[trigger] all__0[i]) == a[i],
        forall|i: int| 0 <= i < all__0.len() ==> *(#[trigger] all__0[i]) == a[i],
        none_in(*f, pre_groups(a.take(n)))
    decreases it__0@.len()
@loopstart 0
    let ghost g0 = *group;
    proof {
        assert(all__0.skip(n)[0] == all__0[n]);
        assert(all__0.skip(n).skip(1) =~= all__0.skip(n + 1));
        lemma_first_grp_place(*f, s0, n);
        n = n + 1;
    }
@before return Some(group)
    proof {
        assert forall|i: int| n <= i < all__0.len() implies #[trigger] all__0[i] == it__0@[i - n] by {}
        assert(grp_node(s0, seq![n - 1]) == Some(g0));
        assert(*group == g0);
        assert(*final(group) == *final(all__0[n - 1]));
        assert(grp_put(g0, *final(group), seq![n - 1].skip(1), *final(group)));
    }
@before return Some(g)
    proof {
        let q = choose|q: Seq<int>| #[trigger] grp_node(g0, q) == Some(*g)
            && first_grp_place(*old(f), g0, q) && grp_put(g0, *final(all__0[n - 1]), q, *final(g));
        assert forall|i: int| n <= i < all__0.len() implies #[trigger] all__0[i] == it__0@[i - n] by {}
        assert((seq![n - 1] + q).skip(1) =~= q);
        assert(grp_node(s0, seq![n - 1] + q) == Some(*g));
    }
@loopend 0
    proof {
        assert(*final(all__0[n - 1]) == g0);
        lemma_first_of_head(*f, g0, pre_groups(g0.groups@), None);
        lemma_found_group(*f, a, n - 1, None);
    }
@tail
    proof { assert(a.take(a.len() as int) =~= a); }
@fn Group::find_entry_mut
@spec
    requires forall|g: &Entry| f.requires((g,))
    ensures found_entry_mut(f, *old(self), *final(self), r)
@fn Group::find_entry_mut_internal
@call f => crate::ext::prelude::ask
@spec
    requires forall|g: &Entry| (*old(f)).requires((g,))
    ensures *final(f) == *old(f), found_entry_mut(*old(f), *old(self), *final(self), r)
    decreases *old(self)
@start
    broadcast use crate::ext::eiter::lemma_eiter_resolved, crate::ext::prelude::axiom_vec_ext;
    let ghost s0 = *self;
    let ghost es = self.entries@;
    let ghost a = self.groups@;
    let ghost mut n: int = 0;
    proof { reveal(sub_entries); }
@closure 0
    |p__0: &(usize, &Entry)| -> (b: bool) requires (*f).requires((p__0.1,)) ensures (*f).ensures((p__0.1,), b)
@closure 1
    |p__0: (usize, &Entry)| -> (i: usize) ensures i == p__0.0
@before return Some(&mut self.entries[idx])
    proof {
        let e = Seq::<int>::empty();
        assert(ent_node(s0, e, idx as int) == Some(es[idx as int]));
        assert(ent_idx(s0, e, idx as int) == idx);
        let u = (es + sub_entries(a)).take(idx as int);
        assert forall|j: int| 0 <= j < u.len() implies (*f).ensures((&#[trigger] u[j],), false) by { assert(u[j] == es[j]); }
    }
@loop 0
    invariant *f == *old(f), forall|g: &Entry| (*f).requires((g,)), a == s0.groups@, es == s0.entries@, s0 == *old(self), 0 <= n <= a.len(),
        all__0.len() == a.len(), it__0@ == all__0.skip(n),
        forall|i: int| 0 <= i < n ==> *final(#[trigger] all__0[i]) == a[i],
        forall|i: int| 0 <= i < all__0.len() ==> *(#[trigger] all__0[i]) == a[i],
        none_in(*f, es), none_in(*f, sub_entries(a.take(n)))
    decreases it__0@.len()
@loopstart 0
    let ghost g0 = *group;
    proof {
        assert(all__0.skip(n)[0] == all__0[n]);
        assert(all__0.skip(n).skip(1) =~= all__0.skip(n + 1));
        lemma_first_ent_place(*f, s0, n);
        n = n + 1;
    }
@before return Some(e)
    proof {
        let (q, i) = choose|q: Seq<int>, i: int| #[trigger] ent_node(g0, q, i) == Some(*e)
            && first_ent_place(*old(f), g0, q, i) && ent_put(g0, *final(all__0[n - 1]), q, i, *final(e));
        assert forall|i: int| n <= i < all__0.len() implies #[trigger] all__0[i] == it__0@[i - n] by {}
        assert((seq![n - 1] + q).skip(1) =~= q);
        assert(ent_node(s0, seq![n - 1] + q, i) == Some(*e));
    }
@loopend 0
    proof {
        assert(*final(all__0[n - 1]) == g0);
        lemma_found_entry(*f, es, a, n - 1, None);
    }
@tail
    proof {
        assert(a.take(a.len() as int) =~= a);
        lemma_first_of(*f, es, sub_entries(a), Seq::empty(), None);
    }
@fn Group::recursive_entries
@spec
    ensures visits((*r)@, self.entries@ + sub_entries(self.groups@))
    decreases *self
@start
    proof {
        let a = self.groups@;
        assert forall|outs: Seq<Box<crate::ext::eiter::EIter<&Entry>>>| outs.len() == a.len()
            && (forall|i: int| 0 <= i < a.len() ==> visits((*#[trigger] outs[i])@, a[i].entries@ + sub_entries(a[i].groups@)))
            implies visits(#[trigger] crate::ext::eiter::flat_items(outs), sub_entries(a)) by { lemma_rec_entries(a, outs); }
        assert forall|r: Seq<&Entry>| is_refs(r, self.entries@) implies #[trigger] visits(r, self.entries@) by { lemma_visits_refs(r, self.entries@); }
        assert forall|r: Seq<&Entry>, q: Seq<&Entry>| visits(r, sub_entries(a)) && visits(q, self.entries@)
            implies visits(#[trigger] (r + q), self.entries@ + sub_entries(a)) by { lemma_visits_add(q, self.entries@, r, sub_entries(a)); }
    }
@closure 0
    |c: &Group| -> (o: Box<crate::ext::eiter::EIter<&Entry>>) requires exists|i: int| 0 <= i < self.groups@.len() && *c == #[trigger] self.groups@[i] ensures visits((*o)@, c.entries@ + sub_entries(c.groups@))
@fn Group::recursive_groups
@spec
    ensures visits((*r)@, pre_groups(self.groups@))
    decreases *self
@start
    proof {
        let a = self.groups@;
        assert forall|outs: Seq<Box<crate::ext::eiter::EIter<&Group>>>, q: Seq<&Group>| outs.len() == a.len() && is_refs(q, a)
            && (forall|i: int| 0 <= i < a.len() ==> visits((*#[trigger] outs[i])@, pre_groups(a[i].groups@)))
            implies visits(#[trigger] (crate::ext::eiter::flat_items(outs) + q), pre_groups(a)) by {
            lemma_rec_groups(a, outs);
            let f = crate::ext::eiter::flat_items(outs);
            assert(vals(f + q) =~= vals(f) + a);
        }
    }
@closure 0
    |g: &Group| -> (o: Box<crate::ext::eiter::EIter<&Group>>) requires exists|i: int| 0 <= i < self.groups@.len() && *g == #[trigger] self.groups@[i] ensures visits((*o)@, pre_groups(g.groups@))
@fn Group::recursive_entries_mut
@spec
    ensures same_tree(*old(self), *final(self)), visits_mut((*r)@, all_pairs(*old(self), *final(self)))
    decreases *old(self)
@start
    let ghost s0 = *self;
    proof {
        let a = s0.groups@;
        assert forall|outs: Seq<Box<crate::ext::eiter::EIter<&mut Entry>>>, q: Seq<&mut Entry>, g: Group|
            #![trigger crate::ext::eiter::flat_items(outs) + q, all_pairs(s0, g)]
            outs.len() == a.len() && g.groups@.len() == a.len() && is_mut_refs(q, s0.entries@, g.entries@)
            && (forall|i: int| 0 <= i < a.len() ==> visits_mut((*#[trigger] outs[i])@, all_pairs(a[i], g.groups@[i])))
            implies visits_mut(crate::ext::eiter::flat_items(outs) + q, all_pairs(s0, g)) by {
            lemma_rec_entries_mut(a, g.groups@, outs);
            lemma_ref_pairs(q, s0.entries@, g.entries@);
            lemma_visits_mut_add(q, zip2(s0.entries@, g.entries@), crate::ext::eiter::flat_items(outs), sub_pairs(a, g.groups@));
        }
    }
@closure 0
    |c: &mut Group| -> (o: Box<crate::ext::eiter::EIter<&mut Entry>>) requires exists|i: int| 0 <= i < s0.groups@.len() && *c == #[trigger] s0.groups@[i] ensures same_tree(*old(c), *final(c)), visits_mut((*o)@, all_pairs(*old(c), *final(c)))
@fn <Default for MemoryProtection>::default
@spec
    ensures !r.protect_title, !r.protect_user_name, !r.protect_password, !r.protect_url, !r.protect_notes
@fn <Default for Meta>::default
@spec
    ensures r.generator@.len() == 0, r.database_name@.len() == 0, r.database_description@.len() == 0, r.custom_data@.len() == 0,
        !r.memory_protection.protect_title, !r.memory_protection.protect_user_name, !r.memory_protection.protect_password,
        !r.memory_protection.protect_url, !r.memory_protection.protect_notes
@fn <Default for Database>::default
@spec
    ensures r.groups@.len() == 1, r.groups@[0].entries@.len() == 0, r.groups@[0].groups@.len() == 0, r.meta.custom_data@.len() == 0
@fn Database::meta
@spec
    ensures *r == self.meta
@fn Database::meta_mut
@spec
    ensures *r == old(self).meta, *final(r) == final(self).meta, final(self).groups == old(self).groups
@fn Database::name
@spec
    ensures r@ == self.meta.database_name@
@fn Database::set_name
@spec
    ensures final(self).groups == old(self).groups, final(self).meta.database_name@ == name.text(),
        final(self).meta == (Meta { database_name: final(self).meta.database_name, ..old(self).meta })
@fn Database::description
@spec
    ensures r@ == self.meta.database_description@
@fn Database::set_description
@spec
    ensures final(self).groups == old(self).groups, final(self).meta.database_description@ == desc.text(),
        final(self).meta == (Meta { database_description: final(self).meta.database_description, ..old(self).meta })
@fn Database::add_entry
@spec
    requires old(self).groups@.len() > 0
    ensures final(self).meta == old(self).meta, final(self).groups@ =~= old(self).groups@.update(0, final(self).groups@[0]),
        same_but_entries(final(self).groups@[0], old(self).groups@[0]), final(self).groups@[0].entries@ == old(self).groups@[0].entries@.push(entry)
@fn Database::add_group
@spec
    requires old(self).groups@.len() > 0
    ensures final(self).meta == old(self).meta, final(self).groups@ =~= old(self).groups@.update(0, final(self).groups@[0]),
        same_but_groups(final(self).groups@[0], old(self).groups@[0]), final(self).groups@[0].groups@ == old(self).groups@[0].groups@.push(entry)
@fn Database::replace_root
@spec
    ensures final(self).meta == old(self).meta, final(self).groups@ =~= seq![group]
@fn Database::root
@spec
    requires self.groups@.len() > 0
    ensures *r == self.groups@[0]
@fn Database::root_mut
@spec
    requires old(self).groups@.len() > 0
    ensures *r == old(self).groups@[0], final(self).groups@ =~= old(self).groups@.update(0, *final(r)), final(self).meta == old(self).meta
@fn Database::find_group
@spec
    requires self.groups@.len() > 0, forall|g: &Group| f.requires((g,))
    ensures found_group(f, self.groups@[0].groups@, match r { Some(g) => Some(*g), None => None })
@fn Database::find_entry
@spec
    requires self.groups@.len() > 0, forall|g: &Entry| f.requires((g,))
    ensures found_entry(f, self.groups@[0].entries@ + sub_entries(self.groups@[0].groups@), match r { Some(g) => Some(*g), None => None })
@fn Database::find_group_mut
@spec
    requires old(self).groups@.len() > 0, forall|g: &Group| f.requires((g,))
    ensures final(self).meta == old(self).meta, final(self).groups@ =~= old(self).groups@.update(0, final(self).groups@[0]),
        found_group_mut(f, old(self).groups@[0], final(self).groups@[0], r)
@fn Database::find_entry_mut
@spec
    requires old(self).groups@.len() > 0, forall|g: &Entry| f.requires((g,))
    ensures final(self).meta == old(self).meta, final(self).groups@ =~= old(self).groups@.update(0, final(self).groups@[0]),
        found_entry_mut(f, old(self).groups@[0], final(self).groups@[0], r)
@fn Otp::new
@call format! => cat
@spec
    ensures is_base32(secret.text()) ==> url_param(otp_url(r), "secret"@) == Some(secret.text())
            && url_param(otp_url(r), "period"@) == Some(dec_text(period as int)) && url_param(otp_url(r), "digits"@) == Some(dec_text(digits as int)),
        u32_of_text(dec_text(period as int)) == Some(period), u32_of_text(dec_text(digits as int)) == Some(digits)
@tail
    proof {
        broadcast use lemma_dec_text;
        reveal_strlit("secret");
        reveal_strlit("period");
        reveal_strlit("digits");
        reveal_strlit("otpauth://totp/kdbxrs:kdbxrs?secret=");
        reveal_strlit("&period=");
        reveal_strlit("&digits=");
        let (l, s, dp, dd) = ("otpauth://totp/kdbxrs:kdbxrs?secret="@, secret.text(), dec_text(period as int), dec_text(digits as int));
        assert(l =~= l.take(28) + seq!['?'] + "secret"@ + seq!['=']);
        if is_base32(s) {
            assert(r__.url@ =~= l.take(28) + seq!['?'] + ("secret"@ + seq!['='] + s + seq!['&'] + ("period"@ + seq!['='] + dp + seq!['&'] + ("digits"@ + seq!['='] + dd))));
            lemma_otp(l.take(28), s, period, digits, r__.url@);
        }
    }
@fn Otp::find_url_param
@start
    broadcast use lemma_texts;
@call == => eq_e
@call .splitn => splitn_e
@spec
    ensures opt_text(r) == url_param(self.url@, key@)
@loop 0
    invariant pval(texts(it__0@), key@) == url_param(self.url@, key@)
    decreases it__0@.len()
@loopstart 0
    proof { lemma_first_char(param@, '='); }
@fn Otp::secret
@spec
    ensures opt_text(r) == url_param(self.url@, "secret"@)
@fn Otp::period
@spec
    ensures r == match url_param(self.url@, "period"@) { Some(t) => u32_of_text(t), None => None }
@closure 0
    |p: &str| -> (o: Option<u32>) ensures o == u32_of_text(p@)
@fn Otp::digits
@spec
    ensures r == match url_param(self.url@, "digits"@) { Some(t) => u32_of_text(t), None => None }
@closure 0
    |p: &str| -> (o: Option<u32>) ensures o == u32_of_text(p@)
