use vstd::prelude::*;
use vstd::string::*;
use crate::ext::eiter::IntoIterE;
verus! {
/// UTF-8 encoding of a character sequence
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn is_utf8(b: Seq<u8>) -> bool { vstd::utf8::valid_utf8(b) }
pub broadcast proof fn lemma_utf8_valid(s: Seq<char>) ensures is_utf8(#[trigger] utf8(s)) { vstd::utf8::encode_utf8_valid_utf8(s); }
pub broadcast proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] utf8(a) == #[trigger] utf8(b) ==> a == b
{
    vstd::utf8::encode_utf8_decode_utf8(a);
    vstd::utf8::encode_utf8_decode_utf8(b);
}
pub broadcast proof fn lemma_utf8_len(s: Seq<char>) ensures s.len() <= (#[trigger] utf8(s)).len() <= 4 * s.len() decreases s.len() {
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    if s.len() > 0 { lemma_utf8_len(s.skip(1)); lemma_utf8_len(s.drop_last()); }
}

#[derive(Debug)]
pub struct FromUtf8Error { p: u64 }
#[derive(Debug)]
pub struct Utf8Error { p: u64 }

#[verifier::external_body]
pub fn from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
    ensures match r { Ok(s) => utf8(s@) == v@, Err(_) => !is_utf8(v@) }
{ unimplemented!() }

pub trait ToStringE { spec fn text(&self) -> Seq<char>; fn to_string_e(&self) -> (r: String) ensures r@ == self.text(); }
impl ToStringE for str { open spec fn text(&self) -> Seq<char> { self@ }
    fn to_string_e(&self) -> (r: String) { self.to_owned() } }
impl<'a, T: ToStringE + ?Sized> ToStringE for &'a T { open spec fn text(&self) -> Seq<char> { (**self).text() }
    fn to_string_e(&self) -> (r: String) { (**self).to_string_e() } }
impl ToStringE for String { open spec fn text(&self) -> Seq<char> { self@ }
    fn to_string_e(&self) -> (r: String) { self.clone() } }
/// decimal digits
pub open spec fn digit(d: int) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}
pub open spec fn digit_val(c: char) -> int { c as int - '0' as int }
pub open spec fn dec_text(x: int) -> Seq<char> decreases x {
    if x < 10 { seq![digit(x)] } else { dec_text(x / 10).push(digit(x % 10)) }
}
fn digit_e(d: u32) -> (r: char) requires d < 10 ensures r == digit(d as int) {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}
fn dec_e(x: u32) -> (r: String) ensures r@ == dec_text(x as int) decreases x {
    let mut s = if x < 10 { String::new() } else { dec_e(x / 10) };
    s.push(digit_e(x % 10));
    proof { assert(s@ =~= dec_text(x as int)); }
    s
}
impl ToStringE for u32 { open spec fn text(&self) -> Seq<char> { dec_text(*self as int) }
    fn to_string_e(&self) -> (r: String) { dec_e(*self) } }

impl ToStringE for core::num::TryFromIntError { uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] fn to_string_e(&self) -> (r: String) { unimplemented!() } }

/// position of the first c, or the length
pub open spec fn first_char(s: Seq<char>, c: char) -> int decreases s.len() {
    if s.len() == 0 || s[0] == c { 0 } else { 1 + first_char(s.skip(1), c) }
}
pub proof fn lemma_first_char(s: Seq<char>, c: char)
    ensures 0 <= first_char(s, c) <= s.len(), first_char(s, c) < s.len() ==> s[first_char(s, c)] == c,
        forall|i: int| 0 <= i < first_char(s, c) ==> s[i] != c
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        lemma_first_char(s.skip(1), c);
        assert forall|i: int| 0 <= i < first_char(s, c) implies s[i] != c by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
    }
}
/// the pieces of s between the c
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    let i = first_char(s, c);
    if 0 <= i < s.len() { seq![s.take(i)] + pieces(s.skip(i + 1), c) } else { seq![s] }
}
fn first_char_e(s: &str, c: char) -> (r: usize) ensures r == first_char(s@, c) {
    let n = s.unicode_len();
    let mut i: usize = 0;
    proof { assert(s@.skip(0) =~= s@); }
    while i < n
        invariant n == s@.len(), i <= n, first_char(s@, c) == i + first_char(s@.skip(i as int), c),
        decreases n - i
    {
        proof { assert(s@.skip(i as int).skip(1) =~= s@.skip(i + 1)); }
        if s.get_char(i) == c { return i; }
        i += 1;
    }
    n
}
fn split_two<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures texts(r@) == ({ let i = first_char(s@, c); if i < s@.len() { seq![s@.take(i), s@.skip(i + 1)] } else { seq![s@] } })
{
    let mut v: Vec<&'a str> = Vec::new();
    let i = first_char_e(s, c);
    let n = s.unicode_len();
    proof { lemma_first_char(s@, c); }
    if i < n {
        v.push(s.substring_char(0, i));
        v.push(s.substring_char(i + 1, n));
        proof { assert(s@.subrange(0, i as int) =~= s@.take(i as int)); assert(s@.subrange(i + 1, n as int) =~= s@.skip(i + 1)); assert(texts(v@) =~= seq![s@.take(i as int), s@.skip(i + 1)]); }
    } else {
        v.push(s);
        proof { assert(texts(v@) =~= seq![s@]); }
    }
    v
}
fn split_pieces<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures texts(r@) == pieces(s@, c)
    decreases s@.len()
{
    let i = first_char_e(s, c);
    let n = s.unicode_len();
    proof { lemma_first_char(s@, c); }
    if i < n {
        let mut v = split_pieces(s.substring_char(i + 1, n), c);
        let ghost t = v@;
        v.insert(0, s.substring_char(0, i));
        proof {
            assert(s@.subrange(0, i as int) =~= s@.take(i as int));
            assert(s@.subrange(i + 1, n as int) =~= s@.skip(i + 1));
            assert(texts(v@) =~= seq![s@.take(i as int)] + texts(t));
        }
        v
    } else {
        let mut v: Vec<&'a str> = Vec::new();
        v.push(s);
        proof { assert(texts(v@) =~= seq![s@]); }
        v
    }
}
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub trait SplitE {
    spec fn split_text(&self) -> Seq<char>;
    fn split_e(&self, c: char) -> (r: crate::ext::eiter::EIter<&str>) ensures texts(r@) == pieces(self.split_text(), c);
    fn splitn_e(&self, n: usize, c: char) -> (r: crate::ext::eiter::EIter<&str>)
        requires n == 2
        ensures texts(r@) == ({
            let (s, i) = (self.split_text(), first_char(self.split_text(), c));
            if i < s.len() { seq![s.take(i), s.skip(i + 1)] } else { seq![s] } });
}
impl SplitE for str { open spec fn split_text(&self) -> Seq<char> { self@ }
    fn split_e(&self, c: char) -> (r: crate::ext::eiter::EIter<&str>) { split_pieces(self, c).into_iter_e() }
    fn splitn_e(&self, n: usize, c: char) -> (r: crate::ext::eiter::EIter<&str>) { split_two(self, c).into_iter_e() } }
impl<'a> SplitE for Cow<'a, str> { open spec fn split_text(&self) -> Seq<char> { self@ }
    fn split_e(&self, c: char) -> (r: crate::ext::eiter::EIter<&str>) { split_pieces(self.as_ref(), c).into_iter_e() }
    fn splitn_e(&self, n: usize, c: char) -> (r: crate::ext::eiter::EIter<&str>) { split_two(self.as_ref(), c).into_iter_e() } }
#[derive(Debug)]
pub struct ParseIntError { p: u64 }
pub trait FromStrE: Sized { spec fn of_text(s: Seq<char>) -> Option<Self>;
    fn from_str_e(s: &str) -> (r: Result<Self, ParseIntError>)
        ensures match r { Ok(x) => Self::of_text(s@) == Some(x), Err(_) => Self::of_text(s@) is None }; }
/// the number a sequence of digits stands for
pub open spec fn digits_val(s: Seq<char>) -> Option<int> decreases s.len() {
    if s.len() == 0 { Some(0) } else {
        match digits_val(s.drop_last()) {
            Some(v) => if '0' <= s.last() && s.last() <= '9' { Some(v * 10 + digit_val(s.last())) } else { None },
            None => None,
        }
    }
}
/// u32::from_str: digits, after a plus sign or not
pub open spec fn u32_of_text(s: Seq<char>) -> Option<u32> {
    let d = if s.len() > 1 && s[0] == '+' { s.skip(1) } else { s };
    match digits_val(d) { Some(v) => if s.len() > 0 && v <= u32::MAX { Some(v as u32) } else { None }, None => None }
}
pub proof fn lemma_digits_prefix(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures digits_val(s.take(n)) is None ==> digits_val(s) is None,
        digits_val(s.take(n)) is Some && digits_val(s) is Some ==> 0 <= digits_val(s.take(n))->0 <= digits_val(s)->0
    decreases s.len()
{
    if n == s.len() { assert(s.take(n) =~= s); lemma_digits_pos(s); }
    else { assert(s.drop_last().take(n) =~= s.take(n)); lemma_digits_prefix(s.drop_last(), n); lemma_digits_pos(s.drop_last()); }
}
proof fn lemma_digits_pos(s: Seq<char>) ensures digits_val(s) is Some ==> digits_val(s)->0 >= 0 decreases s.len() {
    if s.len() > 0 { lemma_digits_pos(s.drop_last()); }
}
impl FromStrE for u32 { open spec fn of_text(s: Seq<char>) -> Option<u32> { u32_of_text(s) }
    fn from_str_e(s: &str) -> (r: Result<u32, ParseIntError>) {
        let n = s.unicode_len();
        if n == 0 { return Err(ParseIntError { p: crate::ext::prelude::unknown() }); }
        let mut i: usize = if n > 1 && s.get_char(0) == '+' { 1 } else { 0 };
        let ghost o = i as int;
        let ghost d = s@.skip(o);
        let mut v: u32 = 0;
        proof { if o == 0 { assert(d =~= s@); } assert(d.take(0) =~= Seq::empty()); }
        while i < n
            invariant n == s@.len(), n > 0, o <= i <= n, 0 <= o, d == s@.skip(o), digits_val(d.take(i - o)) == Some(v as int),
                u32_of_text(s@) == (match digits_val(d) { Some(v) => if v <= u32::MAX { Some(v as u32) } else { None }, None => None }),
            decreases n - i
        {
            let c = s.get_char(i);
            proof {
                assert(d.take(i - o + 1).drop_last() =~= d.take(i - o));
                assert(d.take(i - o + 1).last() == c);
                lemma_digits_prefix(d, i - o + 1);
            }
            if c < '0' || c > '9' { return Err(ParseIntError { p: crate::ext::prelude::unknown() }); }
            let x = c as u32 - '0' as u32;
            if v > (u32::MAX - x) / 10 { return Err(ParseIntError { p: crate::ext::prelude::unknown() }); }
            v = v * 10 + x;
            i += 1;
        }
        proof { assert(d.take(n - o) =~= d); }
        Ok(v)
    } }
pub trait ParseE { fn parse_e<T: FromStrE>(&self) -> (r: Result<T, ParseIntError>); }
impl ParseE for str {
    fn parse_e<T: FromStrE>(&self) -> (r: Result<T, ParseIntError>)
        ensures match r { Ok(x) => T::of_text(self@) == Some(x), Err(_) => T::of_text(self@) is None } { T::from_str_e(self) } }
proof fn lemma_dec(x: int)
    requires x >= 0
    ensures digits_val(dec_text(x)) == Some(x), dec_text(x).len() > 0, forall|i: int| 0 <= i < dec_text(x).len() ==> '0' <= #[trigger] dec_text(x)[i] && dec_text(x)[i] <= '9'
    decreases x
{
    let (t, d) = (dec_text(x), x % 10);
    assert('0' <= digit(d) && digit(d) <= '9' && digit_val(digit(d)) == d);
    if x < 10 { assert(t.drop_last() =~= Seq::empty()); assert(digits_val(t.drop_last()) == Some(0int)); }
    else { lemma_dec(x / 10); assert(t.drop_last() =~= dec_text(x / 10)); }
}
pub broadcast proof fn lemma_dec_text(x: u32) ensures u32_of_text(#[trigger] dec_text(x as int)) == Some(x), dec_text(x as int).len() > 0 { lemma_dec(x as int); }
pub broadcast proof fn lemma_dec_digits(x: u32, i: int)
    ensures 0 <= i < dec_text(x as int).len() ==> '0' <= #[trigger] dec_text(x as int)[i] && dec_text(x as int)[i] <= '9' { lemma_dec(x as int); }
pub trait ContainsE { fn contains_e(&self, c: char) -> bool; }
impl ContainsE for str {
    fn contains_e(&self, c: char) -> (r: bool) ensures r == self@.contains(c) {
        let n = self.unicode_len();
        let mut i: usize = 0;
        while i < n
            invariant n == self@.len(), i <= n, forall|k: int| 0 <= k < i ==> self@[k] != c
            decreases n - i
        {
            if self.get_char(i) == c { return true; }
            i += 1;
        }
        false
    } }
pub trait StrLenE { fn len_e(&self) -> usize; }
impl StrLenE for String {
    fn len_e(&self) -> (r: usize) ensures r == utf8(self@).len() { self.as_str().as_bytes().len() } }
impl StrLenE for str {
    fn len_e(&self) -> (r: usize) ensures r == utf8(self@).len() { self.as_bytes().len() } }
impl<X> StrLenE for Vec<X> {
    fn len_e(&self) -> (r: usize) ensures r == self@.len() { self.len() } }
pub trait StrE { fn as_bytes_e(&self) -> &[u8]; }
impl StrE for str {
    fn as_bytes_e(&self) -> (r: &[u8]) ensures r@ == utf8(self@) { self.as_bytes() } }
impl StrE for String {
    fn as_bytes_e(&self) -> (r: &[u8]) ensures r@ == utf8(self@) { self.as_str().as_bytes() } }

#[verifier::accept_recursive_types(T)]
pub enum Cow<'a, T: ?Sized> { Borrowed(&'a T), Owned(String) }
impl<'a> Cow<'a, str> {
    pub open spec fn view(&self) -> Seq<char> { match *self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { match self { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } }
}
impl<'a> ToStringE for Cow<'a, str> { open spec fn text(&self) -> Seq<char> { self@ }
    fn to_string_e(&self) -> (r: String) { self.as_ref().to_owned() } }

/// str::trim, str::to_lowercase
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lowered(s: Seq<char>) -> Seq<char>;
/// printable ASCII without spaces
pub open spec fn graphic(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> '!' <= #[trigger] s[i] && s[i] <= '~' }
pub broadcast axiom fn axiom_trimmed(s: Seq<char>) ensures graphic(s) ==> #[trigger] trimmed(s) == s;
pub axiom fn axiom_lowered() ensures lowered("True"@) == "true"@, lowered("False"@) == "false"@;
fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ {
    let n = s.unicode_len();
    let mut v: Vec<char> = Vec::new();
    while v.len() < n
        invariant n == s@.len(), v@.len() <= n, v@ == s@.take(v@.len() as int)
        decreases n - v@.len()
    {
        let k = v.len();
        v.push(s.get_char(k));
        proof { assert(v@ =~= s@.take(k + 1)); }
    }
    proof { assert(s@.take(n as int) =~= s@); }
    v
}
pub trait StrMoreE {
    spec fn sm(&self) -> Seq<char>;
    fn trim_e(&self) -> (r: &str) ensures r@ == trimmed(self.sm());
    fn to_lowercase_e(&self) -> (r: String) ensures r@ == lowered(self.sm());
    fn chars_e(&self) -> (r: crate::ext::eiter::EIter<char>) ensures r@ == self.sm();
}
impl StrMoreE for str { open spec fn sm(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn trim_e(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn to_lowercase_e(&self) -> (r: String) { unimplemented!() }
    fn chars_e(&self) -> (r: crate::ext::eiter::EIter<char>) { chars_of(self).into_iter_e() } }
impl StrMoreE for String { open spec fn sm(&self) -> Seq<char> { self@ }
    fn trim_e(&self) -> (r: &str) { self.as_str().trim_e() }
    fn to_lowercase_e(&self) -> (r: String) { self.as_str().to_lowercase_e() }
    fn chars_e(&self) -> (r: crate::ext::eiter::EIter<char>) { chars_of(self.as_str()).into_iter_e() } }
pub trait StringE {
    fn push_str_e(&mut self, s: &str);
    fn clear_e(&mut self);
    fn into_bytes_e(self) -> Vec<u8>;
    fn is_empty_e(&self) -> bool;
}
impl StringE for String {
    fn push_str_e(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { self.push_str(s); }
    fn clear_e(&mut self) ensures final(self)@ == Seq::<char>::empty() { self.clear(); }
    fn into_bytes_e(self) -> (r: Vec<u8>) ensures r@ == utf8(self@) { crate::ext::prelude::vec_from(self.as_str().as_bytes()) }
    fn is_empty_e(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.as_str().unicode_len() == 0 }
}
/// AsRef<str>
pub trait AsStrE { spec fn str_text(&self) -> Seq<char>; fn as_ref_e(&self) -> (r: &str) ensures r@ == self.str_text(); }
impl AsStrE for str { open spec fn str_text(&self) -> Seq<char> { self@ }
    fn as_ref_e(&self) -> (r: &str) { self } }
impl AsStrE for String { open spec fn str_text(&self) -> Seq<char> { self@ }
    fn as_ref_e(&self) -> (r: &str) { self.as_str() } }
impl<'a, T: AsStrE + ?Sized> AsStrE for &'a T { open spec fn str_text(&self) -> Seq<char> { (**self).str_text() }
    fn as_ref_e(&self) -> (r: &str) { (**self).as_ref_e() } }
}
