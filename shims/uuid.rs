use vstd::prelude::*;
use crate::ext::prelude::*;
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Uuid(pub [u8; 16]);
#[derive(Debug)]
pub struct Error { p: u64 }
pub uninterp spec fn uuid_of_text(s: Seq<char>) -> Option<Uuid>;
pub uninterp spec fn uuid_random(u: Uuid) -> bool;
pub open spec fn hex_digit(x: int) -> char { ("0123456789abcdef"@)[x] }
pub open spec fn hex2(b: u8) -> Seq<char> { seq![hex_digit(b as int / 16), hex_digit(b as int % 16)] }
/// the hyphenated lower case form
pub open spec fn uuid_text(b: Seq<u8>) -> Seq<char> {
    hex2(b[0]) + hex2(b[1]) + hex2(b[2]) + hex2(b[3]) + seq!['-'] + hex2(b[4]) + hex2(b[5]) + seq!['-'] + hex2(b[6]) + hex2(b[7]) + seq!['-']
        + hex2(b[8]) + hex2(b[9]) + seq!['-'] + hex2(b[10]) + hex2(b[11]) + hex2(b[12]) + hex2(b[13]) + hex2(b[14]) + hex2(b[15])
}
pub broadcast axiom fn axiom_uuid_text(b: Seq<u8>) requires b.len() == 16 ensures uuid_of_text(#[trigger] uuid_text(b)) is Some && uuid_of_text(uuid_text(b))->0@ == b;
impl Uuid {
    pub open spec fn view(&self) -> Seq<u8> { self.0@ }
    pub fn from_slice(b: &[u8]) -> (r: Result<Uuid, Error>)
        ensures match r { Ok(u) => b@.len() == 16 && u@ == b@, Err(_) => b@.len() != 16 } {
        if b.len() != 16 { return Err(Error { p: crate::ext::prelude::unknown() }); }
        let mut a = [0u8; 16];
        a.copy_from_slice(b);
        Ok(Uuid(a))
    }
    #[verifier::external_body]
    pub fn parse_str(s: &str) -> (r: Result<Uuid, Error>)
        ensures match r { Ok(u) => uuid_of_text(s@) == Some(u), Err(_) => uuid_of_text(s@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn new_v4() -> (r: Uuid) ensures uuid_random(r) { unimplemented!() }
    pub fn as_bytes_e(&self) -> (r: &[u8; 16]) ensures r@ == self@ { &self.0 }
}
pub broadcast proof fn lemma_uuid_ext(a: Uuid, b: Uuid) ensures #[trigger] a@ =~= #[trigger] b@ ==> a == b { if a@ =~= b@ { assert(a.0 =~= b.0); } }
}
