pub mod prelude {
use vstd::prelude::*;
use crate::ext::prelude::Bytes;
verus! {
pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn b64_dec(s: Seq<char>) -> Option<Seq<u8>>;
pub broadcast axiom fn axiom_b64(b: Seq<u8>) ensures b64_dec(#[trigger] b64(b)) == Some(b);
/// '-' is not in the alphabet
pub broadcast axiom fn axiom_b64_alphabet(s: Seq<char>) ensures (#[trigger] b64_dec(s)) is Some ==> !s.contains('-');
/// printable ASCII; nothing for nothing
pub broadcast axiom fn axiom_b64_text(b: Seq<u8>) ensures #![trigger b64(b)] crate::ext::xml::common_ev::xml_text(b64(b)), crate::ext::string::graphic(b64(b)), b64(b).len() == 0 <==> b.len() == 0;
pub trait Engine {}
pub struct StdEngine { }
#[derive(Debug)]
pub struct DecodeError { p: u64 }
pub const BASE64_STANDARD: StdEngine = StdEngine { };
impl StdEngine {
    #[verifier::external_body]
    pub fn decode(&self, s: &str) -> (r: Result<Vec<u8>, DecodeError>)
        ensures match r { Ok(v) => b64_dec(s@) == Some(v@), Err(_) => b64_dec(s@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn encode<B: Bytes>(&self, b: B) -> (r: String) ensures r@ == b64(b.bytes()) { unimplemented!() }
}
}
}
