use vstd::prelude::*;
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Variant { Argon2d, Argon2i, Argon2id }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Version { Version10, Version13 }
#[derive(Debug)]
pub struct Error { p: u64 }
impl crate::ext::string::ToStringE for Error { uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] fn to_string_e(&self) -> (r: String) { unimplemented!() } }
pub open spec fn version_of(v: u32) -> Option<Version> { if v == 0x10 { Some(Version::Version10) } else if v == 0x13 { Some(Version::Version13) } else { None } }
impl Version {
    pub fn from_u32(v: u32) -> (r: Result<Version, Error>)
        ensures match r { Ok(x) => version_of(v) == Some(x), Err(_) => version_of(v) is None } {
        if v == 0x10 { Ok(Version::Version10) } else if v == 0x13 { Ok(Version::Version13) } else { Err(Error { p: crate::ext::prelude::unknown() }) }
    }
}
pub struct Config<'a> {
    pub ad: &'a [u8], pub hash_length: u32, pub lanes: u32, pub mem_cost: u32, pub secret: &'a [u8],
    pub time_cost: u32, pub variant: Variant, pub version: Version,
}
impl<'a> Default for Config<'a> {
    /// rust-argon2 2.x defaults for the fields the crate leaves alone
    fn default() -> (r: Config<'a>)
        ensures r.ad@ == Seq::<u8>::empty(), r.hash_length == 32, r.secret@ == Seq::<u8>::empty() {
        let r = Config { ad: &[], hash_length: 32, lanes: 1, mem_cost: 19 * 1024, secret: &[], time_cost: 2, variant: Variant::Argon2id, version: Version::Version13 };
        proof { assert(r.ad@ =~= Seq::<u8>::empty()); assert(r.secret@ =~= Seq::<u8>::empty()); }
        r
    }
}
/// the Argon2 hash; None where the parameters are refused
pub uninterp spec fn argon2(pw: Seq<u8>, salt: Seq<u8>, variant: Variant, version: Version, mem: int, time: int, lanes: int, hash_length: int, secret: Seq<u8>, ad: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body]
pub fn hash_raw(pw: &[u8], salt: &[u8], c: &Config) -> (r: Result<Vec<u8>, Error>)
    ensures
        r is Ok ==> Some(r->Ok_0@) == argon2(pw@, salt@, c.variant, c.version, c.mem_cost as int, c.time_cost as int, c.lanes as int, c.hash_length as int, c.secret@, c.ad@) && r->Ok_0@.len() == c.hash_length,
        r is Err ==> argon2(pw@, salt@, c.variant, c.version, c.mem_cost as int, c.time_cost as int, c.lanes as int, c.hash_length as int, c.secret@, c.ad@) is None,
{ unimplemented!() }
}
