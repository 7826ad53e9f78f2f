@prelude
use crate::ext::io::Read as _;
use super::header::{header_at, header_is, Raw};
use super::kdbx::KdbxState as _;
use crate::ext::fs::{file_bytes, AsPathE as _};
/// an archive: minor and major version, header fields, header bytes, tag of the header, body
pub struct Parts { pub minor: u16, pub major: u16, pub fs: Seq<Raw>, pub bin: Seq<u8>, pub tag: Option<Seq<u8>>, pub body: Seq<u8> }
/// the archive held in s, if it is one
pub open spec fn archive_at(s: Seq<u8>) -> Option<Parts> {
    if s.len() < 12 || le32(s.take(4)) != 0x9AA2D903 || le32(s.subrange(4, 8)) != 0xB54BFB67 { None }
    else {
        let minor = le16(s.subrange(8, 10));
        let major = le16(s.subrange(10, 12));
        if !(3 <= major <= 4) { None }
        else {
            match header_at(s.take(12), s.skip(12), major) {
                None => None,
                Some((fs, bin, n)) =>
                    if major < 4 { Some(Parts { minor, major, fs, bin, tag: None, body: n }) }
                    else if n.len() < 32 { None }
                    else { Some(Parts { minor, major, fs, bin, tag: Some(n.take(32)), body: n.skip(32) }) },
            }
        }
    }
}
pub open spec fn tag_is(t: Option<Vec<u8>>, x: Option<Seq<u8>>) -> bool { match t { Some(v) => x == Some(v@), None => x is None } }
/// l is the locked archive made of these parts
pub open spec fn locked_is(l: Locked, p: Parts) -> bool {
    &&& l.minor_version == p.minor && l.major_version == p.major
    &&& header_is(l.header, p.fs) && l.header_data@ == p.bin
    &&& tag_is(l.hmac, p.tag) && l.encrypted_data@ == p.body
}
@fn from_reader
@spec
    requires input.wf()
    ensures
        r is Ok ==> input.clean() && archive_at(input.rem()) is Some && locked_is(r->Ok_0.state, archive_at(input.rem())->0),
        r is Err && input.reliable() && input.clean() ==> archive_at(input.rem()) is None,
@start
    let ghost s0 = input.rem();
@before KdbxHeader::read
    proof {
        assert(s0.skip(4).take(4) =~= s0.subrange(4, 8));
        assert(s0.skip(4).skip(4).take(4) =~= s0.subrange(8, 12));
        assert(s0.skip(4).skip(4).skip(4) =~= s0.skip(12));
        assert(seq![s0[8], s0[9]] =~= s0.subrange(8, 10));
        assert(seq![s0[10], s0[11]] =~= s0.subrange(10, 12));
        assert(caching_reader.data@ + (*caching_reader.inner).rem() == s0);
        assert(caching_reader.data@ =~= s0.take(12));
    }
@before let mut encrypted_data
    proof {
        let p = archive_at(s0);
        assert(p is Some);
    }
@fn open
@call .as_ref => as_path_e
@spec
    ensures
        r is Ok ==> archive_at(file_bytes(path.place_of())) is Some
            && locked_is(r->Ok_0.state, archive_at(file_bytes(path.place_of()))->0),
