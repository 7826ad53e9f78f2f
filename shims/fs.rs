use vstd::prelude::*;
use crate::ext::io;
verus! {
/// a place in the file system
pub struct Place { pub id: int }
#[verifier::external_body]
pub struct Path { p: () }
impl Path { pub uninterp spec fn place(&self) -> Place; }
pub trait AsPathE { spec fn place_of(&self) -> Place; fn as_path_e(&self) -> (r: &Path) ensures r.place() == self.place_of(); }
/// the bytes of the file there, as it is read
pub uninterp spec fn file_bytes(p: Place) -> Seq<u8>;
#[verifier::external_body]
pub struct File { p: () }
impl File {
    #[verifier::external_body]
    pub fn open(p: &Path) -> (r: io::Result<File>)
        ensures r is Ok ==> io::Read::rem(&r->Ok_0) == file_bytes(p.place()) && io::Read::clean(&r->Ok_0) && io::Read::wf(&r->Ok_0)
    { unimplemented!() }
}
impl io::Read for File {
    uninterp spec fn rem(&self) -> Seq<u8>;
    uninterp spec fn clean(&self) -> bool;
    uninterp spec fn reliable(&self) -> bool;
    open spec fn wf(&self) -> bool { true }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
}
}
