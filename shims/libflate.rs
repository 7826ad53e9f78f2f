pub mod gzip {
use vstd::prelude::*;
use crate::ext::io::{self, Read, Write};
verus! {
/// what decompressing the gzip member at the start of `z` yields, and whether it is complete and intact
pub uninterp spec fn gunzip(z: Seq<u8>) -> (Seq<u8>, bool);
/// decodes one member and takes nothing from the source after it
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Decoder<R> { p: core::marker::PhantomData<R> }
impl<R: Read> Decoder<R> {
    /// what is still to come, and whether it ends cleanly
    pub uninterp spec fn st(&self) -> (Seq<u8>, bool);
    /// of the source: ends cleanly, reliable, well formed
    pub uninterp spec fn src(&self) -> (bool, bool, bool);
    #[verifier::external_body]
    pub fn new(inner: R) -> (r: io::Result<Decoder<R>>)
        requires inner.wf()
        ensures r is Ok ==> r->Ok_0.st() == gunzip(inner.rem()) && r->Ok_0.src() == (inner.clean(), inner.reliable(), true),
            inner.reliable() && gunzip(inner.rem()).1 ==> r is Ok { unimplemented!() }
    /// the source, positioned after the member once the end was reached
    #[verifier::external_body]
    pub fn as_inner_mut(&mut self) -> (r: &mut R)
        ensures r.clean() == old(self).src().0, r.reliable() == old(self).src().1, r.wf() == old(self).src().2,
            final(self).src() == ((*final(r)).clean(), (*final(r)).reliable(), (*final(r)).wf()) { unimplemented!() }
}
impl<R: Read> Read for Decoder<R> {
    open spec fn rem(&self) -> Seq<u8> { self.st().0 }
    open spec fn clean(&self) -> bool { self.st().1 }
    open spec fn reliable(&self) -> bool { self.src().1 }
    open spec fn wf(&self) -> bool { self.src().2 }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        ensures final(self).src() == old(self).src() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct Encoder<W> { p: core::marker::PhantomData<W> }
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct Finish<W> { p: core::marker::PhantomData<W> }
impl<W: Write> Encoder<W> {
    /// what was written, and whether the destination never fails
    pub uninterp spec fn st(&self) -> (Seq<u8>, bool);
    /// the fixed part of the inner writer, then what it had accepted at the start
    #[verifier::prophetic]
    pub uninterp spec fn fx(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn new(inner: W) -> (r: io::Result<Encoder<W>>)
        requires inner.sound()
        ensures r is Ok ==> r->Ok_0.st() == (Seq::<u8>::empty(), inner.steady()) && r->Ok_0.fx() == inner.fixed().push(inner.acc()),
            inner.steady() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: Finish<W>)
        ensures r.of() == self { unimplemented!() }
}
impl<W: Write> Finish<W> {
    pub uninterp spec fn of(&self) -> Encoder<W>;
    /// the inner writer has taken a complete gzip stream of everything written
    #[verifier::external_body]
    pub fn into_result(self) -> (r: io::Result<W>)
        ensures r matches Ok(w) ==> {
                &&& w.sound()
                &&& w.steady() == self.of().st().1
                &&& w.fixed() == self.of().fx().drop_last()
                &&& exists|z: Seq<u8>| #[trigger] gunzip(z) == (self.of().st().0, true) && w.acc() == self.of().fx().last() + z
            },
            self.of().st().1 ==> r is Ok { unimplemented!() }
}
impl<W: Write> Write for Encoder<W> {
    open spec fn acc(&self) -> Seq<u8> { self.st().0 }
    open spec fn sound(&self) -> bool { true }
    open spec fn steady(&self) -> bool { self.st().1 }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Seq<Seq<u8>> { self.fx() }
    open spec fn layer(&self) -> bool { true }
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
}
}
}
