use vstd::prelude::*;
verus! {
pub enum ErrorKind { InvalidData, InvalidInput, UnexpectedEof, BrokenPipe, WriteZero, Other, Interrupted, Unsupported }
#[derive(Debug)]
pub struct Error { p: u64 }
pub type Result<T> = core::result::Result<T, Error>;
impl Error {
    pub fn new<E>(kind: ErrorKind, e: E) -> (r: Error) { Error { p: crate::ext::prelude::unknown() } }
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) { unimplemented!() }
    pub fn other<E>(e: E) -> (r: Error) { Error { p: crate::ext::prelude::unknown() } }
}

/// std::io::Read.  `rem` is what the source still delivers before it ends or
/// fails, `clean` says that it then reports end of file (rather than an error),
/// `reliable` that it never fails before that.  `tape` is what no successful
/// read changes, `fate` what becomes of a borrowed source (rem, clean, reliable,
/// wf when the borrow ends), which no read changes.
pub trait Read {
    spec fn rem(&self) -> Seq<u8>;
    spec fn clean(&self) -> bool;
    spec fn reliable(&self) -> bool;
    spec fn wf(&self) -> bool;
    open spec fn tape(&self) -> Seq<u8> { Seq::empty() }
    #[verifier::prophetic]
    open spec fn fate(&self) -> (Seq<u8>, bool, bool, bool) { (Seq::empty(), true, true, true) }

    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        requires (*old(self)).wf(),
        ensures
            (*final(self)).wf(),
            final(buf)@.len() == old(buf)@.len(),
            (*final(self)).reliable() == (*old(self)).reliable(),
            (*final(self)).fate() == (*old(self)).fate(),
            match r {
                Ok(n) => {
                    &&& n <= old(buf)@.len()
                    &&& n <= (*old(self)).rem().len()
                    &&& final(buf)@.take(n as int) == (*old(self)).rem().take(n as int)
                    &&& (n > 0 ==> (*final(self)).rem() == (*old(self)).rem().skip(n as int) && (*final(self)).clean() == (*old(self)).clean() && (*final(self)).tape() == (*old(self)).tape())
                    &&& (n == 0 && old(buf)@.len() > 0 ==> (*old(self)).rem().len() == 0 && (*old(self)).clean())
                },
                Err(_) => old(buf)@.len() > 0 && (*old(self)).reliable() ==> (*old(self)).rem().len() == 0 && !(*old(self)).clean(),
            };

    /// provided method of std: repeats `read` until the buffer is full
    /// (std also repeats a read that fails with `Interrupted`: here such a read and its repetition are one `read`)
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
        requires (*old(self)).wf(),
        ensures
            (*final(self)).wf(),
            final(buf)@.len() == old(buf)@.len(),
            (*final(self)).reliable() == (*old(self)).reliable(),
            (*final(self)).fate() == (*old(self)).fate(),
            r is Ok ==> {
                &&& (*final(self)).tape() == (*old(self)).tape()
                &&& old(buf)@.len() <= (*old(self)).rem().len()
                &&& final(buf)@ == (*old(self)).rem().take(old(buf)@.len() as int)
                &&& (*final(self)).rem() == (*old(self)).rem().skip(old(buf)@.len() as int)
                &&& (*final(self)).clean() == (*old(self)).clean()
            },
            (*old(self)).reliable() && old(buf)@.len() <= (*old(self)).rem().len() ==> r is Ok,
    {
        let mut at: usize = 0;
        let ghost s0 = (*self).rem();
        let ghost b0 = buf@;
        proof { assert(s0.skip(0) =~= s0); assert(buf@.take(0) =~= s0.take(0)); }
        while at < buf.len()
            invariant
                at <= buf@.len(), buf@.len() == b0.len(), buf@.len() == old(buf)@.len(), s0 == (*old(self)).rem(), at <= s0.len(),
                (*self).wf(), (*self).reliable() == (*old(self)).reliable(), (*self).fate() == (*old(self)).fate(),
                (*self).tape() == (*old(self)).tape(), (*self).rem() == s0.skip(at as int), (*self).clean() == (*old(self)).clean(),
                buf@.take(at as int) == s0.take(at as int),
            decreases buf@.len() - at
        {
            let ghost b1 = buf@;
            match self.read(&mut buf[at..]) {
                Ok(0) => { return Err(Error::new(ErrorKind::UnexpectedEof, ())); }
                Ok(n) => {
                    proof {
                        let k = at + n;
                        assert forall|i: int| 0 <= i < k implies buf@[i] == s0[i] by {
                            if i < at { assert(b1.take(at as int)[i] == s0.take(at as int)[i]); }
                            else { assert(buf@.skip(at as int).take(n as int)[i - at] == s0.skip(at as int).take(n as int)[i - at]); }
                        }
                        assert(buf@.take(k) =~= s0.take(k));
                        assert(s0.skip(at as int).skip(n as int) =~= s0.skip(k));
                    }
                    at += n;
                }
                Err(e) => { return Err(e); }
            }
        }
        proof { assert(buf@.take(at as int) =~= buf@); }
        Ok(())
    }

    /// provided method of std: repeats `read` until it reports end of file
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>)
        requires (*old(self)).wf(),
        ensures
            (*final(self)).wf(),
            (*final(self)).reliable() == (*old(self)).reliable(),
            (*final(self)).fate() == (*old(self)).fate(),
            r is Ok ==> (*old(self)).clean() && final(buf)@ == old(buf)@ + (*old(self)).rem(),
            (*old(self)).reliable() && (*old(self)).clean() ==> r is Ok,
    {
        let mut part = [0u8; 32];
        let mut count: usize = 0;
        let ghost s0 = (*self).rem();
        let ghost mut at: int = 0;
        proof { assert(s0.skip(0) =~= s0); assert(buf@ =~= buf@ + s0.take(0)); }
        loop
            invariant
                0 <= at <= s0.len(), s0 == (*old(self)).rem(), part@.len() == 32,
                (*self).wf(), (*self).reliable() == (*old(self)).reliable(), (*self).fate() == (*old(self)).fate(),
                (*self).rem() == s0.skip(at), (*self).clean() == (*old(self)).clean(),
                buf@ == old(buf)@ + s0.take(at),
            decreases s0.len() - at
        {
            match self.read(&mut part) {
                Ok(0) => {
                    proof { assert(s0.take(at) =~= s0); }
                    return Ok(count);
                }
                Ok(n) => {
                    let ghost b1 = buf@;
                    buf.extend_from_slice(&part[..n]);
                    count = count.wrapping_add(n);
                    proof {
                        assert(part@.take(n as int) == s0.skip(at).take(n as int));
                        assert(buf@ =~= b1 + part@.take(n as int));
                        assert(s0.skip(at).skip(n as int) =~= s0.skip(at + n));
                        assert(s0.take(at + n) =~= s0.take(at) + s0.skip(at).take(n as int));
                        assert(buf@ =~= old(buf)@ + s0.take(at + n));
                        at = at + n;
                    }
                }
                Err(e) => { return Err(e); }
            }
        }
    }
}

impl<'a, R: Read + ?Sized> Read for &'a mut R {
    open spec fn tape(&self) -> Seq<u8> { (**self).tape() }
    #[verifier::prophetic]
    open spec fn fate(&self) -> (Seq<u8>, bool, bool, bool) { ((*final(*self)).rem(), (*final(*self)).clean(), (*final(*self)).reliable(), (*final(*self)).wf()) }
    open spec fn rem(&self) -> Seq<u8> { (**self).rem() }
    open spec fn clean(&self) -> bool { (**self).clean() }
    open spec fn reliable(&self) -> bool { (**self).reliable() }
    open spec fn wf(&self) -> bool { (**self).wf() }
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { (**self).read(buf) }
}
impl<R: Read + ?Sized> Read for Box<R> {
    open spec fn tape(&self) -> Seq<u8> { (**self).tape() }
    #[verifier::prophetic]
    open spec fn fate(&self) -> (Seq<u8>, bool, bool, bool) { (**self).fate() }
    open spec fn rem(&self) -> Seq<u8> { (**self).rem() }
    open spec fn clean(&self) -> bool { (**self).clean() }
    open spec fn reliable(&self) -> bool { (**self).reliable() }
    open spec fn wf(&self) -> bool { (**self).wf() }
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { (**self).read(buf) }
}
/// reading from a slice never fails
impl<'a> Read for &'a [u8] {
    open spec fn rem(&self) -> Seq<u8> { self@ }
    open spec fn clean(&self) -> bool { true }
    open spec fn reliable(&self) -> bool { true }
    open spec fn wf(&self) -> bool { true }
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) {
        let n = if buf.len() < self.len() { buf.len() } else { self.len() };
        let ghost s0 = self@;
        let src: &'a [u8] = *self;
        let (a, b) = src.split_at(n);
        let (head, _tail) = buf.split_at_mut(n);
        head.copy_from_slice(a);
        *self = b;
        proof {
            assert(final(buf)@.take(n as int) =~= s0.take(n as int));
            assert(self@ =~= s0.skip(n as int));
        }
        Ok(n)
    }
}

/// Box::new, with the type of the contents forgotten
#[verifier::external_body]
pub fn box_read<'a, R: Read + 'a>(r: R) -> (b: Box<dyn Read + 'a>)
    ensures b.rem() == r.rem(), b.clean() == r.clean(), b.reliable() == r.reliable(), b.wf() == r.wf(),
{ Box::new(r) }

pub struct Sink { p: () }
pub fn sink() -> (r: Sink) { Sink { p: () } }
/// std::io::copy into a sink: repeats `read` until it reports end of file
pub fn copy<R: Read>(r: &mut R, w: &mut Sink) -> (n: Result<u64>)
    requires (*old(r)).wf(),
    ensures (*final(r)).wf(), (*final(r)).reliable() == (*old(r)).reliable(),
        n is Ok ==> (*old(r)).clean(),
        (*old(r)).reliable() && (*old(r)).clean() ==> n is Ok,
{
    let mut rest = Vec::new();
    match r.read_to_end(&mut rest) {
        Ok(n) => Ok(n as u64),
        Err(e) => Err(e),
    }
}

/// std::io::BufReader: same bytes, same ending (reading ahead only shows in the source it owns)
pub struct BufReader<R> { r: R }
impl<R: Read> BufReader<R> {
    pub closed spec fn src(&self) -> (Seq<u8>, bool, bool, bool) { (self.r.rem(), self.r.clean(), self.r.reliable(), self.r.wf()) }
    pub fn new(inner: R) -> (r: BufReader<R>)
        ensures r.src() == (inner.rem(), inner.clean(), inner.reliable(), inner.wf()),
    { BufReader { r: inner } }
}
impl<R: Read> Read for BufReader<R> {
    open spec fn rem(&self) -> Seq<u8> { self.src().0 }
    open spec fn clean(&self) -> bool { self.src().1 }
    open spec fn reliable(&self) -> bool { self.src().2 }
    open spec fn wf(&self) -> bool { self.src().3 }
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { self.r.read(buf) }
}

/// The destination `id` reported a successful flush when it had accepted `acc`.
pub uninterp spec fn flushed(id: Seq<Seq<u8>>, acc: Seq<u8>) -> bool;
/// the same, where the destination is known through references to it, which add to the identity
pub open spec fn delivered(id: Seq<Seq<u8>>, acc: Seq<u8>) -> bool { exists|k: int| 0 <= k <= id.len() && #[trigger] flushed(id.take(k), acc) }
pub proof fn lemma_delivered<W: Write + ?Sized>(w: &mut W, acc: Seq<u8>)
    requires delivered((*old(w)).fixed(), acc)
    ensures delivered((*old(w)).fixed().push(kept_bits(&*old(w), &*final(w))).push((*final(w)).acc()), acc)
{
    let (a, b) = ((*old(w)).fixed(), (*old(w)).fixed().push(kept_bits(&*old(w), &*final(w))).push((*final(w)).acc()));
    let k = choose|k: int| 0 <= k <= a.len() && #[trigger] flushed(a.take(k), acc);
    assert(b.take(k) =~= a.take(k));
}

/// std::io::Write.  `acc` is everything accepted so far; `sound` must hold to
/// write and is kept as long as no error was reported; `steady` says the
/// destination never fails and never accepts nothing; `fixed` is the part no
/// write changes (identity, keys); `layer` marks intermediate layers, whose
/// flush promises nothing about the destination.
pub trait Write {
    spec fn acc(&self) -> Seq<u8>;
    spec fn sound(&self) -> bool;
    spec fn steady(&self) -> bool;
    #[verifier::prophetic]
    spec fn fixed(&self) -> Seq<Seq<u8>>;
    spec fn layer(&self) -> bool;

    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
        requires (*old(self)).sound(),
        ensures
            match r {
                Ok(n) => {
                    &&& n <= buf@.len()
                    &&& (*final(self)).acc() == (*old(self)).acc() + buf@.take(n as int)
                    &&& (*final(self)).sound()
                    &&& (*final(self)).steady() == (*old(self)).steady() && (*final(self)).fixed() == (*old(self)).fixed() && (*final(self)).layer() == (*old(self)).layer()
                    &&& ((*old(self)).steady() && buf@.len() > 0 ==> n > 0)
                },
                Err(_) => !(*old(self)).steady(),
            };

    fn flush(&mut self) -> (r: Result<()>)
        requires (*old(self)).sound(),
        ensures
            r is Ok ==> (*old(self)).layer() || delivered((*old(self)).fixed(), (*old(self)).acc()),
            r is Ok ==> (*final(self)).acc() == (*old(self)).acc() && (*final(self)).sound() && (*final(self)).steady() == (*old(self)).steady() && (*final(self)).fixed() == (*old(self)).fixed() && (*final(self)).layer() == (*old(self)).layer(),
            (*old(self)).steady() ==> r is Ok;

    /// provided method of std: repeats `write`, an error if nothing is accepted
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
        requires (*old(self)).sound(),
        ensures
            r is Ok ==> (*final(self)).acc() == (*old(self)).acc() + buf@ && (*final(self)).sound() && (*final(self)).steady() == (*old(self)).steady() && (*final(self)).fixed() == (*old(self)).fixed() && (*final(self)).layer() == (*old(self)).layer(),
            (*old(self)).steady() ==> r is Ok,
    {
        let mut at: usize = 0;
        proof { assert(buf@.take(0) =~= Seq::empty()); assert((*self).acc() + buf@.take(0) =~= (*self).acc()); }
        while at < buf.len()
            invariant
                at <= buf@.len(), (*self).sound(), (*self).acc() == (*old(self)).acc() + buf@.take(at as int),
                (*self).steady() == (*old(self)).steady(), (*self).fixed() == (*old(self)).fixed(), (*self).layer() == (*old(self)).layer(),
            decreases buf@.len() - at
        {
            match self.write(&buf[at..]) {
                Ok(0) => { return Err(Error::new(ErrorKind::WriteZero, ())); }
                Ok(n) => {
                    proof {
                        assert(buf@.take(at as int) + buf@.skip(at as int).take(n as int) =~= buf@.take(at + n));
                        assert((*old(self)).acc() + buf@.take(at as int) + buf@.skip(at as int).take(n as int) =~= (*old(self)).acc() + buf@.take(at + n));
                    }
                    at += n;
                }
                Err(e) => { return Err(e); }
            }
        }
        proof { assert(buf@.take(at as int) =~= buf@); }
        Ok(())
    }
}
pub open spec fn bit(b: bool) -> u8 { if b { 1 } else { 0 } }
/// which of the things no successful write changes are the same in b, and whether b is sound
#[verifier::prophetic]
pub open spec fn kept_bits<W: Write + ?Sized>(a: &W, b: &W) -> Seq<u8> {
    seq![bit(b.sound()), bit(b.steady() == a.steady()), bit(b.layer() == a.layer()), bit(b.fixed() == a.fixed())]
}
/// exactly b has been written to the writer w, which has then been given up
#[verifier::prophetic]
pub open spec fn wrote<W: Write>(w: W, b: Seq<u8>) -> bool {
    exists|o: W| #[trigger] has_resolved::<W>(o) && o.acc() == w.acc() + b && o.fixed() == w.fixed() && o.sound() && o.steady() == w.steady() && o.layer() == w.layer()
}
pub broadcast proof fn lemma_wrote<W: Write>(w: &mut W, b: Seq<u8>)
    requires #[trigger] wrote::<&mut W>(w, b)
    ensures (*final(w)).acc() == (*old(w)).acc() + b, (*final(w)).sound(), (*final(w)).steady() == (*old(w)).steady(),
        (*final(w)).layer() == (*old(w)).layer(), (*final(w)).fixed() == (*old(w)).fixed()
{
    let o = choose|o: &mut W| #[trigger] has_resolved::<&mut W>(o) && o.acc() == w.acc() + b && o.fixed() == w.fixed() && o.sound() && o.steady() == w.steady() && o.layer() == w.layer();
    let (x, y) = (o.fixed(), w.fixed());
    assert(x.last() == y.last());
    assert(x[x.len() - 2] == y[y.len() - 2]);
    let (p, q) = (x[x.len() - 2], y[y.len() - 2]);
    assert(p[0] == q[0] && p[1] == q[1] && p[2] == q[2] && p[3] == q[3]);
}
impl<'a, W: Write + ?Sized> Write for &'a mut W {
    open spec fn acc(&self) -> Seq<u8> { (**self).acc() }
    open spec fn sound(&self) -> bool { (**self).sound() }
    open spec fn steady(&self) -> bool { (**self).steady() }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Seq<Seq<u8>> { (**self).fixed().push(kept_bits(&**self, &*final(*self))).push((*final(*self)).acc()) }
    open spec fn layer(&self) -> bool { (**self).layer() }
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { (**self).write(buf) }
    fn flush(&mut self) -> (r: Result<()>) {
        let r = (**self).flush();
        proof { if r is Ok && !(*old(self)).layer() { lemma_delivered(*old(self), (*old(self)).acc()); } }
        r
    }
}
impl<W: Write + ?Sized> Write for Box<W> {
    open spec fn acc(&self) -> Seq<u8> { (**self).acc() }
    open spec fn sound(&self) -> bool { (**self).sound() }
    open spec fn steady(&self) -> bool { (**self).steady() }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Seq<Seq<u8>> { (**self).fixed() }
    open spec fn layer(&self) -> bool { (**self).layer() }
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { (**self).write(buf) }
    fn flush(&mut self) -> (r: Result<()>) { (**self).flush() }
}
impl Write for Vec<u8> {
    open spec fn acc(&self) -> Seq<u8> { self@ }
    open spec fn sound(&self) -> bool { true }
    open spec fn steady(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Seq<Seq<u8>> { Seq::empty() }
    open spec fn layer(&self) -> bool { true }
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) {
        self.extend_from_slice(buf);
        proof { assert(buf@.take(buf@.len() as int) =~= buf@); }
        Ok(buf.len())
    }
    fn flush(&mut self) -> (r: Result<()>) { Ok(()) }
}
}
