@prelude
use crate::ext::cipher::{ks, xored};

pub open spec fn sr_rem<C: StreamCipher, R: Read>(s: StreamCipherReader<C, R>) -> Seq<u8> {
    xored(s.cipher.ks_id(), s.cipher.ks_pos(), s.inner.rem())
}
@impl <Read for StreamCipherReader>
    open spec fn rem(&self) -> Seq<u8> { sr_rem(*self) }
    open spec fn clean(&self) -> bool { self.inner.clean() }
    open spec fn reliable(&self) -> bool { self.inner.reliable() }
    open spec fn wf(&self) -> bool { self.inner.wf() }

@fn StreamCipherReader::new
@spec
    requires inner.wf()
    ensures r.wf(), r.rem() == xored(cipher.ks_id(), cipher.ks_pos(), inner.rem()), r.clean() == inner.clean(),
        r.reliable() == inner.reliable()

@fn <Read for StreamCipherReader>::read
@start
    let ghost s0 = *self;
    let ghost buf0 = buf@;
@tail
    proof {
        if read > 0 {
            assert(sr_rem(*self) =~= sr_rem(s0).skip(read as int));
        }
        let raw = s0.inner.rem().take(read as int);
        assert(buf@.take(read as int) =~= xored(s0.cipher.ks_id(), s0.cipher.ks_pos(), raw));
        assert(xored(s0.cipher.ks_id(), s0.cipher.ks_pos(), raw) =~= sr_rem(s0).take(read as int));
    }

@prelude
/// applying the same key stream again restores the content
pub proof fn lemma_xored_twice(id: Seq<u8>, pos: nat, b: Seq<u8>)
    ensures xored(id, pos, xored(id, pos, b)) == b
{
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] xored(id, pos, xored(id, pos, b))[i] == b[i] by {
        let (x, y) = (b[i], ks(id, (pos + i) as nat));
        assert((x ^ y) ^ y == x) by (bit_vector);
    }
    assert(xored(id, pos, xored(id, pos, b)) =~= b);
}

@ghost StreamCipherWriter
    g_in: Seq<u8> = Seq::empty()

@prelude
pub open spec fn sw_out<C: StreamCipher, W: Write>(s: StreamCipherWriter<C, W>) -> Seq<u8> { xored(s.cipher.ks_id(), 0, s.g_in@) }
pub open spec fn sw_base<C: StreamCipher, W: Write>(s: StreamCipherWriter<C, W>) -> Seq<u8> {
    s.inner->Some_0.acc().take(s.inner->Some_0.acc().len() - sw_out(s).len())
}
pub open spec fn sw_sound<C: StreamCipher, W: Write>(s: StreamCipherWriter<C, W>) -> bool {
    &&& s.inner is Some
    &&& s.inner->Some_0.sound()
    &&& s.cipher.ks_pos() == s.g_in@.len()
    &&& s.inner->Some_0.acc().len() >= sw_out(s).len()
    &&& s.inner->Some_0.acc() == sw_base(s) + sw_out(s)
}
#[verifier::prophetic]
pub open spec fn sw_fixed<C: StreamCipher, W: Write>(s: StreamCipherWriter<C, W>) -> Seq<Seq<u8>> {
    s.inner->Some_0.fixed().push(sw_base(s)).push(s.cipher.ks_id())
}
/// what the destination holds at the end, given the fixed part of the writer and what it accepted
pub open spec fn sw_final(fixed: Seq<Seq<u8>>, acc: Seq<u8>) -> Seq<u8> {
    let n = fixed.len();
    fixed[n - 2] + xored(fixed[n - 1], 0, acc)
}

@impl <Write for StreamCipherWriter>
    open spec fn acc(&self) -> Seq<u8> { self.g_in@ }
    open spec fn sound(&self) -> bool { sw_sound(*self) }
    open spec fn steady(&self) -> bool { self.inner is Some && self.inner->Some_0.steady() }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Seq<Seq<u8>> { sw_fixed(*self) }
    open spec fn layer(&self) -> bool { true }

@fn StreamCipherWriter::new
@spec
    requires inner.sound(), cipher.ks_pos() == 0
    ensures r.sound(), r.acc() == Seq::<u8>::empty(), r.fixed() == inner.fixed().push(inner.acc()).push(cipher.ks_id()),
        r.steady() == inner.steady()
@tail
    proof {
        assert(sw_base(r__) =~= inner.acc());
        assert(inner.acc() =~= inner.acc() + sw_out(r__));
    }

@fn <Write for StreamCipherWriter>::write
@start
    let ghost s0 = *self;
    self.g_in = Ghost(self.g_in@ + buf@);
@tail
    proof {
        if r__ is Ok {
            assert(buf@.take(buf@.len() as int) =~= buf@);
            assert(sw_out(*self) =~= sw_out(s0) + xored(s0.cipher.ks_id(), s0.cipher.ks_pos(), buf@));
            assert(self.inner->Some_0.acc() =~= sw_base(s0) + sw_out(*self));
            assert(sw_base(*self) =~= sw_base(s0));
        }
    }
@fn <Write for StreamCipherWriter>::flush
@fn StreamCipherWriterExt::take_innner
@spec
    requires (*old(self)).sound()
    ensures
        r.sound(),
        r.acc() == sw_final((*old(self)).fixed(), (*old(self)).acc()),
        r.fixed() == (*old(self)).fixed().take((*old(self)).fixed().len() - 2),
        r.steady() == (*old(self)).steady(),
@fn <StreamCipherWriterExt<W> for StreamCipherWriter>::take_innner
@start
    proof { assert(sw_fixed(*self).take(sw_fixed(*self).len() - 2) =~= self.inner->Some_0.fixed()); }
