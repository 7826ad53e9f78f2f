@prelude
use crate::ext::io::{Read as _, Write as _};
use crate::ext::cipher::{blk_enc, blk_dec, key_ok, axiom_blk, axiom_blk_dec_len, cid};
use crate::ext::cipher::block_padding::pad_ok;
use crate::ext::cbc::xor16;
broadcast use {crate::ext::cipher::axiom_blk, crate::ext::cipher::axiom_blk_dec_len};

/// CBC decryption of `b` (which then ends cleanly or not), the padding of the
/// last block removed; whether that is a clean end.
#[verifier::opaque]
pub open spec fn cbc_dec(id: Seq<u8>, b: Seq<u8>, clean: bool, key: Seq<u8>, prev: Seq<u8>) -> (Seq<u8>, bool) decreases b.len() {
    if b.len() < 16 { (Seq::empty(), b.len() == 0 && clean) } else {
        let p = xor16(blk_dec(id, key, b.take(16)), prev);
        if b.len() == 16 {
            if clean && pad_ok(p) { (p.take(16 - p[15]), true) } else { (Seq::empty(), false) }
        } else {
            let rest = cbc_dec(id, b.skip(16), clean, key, b.take(16));
            (p + rest.0, rest.1)
        }
    }
}

pub proof fn lemma_cbc_dec(id: Seq<u8>, b: Seq<u8>, clean: bool, key: Seq<u8>, prev: Seq<u8>)
    ensures
        b.len() < 16 ==> cbc_dec(id, b, clean, key, prev) == (Seq::<u8>::empty(), b.len() == 0 && clean),
        b.len() >= 16 ==> {
            let p = xor16(blk_dec(id, key, b.take(16)), prev);
            let rest = cbc_dec(id, b.skip(16), clean, key, b.take(16));
            &&& p.len() == 16
            &&& b.len() == 16 ==> cbc_dec(id, b, clean, key, prev)
                == (if clean && pad_ok(p) { (p.take(16 - p[15]), true) } else { (Seq::<u8>::empty(), false) })
            &&& b.len() > 16 ==> cbc_dec(id, b, clean, key, prev) == (p + rest.0, rest.1)
        }
{
    reveal(cbc_dec);
}

/// what is still to come after the buffered block
pub open spec fn br_tail<C: BlockCipher + BlockDecryptMut, R: io::Read>(s: BlockCipherReader<C, R>) -> (Seq<u8>, bool) {
    if s.first_read { cbc_dec(cid::<C>(), s.inner.rem(), s.inner.clean(), s.cipher.key(), s.cipher.prev()) }
    else if s.peek_byte is Some { cbc_dec(cid::<C>(), seq![s.peek_byte->Some_0] + s.inner.rem(), s.inner.clean(), s.cipher.key(), s.cipher.prev()) }
    else { (Seq::empty(), true) }
}
pub open spec fn br_rem<C: BlockCipher + BlockDecryptMut, R: io::Read>(s: BlockCipherReader<C, R>) -> Seq<u8> {
    s.buffer@.subrange(s.buf_idx as int, s.buf_len as int) + br_tail(s).0
}
pub open spec fn br_wf<C: BlockCipher + BlockDecryptMut, R: io::Read>(s: BlockCipherReader<C, R>) -> bool {
    &&& s.buf_idx <= s.buf_len <= 16
    &&& (s.first_read ==> s.buf_len == 0 && s.peek_byte is None)
    &&& s.inner.wf()
}

@impl <Read for BlockCipherReader>
    open spec fn rem(&self) -> Seq<u8> { br_rem(*self) }
    open spec fn clean(&self) -> bool { br_tail(*self).1 }
    open spec fn reliable(&self) -> bool { self.inner.reliable() }
    open spec fn wf(&self) -> bool { br_wf(*self) }

@fn BlockCipherReader::wrap
@spec
    requires inner.wf()
    ensures
        r is Ok <==> key_ok::<C>(key.0@.len()) && iv@.len() == 16,
        r matches Ok(s) ==> {
            &&& s.wf()
            &&& s.rem() == cbc_dec(cid::<C>(), inner.rem(), inner.clean(), key.0@, iv@).0
            &&& s.clean() == cbc_dec(cid::<C>(), inner.rem(), inner.clean(), key.0@, iv@).1
            &&& s.reliable() == inner.reliable()
        }
@tail
    proof { assert(br_rem(r__->Ok_0) =~= cbc_dec(cid::<C>(), inner.rem(), inner.clean(), key.0@, iv@).0); }

@fn BlockCipherReader::buffer_next_block
@spec
    requires br_wf(*old(self)), old(self).buf_idx == old(self).buf_len
    ensures
        br_wf(*final(self)),
        final(self).inner.reliable() == old(self).inner.reliable(),
        match r {
            Ok(n) => {
                &&& final(self).buf_idx == 0
                &&& n == final(self).buf_len
                &&& (n == 0 ==> br_tail(*old(self)) == (Seq::<u8>::empty(), true))
                &&& (n > 0 ==> br_tail(*old(self)) == (final(self).buffer@.take(n as int) + br_tail(*final(self)).0, br_tail(*final(self)).1))
            },
            Err(_) => old(self).inner.reliable() ==> br_tail(*old(self)) == (Seq::<u8>::empty(), false),
        }
@start
    let ghost s0 = *self;
    proof { lemma_cbc_dec(cid::<C>(), self.inner.rem(), self.inner.clean(), self.cipher.key(), self.cipher.prev()); }
    let ghost b0 = if self.peek_byte is Some { seq![self.peek_byte->Some_0] + self.inner.rem() } else { self.inner.rem() };
@before while
    proof { lemma_cbc_dec(cid::<C>(), b0, s0.inner.clean(), s0.cipher.key(), s0.cipher.prev()); }
    assert(b0 =~= self.buffer@.take(buffered_bytes as int) + self.inner.rem());
@loop 0
    invariant
        buffered_bytes <= 16, self.buf_idx == 0, self.buf_len == 0, !self.first_read,
        self.peek_byte == s0.peek_byte, self.cipher == s0.cipher, self.inner.wf(),
        self.inner.reliable() == s0.inner.reliable(),
        self.inner.clean() == s0.inner.clean(),
        b0 == self.buffer@.take(buffered_bytes as int) + self.inner.rem(),
        s0.peek_byte is Some ==> buffered_bytes > 0,
        s0.peek_byte is Some || s0.first_read,
        br_wf(s0), b0 == (if s0.peek_byte is Some { seq![s0.peek_byte->Some_0] + s0.inner.rem() } else { s0.inner.rem() }),
    decreases 16 - buffered_bytes
@loopstart 0
    let ghost sl = *self;
@before buffered_bytes += count
    proof {
        assert(self.buffer@.len() == 16);
        assert(self.inner.rem() == sl.inner.rem().skip(count as int));
        assert(self.buffer@.take(buffered_bytes as int) == sl.buffer@.take(buffered_bytes as int));
        assert(self.buffer@.subrange(buffered_bytes as int, buffered_bytes + count) == sl.inner.rem().take(count as int));
        assert(b0 =~= self.buffer@.take(buffered_bytes + count) + self.inner.rem());
    }
@before let mut peek_buf
    let ghost c0 = self.buffer@;
    let ghost t0 = self.inner.rem();
    proof {
        assert(self.buffer@.take(16) =~= self.buffer@);
        assert(b0.take(16) =~= c0);
        assert(b0.skip(16) =~= t0);
    }
@before let mut blocks_to
    proof {
        if self.peek_byte is Some {
            assert(peek_len == 1);
            assert(peek_buf@.take(1)[0] == t0.take(1)[0]);
            assert(seq![self.peek_byte->Some_0] + self.inner.rem() =~= t0);
        }
    }

@fn <Read for BlockCipherReader>::read
@start
    let ghost r0 = br_rem(*self);
@before let copy_len
    let ghost buf0 = buf@;
    let ghost sb = self.buffer@;
    let ghost si = self.buf_idx as int;
@loop 0
    invariant
        self.buffer@ == sb, self.buf_idx == si, buf@.len() == buf0.len(), lim__0 == copy_len, idx__0 <= lim__0,
        copy_len <= buf0.len(), copy_len <= self.buf_len - si, self.buf_len <= 16,
        forall|k: int| 0 <= k < idx__0 ==> #[trigger] buf@[k] == sb[si + k],
    decreases lim__0 - idx__0
@tail
    proof {
        if copy_len > 0 {
            assert(r0 =~= sb.subrange(si, self.buf_len as int) + br_tail(*self).0);
            assert(br_rem(*self) =~= r0.skip(copy_len as int));
            assert(buf@.take(copy_len as int) =~= r0.take(copy_len as int));
        } else {
            assert(buf@.take(0) =~= r0.take(0));
        }
    }

@prelude
/// CBC encryption of whole blocks
pub open spec fn cbc_enc(id: Seq<u8>, key: Seq<u8>, prev: Seq<u8>, p: Seq<u8>) -> Seq<u8> decreases p.len() {
    if p.len() < 16 { Seq::empty() } else {
        let c = blk_enc(id, key, xor16(p.take(16), prev));
        c + cbc_enc(id, key, c, p.skip(16))
    }
}
/// the last block of the encryption
pub open spec fn cbc_last(id: Seq<u8>, key: Seq<u8>, prev: Seq<u8>, p: Seq<u8>) -> Seq<u8> decreases p.len() {
    if p.len() < 16 { prev } else { cbc_last(id, key, blk_enc(id, key, xor16(p.take(16), prev)), p.skip(16)) }
}
/// PKCS#7: one to sixteen bytes, each their number
pub open spec fn padding(n: nat) -> Seq<u8> {
    Seq::new((16 - n % 16) as nat, |i: int| (16 - n % 16) as u8)
}
pub open spec fn padded(p: Seq<u8>) -> Seq<u8> { p + padding(p.len()) }

pub proof fn lemma_cbc_append(id: Seq<u8>, key: Seq<u8>, prev: Seq<u8>, p: Seq<u8>, q: Seq<u8>)
    requires p.len() % 16 == 0, q.len() == 16
    ensures ({
        let c = blk_enc(id, key, xor16(q, cbc_last(id, key, prev, p)));
        &&& cbc_enc(id, key, prev, p + q) == cbc_enc(id, key, prev, p) + c
        &&& cbc_last(id, key, prev, p + q) == c
    })
    decreases p.len()
{
    let c = blk_enc(id, key, xor16(q, cbc_last(id, key, prev, p)));
    if p.len() == 0 {
        assert(p + q =~= q);
        assert(q.take(16) =~= q);
        assert(cbc_enc(id, key, c, q.skip(16)) =~= Seq::empty());
        assert(cbc_enc(id, key, prev, q) =~= c);
        assert(cbc_last(id, key, c, q.skip(16)) == c);
        assert(cbc_last(id, key, prev, q) == c);
    } else {
        let c1 = blk_enc(id, key, xor16(p.take(16), prev));
        assert((p + q).take(16) =~= p.take(16));
        assert((p + q).skip(16) =~= p.skip(16) + q);
        lemma_cbc_append(id, key, c1, p.skip(16), q);
        assert(c1 + (cbc_enc(id, key, c1, p.skip(16)) + c) =~= (c1 + cbc_enc(id, key, c1, p.skip(16))) + c);
    }
}

pub proof fn lemma_xor16(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 16
    ensures xor16(xor16(a, b), b) == a
{
    assert forall|i: int| 0 <= i < 16 implies #[trigger] xor16(xor16(a, b), b)[i] == a[i] by {
        let (x, y) = (a[i], b[i]);
        assert((x ^ y) ^ y == x) by (bit_vector);
    }
    assert(xor16(xor16(a, b), b) =~= a);
}

pub proof fn lemma_padded(p: Seq<u8>)
    ensures padded(p).len() >= 16, padded(p).len() % 16 == 0, p.len() < 16 ==> padded(p).len() == 16 && pad_ok(padded(p)) && padded(p).take(16 - padded(p)[15]) == p,
        p.len() >= 16 ==> padded(p).take(16) == p.take(16) && padded(p).skip(16) == padded(p.skip(16))
{
    let w = padded(p);
    if p.len() < 16 {
        assert(w.take(16 - w[15]) =~= p);
    } else {
        assert(p.skip(16).len() % 16 == p.len() % 16);
        assert(padding(p.skip(16).len()) =~= padding(p.len()));
        assert(w.skip(16) =~= padded(p.skip(16)));
        assert(w.take(16) =~= p.take(16));
    }
}
/// one block of the encryption is read back
pub proof fn lemma_cbc_block(id: Seq<u8>, key: Seq<u8>, prev: Seq<u8>, w: Seq<u8>)
    requires w.len() >= 16
    ensures ({
        let c = blk_enc(id, key, xor16(w.take(16), prev));
        let b = cbc_enc(id, key, prev, w);
        &&& c.len() == 16
        &&& b == c + cbc_enc(id, key, c, w.skip(16))
        &&& b.take(16) == c
        &&& b.skip(16) == cbc_enc(id, key, c, w.skip(16))
        &&& xor16(blk_dec(id, key, c), prev) == w.take(16)
    })
{
    let c = blk_enc(id, key, xor16(w.take(16), prev));
    let b = cbc_enc(id, key, prev, w);
    assert(b == c + cbc_enc(id, key, c, w.skip(16)));
    assert(b.take(16) =~= c);
    assert(b.skip(16) =~= cbc_enc(id, key, c, w.skip(16)));
    lemma_xor16(w.take(16), prev);
}
/// what was encrypted with padding decrypts to the content and ends cleanly
pub proof fn lemma_cbc_reads_back(id: Seq<u8>, key: Seq<u8>, prev: Seq<u8>, p: Seq<u8>)
    ensures cbc_dec(id, cbc_enc(id, key, prev, padded(p)), true, key, prev) == (p, true)
    decreases p.len()
{
    let w = padded(p);
    let c = blk_enc(id, key, xor16(w.take(16), prev));
    let b = cbc_enc(id, key, prev, w);
    lemma_padded(p);
    lemma_cbc_block(id, key, prev, w);
    lemma_cbc_dec(id, b, true, key, prev);
    if p.len() < 16 {
        assert(w.take(16) =~= w);
        assert(w.skip(16).len() == 0);
        assert(cbc_enc(id, key, c, w.skip(16)).len() == 0);
    } else {
        let q = p.skip(16);
        lemma_padded(q);
        lemma_cbc_block(id, key, c, padded(q));
        lemma_cbc_reads_back(id, key, c, q);
        assert(p.take(16) + q =~= p);
    }
}

@ghost BlockCipherWriter
    g_in: Seq<u8> = Seq::empty()
    g_iv: Seq<u8> = iv@

@prelude
/// the encrypted blocks handed on so far
pub open spec fn bw_out<C: BlockCipher + BlockEncryptMut, W: io::Write>(s: BlockCipherWriter<C, W>) -> Seq<u8> {
    cbc_enc(cid::<C>(), s.cipher.key(), s.g_iv@, s.g_in@)
}
/// what the destination held before the first block
pub open spec fn bw_base<C: BlockCipher + BlockEncryptMut, W: io::Write>(s: BlockCipherWriter<C, W>) -> Seq<u8> {
    s.inner->Some_0.acc().take(s.inner->Some_0.acc().len() - bw_out(s).len())
}
pub open spec fn bw_acc<C: BlockCipher + BlockEncryptMut, W: io::Write>(s: BlockCipherWriter<C, W>) -> Seq<u8> {
    s.g_in@ + s.buffer@.take(s.buf_idx as int)
}
pub open spec fn bw_inv<C: BlockCipher + BlockEncryptMut, W: io::Write>(s: BlockCipherWriter<C, W>) -> bool {
    &&& s.inner is Some
    &&& s.inner->Some_0.sound()
    &&& s.g_in@.len() % 16 == 0
    &&& s.inner->Some_0.acc().len() >= bw_out(s).len()
    &&& s.inner->Some_0.acc() == bw_base(s) + bw_out(s)
    &&& s.cipher.prev() == cbc_last(cid::<C>(), s.cipher.key(), s.g_iv@, s.g_in@)
}
pub open spec fn bw_sound<C: BlockCipher + BlockEncryptMut, W: io::Write>(s: BlockCipherWriter<C, W>) -> bool {
    bw_inv(s) && s.buf_idx < 16
}
#[verifier::prophetic]
pub open spec fn bw_fixed<C: BlockCipher + BlockEncryptMut, W: io::Write>(s: BlockCipherWriter<C, W>) -> Seq<Seq<u8>> {
    s.inner->Some_0.fixed().push(bw_base(s)).push(cid::<C>()).push(s.cipher.key()).push(s.g_iv@)
}
/// what the destination holds at the end, given the fixed part of the writer and what it accepted
pub open spec fn bw_final(fixed: Seq<Seq<u8>>, acc: Seq<u8>) -> Seq<u8> {
    let n = fixed.len();
    fixed[n - 4] + cbc_enc(fixed[n - 3], fixed[n - 2], fixed[n - 1], padded(acc))
}

@impl <Write for BlockCipherWriter>
    open spec fn acc(&self) -> Seq<u8> { bw_acc(*self) }
    open spec fn sound(&self) -> bool { bw_sound(*self) }
    open spec fn steady(&self) -> bool { self.inner is Some && self.inner->Some_0.steady() }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Seq<Seq<u8>> { bw_fixed(*self) }
    open spec fn layer(&self) -> bool { true }

@fn BlockCipherWriterExt::finish
@spec
    requires (*old(self)).sound()
    ensures
        r matches Ok(w) ==> {
            &&& w.sound()
            &&& w.acc() == bw_final((*old(self)).fixed(), (*old(self)).acc())
            &&& w.fixed() == (*old(self)).fixed().take((*old(self)).fixed().len() - 4)
            &&& w.steady() == (*old(self)).steady()
        },
        (*old(self)).steady() ==> r is Ok,

@fn BlockCipherWriter::wrap
@spec
    requires inner.sound()
    ensures
        r is Ok <==> key_ok::<C>(key.0@.len()) && iv@.len() == 16,
        r matches Ok(s) ==> {
            &&& s.sound()
            &&& s.acc() == Seq::<u8>::empty()
            &&& s.fixed() == inner.fixed().push(inner.acc()).push(cid::<C>()).push(key.0@).push(iv@)
            &&& s.steady() == inner.steady()
        }
@tail
    proof {
        assert(bw_base(r__->Ok_0) =~= inner.acc());
        assert(bw_acc(r__->Ok_0) =~= Seq::<u8>::empty());
        assert(inner.acc() =~= inner.acc() + Seq::<u8>::empty());
    }

@fn BlockCipherWriter::write_buffer
@spec
    requires bw_inv(*old(self))
    ensures
        final(self).buf_idx == old(self).buf_idx,
        final(self).buffer@.len() == 16,
        r is Ok ==> {
            &&& bw_inv(*final(self))
            &&& final(self).g_in@ == old(self).g_in@ + old(self).buffer@
            &&& bw_fixed(*final(self)) == bw_fixed(*old(self))
            &&& final(self).inner->Some_0.steady() == old(self).inner->Some_0.steady()
        },
        old(self).inner->Some_0.steady() ==> r is Ok,
@start
    let ghost s0 = *self;
    self.g_in = Ghost(self.g_in@ + self.buffer@);
    proof { lemma_cbc_append(cid::<C>(), self.cipher.key(), self.g_iv@, s0.g_in@, self.buffer@); }
@tail
    proof {
        assert(self.inner->Some_0.acc() =~= bw_base(s0) + bw_out(*self));
        assert(bw_base(*self) =~= bw_base(s0));
    }

@fn <BlockCipherWriterExt<'a,W> for BlockCipherWriter>::finish
@start
    let ghost s0 = *self;
@before self.write_buffer
    proof {
        assert(self.g_in@ + self.buffer@ =~= padded(bw_acc(s0)));
    }
@tail
    proof {
        if r__ is Ok {
            assert(bw_fixed(s0).take(bw_fixed(s0).len() - 4) =~= s0.inner->Some_0.fixed());
        }
    }

@fn <Write for BlockCipherWriter>::write
@start
    let ghost s0 = *self;
@loop 0
    invariant
        bw_sound(*self),
        it__0@.len() <= buf@.len(),
        forall|i: int| 0 <= i < it__0@.len() ==> *#[trigger] it__0@[i] == buf@[buf@.len() - it__0@.len() + i],
        bw_acc(*self) == bw_acc(s0) + buf@.take(buf@.len() - it__0@.len()),
        bw_fixed(*self) == bw_fixed(s0),
        self.inner->Some_0.steady() == s0.inner->Some_0.steady(),
    decreases it__0@.len()
@loopstart 0
    let ghost s1 = *self;
@loopend 0
    proof {
        assert(bw_acc(*self) =~= bw_acc(s1).push(*byte));
        assert(bw_acc(*self) =~= bw_acc(s0) + buf@.take(buf@.len() - it__0@.len()));
    }

@fn <Write for BlockCipherWriter>::flush
