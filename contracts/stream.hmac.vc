@prelude
use crate::crypto::block_tag;
broadcast use {crate::ext::sha2::axiom_sha512_len, crate::ext::hmac::axiom_hmac_len};

/// What the block stream `b` holds from block number idx on: the data of the
/// authenticated blocks, and whether they end with an authenticated empty block.
/// (Layout: 32-byte code, 4-byte length, data.)
pub open spec fn frames(b: Seq<u8>, hk: Seq<u8>, idx: nat) -> (Seq<u8>, bool) decreases b.len() {
    if b.len() < 36 { (Seq::empty(), false) } else {
        let len = le32(b.subrange(32, 36)) as int;
        if b.len() < 36 + len { (Seq::empty(), false) } else {
            let data = b.subrange(36, 36 + len);
            if b.subrange(0, 32) != block_tag(hk, idx as u64, data) { (Seq::empty(), false) }
            else if len == 0 { (Seq::empty(), true) }
            else {
                let rest = frames(b.skip(36 + len), hk, idx + 1);
                (data + rest.0, rest.1)
            }
        }
    }
}

/// One block as written.
pub open spec fn frame(hk: Seq<u8>, idx: nat, data: Seq<u8>) -> Seq<u8> {
    block_tag(hk, idx as u64, data) + le32_bytes(data.len() as u32) + data
}
pub open spec fn enc_blocks(hk: Seq<u8>, blocks: Seq<Seq<u8>>) -> Seq<u8> decreases blocks.len() {
    if blocks.len() == 0 { Seq::empty() } else {
        enc_blocks(hk, blocks.drop_last()) + frame(hk, (blocks.len() - 1) as nat, blocks.last())
    }
}
pub open spec fn flat(blocks: Seq<Seq<u8>>) -> Seq<u8> decreases blocks.len() {
    if blocks.len() == 0 { Seq::empty() } else { flat(blocks.drop_last()) + blocks.last() }
}
/// data blocks of the documented form: none empty, at most 1 MiB
pub open spec fn blocks_ok(blocks: Seq<Seq<u8>>) -> bool {
    forall|i: int| 0 <= i < blocks.len() ==> 0 < (#[trigger] blocks[i]).len() <= 1048576
}
/// a complete stream for the content: data blocks, then one empty block
pub open spec fn is_stream(hk: Seq<u8>, s: Seq<u8>, content: Seq<u8>) -> bool {
    exists|blocks: Seq<Seq<u8>>| blocks_ok(blocks) && flat(blocks) == content
        && s == #[trigger] enc_blocks(hk, blocks.push(Seq::empty()))
}

pub proof fn lemma_frame_step(hk: Seq<u8>, idx: nat, data: Seq<u8>, rest: Seq<u8>)
    requires data.len() <= 1048576
    ensures
        data.len() == 0 ==> frames(frame(hk, idx, data) + rest, hk, idx) == (Seq::<u8>::empty(), true),
        data.len() > 0 ==> frames(frame(hk, idx, data) + rest, hk, idx)
            == (data + frames(rest, hk, idx + 1).0, frames(rest, hk, idx + 1).1),
{
    let b = frame(hk, idx, data) + rest;
    lemma_le32(data.len() as u32);
    assert(b.subrange(32, 36) =~= le32_bytes(data.len() as u32));
    assert(b.subrange(36, 36 + data.len() as int) =~= data);
    assert(b.subrange(0, 32) =~= block_tag(hk, idx as u64, data));
    assert(b.skip(36 + data.len() as int) =~= rest);
}

/// all but the first `from` blocks
pub open spec fn enc_from(hk: Seq<u8>, blocks: Seq<Seq<u8>>, from: nat) -> Seq<u8> decreases blocks.len() - from {
    if from >= blocks.len() { Seq::empty() } else { frame(hk, from, blocks[from as int]) + enc_from(hk, blocks, from + 1) }
}
pub open spec fn flat_from(blocks: Seq<Seq<u8>>, from: nat) -> Seq<u8> decreases blocks.len() - from {
    if from >= blocks.len() { Seq::empty() } else { blocks[from as int] + flat_from(blocks, from + 1) }
}
pub proof fn lemma_enc_split(hk: Seq<u8>, blocks: Seq<Seq<u8>>, k: nat)
    requires k <= blocks.len()
    ensures enc_blocks(hk, blocks) == enc_blocks(hk, blocks.take(k as int)) + enc_from(hk, blocks, k),
        flat(blocks) == flat(blocks.take(k as int)) + flat_from(blocks, k),
    decreases blocks.len() - k
{
    if k == blocks.len() {
        assert(blocks.take(k as int) =~= blocks);
        assert(enc_blocks(hk, blocks) + Seq::<u8>::empty() =~= enc_blocks(hk, blocks));
        assert(flat(blocks) + Seq::<u8>::empty() =~= flat(blocks));
    } else {
        lemma_enc_split(hk, blocks, k + 1);
        let t = blocks.take((k + 1) as int);
        assert(t.drop_last() =~= blocks.take(k as int));
        assert(enc_blocks(hk, blocks.take(k as int)) + frame(hk, k, blocks[k as int]) + enc_from(hk, blocks, k + 1)
            =~= enc_blocks(hk, blocks.take(k as int)) + (frame(hk, k, blocks[k as int]) + enc_from(hk, blocks, k + 1)));
        assert(flat(blocks.take(k as int)) + blocks[k as int] + flat_from(blocks, k + 1)
            =~= flat(blocks.take(k as int)) + (blocks[k as int] + flat_from(blocks, k + 1)));
    }
}
pub proof fn lemma_frames_from(hk: Seq<u8>, blocks: Seq<Seq<u8>>, k: nat)
    requires blocks_ok(blocks), k <= blocks.len()
    ensures frames(enc_from(hk, blocks.push(Seq::empty()), k), hk, k) == (flat_from(blocks, k), true)
    decreases blocks.len() - k
{
    let all = blocks.push(Seq::empty());
    if k == blocks.len() {
        lemma_frame_step(hk, k, Seq::empty(), enc_from(hk, all, k + 1));
    } else {
        lemma_frames_from(hk, blocks, k + 1);
        lemma_frame_step(hk, k, blocks[k as int], enc_from(hk, all, k + 1));
        assert(all[k as int] == blocks[k as int]);
    }
}
/// reading back a written stream yields exactly the content and a clean end
pub proof fn lemma_stream_reads_back(hk: Seq<u8>, s: Seq<u8>, content: Seq<u8>)
    requires is_stream(hk, s, content)
    ensures frames(s, hk, 0) == (content, true)
{
    let blocks = choose|blocks: Seq<Seq<u8>>| blocks_ok(blocks) && flat(blocks) == content
        && s == #[trigger] enc_blocks(hk, blocks.push(Seq::empty()));
    let all = blocks.push(Seq::empty());
    lemma_enc_split(hk, all, 0);
    lemma_enc_split(hk, blocks, 0);
    assert(all.take(0) =~= Seq::empty());
    assert(blocks.take(0) =~= Seq::empty());
    assert(s =~= enc_from(hk, all, 0));
    assert(content =~= flat_from(blocks, 0));
    lemma_frames_from(hk, blocks, 0);
}

pub open spec fn hr_rem<R: Read>(s: HMacReader<R>) -> Seq<u8> {
    s.buffer@.skip(s.buf_idx as int) + frames(s.inner.rem(), s.hmac_key.0@, s.block_idx as nat).0
}

@impl <Read for HMacReader>
    open spec fn rem(&self) -> Seq<u8> { hr_rem(*self) }
    open spec fn clean(&self) -> bool { frames(self.inner.rem(), self.hmac_key.0@, self.block_idx as nat).1 }
    open spec fn reliable(&self) -> bool { self.inner.reliable() }
    open spec fn wf(&self) -> bool { self.buf_idx <= self.buffer@.len() && self.inner.wf() }

@fn HMacReader::new
@spec
    requires inner.wf()
    ensures r.wf(), r.rem() == frames(inner.rem(), hmac_key.0@, 0).0, r.clean() == frames(inner.rem(), hmac_key.0@, 0).1,
        r.reliable() == inner.reliable()
@tail
    proof { assert(r__.rem() =~= frames(inner.rem(), hmac_key.0@, 0).0); }

@fn HMacReader::buffer_next_block
@spec
    requires (*old(self)).wf()
    ensures
        (*final(self)).wf(),
        final(self).hmac_key == old(self).hmac_key,
        final(self).inner.reliable() == old(self).inner.reliable(),
        match r {
            Ok(n) => {
                &&& n == final(self).buffer@.len()
                &&& final(self).buf_idx == 0
                &&& final(self).block_idx == old(self).block_idx + 1
                &&& (n == 0 ==> frames(old(self).inner.rem(), old(self).hmac_key.0@, old(self).block_idx as nat) == (Seq::<u8>::empty(), true))
                &&& (n > 0 ==> frames(old(self).inner.rem(), old(self).hmac_key.0@, old(self).block_idx as nat)
                    == (final(self).buffer@ + frames(final(self).inner.rem(), old(self).hmac_key.0@, final(self).block_idx as nat).0,
                        frames(final(self).inner.rem(), old(self).hmac_key.0@, final(self).block_idx as nat).1))
            },
            Err(_) => {
                &&& final(self).buffer == old(self).buffer
                &&& final(self).buf_idx == old(self).buf_idx
                &&& final(self).block_idx == old(self).block_idx
                &&& (old(self).inner.reliable() ==> frames(old(self).inner.rem(), old(self).hmac_key.0@, old(self).block_idx as nat) == (Seq::<u8>::empty(), false))
            },
        }
@start
    let ghost b0 = self.inner.rem();
    let ghost hk = self.hmac_key.0@;
    assume(self.block_idx < u64::MAX); // ASSUMPTION: fewer than 2^64 blocks
@before if !self
    proof {
        assert(b0.subrange(0, 32) =~= hmac@);
        assert(b0.subrange(32, 36) =~= len_buffer@);
        assert(b0.subrange(36, 36 + len) =~= block@);
        assert(self.inner.rem() =~= b0.skip(36 + len));
        assert(block@.len() == len);
    }
@before let len = u32
    proof {
        assert(b0.subrange(32, 36) =~= len_buffer@);
        assert(self.inner.rem().len() == b0.len() - 36);
    }

@fn <Read for HMacReader>::read
@start
    let ghost r0 = hr_rem(*self);
    let ghost hk = self.hmac_key.0@;
@before let copy_len
    let ghost buf0 = buf@;
    let ghost sb = self.buffer@;
    let ghost si = self.buf_idx as int;
    proof {
        if buf@.len() > 0 && remaining_in_buffer > 0 {
            assert(r0 =~= sb.skip(si) + frames(self.inner.rem(), hk, self.block_idx as nat).0);
        }
    }
@loop 0
    invariant
        self.buffer@ == sb, self.buf_idx == si, buf@.len() == buf0.len(), lim__0 == copy_len, idx__0 <= lim__0,
        copy_len <= buf0.len(), copy_len <= sb.len() - si,
        forall|k: int| 0 <= k < idx__0 ==> #[trigger] buf@[k] == sb[si + k],
    decreases lim__0 - idx__0
@tail
    proof {
        if copy_len > 0 {
            assert(r0 =~= sb.skip(si) + frames(self.inner.rem(), hk, self.block_idx as nat).0);
            assert(hr_rem(*self) =~= r0.skip(copy_len as int));
            assert(buf@.take(copy_len as int) =~= r0.take(copy_len as int));
        } else {
            assert(buf@.take(0) =~= r0.take(0));
        }
    }

@ghost HmacWriter
    g_blocks: Seq<Seq<u8>> = Seq::empty()

@prelude
pub open spec fn bit(b: bool) -> Seq<u8> { seq![if b { 1u8 } else { 0u8 }] }
/// what the destination held before the first block
pub open spec fn hw_base<'a, W: io::Write>(s: HmacWriter<'a, W>) -> Seq<u8> {
    s.inner.acc().take(s.inner.acc().len() - enc_blocks(s.hmac_key.0@, s.g_blocks@).len())
}
pub open spec fn hw_acc<'a, W: io::Write>(s: HmacWriter<'a, W>) -> Seq<u8> { flat(s.g_blocks@) + s.buffer@ }
pub open spec fn hw_inv<'a, W: io::Write>(s: HmacWriter<'a, W>) -> bool {
    let e = enc_blocks(s.hmac_key.0@, s.g_blocks@);
    &&& s.inner.sound()
    &&& s.g_blocks@.len() == s.block_idx
    &&& s.inner.acc().len() >= e.len()
    &&& s.inner.acc() == hw_base(s) + e
}
pub open spec fn hw_sound<'a, W: io::Write>(s: HmacWriter<'a, W>) -> bool {
    hw_inv(s) && blocks_ok(s.g_blocks@) && s.buffer@.len() <= 1048576
}
#[verifier::prophetic]
pub open spec fn hw_fixed<'a, W: io::Write>(s: HmacWriter<'a, W>) -> Seq<Seq<u8>> {
    s.inner.fixed().push(hw_base(s)).push(s.hmac_key.0@).push(bit(s.inner.layer()))
}

@impl <Write for HmacWriter>
    open spec fn acc(&self) -> Seq<u8> { hw_acc(*self) }
    open spec fn sound(&self) -> bool { hw_sound(*self) }
    open spec fn steady(&self) -> bool { self.inner.steady() }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Seq<Seq<u8>> { hw_fixed(*self) }
    open spec fn layer(&self) -> bool { true }

@fn HmacWriter::new
@spec
    requires inner.sound()
    ensures r.sound(), r.acc() == Seq::<u8>::empty(), hw_base(r) == inner.acc(), r.hmac_key == hmac_key,
        r.inner == inner, r.steady() == inner.steady(), r.fixed() == inner.fixed().push(inner.acc()).push(hmac_key.0@).push(bit(inner.layer()))
@tail
    proof {
        assert(hw_base(r__) =~= inner.acc());
        assert(inner.acc() + Seq::<u8>::empty() =~= inner.acc());
        assert(hw_acc(r__) =~= Seq::<u8>::empty());
    }

@fn HmacWriter::write_block
@spec
    requires hw_inv(*old(self)), old(self).buffer@.len() <= 1048576
    ensures
        final(self).hmac_key == old(self).hmac_key,
        r is Ok ==> {
            &&& hw_inv(*final(self))
            &&& final(self).g_blocks@ == old(self).g_blocks@.push(old(self).buffer@)
            &&& final(self).buffer@.len() == 0
            &&& hw_base(*final(self)) == hw_base(*old(self))
            &&& final(self).inner.steady() == old(self).inner.steady()
            &&& final(self).inner.fixed() == old(self).inner.fixed()
            &&& final(self).inner.layer() == old(self).inner.layer()
        },
        old(self).inner.steady() ==> r is Ok,
@start
    assume(self.block_idx < u64::MAX); // ASSUMPTION: fewer than 2^64 blocks
    let ghost s0 = *self;
    let ghost b0 = self.buffer@;
    let ghost a0 = self.inner.acc();
    let ghost base = hw_base(*self);
    let ghost e0 = enc_blocks(self.hmac_key.0@, self.g_blocks@);
    self.g_blocks = Ghost(self.g_blocks@.push(self.buffer@));
@tail
    proof {
        let f = frame(self.hmac_key.0@, s0.block_idx as nat, b0);
        assert(self.g_blocks@.drop_last() =~= s0.g_blocks@);
        assert(enc_blocks(self.hmac_key.0@, self.g_blocks@) == e0 + f);
        assert(self.inner.acc() =~= a0 + f);
        assert(self.inner.acc() =~= base + (e0 + f));
        assert(hw_base(*self) =~= base);
    }

@fn HmacWriter::finish
@spec
    requires self.sound()
    ensures
        r matches Ok(w) ==> {
            &&& w.sound()
            &&& exists|s: Seq<u8>| is_stream(self.hmac_key.0@, s, self.acc()) && w.acc() == #[trigger] (hw_base(self) + s)
            &&& w.steady() == self.inner.steady()
            &&& w.fixed() == self.inner.fixed()
            &&& w.layer() == self.inner.layer()
        },
        self.inner.steady() ==> r is Ok,
@before self.write_block()?; #2
    let ghost bl = self__.g_blocks@;
    proof {
        assert(blocks_ok(bl));
        assert(self__.buffer@ =~= Seq::<u8>::empty());
        assert(flat(bl) =~= self.acc()) by {
            if self.buffer@.len() > 0 {
                assert(bl.drop_last() =~= self.g_blocks@);
            } else {
                assert(flat(bl) + Seq::<u8>::empty() =~= flat(bl));
            }
        }
    }
@tail
    proof {
        let s = enc_blocks(self.hmac_key.0@, bl.push(Seq::empty()));
        assert(self__.g_blocks@ =~= bl.push(Seq::empty()));
        assert(is_stream(self.hmac_key.0@, s, self.acc()));
        assert(r__->Ok_0.acc() == hw_base(self) + s);
    }

@fn <Write for HmacWriter>::write
@start
    let ghost s0 = *self;
@after self.write_block
    proof {
        assert(self.g_blocks@.drop_last() =~= s0.g_blocks@);
        assert(hw_acc(*self) =~= hw_acc(s0));
    }
@before let space_in
    let ghost s1 = *self;
    assert(hw_acc(s1) == hw_acc(s0));
@before if write_size <
    let ghost s2 = *self;
    assert(s2.buffer@ =~= s1.buffer@ + buf@.take(write_size as int));
@tail
    proof {
        if write_size < buf@.len() {
            assert(self.g_blocks@.drop_last() =~= s2.g_blocks@);
        }
        assert(hw_acc(*self) =~= hw_acc(s0) + buf@.take(write_size as int));
    }

@fn <Write for HmacWriter>::flush
@start
    let ghost s0 = *self;
@tail
    proof {
        if s0.buffer@.len() > 0 {
            assert(self.g_blocks@.drop_last() =~= s0.g_blocks@);
        }
        assert(hw_acc(*self) =~= hw_acc(s0));
    }
