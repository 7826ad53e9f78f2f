@prelude
use crate::ext::sha2::sha256;
/// What the hashed block stream `b` holds: the data of the blocks whose hash
/// matches, and whether they end with an empty block.
/// (Layout: 4-byte number, 32-byte SHA-256, 4-byte length, data.)
pub open spec fn hframes(b: Seq<u8>) -> (Seq<u8>, bool) decreases b.len() {
    if b.len() < 40 { (Seq::empty(), false) } else {
        let len = le32(b.subrange(36, 40)) as int;
        if b.len() < 40 + len { (Seq::empty(), false) } else {
            let data = b.subrange(40, 40 + len);
            let hash = b.subrange(4, 36);
            if len == 0 { (Seq::empty(), hash =~= Seq::new(32, |i: int| 0u8) || hash == sha256(data)) }
            else if hash != sha256(data) { (Seq::empty(), false) }
            else {
                let rest = hframes(b.skip(40 + len));
                (data + rest.0, rest.1)
            }
        }
    }
}
pub open spec fn hb_rem<R: Read>(s: HashedBlockReader<R>) -> Seq<u8> {
    s.buffer@.skip(s.buf_idx as int) + hframes(s.inner.rem()).0
}

@impl <Read for HashedBlockReader>
    open spec fn rem(&self) -> Seq<u8> { hb_rem(*self) }
    open spec fn clean(&self) -> bool { hframes(self.inner.rem()).1 }
    open spec fn reliable(&self) -> bool { self.inner.reliable() }
    open spec fn wf(&self) -> bool { self.buf_idx <= self.buffer@.len() && self.inner.wf() }

@fn HashedBlockReader::new
@spec
    requires inner.wf()
    ensures r.wf(), r.rem() == hframes(inner.rem()).0, r.clean() == hframes(inner.rem()).1, r.reliable() == inner.reliable()
@tail
    proof { assert(r__.rem() =~= hframes(inner.rem()).0); }

@fn HashedBlockReader::buffer_next_block
@call == => eq_e
@spec
    requires (*old(self)).wf()
    ensures
        (*final(self)).wf(),
        final(self).inner.reliable() == old(self).inner.reliable(),
        match r {
            Ok(n) => {
                &&& n == final(self).buffer@.len()
                &&& final(self).buf_idx == 0
                &&& (n == 0 ==> hframes(old(self).inner.rem()) == (Seq::<u8>::empty(), true))
                &&& (n > 0 ==> hframes(old(self).inner.rem())
                    == (final(self).buffer@ + hframes(final(self).inner.rem()).0, hframes(final(self).inner.rem()).1))
            },
            Err(_) => {
                &&& final(self).buffer == old(self).buffer
                &&& final(self).buf_idx == old(self).buf_idx
                &&& (old(self).inner.reliable() ==> hframes(old(self).inner.rem()) == (Seq::<u8>::empty(), false))
            },
        }
@start
    let ghost b0 = self.inner.rem();
@before let len = u32
    proof {
        assert(b0.subrange(36, 40) =~= len_buf@);
        assert(self.inner.rem() =~= b0.skip(40));
    }
@before if (len == 0
    proof {
        assert(b0.subrange(4, 36) =~= hash_buf@);
        assert(b0.subrange(40, 40 + len) =~= block@);
        assert(self.inner.rem() =~= b0.skip(40 + len));
    }

@fn <Read for HashedBlockReader>::read
@start
    let ghost r0 = hb_rem(*self);
@before let copy_len
    let ghost buf0 = buf@;
    let ghost sb = self.buffer@;
    let ghost si = self.buf_idx as int;
@loop 0
    invariant
        self.buffer@ == sb, self.buf_idx == si, buf@.len() == buf0.len(), lim__0 == copy_len, idx__0 <= lim__0,
        copy_len <= buf0.len(), copy_len <= sb.len() - si,
        forall|k: int| 0 <= k < idx__0 ==> #[trigger] buf@[k] == sb[si + k],
    decreases lim__0 - idx__0
@tail
    proof {
        if copy_len > 0 {
            assert(r0 =~= sb.skip(si) + hframes(self.inner.rem()).0);
            assert(hb_rem(*self) =~= r0.skip(copy_len as int));
            assert(buf@.take(copy_len as int) =~= r0.take(copy_len as int));
        } else {
            assert(buf@.take(0) =~= r0.take(0));
        }
    }
