@prelude
use crate::ext::io::{Read as _, Write as _};
use crate::ext::cipher::{cid, key_ok, xored, StreamCipher as _};
use crate::ext::chacha20::chacha_id;
use crate::ext::libflate::gzip::gunzip;
use super::block_cipher::{cbc_dec, cbc_enc, padded, bw_final, lemma_cbc_reads_back};
use super::stream_cipher::{sw_final, lemma_xored_twice};
use super::hmac::{frames, is_stream, bit, hw_base, hw_fixed, lemma_stream_reads_back};
use super::kdbx3::hframes;
broadcast use {crate::ext::aes::axiom_aes256_key, crate::ext::aes::axiom_aes128_key, crate::ext::twofish::axiom_twofish_key};

/// the cipher is supported and takes a key and an IV of these lengths
pub open spec fn cipher_ok(c: binary::Cipher, key: nat, iv: nat) -> bool {
    match c {
        binary::Cipher::Aes256 => key == 32 && iv == 16,
        binary::Cipher::Aes128 => key == 16 && iv == 16,
        binary::Cipher::TwoFish => key <= 32 && key % 8 == 0 && key >= 16 && iv == 16,
        binary::Cipher::ChaCha20 => key == 32 && iv == 12,
        binary::Cipher::Unknown(_) => false,
    }
}
/// decryption of `b`, which then ends cleanly or not; whether the result ends cleanly
pub open spec fn decrypted(c: binary::Cipher, key: Seq<u8>, iv: Seq<u8>, b: Seq<u8>, clean: bool) -> (Seq<u8>, bool) {
    match c {
        binary::Cipher::Aes256 => cbc_dec(cid::<Aes256>(), b, clean, key, iv),
        binary::Cipher::Aes128 => cbc_dec(cid::<Aes128>(), b, clean, key, iv),
        binary::Cipher::TwoFish => cbc_dec(cid::<Twofish>(), b, clean, key, iv),
        binary::Cipher::ChaCha20 => (xored(chacha_id(key, iv), 0, b), clean),
        binary::Cipher::Unknown(_) => (Seq::empty(), false),
    }
}
pub open spec fn encrypted(c: binary::Cipher, key: Seq<u8>, iv: Seq<u8>, p: Seq<u8>) -> Seq<u8> {
    match c {
        binary::Cipher::Aes256 => cbc_enc(cid::<Aes256>(), key, iv, padded(p)),
        binary::Cipher::Aes128 => cbc_enc(cid::<Aes128>(), key, iv, padded(p)),
        binary::Cipher::TwoFish => cbc_enc(cid::<Twofish>(), key, iv, padded(p)),
        binary::Cipher::ChaCha20 => xored(chacha_id(key, iv), 0, p),
        binary::Cipher::Unknown(_) => Seq::empty(),
    }
}
pub open spec fn compression_ok(c: binary::CompressionType) -> bool { !(c is Unknown) }

/// what a KDBX 4 body holds: authenticated, decrypted, decompressed; and whether all of that is intact
pub open spec fn plain4(body: Seq<u8>, hk: Seq<u8>, ck: Seq<u8>, c: binary::Cipher, iv: Seq<u8>, z: binary::CompressionType) -> (Seq<u8>, bool) {
    let f = frames(body, hk, 0);
    let d = decrypted(c, ck, iv, f.0, f.1);
    match z {
        binary::CompressionType::None => d,
        _ => (gunzip(d.0).0, gunzip(d.0).1 && d.1),
    }
}
/// what a KDBX 3 body holds after its 32 start bytes
pub open spec fn plain3(body: Seq<u8>, clean: bool, ck: Seq<u8>, c: binary::Cipher, iv: Seq<u8>, z: binary::CompressionType) -> (Seq<u8>, bool) {
    let d = decrypted(c, ck, iv, body, clean);
    let h = hframes(d.0.skip(32));
    match z {
        binary::CompressionType::None => h,
        _ => gunzip(h.0),
    }
}

@fn block_cipher_read_stream
@spec
    requires inner.wf()
    ensures
        r is Ok <==> key_ok::<C>(key.0@.len()) && iv@.len() == 16,
        r matches Ok(s) ==> {
            &&& s.wf()
            &&& s.rem() == cbc_dec(cid::<C>(), inner.rem(), inner.clean(), key.0@, iv@).0
            &&& s.clean() == cbc_dec(cid::<C>(), inner.rem(), inner.clean(), key.0@, iv@).1
            &&& s.reliable() == inner.reliable()
        }

@fn decryption_stream
@call Box::new => io::box_read
@spec
    requires inner.wf()
    ensures
        r is Ok <==> cipher_ok(cipher, cipher_key.0@.len(), iv@.len()),
        r matches Ok(s) ==> {
            &&& s.wf()
            &&& s.rem() == decrypted(cipher, cipher_key.0@, iv@, inner.rem(), inner.clean()).0
            &&& s.clean() == decrypted(cipher, cipher_key.0@, iv@, inner.rem(), inner.clean()).1
            &&& s.reliable() == inner.reliable()
        }

@fn kdbx3_read_stream
@call Box::new => io::box_read
@start
    proof { lemma_decoder::<HashedBlockReader<Box<dyn io::Read>>>(); }
@call == => eq_e
@spec
    requires inner.wf()
    ensures
        r matches Ok(s) ==> {
            let d = decrypted(cipher, cipher_key.0@, iv@, inner.rem(), inner.clean()).0;
            &&& cipher_ok(cipher, cipher_key.0@.len(), iv@.len()) && compression_ok(compression)
            &&& d.len() >= 32 && d.take(32) == expected_start_bytes@
            &&& s.wf()
            &&& s.rem() == plain3(inner.rem(), inner.clean(), cipher_key.0@, cipher, iv@, compression).0
            &&& s.clean() == plain3(inner.rem(), inner.clean(), cipher_key.0@, cipher, iv@, compression).1
            &&& s.reliable() == inner.reliable()
        },
        ({
            let d = decrypted(cipher, cipher_key.0@, iv@, inner.rem(), inner.clean()).0;
            &&& inner.reliable() && cipher_ok(cipher, cipher_key.0@.len(), iv@.len()) && compression_ok(compression)
            &&& d.len() >= 32 && d.take(32) == expected_start_bytes@
            &&& plain3(inner.rem(), inner.clean(), cipher_key.0@, cipher, iv@, compression).1
        }) ==> r is Ok,

@impl <Read for GzipReader>
    open spec fn rem(&self) -> Seq<u8> { self.decoder.rem() }
    open spec fn clean(&self) -> bool { self.decoder.clean() && self.decoder.src().0 }
    open spec fn reliable(&self) -> bool { self.decoder.reliable() }
    open spec fn wf(&self) -> bool { self.decoder.wf() }
@fn <Read for GzipReader>::read

@prelude
/// unfolds the specifications at every value of the type (needed where R is a trait object)
pub proof fn lemma_gzip_reader<R: io::Read>()
    ensures forall|g: GzipReader<R>| #![auto] g.rem() == g.decoder.st().0 && g.clean() == (g.decoder.st().1 && g.decoder.src().0)
        && g.reliable() == g.decoder.src().1 && g.wf() == g.decoder.src().2
{}
pub proof fn lemma_decoder<R: io::Read>()
    ensures forall|g: libflate::gzip::Decoder<R>| #![auto] g.rem() == g.st().0 && g.clean() == g.st().1
        && g.reliable() == g.src().1 && g.wf() == g.src().2
{}

@fn kdbx4_read_stream
@call Box::new => io::box_read
@start
    proof { lemma_gzip_reader::<Box<dyn io::Read>>(); }
@spec
    requires inner.wf()
    ensures
        r matches Ok(s) ==> {
            let p = plain4(inner.rem(), hmac_key.0@, cipher_key.0@, cipher, iv@, compression);
            &&& cipher_ok(cipher, cipher_key.0@.len(), iv@.len()) && compression_ok(compression)
            &&& s.wf()
            &&& s.rem() == p.0
            &&& s.clean() == p.1
            &&& s.reliable() == inner.reliable()
        },
        ({
            &&& inner.reliable() && cipher_ok(cipher, cipher_key.0@.len(), iv@.len()) && compression_ok(compression)
            &&& plain4(inner.rem(), hmac_key.0@, cipher_key.0@, cipher, iv@, compression).1
        }) ==> r is Ok,

@prelude
/// Box::new, with the type of the contents forgotten
#[verifier::external_body]
pub fn box_bw<'a, W: io::Write + 'a, X: BlockCipherWriterExt<'a, W> + 'a>(x: X) -> (b: Box<dyn BlockCipherWriterExt<'a, W> + 'a>)
    ensures (*b).acc() == x.acc(), (*b).sound() == x.sound(), (*b).steady() == x.steady(), (*b).fixed() == x.fixed(), (*b).layer() == x.layer()
{ unimplemented!() }
#[verifier::external_body]
pub fn box_sw<'a, W: io::Write + 'a, X: StreamCipherWriterExt<W> + 'a>(x: X) -> (b: Box<dyn StreamCipherWriterExt<W> + 'a>)
    ensures (*b).acc() == x.acc(), (*b).sound() == x.sound(), (*b).steady() == x.steady(), (*b).fixed() == x.fixed(), (*b).layer() == x.layer()
{ unimplemented!() }

pub proof fn lemma_box_write<W: io::Write + ?Sized>()
    ensures
        forall|b: Box<W>| #[trigger] b.acc() == (*b).acc(),
        forall|b: Box<W>| #[trigger] b.sound() == (*b).sound(),
        forall|b: Box<W>| #[trigger] b.steady() == (*b).steady(),
        forall|b: Box<W>| #[trigger] b.fixed() == (*b).fixed(),
        forall|b: Box<W>| #[trigger] b.layer() == (*b).layer(),
{}
pub open spec fn ew_acc<'a, W: io::Write>(s: EncryptWrite<'a, W>) -> Seq<u8> {
    match s { EncryptWrite::Block(b) => (*b).acc(), EncryptWrite::Stream(b) => (*b).acc() }
}
pub open spec fn ew_sound<'a, W: io::Write>(s: EncryptWrite<'a, W>) -> bool {
    match s { EncryptWrite::Block(b) => (*b).sound(), EncryptWrite::Stream(b) => (*b).sound() }
}
pub open spec fn ew_steady<'a, W: io::Write>(s: EncryptWrite<'a, W>) -> bool {
    match s { EncryptWrite::Block(b) => (*b).steady(), EncryptWrite::Stream(b) => (*b).steady() }
}
#[verifier::prophetic]
pub open spec fn ew_fixed<'a, W: io::Write>(s: EncryptWrite<'a, W>) -> Seq<Seq<u8>> {
    match s { EncryptWrite::Block(b) => (*b).fixed().push(seq![0u8]), EncryptWrite::Stream(b) => (*b).fixed().push(seq![1u8]) }
}

@impl <Write for EncryptWrite>
    open spec fn acc(&self) -> Seq<u8> { ew_acc(*self) }
    open spec fn sound(&self) -> bool { ew_sound(*self) }
    open spec fn steady(&self) -> bool { ew_steady(*self) }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Seq<Seq<u8>> { ew_fixed(*self) }
    open spec fn layer(&self) -> bool { true }
@fn EncryptWrite::finish
@spec
    requires self.sound()
    ensures
        r matches Ok(w) ==> {
            let f = self.fixed().drop_last();
            &&& w.sound()
            &&& w.acc() == (if self is Block { bw_final(f, self.acc()) } else { sw_final(f, self.acc()) })
            &&& w.fixed() == f.take(f.len() - (if self is Block { 4int } else { 2int }))
            &&& w.steady() == self.steady()
        },
        self.steady() ==> r is Ok,
@start
    proof {
        assert(self is Block ==> ew_fixed(self).drop_last() =~= (*self->Block_0).fixed());
        assert(self is Stream ==> ew_fixed(self).drop_last() =~= (*self->Stream_0).fixed());
    }
@fn <Write for EncryptWrite>::write
@start
    proof {
        lemma_box_write::<dyn BlockCipherWriterExt<'a, HmacWriter<'a, W>>>();
        lemma_box_write::<dyn StreamCipherWriterExt<HmacWriter<'a, W>>>();
    }
@fn <Write for EncryptWrite>::flush
@start
    proof {
        lemma_box_write::<dyn BlockCipherWriterExt<'a, HmacWriter<'a, W>>>();
        lemma_box_write::<dyn StreamCipherWriterExt<HmacWriter<'a, W>>>();
    }

@prelude
pub open spec fn kw_acc<'a, W: io::Write>(s: Kdbx4Write<'a, W>) -> Seq<u8> {
    match s.0 { Kdbx4WriteInner::Raw(e) => ew_acc(e), Kdbx4WriteInner::Gzip(g) => g.st().0 }
}
pub open spec fn kw_sound<'a, W: io::Write>(s: Kdbx4Write<'a, W>) -> bool {
    match s.0 { Kdbx4WriteInner::Raw(e) => ew_sound(e), Kdbx4WriteInner::Gzip(g) => true }
}
pub open spec fn kw_steady<'a, W: io::Write>(s: Kdbx4Write<'a, W>) -> bool {
    match s.0 { Kdbx4WriteInner::Raw(e) => ew_steady(e), Kdbx4WriteInner::Gzip(g) => g.st().1 }
}
#[verifier::prophetic]
pub open spec fn kw_fixed<'a, W: io::Write>(s: Kdbx4Write<'a, W>) -> Seq<Seq<u8>> {
    match s.0 { Kdbx4WriteInner::Raw(e) => ew_fixed(e).push(bit(false)), Kdbx4WriteInner::Gzip(g) => g.fx().push(bit(true)) }
}
/// `out` is what the destination holds after the writer with this fixed part accepted `acc` and was finished
pub open spec fn hw_out(fixed: Seq<Seq<u8>>, acc: Seq<u8>, out: Seq<u8>) -> bool {
    let n = fixed.len();
    exists|s: Seq<u8>| is_stream(fixed[n - 2], s, acc) && out == #[trigger] (fixed[n - 3] + s)
}
/// the fixed part of the block writer below an encrypting writer
pub open spec fn ew_below(fixed: Seq<Seq<u8>>) -> Seq<Seq<u8>> {
    let f = fixed.drop_last();
    if fixed.last()[0] == 0 { f.take(f.len() - 4) } else { f.take(f.len() - 2) }
}
pub open spec fn ew_out(fixed: Seq<Seq<u8>>, acc: Seq<u8>, out: Seq<u8>) -> bool {
    let f = fixed.drop_last();
    hw_out(ew_below(fixed), if fixed.last()[0] == 0 { bw_final(f, acc) } else { sw_final(f, acc) }, out)
}
pub open spec fn kw_below(fixed: Seq<Seq<u8>>) -> Seq<Seq<u8>> {
    let f = fixed.drop_last();
    if fixed.last()[0] == 0 { ew_below(f) } else { ew_below(f.drop_last()) }
}
pub open spec fn kw_out(fixed: Seq<Seq<u8>>, acc: Seq<u8>, out: Seq<u8>) -> bool {
    let f = fixed.drop_last();
    if fixed.last()[0] == 0 { ew_out(f, acc, out) }
    else { exists|z: Seq<u8>| #[trigger] gunzip(z) == (acc, true) && ew_out(f.drop_last(), f.last() + z, out) }
}

@impl <Write for Kdbx4Write>
    open spec fn acc(&self) -> Seq<u8> { kw_acc(*self) }
    open spec fn sound(&self) -> bool { kw_sound(*self) }
    open spec fn steady(&self) -> bool { kw_steady(*self) }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Seq<Seq<u8>> { kw_fixed(*self) }
    open spec fn layer(&self) -> bool { true }
@fn <Write for Kdbx4Write>::write
@fn <Write for Kdbx4Write>::flush

@fn Kdbx4Write::finish
@spec
    requires self.sound()
    ensures
        r matches Ok(w) ==> {
            let b = kw_below(self.fixed());
            &&& kw_out(self.fixed(), self.acc(), w.acc())
            &&& w.fixed() == b.take(b.len() - 3)
            &&& b.last() == bit(w.layer())
            &&& (w.layer() || io::delivered(w.fixed(), w.acc()))
            &&& w.sound()
            &&& w.steady() == self.steady()
        },
        self.steady() ==> r is Ok,
@start
    proof {
        assert(self.0 is Raw ==> kw_fixed(self).drop_last() =~= ew_fixed(self.0->Raw_0));
        assert(self.0 is Gzip ==> kw_fixed(self).drop_last() =~= self.0->Gzip_0.fx());
    }
@before let hmacw
    let ghost ef = ew_fixed(encryption);
    let ghost ea = ew_acc(encryption);
    proof {
        assert(encryption is Block ==> ef.last()[0] == 0);
        assert(encryption is Stream ==> ef.last()[0] == 1);
        assert(ef == (if self.0 is Raw { kw_fixed(self).drop_last() } else { kw_fixed(self).drop_last().drop_last() }));
    }
@before let mut inner
    let ghost hf = hw_fixed(hmacw);
    let ghost ha = hmacw.acc();
    proof {
        assert(hf == kw_below(kw_fixed(self)));
        assert(hf.take(hf.len() - 3) =~= hmacw.inner.fixed());
        assert(hf[hf.len() - 2] == hmacw.hmac_key.0@);
        assert(hf[hf.len() - 3] == hw_base(hmacw));
    }
@before inner.flush
    proof {
        assert(hw_out(hf, ha, inner.acc()));
        assert(ew_out(ef, ea, inner.acc()));
        assert(kw_out(kw_fixed(self), kw_acc(self), inner.acc()));
    }

@fn block_cipher_write_stream
@call Box::new => box_bw
@spec
    requires inner.sound()
    ensures
        r is Ok <==> key_ok::<C>(key.0@.len()) && iv@.len() == 16,
        r matches Ok(s) ==> {
            &&& s.sound()
            &&& s is Block
            &&& s.acc() == Seq::<u8>::empty()
            &&& s.fixed() == inner.fixed().push(inner.acc()).push(cid::<C>()).push(key.0@).push(iv@).push(seq![0u8])
            &&& s.steady() == inner.steady()
        }

@prelude
/// the fixed part of a new writer for KDBX 4 content
pub open spec fn ew_start(below: Seq<Seq<u8>>, ck: Seq<u8>, c: binary::Cipher, iv: Seq<u8>) -> Seq<Seq<u8>> {
    let e = below.push(Seq::<u8>::empty());
    match c {
        binary::Cipher::Aes256 => e.push(cid::<Aes256>()).push(ck).push(iv).push(seq![0u8]),
        binary::Cipher::Aes128 => e.push(cid::<Aes128>()).push(ck).push(iv).push(seq![0u8]),
        binary::Cipher::TwoFish => e.push(cid::<Twofish>()).push(ck).push(iv).push(seq![0u8]),
        _ => e.push(chacha_id(ck, iv)).push(seq![1u8]),
    }
}
pub open spec fn kw_start(dest: Seq<Seq<u8>>, at: Seq<u8>, layer: bool, hk: Seq<u8>, ck: Seq<u8>, c: binary::Cipher, iv: Seq<u8>, z: binary::CompressionType) -> Seq<Seq<u8>> {
    let e = ew_start(dest.push(at).push(hk).push(bit(layer)), ck, c, iv);
    match z {
        binary::CompressionType::None => e.push(bit(false)),
        _ => e.push(Seq::<u8>::empty()).push(bit(true)),
    }
}
/// `body` is a KDBX 4 body for the content
pub open spec fn is_body4(body: Seq<u8>, hk: Seq<u8>, ck: Seq<u8>, c: binary::Cipher, iv: Seq<u8>, z: binary::CompressionType, content: Seq<u8>) -> bool {
    match z {
        binary::CompressionType::None => is_stream(hk, body, encrypted(c, ck, iv, content)),
        _ => exists|p: Seq<u8>| #[trigger] gunzip(p) == (content, true) && is_stream(hk, body, encrypted(c, ck, iv, p)),
    }
}
proof fn lemma_ew_out(below: Seq<Seq<u8>>, ck: Seq<u8>, c: binary::Cipher, iv: Seq<u8>, acc: Seq<u8>, out: Seq<u8>)
    requires ew_out(ew_start(below, ck, c, iv), acc, out), below.len() >= 3, !(c is Unknown)
    ensures ew_below(ew_start(below, ck, c, iv)) == below, hw_out(below, encrypted(c, ck, iv, acc), out)
{
    let f = ew_start(below, ck, c, iv);
    let g = f.drop_last();
    assert(ew_below(f) =~= below);
    if c is ChaCha20 {
        assert(sw_final(g, acc) =~= encrypted(c, ck, iv, acc));
    } else {
        assert(bw_final(g, acc) =~= encrypted(c, ck, iv, acc));
    }
}
/// what a finished writer for KDBX 4 content has handed to its destination
pub proof fn lemma_kw_out(dest: Seq<Seq<u8>>, at: Seq<u8>, layer: bool, hk: Seq<u8>, ck: Seq<u8>, c: binary::Cipher, iv: Seq<u8>, z: binary::CompressionType, content: Seq<u8>, out: Seq<u8>)
    requires kw_out(kw_start(dest, at, layer, hk, ck, c, iv, z), content, out), !(c is Unknown), compression_ok(z)
    ensures
        kw_below(kw_start(dest, at, layer, hk, ck, c, iv, z)) == dest.push(at).push(hk).push(bit(layer)),
        exists|body: Seq<u8>| is_body4(body, hk, ck, c, iv, z, content) && out == #[trigger] (at + body),
{
    let k = kw_start(dest, at, layer, hk, ck, c, iv, z);
    let below = dest.push(at).push(hk).push(bit(layer));
    let e = ew_start(below, ck, c, iv);
    if z is None {
        assert(k.drop_last() =~= e);
        lemma_ew_out(below, ck, c, iv, content, out);
        let s = choose|s: Seq<u8>| is_stream(hk, s, encrypted(c, ck, iv, content)) && out == #[trigger] (at + s);
        assert(is_body4(s, hk, ck, c, iv, z, content) && out == at + s);
    } else {
        assert(k.drop_last().drop_last() =~= e);
        assert(k.drop_last().last() =~= Seq::<u8>::empty());
        let p = choose|p: Seq<u8>| #[trigger] gunzip(p) == (content, true) && ew_out(k.drop_last().drop_last(), k.drop_last().last() + p, out);
        assert(Seq::<u8>::empty() + p =~= p);
        lemma_ew_out(below, ck, c, iv, p, out);
        let s = choose|s: Seq<u8>| is_stream(hk, s, encrypted(c, ck, iv, p)) && out == #[trigger] (at + s);
        assert(is_body4(s, hk, ck, c, iv, z, content) && out == at + s);
    }
}
/// a body reads back as its content
pub proof fn lemma_body4_reads_back(body: Seq<u8>, hk: Seq<u8>, ck: Seq<u8>, c: binary::Cipher, iv: Seq<u8>, z: binary::CompressionType, content: Seq<u8>)
    requires is_body4(body, hk, ck, c, iv, z, content), !(c is Unknown), compression_ok(z)
    ensures plain4(body, hk, ck, c, iv, z) == (content, true)
{
    let p = if z is None { content } else {
        choose|p: Seq<u8>| #[trigger] gunzip(p) == (content, true) && is_stream(hk, body, encrypted(c, ck, iv, p))
    };
    lemma_stream_reads_back(hk, body, encrypted(c, ck, iv, p));
    match c {
        binary::Cipher::Aes256 => lemma_cbc_reads_back(cid::<Aes256>(), ck, iv, p),
        binary::Cipher::Aes128 => lemma_cbc_reads_back(cid::<Aes128>(), ck, iv, p),
        binary::Cipher::TwoFish => lemma_cbc_reads_back(cid::<Twofish>(), ck, iv, p),
        _ => lemma_xored_twice(chacha_id(ck, iv), 0, p),
    }
}

@fn kdbx4_write_stream
@call Box::new => box_sw
@spec
    requires inner.sound()
    ensures
        r matches Ok(s) ==> {
            &&& cipher_ok(cipher, cipher_key.0@.len(), iv@.len()) && compression_ok(compression)
            &&& s.sound()
            &&& s.acc() == Seq::<u8>::empty()
            &&& s.fixed() == kw_start(inner.fixed(), inner.acc(), inner.layer(), hmac_key.0@, cipher_key.0@, cipher, iv@, compression)
            &&& s.steady() == inner.steady()
        },
        inner.steady() && cipher_ok(cipher, cipher_key.0@.len(), iv@.len()) && compression_ok(compression) ==> r is Ok,
