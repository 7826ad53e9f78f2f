//! An independent implementation of the KDBX 3 and 4 container formats,
//! written from the format description on the primitive crates only. It is the
//! oracle for everything that crosses the archive boundary.
use aes::cipher::generic_array::GenericArray;
use aes::cipher::{BlockDecrypt, BlockEncrypt, KeyInit, KeyIvInit, StreamCipher};
use hmac::{Hmac, Mac};
use sha2::{Digest, Sha256, Sha512};
use std::io::{Read, Write};

pub const AES256: [u8; 16] = [
    0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50, 0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff,
];
pub const AES128: [u8; 16] = [
    0x61, 0xab, 0x05, 0xa1, 0x94, 0x64, 0x41, 0xc3, 0x8d, 0x74, 0x3a, 0x56, 0x3d, 0xf8, 0xdd, 0x35,
];
pub const TWOFISH: [u8; 16] = [
    0xad, 0x68, 0xf2, 0x9f, 0x57, 0x6f, 0x4b, 0xb9, 0xa3, 0x6a, 0xd4, 0x7a, 0xf9, 0x65, 0x34, 0x6c,
];
pub const CHACHA: [u8; 16] = [
    0xd6, 0x03, 0x8a, 0x2b, 0x8b, 0x6f, 0x4c, 0xb5, 0xa5, 0x24, 0x33, 0x9a, 0x31, 0xdb, 0xb5, 0x9a,
];
pub const KDF_AES3: [u8; 16] = [
    0xc9, 0xd9, 0xf3, 0x9a, 0x62, 0x8a, 0x44, 0x60, 0xbf, 0x74, 0x0d, 0x08, 0xc1, 0x8a, 0x4f, 0xea,
];
pub const KDF_AES4: [u8; 16] = [
    0x7c, 0x02, 0xbb, 0x82, 0x79, 0xa7, 0x4a, 0xc0, 0x92, 0x7d, 0x11, 0x4a, 0x00, 0x64, 0x82, 0x38,
];
pub const KDF_A2D: [u8; 16] = [
    0xef, 0x63, 0x6d, 0xdf, 0x8c, 0x29, 0x44, 0x4b, 0x91, 0xf7, 0xa9, 0xa4, 0x03, 0xe3, 0x0a, 0x0c,
];
pub const KDF_A2ID: [u8; 16] = [
    0x9e, 0x29, 0x8b, 0x19, 0x56, 0xdb, 0x47, 0x73, 0xb2, 0x3d, 0xfc, 0x3e, 0xc6, 0xf0, 0xa1, 0xe6,
];

pub fn sha256(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}
pub fn sha512(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha512::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}
pub fn hmac256(key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let mut h = <Hmac<Sha256> as Mac>::new_from_slice(key).unwrap();
    for p in parts {
        Mac::update(&mut h, p);
    }
    h.finalize().into_bytes().to_vec()
}

#[derive(Clone, Debug, Default)]
pub struct Creds {
    pub pw: Option<String>,
    pub kf: Option<Vec<u8>>,
}
impl Creds {
    pub fn pw(p: &str) -> Creds {
        Creds { pw: Some(p.into()), kf: None }
    }
    pub fn composed(&self) -> Vec<u8> {
        let mut all = vec![];
        if let Some(p) = &self.pw {
            all.extend(sha256(&[p.as_bytes()]));
        }
        if let Some(k) = &self.kf {
            all.extend(sha256(&[k]));
        }
        sha256(&[&all])
    }
    pub fn lib(&self) -> kdbx_rs::CompositeKey {
        kdbx_rs::CompositeKey::new(self.pw.clone(), self.kf.clone())
    }
}

#[derive(Clone, Debug)]
pub enum Kdf {
    Argon2 { id: bool, version: u32, mem: u64, iters: u64, lanes: u32, salt: Vec<u8> },
    Aes { rounds: u64, salt: Vec<u8>, old_uuid: bool },
}
impl Kdf {
    pub fn aes(rounds: u64) -> Kdf {
        Kdf::Aes { rounds, salt: (0..32).map(|i| i * 7 + 1).collect(), old_uuid: false }
    }
    pub fn master(&self, composed: &[u8]) -> Vec<u8> {
        match self {
            Kdf::Argon2 { id, version, mem, iters, lanes, salt } => {
                let c = argon2::Config {
                    ad: &[],
                    hash_length: 32,
                    lanes: *lanes,
                    mem_cost: (*mem / 1024) as u32,
                    secret: &[],
                    time_cost: *iters as u32,
                    variant: if *id { argon2::Variant::Argon2id } else { argon2::Variant::Argon2d },
                    version: if *version == 0x10 { argon2::Version::Version10 } else { argon2::Version::Version13 },
                };
                argon2::hash_raw(composed, salt, &c).unwrap()
            }
            Kdf::Aes { rounds, salt, .. } => aes_kdf(composed, salt, *rounds),
        }
    }
    pub fn dict(&self) -> Vec<u8> {
        let mut d = Dict::new();
        match self {
            Kdf::Argon2 { id, version, mem, iters, lanes, salt } => {
                d.put(0x42, "$UUID", if *id { &KDF_A2ID } else { &KDF_A2D });
                d.put(0x42, "S", salt);
                d.put(0x04, "P", &lanes.to_le_bytes());
                d.put(0x05, "M", &mem.to_le_bytes());
                d.put(0x05, "I", &iters.to_le_bytes());
                d.put(0x04, "V", &version.to_le_bytes());
            }
            Kdf::Aes { rounds, salt, old_uuid } => {
                d.put(0x42, "$UUID", if *old_uuid { &KDF_AES3 } else { &KDF_AES4 });
                d.put(0x05, "R", &rounds.to_le_bytes());
                d.put(0x42, "S", salt);
            }
        }
        d.end()
    }
    pub fn lib(&self) -> kdbx_rs::binary::KdfParams {
        match self.clone() {
            Kdf::Argon2 { id, version, mem, iters, lanes, salt } => kdbx_rs::binary::KdfParams::Argon2 {
                variant: if id { argon2::Variant::Argon2id } else { argon2::Variant::Argon2d },
                memory_bytes: mem,
                version,
                salt,
                lanes,
                iterations: iters,
            },
            Kdf::Aes { rounds, salt, .. } => kdbx_rs::binary::KdfParams::Aes { rounds, salt },
        }
    }
}

pub fn aes_kdf(composed: &[u8], seed: &[u8], rounds: u64) -> Vec<u8> {
    let c = aes::Aes256::new_from_slice(seed).unwrap();
    let mut a = GenericArray::clone_from_slice(&composed[..16]);
    let mut b = GenericArray::clone_from_slice(&composed[16..]);
    for _ in 0..rounds {
        c.encrypt_block(&mut a);
        c.encrypt_block(&mut b);
    }
    sha256(&[&a, &b])
}

/// variant dictionary builder
pub struct Dict(pub Vec<u8>);
impl Dict {
    pub fn new() -> Dict {
        Dict(vec![0, 1])
    }
    pub fn put(&mut self, ty: u8, key: &str, val: &[u8]) {
        self.0.push(ty);
        self.0.extend((key.len() as u32).to_le_bytes());
        self.0.extend(key.as_bytes());
        self.0.extend((val.len() as u32).to_le_bytes());
        self.0.extend(val);
    }
    pub fn end(mut self) -> Vec<u8> {
        self.0.push(0);
        self.0
    }
}
/// strict variant dictionary reader
pub fn dict_parse(b: &[u8]) -> Result<Vec<(u8, String, Vec<u8>)>, String> {
    if b.len() < 2 || b[1] != 1 {
        return Err("dict version".into());
    }
    let mut i = 2;
    let mut out = vec![];
    loop {
        let ty = *b.get(i).ok_or("dict eof")?;
        i += 1;
        if ty == 0 {
            if i != b.len() {
                return Err(format!("{} bytes after dictionary", b.len() - i));
            }
            return Ok(out);
        }
        let mut get = || -> Result<Vec<u8>, String> {
            let l = u32::from_le_bytes(b.get(i..i + 4).ok_or("dict eof")?.try_into().unwrap()) as usize;
            i += 4;
            let v = b.get(i..i + l).ok_or("dict eof")?.to_vec();
            i += l;
            Ok(v)
        };
        let k = String::from_utf8(get()?).map_err(|_| "dict key")?;
        let v = get()?;
        out.push((ty, k, v));
    }
}

pub type Tlv = (u8, Vec<u8>);

pub fn tlv4(fields: &[Tlv]) -> Vec<u8> {
    let mut o = vec![];
    for (t, d) in fields {
        o.push(*t);
        o.extend((d.len() as u32).to_le_bytes());
        o.extend(d);
    }
    o
}
pub fn tlv3(fields: &[Tlv]) -> Vec<u8> {
    let mut o = vec![];
    for (t, d) in fields {
        o.push(*t);
        o.extend((d.len() as u16).to_le_bytes());
        o.extend(d);
    }
    o
}
/// reads TLVs up to and including the terminator (type 0); returns them without it, and the end
pub fn untlv4(b: &[u8], mut i: usize) -> Result<(Vec<Tlv>, usize), String> {
    let mut out = vec![];
    loop {
        let t = *b.get(i).ok_or("header eof")?;
        let l = u32::from_le_bytes(b.get(i + 1..i + 5).ok_or("header eof")?.try_into().unwrap()) as usize;
        let d = b.get(i + 5..i + 5 + l).ok_or("header eof")?.to_vec();
        i += 5 + l;
        if t == 0 {
            return Ok((out, i));
        }
        out.push((t, d));
    }
}

pub fn signature(major: u16, minor: u16) -> Vec<u8> {
    let mut o = vec![0x03, 0xd9, 0xa2, 0x9a, 0x67, 0xfb, 0x4b, 0xb5];
    o.extend(minor.to_le_bytes());
    o.extend(major.to_le_bytes());
    o
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ci {
    Aes,
    Twofish,
    ChaCha,
}
pub const CIPHERS: [Ci; 3] = [Ci::Aes, Ci::Twofish, Ci::ChaCha];
impl Ci {
    pub fn uuid(self) -> [u8; 16] {
        match self {
            Ci::Aes => AES256,
            Ci::Twofish => TWOFISH,
            Ci::ChaCha => CHACHA,
        }
    }
    pub fn lib(self) -> kdbx_rs::binary::Cipher {
        match self {
            Ci::Aes => kdbx_rs::binary::Cipher::Aes256,
            Ci::Twofish => kdbx_rs::binary::Cipher::TwoFish,
            Ci::ChaCha => kdbx_rs::binary::Cipher::ChaCha20,
        }
    }
    pub fn ivlen(self) -> usize {
        if self == Ci::ChaCha { 12 } else { 16 }
    }
}

fn cbc<C: BlockEncrypt + BlockDecrypt + aes::cipher::BlockSizeUser<BlockSize = aes::cipher::consts::U16>>(
    c: &C,
    iv: &[u8],
    data: &[u8],
    enc: bool,
) -> Vec<u8> {
    let mut prev = iv.to_vec();
    let mut out = Vec::with_capacity(data.len());
    for ch in data.chunks(16) {
        let mut b = GenericArray::clone_from_slice(ch);
        if enc {
            for i in 0..16 {
                b[i] ^= prev[i];
            }
            c.encrypt_block(&mut b);
            prev = b.to_vec();
        } else {
            c.decrypt_block(&mut b);
            for i in 0..16 {
                b[i] ^= prev[i];
            }
            prev = ch.to_vec();
        }
        out.extend_from_slice(&b);
    }
    out
}

pub fn pad(data: &[u8]) -> Vec<u8> {
    let n = 16 - data.len() % 16;
    let mut d = data.to_vec();
    d.extend(std::iter::repeat(n as u8).take(n));
    d
}

/// raw cipher without padding handling
pub fn raw(ci: Ci, key: &[u8], iv: &[u8], data: &[u8], enc: bool) -> Vec<u8> {
    match ci {
        Ci::Aes => cbc(&aes::Aes256::new_from_slice(key).unwrap(), iv, data, enc),
        Ci::Twofish => cbc(&<twofish::Twofish as KeyInit>::new_from_slice(key).unwrap(), iv, data, enc),
        Ci::ChaCha => {
            let mut c = chacha20::ChaCha20::new_from_slices(key, iv).unwrap();
            let mut d = data.to_vec();
            c.apply_keystream(&mut d);
            d
        }
    }
}
pub fn encrypt(ci: Ci, key: &[u8], iv: &[u8], plain: &[u8]) -> Vec<u8> {
    if ci == Ci::ChaCha {
        raw(ci, key, iv, plain, true)
    } else {
        raw(ci, key, iv, &pad(plain), true)
    }
}
pub fn decrypt(ci: Ci, key: &[u8], iv: &[u8], data: &[u8]) -> Result<Vec<u8>, String> {
    if ci == Ci::ChaCha {
        return Ok(raw(ci, key, iv, data, false));
    }
    if data.is_empty() || data.len() % 16 != 0 {
        return Err(format!("ciphertext of {} bytes", data.len()));
    }
    let mut p = raw(ci, key, iv, data, false);
    let n = *p.last().unwrap() as usize;
    if n == 0 || n > 16 || p[p.len() - n..].iter().any(|b| *b as usize != n) {
        return Err("PKCS#7 padding".into());
    }
    p.truncate(p.len() - n);
    Ok(p)
}

pub fn crc32(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
        }
    }
    !c
}
/// gzip member with stored (uncompressed) deflate blocks of at most `n` bytes
pub fn gz_stored(d: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
    let n = n.clamp(1, 65535);
    let chunks: Vec<&[u8]> = if d.is_empty() { vec![&d[..]] } else { d.chunks(n).collect() };
    for (i, c) in chunks.iter().enumerate() {
        o.push((i + 1 == chunks.len()) as u8);
        o.extend((c.len() as u16).to_le_bytes());
        o.extend((!(c.len() as u16)).to_le_bytes());
        o.extend(*c);
    }
    o.extend(crc32(d).to_le_bytes());
    o.extend((d.len() as u32).to_le_bytes());
    o
}
pub fn gz(d: &[u8]) -> Vec<u8> {
    let mut e = libflate::gzip::Encoder::new(Vec::new()).unwrap();
    e.write_all(d).unwrap();
    e.finish().into_result().unwrap()
}
pub fn ungz(d: &[u8]) -> Result<Vec<u8>, String> {
    let mut rest = d;
    let mut out = vec![];
    libflate::gzip::Decoder::new(&mut rest)
        .map_err(|e| e.to_string())?
        .read_to_end(&mut out)
        .map_err(|e| e.to_string())?;
    if !rest.is_empty() {
        return Err(format!("{} bytes after the gzip member", rest.len()));
    }
    Ok(out)
}

pub fn block_key(seed: &[u8], mk: &[u8], idx: u64) -> Vec<u8> {
    let hk = sha512(&[seed, mk, &[1]]);
    sha512(&[&idx.to_le_bytes(), &hk])
}
pub fn hmac_block(seed: &[u8], mk: &[u8], idx: u64, data: &[u8]) -> Vec<u8> {
    let tag = hmac256(
        &block_key(seed, mk, idx),
        &[&idx.to_le_bytes(), &(data.len() as u32).to_le_bytes(), data],
    );
    let mut o = tag;
    o.extend((data.len() as u32).to_le_bytes());
    o.extend(data);
    o
}

/// Everything needed to produce a KDBX 4 archive
#[derive(Clone, Debug)]
pub struct V4 {
    pub minor: u16,
    pub ci: Ci,
    pub gzip: u8, // 0 none, 1 libflate, 2 stored
    pub seed: Vec<u8>,
    pub iv: Vec<u8>,
    pub kdf: Kdf,
    pub extra: Vec<Tlv>,       // outer fields put first
    pub outer: Option<Vec<Tlv>>, // replaces all outer fields (no terminator)
    pub inner_id: u32,
    pub inner_key: Vec<u8>,
    pub inner_extra: Vec<Tlv>,
    pub inner: Option<Vec<Tlv>>,
    pub block: usize, // block size
    pub blocks: Option<Vec<usize>>,
    pub creds: Creds,
}
impl V4 {
    pub fn new(ci: Ci, gzip: u8) -> V4 {
        V4 {
            minor: 0,
            ci,
            gzip,
            seed: (0..32).map(|i| (i * 5 + 3) as u8).collect(),
            iv: (0..ci.ivlen()).map(|i| (i * 3 + 9) as u8).collect(),
            kdf: Kdf::aes(3),
            extra: vec![],
            outer: None,
            inner_id: 3,
            inner_key: (0..64).map(|i| (i * 11 + 5) as u8).collect(),
            inner_extra: vec![],
            inner: None,
            block: 1 << 20,
            blocks: None,
            creds: Creds::pw("pass"),
        }
    }
    pub fn outer_fields(&self) -> Vec<Tlv> {
        if let Some(o) = &self.outer {
            return o.clone();
        }
        let mut f = self.extra.clone();
        f.push((2, self.ci.uuid().to_vec()));
        f.push((3, (if self.gzip > 0 { 1u32 } else { 0 }).to_le_bytes().to_vec()));
        f.push((4, self.seed.clone()));
        f.push((7, self.iv.clone()));
        f.push((11, self.kdf.dict()));
        f
    }
    pub fn header(&self) -> Vec<u8> {
        let mut o = signature(4, self.minor);
        let mut f = self.outer_fields();
        f.push((0, vec![13, 10, 13, 10]));
        o.extend(tlv4(&f));
        o
    }
    pub fn inner_fields(&self) -> Vec<Tlv> {
        if let Some(o) = &self.inner {
            return o.clone();
        }
        let mut f = vec![(1, self.inner_id.to_le_bytes().to_vec()), (2, self.inner_key.clone())];
        f.extend(self.inner_extra.clone());
        f
    }
    pub fn content(&self, xml: &[u8]) -> Vec<u8> {
        let mut f = self.inner_fields();
        f.push((0, vec![]));
        let mut o = tlv4(&f);
        o.extend(xml);
        o
    }
    pub fn mk(&self) -> Vec<u8> {
        self.kdf.master(&self.creds.composed())
    }
    /// archive whose decrypted, decompressed content is exactly `content`
    pub fn seal_content(&self, content: &[u8]) -> Vec<u8> {
        let comp = match self.gzip {
            0 => content.to_vec(),
            1 => gz(content),
            _ => gz_stored(content, 4096),
        };
        let mk = self.mk();
        let ct = encrypt(self.ci, &sha256(&[&self.seed, &mk]), &self.iv, &comp);
        self.seal_cipher(&ct)
    }
    /// archive whose ciphertext is exactly `ct`
    pub fn seal_cipher(&self, ct: &[u8]) -> Vec<u8> {
        let mut parts: Vec<&[u8]> = vec![];
        let mut rest = ct;
        if let Some(bs) = &self.blocks {
            for b in bs {
                let n = (*b).min(rest.len());
                if n > 0 {
                    parts.push(&rest[..n]);
                }
                rest = &rest[n..];
            }
        }
        parts.extend(rest.chunks(self.block));
        self.seal_blocks(&parts)
    }
    pub fn seal_blocks(&self, parts: &[&[u8]]) -> Vec<u8> {
        let mk = self.mk();
        let mut o = self.head_with_codes(&self.header(), &mk);
        for (i, p) in parts.iter().enumerate() {
            o.extend(hmac_block(&self.seed, &mk, i as u64, p));
        }
        o.extend(hmac_block(&self.seed, &mk, parts.len() as u64, &[]));
        o
    }
    pub fn head_with_codes(&self, header: &[u8], mk: &[u8]) -> Vec<u8> {
        let mut o = header.to_vec();
        o.extend(sha256(&[header]));
        o.extend(hmac256(&block_key(&self.seed, mk, u64::MAX), &[header]));
        o
    }
    pub fn seal(&self, xml: &[u8]) -> Vec<u8> {
        self.seal_content(&self.content(xml))
    }
    pub fn stream(&self) -> Ks {
        Ks::new(self.inner_id, &self.inner_key)
    }
}

/// What an independent reader finds in a KDBX 4 archive
#[derive(Debug, Clone, PartialEq)]
pub struct Opened {
    pub major: u16,
    pub minor: u16,
    pub outer: Vec<Tlv>,
    pub header_len: usize,
    pub block_sizes: Vec<usize>,
    pub ciphertext: Vec<u8>,
    pub compressed: Vec<u8>,
    pub content: Vec<u8>,
    pub inner: Vec<Tlv>,
    pub xml: Vec<u8>,
}

fn last<'a>(f: &'a [Tlv], t: u8) -> Result<&'a Vec<u8>, String> {
    f.iter().rev().find(|x| x.0 == t).map(|x| &x.1).ok_or(format!("field {} missing", t))
}

pub fn kdf_of(dict: &[u8]) -> Result<Kdf, String> {
    let d = dict_parse(dict)?;
    let get = |k: &str, ty: u8| -> Result<Vec<u8>, String> {
        let v = d.iter().find(|x| x.1 == k).ok_or(format!("KDF parameter {} missing", k))?;
        if v.0 != ty {
            return Err(format!("KDF parameter {} has type {:#x}", k, v.0));
        }
        Ok(v.2.clone())
    };
    let u64v = |k: &str| -> Result<u64, String> { Ok(u64::from_le_bytes(get(k, 5)?.try_into().map_err(|_| "len")?)) };
    let u32v = |k: &str| -> Result<u32, String> { Ok(u32::from_le_bytes(get(k, 4)?.try_into().map_err(|_| "len")?)) };
    let id = get("$UUID", 0x42)?;
    if id == KDF_A2D || id == KDF_A2ID {
        Ok(Kdf::Argon2 {
            id: id == KDF_A2ID,
            version: u32v("V")?,
            mem: u64v("M")?,
            iters: u64v("I")?,
            lanes: u32v("P")?,
            salt: get("S", 0x42)?,
        })
    } else if id == KDF_AES4 || id == KDF_AES3 {
        Ok(Kdf::Aes { rounds: u64v("R")?, salt: get("S", 0x42)?, old_uuid: id == KDF_AES3 })
    } else {
        Err(format!("KDF {:?}", id))
    }
}

pub fn open4(b: &[u8], creds: &Creds) -> Result<Opened, String> {
    if b.len() < 12 || b[..8] != signature(4, 0)[..8] {
        return Err("signature".into());
    }
    let minor = u16::from_le_bytes([b[8], b[9]]);
    let major = u16::from_le_bytes([b[10], b[11]]);
    if major != 4 {
        return Err(format!("major version {}", major));
    }
    let (outer, end) = untlv4(b, 12)?;
    let header = &b[..end];
    let hash = b.get(end..end + 32).ok_or("eof in header hash")?;
    if hash != &sha256(&[header])[..] {
        return Err("header SHA-256".into());
    }
    let seed = last(&outer, 4)?;
    let iv = last(&outer, 7)?;
    let mk = kdf_of(last(&outer, 11)?)?.master(&creds.composed());
    let tag = b.get(end + 32..end + 64).ok_or("eof in header HMAC")?;
    if tag != &hmac256(&block_key(seed, &mk, u64::MAX), &[header])[..] {
        return Err("header HMAC".into());
    }
    let mut i = end + 64;
    let mut idx = 0u64;
    let mut ct = vec![];
    let mut block_sizes = vec![];
    loop {
        let tag = b.get(i..i + 32).ok_or("eof in block HMAC")?;
        let l = u32::from_le_bytes(b.get(i + 32..i + 36).ok_or("eof in block length")?.try_into().unwrap()) as usize;
        let d = b.get(i + 36..i + 36 + l).ok_or("eof in block")?;
        if tag != &hmac_block(seed, &mk, idx, d)[..32] {
            return Err(format!("HMAC of block {}", idx));
        }
        i += 36 + l;
        idx += 1;
        if l == 0 {
            break;
        }
        block_sizes.push(l);
        ct.extend(d);
    }
    if i != b.len() {
        return Err(format!("{} bytes after the end block", b.len() - i));
    }
    let cid = last(&outer, 2)?;
    let ci = *CIPHERS.iter().find(|c| c.uuid()[..] == cid[..]).ok_or("cipher")?;
    let compressed = decrypt(ci, &sha256(&[seed, &mk]), iv, &ct)?;
    let content = match last(&outer, 3)?[..] {
        [0, 0, 0, 0] => compressed.clone(),
        [1, 0, 0, 0] => ungz(&compressed)?,
        _ => return Err("compression".into()),
    };
    let (inner, at) = untlv4(&content, 0)?;
    let xml = content[at..].to_vec();
    Ok(Opened { major, minor, outer, header_len: end, block_sizes, ciphertext: ct, compressed, content, inner, xml })
}

/// inner key stream
pub enum Ks {
    ChaCha(Box<chacha20::ChaCha20>),
    Salsa(Box<salsa20::Salsa20>),
}
impl Ks {
    pub fn new(id: u32, key: &[u8]) -> Ks {
        if id == 3 {
            let h = sha512(&[key]);
            Ks::ChaCha(Box::new(chacha20::ChaCha20::new_from_slices(&h[..32], &h[32..44]).unwrap()))
        } else {
            let h = sha256(&[key]);
            Ks::Salsa(Box::new(
                salsa20::Salsa20::new_from_slices(&h, &[0xE8, 0x30, 0x09, 0x4B, 0x97, 0x20, 0x5D, 0x2A]).unwrap(),
            ))
        }
    }
    pub fn apply(&mut self, d: &[u8]) -> Vec<u8> {
        let mut v = d.to_vec();
        match self {
            Ks::ChaCha(c) => c.apply_keystream(&mut v),
            Ks::Salsa(c) => c.apply_keystream(&mut v),
        }
        v
    }
}

#[derive(Clone, Debug)]
pub struct V3 {
    pub minor: u16,
    pub ci: Ci,
    pub gzip: u8,
    pub seed: Vec<u8>,
    pub tseed: Vec<u8>,
    pub rounds: u64,
    pub iv: Vec<u8>,
    pub start: Vec<u8>,
    pub psk: Vec<u8>,
    pub inner_id: u32,
    pub extra: Vec<Tlv>,
    pub outer: Option<Vec<Tlv>>,
    pub blocks: Vec<usize>,
    pub creds: Creds,
}
impl V3 {
    pub fn new(ci: Ci, gzip: u8) -> V3 {
        V3 {
            minor: 1,
            ci,
            gzip,
            seed: (0..32).map(|i| (i * 5 + 1) as u8).collect(),
            tseed: (0..32).map(|i| (i * 9 + 2) as u8).collect(),
            rounds: 3,
            iv: (0..ci.ivlen()).map(|i| (i * 3 + 9) as u8).collect(),
            start: (0..32).map(|i| (i * 13 + 4) as u8).collect(),
            psk: (0..32).map(|i| (i * 17 + 6) as u8).collect(),
            inner_id: 2,
            extra: vec![],
            outer: None,
            blocks: vec![],
            creds: Creds::pw("pass"),
        }
    }
    pub fn outer_fields(&self) -> Vec<Tlv> {
        if let Some(o) = &self.outer {
            return o.clone();
        }
        let mut f = self.extra.clone();
        f.push((2, self.ci.uuid().to_vec()));
        f.push((3, (if self.gzip > 0 { 1u32 } else { 0 }).to_le_bytes().to_vec()));
        f.push((4, self.seed.clone()));
        f.push((5, self.tseed.clone()));
        f.push((6, self.rounds.to_le_bytes().to_vec()));
        f.push((7, self.iv.clone()));
        f.push((8, self.psk.clone()));
        f.push((9, self.start.clone()));
        f.push((10, self.inner_id.to_le_bytes().to_vec()));
        f
    }
    pub fn header(&self) -> Vec<u8> {
        let mut o = signature(3, self.minor);
        let mut f = self.outer_fields();
        f.push((0, vec![13, 10, 13, 10]));
        o.extend(tlv3(&f));
        o
    }
    pub fn key(&self) -> Vec<u8> {
        sha256(&[&self.seed, &aes_kdf(&self.creds.composed(), &self.tseed, self.rounds)])
    }
    /// hashed blocks: (index, hash, length, data) and the end marker
    pub fn frame(&self, data: &[u8]) -> Vec<u8> {
        let mut o = vec![];
        let mut rest = data;
        let mut idx = 0u32;
        let mut sizes = self.blocks.iter();
        while !rest.is_empty() {
            let n = (*sizes.next().unwrap_or(&(1 << 20))).clamp(1, rest.len());
            o.extend(idx.to_le_bytes());
            o.extend(sha256(&[&rest[..n]]));
            o.extend((n as u32).to_le_bytes());
            o.extend(&rest[..n]);
            rest = &rest[n..];
            idx += 1;
        }
        o.extend(idx.to_le_bytes());
        o.extend([0; 32]);
        o.extend(0u32.to_le_bytes());
        o
    }
    pub fn comp(&self, content: &[u8]) -> Vec<u8> {
        match self.gzip {
            0 => content.to_vec(),
            1 => gz(content),
            _ => gz_stored(content, 3000),
        }
    }
    pub fn seal(&self, xml: &[u8]) -> Vec<u8> {
        self.seal_frames(&self.frame(&self.comp(xml)))
    }
    /// archive with the given bytes after the start bytes
    pub fn seal_frames(&self, frames: &[u8]) -> Vec<u8> {
        let mut p = self.start.clone();
        p.extend(frames);
        self.seal_plain(&p)
    }
    pub fn seal_plain(&self, p: &[u8]) -> Vec<u8> {
        let mut o = self.header();
        o.extend(encrypt(self.ci, &self.key(), &self.iv, p));
        o
    }
    pub fn stream(&self) -> Ks {
        Ks::new(self.inner_id, &self.psk)
    }
}
