//! Properties observed at the archive boundary.
use crate::model::*;
use crate::refk::*;
use crate::Jobs;
use kdbx_rs::binary::{
    Cipher, CompressionType, InnerStreamCipherAlgorithm, KdfParams, Locked, OuterHeaderId, Unlocked, VariantDictValue,
};
use kdbx_rs::Kdbx;
use std::io::{self, Read, Write};

type R = Result<(), String>;

pub fn open(b: &[u8]) -> Result<Kdbx<Locked>, String> {
    kdbx_rs::from_reader(b).map_err(|e| format!("opening failed: {}", e))
}
pub fn unlock(b: &[u8], c: &Creds) -> Result<Kdbx<Unlocked>, String> {
    open(b)?.unlock(&c.lib()).map_err(|e| format!("unlocking failed: {}", e.1))
}
pub fn save(k: &Kdbx<Unlocked>) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    k.write(&mut v).map_err(|e| format!("saving failed: {}", e))?;
    Ok(v)
}
pub fn must_err<T, E>(r: Result<T, E>, what: &str) -> R {
    crate::evaluated(what, &[]);
    match r {
        Ok(_) => Err(format!("{} was accepted", what)),
        Err(_) => Ok(()),
    }
}
pub fn check(b: bool, what: impl AsRef<str>) -> R {
    crate::evaluated(what.as_ref(), &[]);
    if b {
        Ok(())
    } else {
        Err(what.as_ref().to_string())
    }
}
/// a small document and the database in it
pub fn doc(seed: u64, ks: &mut Ks) -> (MDb, String) {
    let mut r = Rng::new(seed);
    let mut d = db(&mut r, 1);
    d.root.entries.push(MEntry {
        uuid: uuid(&mut r),
        times: times(&mut r),
        fields: vec![MField { key: "Password".into(), val: Some(format!("secret {}", seed)), prot: true }],
        history: vec![],
    });
    let x = xml_of(&d, ks, &mut r, false, false);
    (d, x)
}
fn same_db(want: &MDb, k: &Kdbx<Unlocked>) -> R {
    diff("database", &want.canon(), &MDb::of(k.database()))
}
fn creds(i: usize) -> Creds {
    match i % 7 {
        0 => Creds::pw("pass"),
        1 => Creds { pw: None, kf: Some(vec![7; 32]) },
        2 => Creds { pw: Some("pässwörd ".into()), kf: Some(b"key file\0\n".to_vec()) },
        3 => Creds::pw(""),
        4 => Creds { pw: Some("x".repeat(200)), kf: Some((0..=255).collect()) },
        5 => Creds { pw: Some("p".into()), kf: Some(vec![]) },
        _ => Creds { pw: None, kf: Some(vec![0; 100]) },
    }
}
fn kdf(i: usize, r: &mut Rng) -> Kdf {
    let salt = r.data(32);
    match i % 5 {
        0 => Kdf::Aes { rounds: 1 + r.next() % 50, salt, old_uuid: false },
        1 => Kdf::Argon2 { id: false, version: 0x13, mem: 8 * 1024 * 2, iters: 1, lanes: 2, salt },
        2 => Kdf::Argon2 { id: true, version: 0x13, mem: 32 * 1024, iters: 2, lanes: 1, salt },
        3 => Kdf::Argon2 { id: false, version: 0x10, mem: 16 * 1024, iters: 2, lanes: 1, salt },
        _ => Kdf::Argon2 { id: true, version: 0x10, mem: 64 * 1024, iters: 1, lanes: 4, salt },
    }
}
/// an unlocked archive of the library with the given settings
fn made(d: &MDb, ci: Ci, gzip: bool, kdf: &Kdf, inner: u32, c: &Creds, r: &mut Rng) -> Result<Kdbx<Unlocked>, String> {
    let mut k = Kdbx::from_database(d.lib());
    let iv = r.data(ci.ivlen());
    let h = k.header_mut();
    h.cipher = ci.lib();
    h.compression_type = if gzip { CompressionType::Gzip } else { CompressionType::None };
    h.kdf_params = kdf.lib();
    h.encryption_iv = iv;
    let ih = k.inner_header_mut();
    ih.inner_stream_cipher = if inner == 3 { InnerStreamCipherAlgorithm::ChaCha20 } else { InnerStreamCipherAlgorithm::Salsa20 };
    k.set_key(c.lib()).map_err(|e| format!("set_key failed: {}", e))?;
    Ok(k)
}
/// the content an independent reader finds in a saved archive, checked against the database
fn ref_reads(b: &[u8], c: &Creds, want: &MDb) -> Result<Opened, String> {
    let o = open4(b, c).map_err(|e| format!("an independent reader rejects the saved archive: {}", e))?;
    let get = |t: u8| o.inner.iter().rev().find(|x| x.0 == t).map(|x| x.1.clone()).ok_or(format!("inner field {} missing", t));
    let id = u32::from_le_bytes(get(1)?.try_into().map_err(|_| "inner id size".to_string())?);
    let key = get(2)?;
    let e = dom(&o.xml)?;
    let got = DomIn(&mut Ks::new(id, &key)).db(&e)?;
    diff("database found by an independent reader", &want.canon(), &got)?;
    Ok(o)
}

pub fn jobs(p: &str, j: &mut Jobs) {
    match p {
        "C01" => c01(j),
        "C02" => c02(j),
        "C03" => c03(j),
        "C04" => c04(j),
        "C05" => c05(j),
        "C06" => c06(j),
        "C07" => c07(j),
        "C08" => c08(j),
        "C09" => c09(j),
        "C10" => c10(j),
        "C11" => c11(j),
        "C19" => c19(j),
        "C20" => c20(j),
        "C21" => c21(j),
        "C22" => c22(j),
        _ => {}
    }
}

// ---------------------------------------------------------------- C01

fn same_archive(a: &Kdbx<Unlocked>, b: &Kdbx<Unlocked>) -> R {
    diff("outer header", a.header(), b.header())?;
    diff("inner header", a.inner_header(), b.inner_header())?;
    check(
        (a.major_version(), a.minor_version()) == (b.major_version(), b.minor_version()),
        "version differs",
    )
}
fn round_trip(k: &Kdbx<Unlocked>, d: &MDb, c: &Creds) -> Result<(Kdbx<Unlocked>, Vec<u8>), String> {
    let b = save(k)?;
    let k2 = unlock(&b, c)?;
    same_db(d, &k2)?;
    same_archive(k, &k2)?;
    Ok((k2, b))
}
fn c01(j: &mut Jobs) {
    let seed = j.seed;
    for i in 0..j.n(150) {
        j.add(format!("roundtrip-{}", i), move || {
            let mut r = Rng::new(seed * 1000 + i);
            let depth = r.below(4);
            let d = db(&mut r, depth);
            let i = i as usize;
            let c = creds(i);
            let kd = kdf(i / 3, &mut r);
            let k = made(&d, CIPHERS[i % 3], (i / 2) % 2 == 0, &kd, 2 + (i / 5) as u32 % 2, &c, &mut r)?;
            let (k2, _) = round_trip(&k, &d, &c)?;
            // saved again without setting a key anew, after an edit
            let mut k3 = k2;
            let d3 = db(&mut r, 1);
            *k3.database_mut() = d3.lib();
            round_trip(&k3, &d3, &c)?;
            // and with other credentials
            let c2 = creds(i + 1);
            k3.set_key(c2.lib()).map_err(|e| e.to_string())?;
            let (_, b) = round_trip(&k3, &d3, &c2)?;
            must_err(unlock(&b, &c), "the former password")
        });
    }
    for i in 0..WIDE {
        j.add(format!("wide-{}", i), move || {
            let mut r = Rng::new(seed * 7 + i as u64);
            let d = wide(&mut r, i);
            let c = creds(i);
            let k = made(&d, CIPHERS[i % 3], i % 2 == 0, &Kdf::aes(1), 2 + i as u32 % 2, &c, &mut r)?;
            round_trip(&k, &d, &c).map(|_| ())
        });
    }
    // every residue of the content length modulo the cipher block
    for n in 0..34u64 {
        for ci in CIPHERS {
            for gz in [false, true] {
                j.add(format!("residue-{}-{:?}-{}", n, ci, gz), move || {
                    let mut r = Rng::new(seed + n);
                    let mut d = db(&mut r, 0);
                    d.desc = "x".repeat(n as usize);
                    let c = Creds::pw("p");
                    let k = made(&d, ci, gz, &Kdf::aes(1), 3, &c, &mut r)?;
                    round_trip(&k, &d, &c).map(|_| ())
                });
            }
        }
    }
    // content around the 1 MiB block size, by exact length
    let mut targets = vec![];
    for m in [1usize, 2] {
        for o in [-17i64, -16, -15, -1, 0, 1, 16] {
            targets.push((m as i64 * (1 << 20) + o) as usize);
        }
    }
    targets.extend([8191, 8192, 8193, 65535, 65536, 65537, 3 << 20]);
    for t in targets {
        for ci in CIPHERS {
            if ci == Ci::Twofish && !j.thorough {
                continue;
            }
            j.add(format!("content-{}-{:?}", t, ci), move || {
                let (d, k, c) = sized(t, ci, seed)?;
                round_trip(&k, &d, &c).map(|_| ())
            });
        }
    }
    for i in 0..j.n(4) {
        j.add(format!("bulky-gzip-{}", i), move || {
            let mut r = Rng::new(seed * 77 + i);
            let n = 900_000 + r.below(2_000_000);
            let d = bulky(&mut r, n);
            let c = Creds::pw("p");
            let k = made(&d, CIPHERS[i as usize % 3], true, &Kdf::aes(1), 3, &c, &mut r)?;
            round_trip(&k, &d, &c).map(|_| ())
        });
    }
    // archives of other programs: opened, saved and opened again
    for i in 0..j.n(60) {
        j.add(format!("resave-{}", i), move || {
            let mut r = Rng::new(seed * 31 + i);
            let mut v = V4::new(CIPHERS[i as usize % 3], (i % 3) as u8);
            v.minor = [0, 1, 5][i as usize % 3];
            v.creds = creds(i as usize);
            v.kdf = kdf(i as usize, &mut r);
            v.inner_id = 2 + (i % 2) as u32;
            let n = r.below(200);
            v.inner_key = r.data(n);
            v.seed = r.data(32);
            for _ in 0..r.below(5) {
                let id = *r.pick(&[1u8, 12, 13, 77, 255, 5, 6, 8, 10]);
                let n = r.below(400);
                v.extra.push((id, r.data(n)));
            }
            for _ in 0..r.below(5) {
                let id = *r.pick(&[3u8, 4, 200, 255]);
                let n = r.below(3000);
                v.inner_extra.push((id, r.data(n)));
            }
            if i % 10 == 9 {
                for n in 0..300usize {
                    v.inner_extra.push((*r.pick(&[3u8, 4, 200]), r.data(n % 9)));
                    v.extra.push((*r.pick(&[1u8, 12, 77]), r.data(n % 9)));
                }
            }
            let d = db(&mut r, 2);
            let x = xml_of(&d, &mut v.stream(), &mut r, true, false);
            let b = v.seal(x.as_bytes());
            let mut k = unlock(&b, &v.creds)?;
            same_db(&d, &k)?;
            if i % 10 == 9 {
                let h = k.inner_header_mut();
                h.other_headers.extend(h.other_headers.clone());
                let h = k.header_mut();
                h.other_headers.extend(h.other_headers.clone());
            }
            if i % 10 == 4 {
                let h = k.inner_header_mut();
                let f = h.other_headers.clone();
                h.other_headers.extend(f.iter().cycle().take(if f.is_empty() { 0 } else { 100 }).cloned());
            }
            round_trip(&k, &d, &v.creds).map(|_| ())
        });
    }
}

/// an archive whose uncompressed content has exactly `len` bytes
fn sized(len: usize, ci: Ci, seed: u64) -> Result<(MDb, Kdbx<Unlocked>, Creds), String> {
    let mut r = Rng::new(seed);
    let mut d = db(&mut r, 0);
    d.desc = "y".repeat(10);
    d.name.truncate(0);
    d.custom.clear();
    d.root.entries.truncate(0);
    d.root.name = "root".into();
    let c = Creds::pw("p");
    let probe = made(&d, ci, false, &Kdf::aes(1), 3, &c, &mut r)?;
    let have = open4(&save(&probe)?, &c)?.content.len();
    if have > len {
        return Err(format!("cannot make a content of {} bytes", len));
    }
    d.desc = "y".repeat(10 + len - have);
    let k = made(&d, ci, false, &Kdf::aes(1), 3, &c, &mut r)?;
    let got = open4(&save(&k)?, &c)?.content.len();
    check(got == len, format!("content has {} bytes, not {}", got, len))?;
    Ok((d, k, c))
}

// ---------------------------------------------------------------- C02

fn c02_base(ci: Ci, gz: u8, block: usize, seed: u64) -> (V4, Vec<u8>, String) {
    let mut v = V4::new(ci, gz);
    v.block = block;
    v.extra.push((12, b"public".to_vec()));
    v.inner_extra.push((3, vec![1, 2, 3, 4, 5]));
    let (_, x) = doc(seed, &mut v.stream());
    let b = v.seal(x.as_bytes());
    (v, b, x)
}
/// positions of the blocks: (start, data length)
fn blocks(v: &V4, b: &[u8]) -> Vec<(usize, usize)> {
    let mut i = v.header().len() + 64;
    let mut out = vec![];
    while i + 36 <= b.len() {
        let l = u32::from_le_bytes(b[i + 32..i + 36].try_into().unwrap()) as usize;
        out.push((i, l));
        i += 36 + l;
    }
    out
}
fn c02(j: &mut Jobs) {
    let seed = j.seed;
    for ci in CIPHERS {
        for gz in [0u8, 1, 2] {
            for block in [48usize, 512, 1 << 20] {
                j.add(format!("intact-{:?}-{}-{}", ci, gz, block), move || {
                    let (v, b, x) = c02_base(ci, gz, block, seed);
                    let k = unlock(&b, &v.creds)?;
                    check(k.raw_xml() == Some(x.as_bytes()), "content is not the data of the blocks in order")
                });
            }
            // what precedes the changed block is complete in itself, padding included
            if gz == 0 {
            j.add(format!("padded-{:?}", ci), move || {
                for fill in ["\n", "\t", "\r"] {
                    let mut v = V4::new(ci, 0);
                    let (_, x) = doc(seed, &mut v.stream());
                    let n = v.content(x.as_bytes()).len();
                    let fillers = 16 - n % 16 + 16;
                    let end = "<!-- the second part -->".repeat(10);
                    let c = v.content(format!("{}{}{}", x, fill.repeat(fillers), end).as_bytes());
                    v.blocks = Some(vec![n + fillers, 64, 64]);
                    let b = v.seal_content(&c);
                    unlock(&b, &v.creds)?;
                    let bl = blocks(&v, &b);
                    for (i, (at, l)) in bl.iter().enumerate().skip(1) {
                        for pos in [*at, at + 31, at + 36, at + 35 + l] {
                            if pos < b.len() && (pos < at + 32 || *l > 0) {
                                let mut m = b.clone();
                                m[pos] ^= 0x40;
                                must_err(unlock(&m, &v.creds), &format!("archive with block {} changed", i))?;
                            }
                        }
                        must_err(unlock(&b[..*at], &v.creds), &format!("archive cut before block {}", i))?;
                        must_err(unlock(&b[..*at + 35], &v.creds), &format!("archive cut in block {}", i))?;
                        let mut m = b[..*at].to_vec();
                        m.extend(&b[bl[bl.len() - 1].0..]);
                        if i + 1 < bl.len() {
                            must_err(unlock(&m, &v.creds), &format!("archive without the blocks from {}", i))?;
                        }
                    }
                }
                Ok(())
            });
            }
            let parts = 12;
            for part in 0..parts {
                j.add(format!("flip-{:?}-{}-{}", ci, gz, part), move || {
                    let (v, b, _) = c02_base(ci, gz, 200, seed);
                    let mut r = Rng::new(seed * 13 + part as u64);
                    for pos in (part..b.len()).step_by(parts) {
                        let mut m = b.clone();
                        m[pos] ^= 1 << r.below(8);
                        must_err(unlock(&m, &v.creds), &format!("archive with byte {} of {} changed", pos, b.len()))?;
                    }
                    Ok(())
                });
            }
            j.add(format!("blocks-{:?}-{}", ci, gz), move || {
                for block in [16usize, 64, 200] {
                    let (v, b, _) = c02_base(ci, gz, block, seed);
                    let bl = blocks(&v, &b);
                    let head = &b[..bl[0].0];
                    let part = |i: usize| &b[bl[i].0..bl[i].0 + 36 + bl[i].1];
                    let n = bl.len();
                    let build = |order: &[usize]| -> Vec<u8> {
                        let mut o = head.to_vec();
                        for i in order {
                            o.extend(part(*i));
                        }
                        o
                    };
                    let all: Vec<usize> = (0..n).collect();
                    for i in 0..n {
                        let mut o = all.clone();
                        o.remove(i);
                        must_err(unlock(&build(&o), &v.creds), &format!("archive of {} blocks without block {}", n, i))?;
                        let mut o = all.clone();
                        o.insert(i, i);
                        if i + 1 < n {
                            must_err(unlock(&build(&o), &v.creds), &format!("archive with block {} twice", i))?;
                        }
                        if i + 2 < n {
                            let mut o = all.clone();
                            o.swap(i, i + 1);
                            must_err(unlock(&build(&o), &v.creds), &format!("archive with blocks {} and {} swapped", i, i + 1))?;
                        }
                        if i > 0 {
                            must_err(unlock(&build(&all[..i]), &v.creds), &format!("archive cut before block {}", i))?;
                            let mut o = all[..i].to_vec();
                            o.push(n - 1);
                            if i + 1 < n {
                                must_err(unlock(&build(&o), &v.creds), &format!("archive with blocks {}.. removed", i))?;
                            }
                        }
                    }
                    // blocks of another archive with the same key
                    let (v2, b2, _) = c02_base(ci, gz, block, seed + 1);
                    let bl2 = blocks(&v2, &b2);
                    let mut v3 = v2.clone();
                    v3.seed[0] ^= 1;
                    let b3 = v3.seal(doc(seed, &mut v3.stream()).1.as_bytes());
                    let bl3 = blocks(&v3, &b3);
                    let mut o = head.to_vec();
                    o.extend(&b3[bl3[0].0..]);
                    must_err(unlock(&o, &v.creds), "archive with the blocks of another archive")?;
                    let _ = bl2;
                }
                Ok(())
            });
        }
    }
    // authenticated by hand with deviating codes
    for what in 0..12usize {
        j.add(format!("forged-{}", what), move || {
            let v = V4::new(Ci::Aes, 0);
            let (_, x) = doc(seed, &mut v.stream());
            let mk = v.mk();
            let ct = encrypt(Ci::Aes, &sha256(&[&v.seed, &mk]), &v.iv, &v.content(x.as_bytes()));
            let h = v.header();
            let bk = |i: u64| block_key(&v.seed, &mk, i);
            let cut = ct.len() / 2;
            let parts = [&ct[..cut], &ct[cut..], &[][..]];
            let mut o = h.clone();
            o.extend(sha256(&[&h]));
            let good = hmac256(&bk(u64::MAX), &[&h]);
            match what {
                0 => o.extend(hmac256(&bk(0), &[&h])),
                1 => o.extend(hmac256(&bk(u64::MAX), &[&u64::MAX.to_le_bytes(), &h])),
                2 => o.extend(vec![0; 32]),
                3 => {
                    o.extend(&good[..31]);
                    o.push(good[31] ^ 0x80)
                }
                4 => {
                    o.push(good[0] ^ 1);
                    o.extend(&good[1..])
                }
                _ => o.extend(&good),
            }
            for (i, p) in parts.iter().enumerate() {
                let l = (p.len() as u32).to_le_bytes();
                let idx = (i as u64).to_le_bytes();
                let t = match what {
                    5 => hmac256(&bk(i as u64), &[p]),
                    6 => hmac256(&bk(i as u64), &[&idx, p]),
                    7 => hmac256(&bk(i as u64), &[&l, p]),
                    8 => hmac256(&bk(0), &[&idx, &l, p]),
                    9 => hmac256(&bk(i as u64 + 1), &[&(i as u64 + 1).to_le_bytes(), &l, p]),
                    10 => hmac256(&bk(i as u64), &[&(i as u32).to_le_bytes(), &l, p]),
                    11 if p.is_empty() => vec![0; 32],
                    _ => hmac256(&bk(i as u64), &[&idx, &l, p]),
                };
                o.extend(t);
                o.extend(l);
                o.extend(*p);
            }
            must_err(unlock(&o, &v.creds), "archive with codes computed differently")
        });
    }
    for (size, block) in [(70_000usize, 65_535usize), (70_000, 65_536), (70_000, 65_537), (1_100_000, 1 << 20), (1_200_000, (1 << 20) + 1), (2_500_000, 3 << 20)] {
        j.add(format!("large-blocks-{}", block), move || {
            let mut v = V4::new(Ci::ChaCha, 0);
            v.block = block;
            let (_, x) = doc(seed, &mut v.stream());
            let x = format!("{}<!--{}-->", x, "q".repeat(size));
            let b = v.seal(x.as_bytes());
            check(unlock(&b, &v.creds)?.raw_xml() == Some(x.as_bytes()), "content differs")?;
            for (n, (at, l)) in blocks(&v, &b).into_iter().enumerate() {
                for p in [0, 16, 31, 36, 37, 35 + l / 2, 35 + l, 36 + l.saturating_sub(20)] {
                    if p == 35 || p >= 36 + l {
                        continue;
                    }
                    let mut m = b.clone();
                    m[at + p] ^= 1;
                    must_err(unlock(&m, &v.creds), &format!("block {} of {} bytes with byte {} changed", n, l, p))?;
                }
            }
            Ok(())
        });
    }
    // other values in place of the code of the header
    for what in 0..6usize {
        j.add(format!("header-code-{}", what), move || {
            for ci in CIPHERS {
                let v = V4::new(ci, 0);
                let (_, x) = doc(seed, &mut v.stream());
                let b = v.seal(x.as_bytes());
                let h = v.header().len();
                let code = match what {
                    0 => vec![0; 32],
                    1 => vec![0xff; 32],
                    2 => b[h..h + 32].to_vec(),
                    3 => sha256(&[]),
                    4 => hmac256(&[], &[&b[..h]]),
                    _ => b[h + 64..h + 96].to_vec(),
                };
                let mut m = b.clone();
                m[h + 32..h + 64].copy_from_slice(&code);
                must_err(unlock(&m, &v.creds), "archive with another code for its header")?;
            }
            Ok(())
        });
    }
    for n in [255usize, 256, 257, 300, 65535, 65536, 65537] {
        j.add(format!("many-blocks-{}", n), move || {
            let mut v = V4::new(Ci::ChaCha, 0);
            let (_, x) = doc(seed, &mut v.stream());
            let pad = n.saturating_sub(v.content(x.as_bytes()).len());
            let x = format!("{}<!--{}-->", x, "p".repeat(pad));
            v.block = 1;
            let total = v.content(x.as_bytes()).len();
            if total > n {
                v.blocks = Some(vec![total - n + 1]);
            }
            let b = v.seal(x.as_bytes());
            let k = unlock(&b, &v.creds)?;
            check(k.raw_xml() == Some(x.as_bytes()), "content differs")?;
            // two equal-sized blocks whose positions differ by 256 or 65536
            let bl = blocks(&v, &b);
            for gap in [256usize, 65536] {
                if bl.len() > gap + 2 {
                    let (a, c) = (bl[1], bl[1 + gap]);
                    let mut m = b.clone();
                    if a.1 == c.1 {
                        let t = b[a.0..a.0 + 36 + a.1].to_vec();
                        let u = b[c.0..c.0 + 36 + c.1].to_vec();
                        if t == u {
                            continue;
                        }
                        m[a.0..a.0 + 36 + a.1].copy_from_slice(&u);
                        m[c.0..c.0 + 36 + c.1].copy_from_slice(&t);
                        must_err(unlock(&m, &v.creds), &format!("archive with blocks 1 and {} swapped", 1 + gap))?;
                    }
                }
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C03

fn c03(j: &mut Jobs) {
    let seed = j.seed;
    for (n, pw) in ["pass", "pass\n", " pass", "pass ", "PASS", "pa\0ss", "pass\0", "", "\n", "p", "e\u{301}", "\u{fb01}x", "passpass", "\u{feff}pass", "true", "0"].into_iter().enumerate() {
        j.add(format!("near-{}", n), move || {
            let near = |s: &str| -> Vec<String> {
                let mut v = vec![];
                for t in ["\n", "\r\n", "\r", " ", "\t", "\0", "\u{a0}", "\u{feff}", "x", s] {
                    v.push(format!("{}{}", s, t));
                    v.push(format!("{}{}", t, s));
                }
                v.extend([s.trim(), s.trim_end(), s.trim_start(), s.trim_matches('\0'), s.trim_matches('\u{feff}')].map(String::from));
                v.extend([s.to_lowercase(), s.to_uppercase(), s.replace('\0', ""), s.replace('e', "\u{e9}"), "\u{e9}".into(), "fix".into()]);
                v.push(s.chars().skip(1).collect());
                v.push(s.chars().rev().skip(1).collect::<Vec<_>>().into_iter().rev().collect());
                v.push(s.chars().rev().collect());
                v.retain(|t| t != s);
                v
            };
            let mut list = vec![];
            let c = if n % 2 == 0 { Creds::pw(pw) } else { Creds { pw: Some("both".into()), kf: Some(pw.as_bytes().to_vec()) } };
            for t in near(pw) {
                list.push(Creds { pw: Some(t.clone()), kf: c.kf.clone() });
                // (a key file with the bytes of the password is the same key)
                list.push(Creds { pw: c.pw.clone(), kf: Some(t.clone().into_bytes()) });
                list.push(Creds { pw: None, kf: Some(t.clone().into_bytes()) });
                list.push(Creds::pw(&t));
            }
            let v = V4 { creds: c.clone(), ..V4::new(Ci::ChaCha, 0) };
            let w = V3 { creds: c.clone(), ..V3::new(Ci::Aes, 0) };
            let a = v.seal(doc(seed, &mut v.stream()).1.as_bytes());
            let b = w.seal(doc(seed, &mut w.stream()).1.as_bytes());
            for m in [a, b] {
                let mut k = open(&m)?;
                for t in &list {
                    k = match k.unlock(&t.lib()) {
                        Ok(_) => return Err(format!("unlocked with credentials {:?} instead of {:?}", t, c)),
                        Err(f) => f.0,
                    };
                }
                k.unlock(&c.lib()).map_err(|e| format!("the right credentials do not unlock: {}", e.1))?;
            }
            Ok(())
        });
    }
    let mut list: Vec<(String, Vec<u8>, Creds, bool)> = vec![];
    let full = Creds { pw: Some("pass".into()), kf: Some(b"kf".to_vec()) };
    for ci in CIPHERS {
        for gz in 0..3u8 {
            let mut v = V4::new(ci, gz);
            if gz == 1 {
                v.creds = full.clone();
            }
            v.extra.push((12, vec![9; 10]));
            let x = doc(seed, &mut v.stream()).1;
            list.push((format!("v4-{:?}-{}", ci, gz), v.seal(x.as_bytes()), v.creds.clone(), true));
            if ci != Ci::ChaCha {
                let mut w = V3::new(ci, gz);
                if gz == 2 {
                    w.creds = full.clone();
                }
                let x = doc(seed, &mut w.stream()).1;
                list.push((format!("v3-{:?}-{}", ci, gz), w.seal(x.as_bytes()), w.creds.clone(), true));
            }
        }
    }
    for (i, kd) in (1..5).map(|i| (i, kdf(i, &mut Rng::new(seed)))) {
        let mut v = V4::new(CIPHERS[i % 3], (i % 2) as u8);
        v.kdf = kd;
        v.minor = i as u16;
        v.block = 100;
        v.extra.push((200, vec![1; i]));
        let x = doc(seed, &mut v.stream()).1;
        list.push((format!("v4-argon2-{}", i), v.seal(x.as_bytes()), v.creds.clone(), true));
    }
    {
        let v = V4::new(Ci::ChaCha, 0);
        let x = format!("{}<!--{}-->", doc(seed, &mut v.stream()).1, "large ".repeat(400_000));
        list.push(("v4-large".into(), v.seal(x.as_bytes()), v.creds.clone(), true));
        let w = V3::new(Ci::Aes, 1);
        let mut o = w.outer_fields();
        o.push((1, vec![7; 3000]));
        o.push((1, vec![]));
        let w = V3 { outer: Some(o), ..w };
        let x = doc(seed, &mut w.stream()).1;
        list.push(("v3-comments".into(), w.seal(x.as_bytes()), w.creds.clone(), true));
        let mut b = v.seal(doc(seed, &mut v.stream()).1.as_bytes());
        b.extend([5; 100]);
        list.push(("v4-trailing".into(), b, v.creds.clone(), true));
    }
    // archives that cannot be unlocked with any credentials
    let v = V4::new(Ci::Aes, 1);
    let x = doc(seed, &mut v.stream()).1;
    let good = v.seal(x.as_bytes());
    let mut m = good.clone();
    let at = v.header().len() + 64 + 40;
    m[at] ^= 1;
    list.push(("corrupt-block".into(), m, v.creds.clone(), false));
    let mut m = good.clone();
    m.truncate(good.len() - 40);
    list.push(("cut".into(), m, v.creds.clone(), false));
    list.push(("bad-xml".into(), v.seal(b"<KeePassFile><Meta>"), v.creds.clone(), false));
    list.push(("empty-xml".into(), v.seal(b""), v.creds.clone(), false));
    let mut w = v.clone();
    w.inner = Some(vec![(2, vec![1; 32])]);
    list.push(("inner-header".into(), w.seal(x.as_bytes()), v.creds.clone(), false));
    let mut w = v.clone();
    w.inner_id = 9;
    list.push(("inner-stream".into(), w.seal(x.as_bytes()), v.creds.clone(), false));
    let swap = |id: u8, d: Vec<u8>| -> Vec<u8> {
        let mut w = v.clone();
        let mut f = v.outer_fields();
        for t in f.iter_mut() {
            if t.0 == id {
                t.1 = d.clone();
            }
        }
        w.outer = Some(f);
        w.seal(x.as_bytes())
    };
    list.push(("cipher-unknown".into(), swap(2, vec![9; 16]), v.creds.clone(), false));
    list.push(("compression-unknown".into(), swap(3, vec![9, 0, 0, 0]), v.creds.clone(), false));
    list.push(("iv-short".into(), swap(7, vec![9; 5]), v.creds.clone(), false));
    let mut dct = Dict::new();
    dct.put(0x42, "$UUID", &[5; 16]);
    list.push(("kdf-unknown".into(), swap(11, dct.end()), v.creds.clone(), false));
    list.push(("kdf-bad".into(), swap(11, Kdf::Argon2 { id: false, version: 0x99, mem: 8192, iters: 1, lanes: 1, salt: vec![1; 8] }.dict()), v.creds.clone(), false));
    let w3 = V3::new(Ci::Aes, 0);
    list.push(("v3-bad-xml".into(), w3.seal(b"nope"), w3.creds.clone(), false));
    let mut w4 = w3.clone();
    w4.start = vec![3; 31];
    list.push(("v3-start".into(), w4.seal(b"nope"), w3.creds.clone(), false));
    for n in [0usize, 1, 33, 40, 64] {
        let mut w4 = V3::new(Ci::ChaCha, 0);
        w4.start = vec![7; n];
        let x = doc(seed, &mut w4.stream()).1;
        let mut plain = vec![7; 32];
        plain.extend(w4.frame(x.as_bytes()));
        list.push((format!("v3-start-{}", n), w4.seal_plain(&plain), w4.creds.clone(), false));
    }
    for (n, code) in [("zero", vec![0u8; 32]), ("ones", vec![0xff; 32])] {
        let mut m = good.clone();
        let h = v.header().len();
        m[h + 32..h + 64].copy_from_slice(&code);
        list.push((format!("code-{}", n), m, v.creds.clone(), false));
    }
    let mut fr = w3.frame(x.as_bytes());
    fr[10] ^= 1;
    list.push(("v3-hash".into(), w3.seal_frames(&fr), w3.creds.clone(), false));
    for (n, b, c, intact) in list {
        j.add(n, move || {
            let base = open(&b)?;
            let dbg = format!("{:?}", base);
            let same = |k: &Kdbx<Locked>, after: &str| -> R {
                diff(&format!("archive returned after {}", after), &dbg, &format!("{:?}", k))?;
                let mut o = vec![];
                k.write(&mut o).map_err(|e| format!("writing the returned archive failed: {}", e))?;
                check(o == b, format!("the archive returned after {} writes different bytes", after))
            };
            same(&base, "opening")?;
            let bad = [
                Creds::pw("wrong"),
                Creds::pw("Pass"),
                Creds::pw("pass "),
                Creds::pw("pas"),
                Creds::pw(""),
                Creds::default(),
                Creds { pw: Some("pass".into()), kf: Some(b"kf2".to_vec()) },
                // (a key file with the bytes of the password is the same key)
                Creds { pw: None, kf: Some(b"pass1".to_vec()) },
                Creds { pw: None, kf: Some(b"kf".to_vec()) },
                Creds { pw: Some("kf".into()), kf: Some(b"pass".to_vec()) },
                Creds { pw: Some("pass".into()), kf: Some(vec![]) },
            ];
            let mut k = base;
            for (i, w) in bad.iter().enumerate() {
                k = match k.unlock(&w.lib()) {
                    Ok(_) => return Err(format!("unlocked with credentials {:?} instead of {:?}", w, c)),
                    Err(f) => f.0,
                };
                same(&k, &format!("attempt {}", i))?;
            }
            match k.unlock(&c.lib()) {
                Ok(u) => {
                    check(intact, "a damaged archive was unlocked")?;
                    let direct = unlock(&b, &c)?;
                    diff("database after failed attempts", direct.database(), u.database())?;
                    diff("header after failed attempts", direct.header(), u.header())?;
                    diff("raw XML", &direct.raw_xml(), &u.raw_xml())
                }
                Err(f) => {
                    check(!intact, format!("the right credentials no longer unlock: {}", f.1))?;
                    same(&f.0, "the last attempt")
                }
            }
        });
    }
}

// ---------------------------------------------------------------- C04

fn c04_both(v: &V4, d: &MDb, x: &str, r: &mut Rng) -> R {
    let b = v.seal(x.as_bytes());
    let k = unlock(&b, &v.creds).map_err(|e| format!("archive of an independent writer ({:?}): {}", v.kdf, e))?;
    check(k.raw_xml() == Some(x.as_bytes()), "content of an independent writer differs")?;
    same_db(d, &k)?;
    let mut m = made(d, v.ci, v.gzip > 0, &v.kdf, v.inner_id, &v.creds, r)?;
    m.header_mut().master_seed = v.seed.clone();
    let b = save(&m)?;
    ref_reads(&b, &v.creds, d).map(|_| ())
}
fn c04(j: &mut Jobs) {
    let seed = j.seed;
    for i in 0..7usize {
        j.add(format!("credentials-{}", i), move || {
            let mut r = Rng::new(seed + i as u64);
            for salt in 0..2 {
                let mut v = V4::new(CIPHERS[i % 3], (i % 2) as u8);
                v.creds = creds(i);
                v.kdf = kdf(i + salt, &mut r);
                let (d, x) = doc(seed, &mut v.stream());
                c04_both(&v, &d, &x, &mut r)?;
            }
            Ok(())
        });
    }
    let odd: Vec<Creds> = vec![
        Creds::pw("\0"),
        Creds::pw("a\0b"),
        Creds::pw("a\0"),
        Creds::pw("\0a"),
        Creds::pw("a\n"),
        Creds::pw("\ta\r\n"),
        Creds::pw("a\u{1}\u{7f}\u{80}"),
        Creds::pw("\u{feff}a"),
        Creds::pw("e\u{301}"),
        Creds::pw("\u{e9}"),
        Creds::pw("\u{fb01}\u{212b}\u{10ffff}"),
        Creds::pw("Password"),
        Creds::pw(" "),
        Creds::pw(&"0123456789".repeat(30)),
        Creds::pw(&"long".repeat(20_000)),
        Creds { pw: None, kf: Some(b"0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF".to_vec()) },
        Creds { pw: None, kf: Some(b"0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef".to_vec()) },
        Creds { pw: None, kf: Some(b"0123456789ABCDEF0123456789abcdef0123456789ABCDEF0123456789abcdef\n".to_vec()) },
        Creds { pw: None, kf: Some(b"\xef\xbb\xbfkey".to_vec()) },
        Creds { pw: None, kf: Some(b"<?xml version=\"1.0\"?><KeyFile><Key><Data>AAAA</Data></Key></KeyFile>".to_vec()) },
        Creds { pw: None, kf: Some(b"<?xml version=\"1.0\"?><KeyFile><Key><Data>AAAA</Data></Key></KeyFile>\n".to_vec()) },
        Creds { pw: None, kf: Some(b"<?xml version=\"1.0\"?>\r\n<KeyFile>\r\n<Key><Data>QUJD</Data></Key>\r\n</KeyFile>\r\n".to_vec()) },
        Creds { pw: None, kf: Some(b"<KeyFile><Meta><Version>2.0</Version></Meta><Key><Data Hash=\"A0\"> 00 11 </Data></Key></KeyFile> ".to_vec()) },
        Creds { pw: None, kf: Some(b"key\r\n".to_vec()) },
        Creds { pw: None, kf: Some(b"key \0".to_vec()) },
        Creds { pw: None, kf: Some(vec![0; 32]) },
        Creds { pw: None, kf: Some((0..32).collect()) },
        Creds { pw: None, kf: Some((0..300_000u32).map(|i| (i * 7 >> 3) as u8).collect()) },
        Creds { pw: Some("a\0".into()), kf: Some(vec![0xff; 64]) },
        Creds { pw: Some("same".into()), kf: Some(b"same".to_vec()) },
        Creds { pw: Some("".into()), kf: Some(vec![]) },
    ];
    for (i, c) in odd.into_iter().enumerate() {
        j.add(format!("odd-credentials-{}", i), move || {
            let mut r = Rng::new(seed + i as u64);
            let mut v = V4::new(CIPHERS[i % 3], (i % 2) as u8);
            v.creds = c.clone();
            let (d, x) = doc(seed, &mut v.stream());
            c04_both(&v, &d, &x, &mut r)?;
            let mut w = V3::new(Ci::Aes, 0);
            w.creds = c.clone();
            let (d, x) = doc(seed, &mut w.stream());
            same_db(&d, &unlock(&w.seal(x.as_bytes()), &w.creds)?)
        });
    }
    for i in 0..24usize {
        j.add(format!("special-{}", i), move || {
            let mut r = Rng::new(seed * 7 + i as u64);
            let part = |n: usize| -> Vec<u8> {
                let mut b: Vec<u8> = (0..n).map(|k| (k * 37 + 11 + i) as u8 | 1).collect();
                match i % 8 {
                    0 => b[0] = 0,
                    1 => b[n - 1] = 0,
                    2 => b[..4].fill(0),
                    3 => b[n - 4..].fill(0),
                    4 => b.fill(0),
                    5 => b.fill(0xff),
                    6 => b[n - 1] = b'\n',
                    _ => b[0] = b' ',
                }
                b
            };
            let mut v = V4::new(CIPHERS[i % 3], 0);
            v.seed = part(32);
            v.kdf = Kdf::Aes { rounds: 2, salt: part(32), old_uuid: false };
            if i >= 8 {
                v.kdf = Kdf::Argon2 { id: i >= 16, version: 0x13, mem: 8192, iters: 1, lanes: 1, salt: part(32) };
            }
            v.iv = part(v.ci.ivlen());
            v.inner_key = part(64);
            v.creds = Creds { pw: None, kf: Some(part(32)) };
            let (d, x) = doc(seed, &mut v.stream());
            c04_both(&v, &d, &x, &mut r)?;
            let mut w = V3::new(Ci::Aes, 0);
            w.creds = v.creds.clone();
            w.seed = part(32);
            w.tseed = part(32);
            w.start = part(32);
            w.psk = part(32);
            let (d, x) = doc(seed, &mut w.stream());
            same_db(&d, &unlock(&w.seal(x.as_bytes()), &w.creds)?)
        });
    }
    j.add("credentials-none", move || {
        let mut r = Rng::new(seed);
        let mut v = V4::new(Ci::Aes, 0);
        v.creds = Creds::default();
        let (d, x) = doc(seed, &mut v.stream());
        c04_both(&v, &d, &x, &mut r)
    });
    let mut kd = vec![];
    for rounds in [0u64, 1, 2, 3, 255, 256, 257, 6000, 65537] {
        kd.push(Kdf::Aes { rounds, salt: (0..32).collect(), old_uuid: rounds % 2 == 1 });
    }
    for id in [false, true] {
        for version in [0x10u32, 0x13] {
            for (mem, iters, lanes, sl) in
                [(8192u64, 1u64, 1u32, 8usize), (8192 + 1000, 2, 1, 16), (16384, 3, 2, 32), (65536, 1, 4, 64), (40 * 1024, 1, 5, 16), (8192 * 7, 2, 7, 32), (150 * 1024, 1, 16, 32), (100 * 1024, 1, 3, 33), (8192, 5, 1, 17)]
            {
                kd.push(Kdf::Argon2 { id, version, mem, iters, lanes, salt: (0..sl as u8).map(|x| x ^ 0x5a).collect() });
            }
        }
    }
    for (i, k) in kd.into_iter().enumerate() {
        j.add(format!("kdf-{}", i), move || {
            let mut r = Rng::new(seed + i as u64);
            let mut v = V4::new(CIPHERS[i % 3], 0);
            v.kdf = k.clone();
            v.creds = creds(i);
            let (d, x) = doc(seed + 5, &mut v.stream());
            c04_both(&v, &d, &x, &mut r)
        });
    }
    for n in [0usize, 1, 16, 31, 32, 33, 64, 100] {
        j.add(format!("seed-length-{}", n), move || {
            let mut r = Rng::new(seed + n as u64);
            let mut v = V4::new(Ci::Aes, 0);
            v.seed = r.data(n);
            let (d, x) = doc(seed + 5, &mut v.stream());
            c04_both(&v, &d, &x, &mut r)
        });
        for id in [2u32, 3] {
            j.add(format!("inner-key-{}-{}", id, n), move || {
                let mut r = Rng::new(seed + n as u64);
                let mut v = V4::new(Ci::Aes, 0);
                v.inner_id = id;
                v.inner_key = r.data(n);
                let (d, x) = doc(seed + 6, &mut v.stream());
                c04_both(&v, &d, &x, &mut r)
            });
        }
    }
    for i in 0..j.n(20) {
        j.add(format!("random-{}", i), move || {
            let mut r = Rng::new(seed * 91 + i);
            let mut v = V4::new(CIPHERS[r.below(3)], (i % 2) as u8);
            v.seed = r.data(32);
            v.iv = r.data(v.ci.ivlen());
            v.kdf = kdf(i as usize, &mut r);
            v.inner_key = r.data(64);
            let kl = r.below(100);
            v.creds = Creds { pw: Some(text(&mut r)), kf: if i % 2 == 0 { None } else { Some(r.data(kl)) } };
            v.block = 100;
            let (d, x) = doc(seed + i, &mut v.stream());
            c04_both(&v, &d, &x, &mut r)
        });
    }
    j.add("position-70000", move || {
        let mut v = V4::new(Ci::ChaCha, 0);
        let (_, x) = doc(seed, &mut v.stream());
        let x = format!("{}<!--{}-->", x, "p".repeat(66000));
        v.block = 1;
        let k = unlock(&v.seal(x.as_bytes()), &v.creds)?;
        check(k.raw_xml() == Some(x.as_bytes()), "content differs")
    });
    for i in 0..3usize {
        j.add(format!("v3-{}", i), move || {
            let mut w = V3::new([Ci::Aes, Ci::Twofish, Ci::Aes][i], (i % 2) as u8);
            w.creds = creds(i);
            w.rounds = [1, 100, 6001][i];
            let (d, x) = doc(seed, &mut w.stream());
            let k = unlock(&w.seal(x.as_bytes()), &w.creds)?;
            same_db(&d, &k)
        });
    }
    j.add("v3-seed-length", move || {
        for n in 0..70usize {
            let w = V3::new(Ci::Aes, 0);
            let mut v = w.clone();
            let mut t: Vec<u8> = w.tseed.clone();
            t.resize(n, 7);
            v.outer = Some(w.outer_fields().into_iter().map(|f| if f.0 == 5 { (5, t.clone()) } else { f }).collect());
            let r = unlock(&v.seal(doc(seed, &mut w.stream()).1.as_bytes()), &w.creds);
            if n == 32 {
                r?;
            } else {
                must_err(r, &format!("transform seed of {} bytes", n))?;
            }
        }
        Ok(())
    });
    // parameters that cannot be honoured
    let a = |version: u32, mem: u64, iters: u64, lanes: u32, salt: usize| Kdf::Argon2 { id: false, version, mem, iters, lanes, salt: vec![3; salt] };
    let big = 1u64 << 32;
    let bad = vec![
        a(0, 8192, 1, 1, 16),
        a(0x11, 8192, 1, 1, 16),
        a(0x14, 8192, 1, 1, 16),
        a(0x113, 8192, 1, 1, 16),
        a(0x13, 8192, 0, 1, 16),
        a(0x13, 8192, 1, 0, 16),
        a(0x13, 1024, 1, 1, 16),
        a(0x13, 0, 1, 1, 16),
        a(0x13, 8192, 1, 2, 16),
        a(0x13, 8192 * 5, 1, 6, 16),
        a(0x13, 65536, 1, 9, 16),
        a(0x13, 8192, 1, 1, 7),
        a(0x13, 8192, 1, 1, 0),
        a(0x13, 8192, big, 1, 16),
        a(0x13, 8192, big + 1, 1, 16),
        a(0x13, 8192, big + 3, 1, 16),
        a(0x13, big * 1024, 1, 1, 16),
        a(0x13, big * 1024 + 8192, 1, 1, 16),
        a(0x13, big * 1024 * 2 + 65536, 1, 1, 16),
        a(0x13, u64::MAX, 1, 1, 16),
        a(0x13, 8192, 1, 1 << 24, 16),
        Kdf::Aes { rounds: 1, salt: vec![], old_uuid: false },
        Kdf::Aes { rounds: 1, salt: vec![1; 16], old_uuid: false },
        Kdf::Aes { rounds: 1, salt: vec![1; 24], old_uuid: false },
        Kdf::Aes { rounds: 1, salt: vec![1; 31], old_uuid: false },
        Kdf::Aes { rounds: 1, salt: vec![1; 33], old_uuid: false },
        Kdf::Aes { rounds: 1, salt: vec![1; 64], old_uuid: false },
    ];
    for (i, k) in bad.into_iter().enumerate() {
        j.add(format!("refused-{}", i), move || {
            let mut a = Kdbx::from_database(Default::default());
            a.header_mut().kdf_params = k.lib();
            must_err(a.set_key(Creds::pw("a").lib()), &format!("KDF setting {:?}", k))?;
            let mut o = vec![];
            must_err(a.write(&mut o), "saving without a derived key")?;
            let v = V4::new(Ci::Aes, 0);
            let mut w = v.clone();
            w.outer = Some(v.outer_fields().into_iter().map(|t| if t.0 == 11 { (11, k.dict()) } else { t }).collect());
            must_err(unlock(&w.seal(doc(seed, &mut v.stream()).1.as_bytes()), &v.creds), &format!("KDF setting {:?}", k))
        });
    }
    j.add("refused-unknown", move || {
        let mut a = Kdbx::from_database(Default::default());
        a.header_mut().kdf_params = KdfParams::Unknown { uuid: uuid::Uuid::from_bytes([1; 16]), params: Default::default() };
        must_err(a.set_key(Creds::pw("a").lib()), "an unknown KDF")
    });
}

// ---------------------------------------------------------------- C05

fn kdf_eq(k: &Kdf, p: &KdfParams) -> R {
    diff("KDF parameters", &k.lib(), p)
}
const NAMES: [&str; 13] = [
    "EndOfHeader", "Comment", "CipherId", "CompressionFlags", "MasterSeed", "LegacyTransformSeed", "LegacyTransformRounds",
    "EncryptionIv", "ProtectedStreamKey", "StreamStartBytes", "InnerRandomStreamId", "KdfParameters", "PublicCustomData",
];
fn id_name(i: u8) -> String {
    NAMES.get(i as usize).map(|s| s.to_string()).unwrap_or(format!("Unknown({})", i))
}
fn field_dbg(t: &Tlv) -> String {
    format!("HeaderField {{ ty: {}, data: {:?} }}", id_name(t.0), t.1)
}
fn shuffle<T>(v: &mut [T], r: &mut Rng) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
}
const KNOWN: [u8; 6] = [2, 3, 4, 7, 9, 11];

fn c05(j: &mut Jobs) {
    let seed = j.seed;
    j.add("ids", || {
        for i in 0..=255u8 {
            let id = OuterHeaderId::from(i);
            diff("field id", &id_name(i), &format!("{:?}", id))?;
            check(u8::from(id) == i, format!("field id {} becomes {}", i, u8::from(id)))?;
        }
        for c in [AES128, AES256, TWOFISH, CHACHA, [0; 16], KDF_AES4] {
            let u = uuid::Uuid::from_bytes(c);
            let ci = Cipher::from(u);
            let want = match c {
                AES128 => Cipher::Aes128,
                AES256 => Cipher::Aes256,
                TWOFISH => Cipher::TwoFish,
                CHACHA => Cipher::ChaCha20,
                _ => Cipher::Unknown(u),
            };
            diff("cipher", &want, &ci)?;
            check(uuid::Uuid::from(ci) == u, "cipher id changes")?;
        }
        for c in [0u32, 1, 2, 3, 255, 256, 257, 0x0100_0000, u32::MAX] {
            let want = match c {
                0 => CompressionType::None,
                1 => CompressionType::Gzip,
                _ => CompressionType::Unknown(c),
            };
            diff("compression", &want, &CompressionType::from(c))?;
            check(u32::from(CompressionType::from(c)) == c, "compression id changes")?;
        }
        Ok(())
    });
    for i in 0..j.n(120) {
        j.add(format!("fields-{}", i), move || {
            let mut r = Rng::new(seed * 17 + i);
            let mut v = V4::new(CIPHERS[r.below(3)], r.below(2) as u8);
            v.kdf = kdf(r.below(5), &mut r);
            v.seed = r.data(32);
            v.iv = r.data(v.ci.ivlen());
            v.minor = r.next() as u16;
            let mut f = v.outer_fields();
            for _ in 0..r.below(7) {
                let mut id = r.next() as u8;
                if r.chance(2) {
                    id = *r.pick(&[1u8, 5, 6, 8, 10, 12, 13, 0x42, 255]);
                }
                if id == 0 || KNOWN.contains(&id) {
                    id = 12;
                }
                let n = *r.pick(&[0usize, 1, 2, 4, 8, 16, 32, 255, 256, 257, 1000, 65535, 65536, 65537, 70000]);
                f.push((id, r.data(n)));
                if r.chance(4) {
                    f.push(f[f.len() - 1].clone());
                }
            }
            if i % 20 == 19 {
                for n in 0..300usize {
                    f.push((*r.pick(&[1u8, 12, 13, 99]), r.data(n % 7)));
                }
            }
            shuffle(&mut f, &mut r);
            let others: Vec<Tlv> = f.iter().filter(|t| !KNOWN.contains(&t.0)).cloned().collect();
            v.outer = Some(f);
            let x = doc(seed + i, &mut v.stream()).1;
            let b = v.seal(x.as_bytes());
            let l = open(&b)?;
            let h = l.header();
            diff("cipher", &v.ci.lib(), &h.cipher)?;
            diff("compression", &(if v.gzip > 0 { CompressionType::Gzip } else { CompressionType::None }), &h.compression_type)?;
            diff("master seed", &v.seed, &h.master_seed)?;
            diff("IV", &v.iv, &h.encryption_iv)?;
            kdf_eq(&v.kdf, &h.kdf_params)?;
            check(h.stream_start_bytes.is_none(), "start bytes out of nowhere")?;
            diff(
                "other fields",
                &others.iter().map(field_dbg).collect::<Vec<_>>(),
                &h.other_headers.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>(),
            )?;
            let k = unlock(&b, &v.creds)?;
            check(k.raw_xml() == Some(x.as_bytes()), "content does not start right after the header")?;
            // written again
            let b2 = save(&k)?;
            let o = open4(&b2, &v.creds).map_err(|e| format!("an independent reader rejects the rewritten archive: {}", e))?;
            let o2: Vec<Tlv> = o.outer.iter().filter(|t| !KNOWN.contains(&t.0)).cloned().collect();
            diff("other fields after writing", &others, &o2)?;
            let known = |id: u8| -> Result<Vec<u8>, String> {
                let v: Vec<&Tlv> = o.outer.iter().filter(|t| t.0 == id).collect();
                check(v.len() == 1, format!("{} fields of type {}", v.len(), id))?;
                Ok(v[0].1.clone())
            };
            diff("cipher written", &v.ci.uuid().to_vec(), &known(2)?)?;
            diff("compression written", &((v.gzip > 0) as u32).to_le_bytes().to_vec(), &known(3)?)?;
            diff("seed written", &v.seed, &known(4)?)?;
            diff("IV written", &v.iv, &known(7)?)?;
            kdf_eq(&v.kdf, &kdf_of(&known(11)?)?.lib())?;
            let back = open(&b2)?;
            diff("header read back", k.header(), back.header())
        });
    }
    // headers that cannot be unlocked still decode
    for i in 0..j.n(40) {
        j.add(format!("unknown-settings-{}", i), move || {
            let mut r = Rng::new(seed * 23 + i);
            let v = V4::new(Ci::Aes, 0);
            let mut w = v.clone();
            let cid = r.data(16);
            let comp = r.next() as u32 | 2;
            let (sl, il) = (r.below(100), r.below(100));
            let (sd, iv) = (r.data(sl), r.data(il));
            let mut f = vec![(2u8, cid.clone()), (3, comp.to_le_bytes().to_vec()), (4, sd.clone()), (7, iv.clone()), (11, v.kdf.dict())];
            shuffle(&mut f, &mut r);
            w.outer = Some(f);
            w.seed = sd.clone();
            let hd = w.header();
            let l = open(&w.head_with_codes(&hd, &v.mk()))?;
            let h = l.header();
            diff("cipher", &Cipher::Unknown(uuid::Uuid::from_slice(&cid).unwrap()), &h.cipher)?;
            diff("compression", &CompressionType::Unknown(comp), &h.compression_type)?;
            diff("seed", &sd, &h.master_seed)?;
            diff("IV", &iv, &h.encryption_iv)
        });
    }
    for (i, (sl, il)) in [(0usize, 0usize), (0, 16), (32, 0), (1, 1), (65536, 3), (3, 65537)].into_iter().enumerate() {
        j.add(format!("seed-and-iv-{}", i), move || {
            let mut r = Rng::new(seed + i as u64);
            let v = V4::new(Ci::Aes, 0);
            let mut w = v.clone();
            w.seed = r.data(sl);
            w.iv = r.data(il);
            let l = open(&w.head_with_codes(&w.header(), &v.mk()))?;
            diff("seed", &w.seed, &l.header().master_seed)?;
            diff("IV", &w.iv, &l.header().encryption_iv)
        });
    }
    // the last field may hold anything
    for (i, n) in [0usize, 1, 3, 5, 16, 256, 70_000].into_iter().enumerate() {
        j.add(format!("end-{}", i), move || {
            let v = V4::new(CIPHERS[i % 3], 0);
            let x = doc(seed, &mut v.stream()).1;
            let end: Vec<u8> = (0..n).map(|k| k as u8).collect();
            let mut hd = signature(4, 0);
            let mut f = v.outer_fields();
            f.push((0, end.clone()));
            hd.extend(tlv4(&f));
            let b = v.seal(x.as_bytes());
            let mut m = v.head_with_codes(&hd, &v.mk());
            m.extend(&b[v.header().len() + 64..]);
            let k = unlock(&m, &v.creds)?;
            check(k.raw_xml() == Some(x.as_bytes()), "content does not start right after the header")?;
            if n < 65536 {
                let w = V3::new(Ci::Aes, 0);
                let x = doc(seed, &mut w.stream()).1;
                let mut m = signature(3, 1);
                let mut f = w.outer_fields();
                f.push((0, end.clone()));
                m.extend(tlv3(&f));
                m.extend(&w.seal(x.as_bytes())[w.header().len()..]);
                let k = unlock(&m, &w.creds)?;
                check(k.raw_xml() == Some(x.as_bytes()), "content does not start right after the header")?;
            }
            Ok(())
        });
    }
    j.add("large-field", move || {
        let v = V4::new(Ci::Aes, 0);
        let mut w = v.clone();
        let mut f = v.outer_fields();
        let big: Vec<u8> = (0..(1usize << 24) + 5).map(|k| (k >> 4) as u8).collect();
        f.insert(2, (12, big.clone()));
        w.outer = Some(f);
        let x = doc(seed, &mut v.stream()).1;
        let k = unlock(&w.seal(x.as_bytes()), &v.creds)?;
        check(k.raw_xml() == Some(x.as_bytes()), "content does not start right after the header")?;
        let (f, _) = untlv4(&save(&k)?, 12)?;
        check(f.iter().find(|t| t.0 == 12).map(|t| &t.1) == Some(&big), "field of 16 MiB written")
    });
    // settings put in by a caller come back after saving
    for i in 0..j.n(30) {
        j.add(format!("written-{}", i), move || {
            let mut r = Rng::new(seed * 29 + i);
            let d = db(&mut r, 0);
            let c = Creds::pw("p");
            let mut k = made(&d, CIPHERS[i as usize % 3], i % 2 == 0, &kdf(i as usize, &mut r), 3, &c, &mut r)?;
            let n = r.below(100);
            k.header_mut().master_seed = r.data(n);
            let b = save(&k)?;
            diff("header", k.header(), open(&b)?.header())?;
            let o = open4(&b, &c)?;
            diff("number of header fields", &5, &o.outer.len())
        });
    }
    for i in 0..j.n(20) {
        j.add(format!("v3-fields-{}", i), move || {
            let mut r = Rng::new(seed * 37 + i);
            let w = V3::new(Ci::Aes, 0);
            let mut f = w.outer_fields();
            for _ in 0..r.below(4) {
                let n = *r.pick(&[0usize, 1, 255, 256, 300, 65535]);
                f.push((*r.pick(&[1u8, 12, 13, 99, 255]), r.data(n)));
            }
            shuffle(&mut f, &mut r);
            let others: Vec<Tlv> = f.iter().filter(|t| !KNOWN.contains(&t.0)).cloned().collect();
            let mut w2 = w.clone();
            w2.outer = Some(f);
            let x = doc(seed, &mut w.stream()).1;
            let b = w2.seal(x.as_bytes());
            let l = open(&b)?;
            let h = l.header();
            diff(
                "other fields",
                &others.iter().map(field_dbg).collect::<Vec<_>>(),
                &h.other_headers.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>(),
            )?;
            diff("start bytes", &Some(w.start.clone()), &h.stream_start_bytes)?;
            diff("KDF", &KdfParams::Aes { rounds: w.rounds, salt: w.tseed.clone() }, &h.kdf_params)?;
            let k = unlock(&b, &w.creds)?;
            check(k.raw_xml() == Some(x.as_bytes()), "content does not start right after the header")
        });
    }
}

// ---------------------------------------------------------------- C06

fn with_dict(dict: Vec<u8>) -> Vec<u8> {
    let v = V4::new(Ci::Aes, 0);
    let mut w = v.clone();
    w.outer = Some(v.outer_fields().into_iter().map(|t| if t.0 == 11 { (11, dict.clone()) } else { t }).collect());
    w.head_with_codes(&w.header(), &v.mk())
}
/// what the library writes for the given parameters
fn written_dict(p: KdfParams) -> Result<(Vec<u8>, KdfParams), String> {
    let mut k = Kdbx::from_database(Default::default());
    k.header_mut().kdf_params = Kdf::aes(1).lib();
    k.set_key(Creds::pw("a").lib()).map_err(|e| e.to_string())?;
    k.header_mut().kdf_params = p;
    let b = save(&k)?;
    let (f, _) = untlv4(&b, 12)?;
    let d = f.iter().find(|t| t.0 == 11).ok_or("no KDF field")?.1.clone();
    let back = kdbx_rs::from_reader(&b[..]).map_err(|e| format!("reading back: {}", e))?;
    Ok((d, back.header().kdf_params.clone()))
}
fn value(r: &mut Rng) -> (VariantDictValue, u8, Vec<u8>) {
    let n = *r.pick(&[0usize, 1, 4, 8, 31, 300]);
    let ext = *r.pick(&[0u64, 1, 127, 128, 255, 256, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX]);
    let ext = if r.chance(3) { r.next() } else { ext };
    match r.below(9) {
        0 => (VariantDictValue::Uint32(ext as u32), 4, (ext as u32).to_le_bytes().to_vec()),
        1 => (VariantDictValue::Uint64(ext), 5, ext.to_le_bytes().to_vec()),
        2 => (VariantDictValue::Boolean(true), 8, vec![1]),
        3 => (VariantDictValue::Boolean(false), 8, vec![0]),
        4 => (VariantDictValue::Int32(ext as i32), 0x0c, (ext as i32).to_le_bytes().to_vec()),
        5 => (VariantDictValue::Int64(ext as i64), 0x0d, (ext as i64).to_le_bytes().to_vec()),
        6 => {
            let t = any_text(r);
            (VariantDictValue::String(t.clone()), 0x18, t.into_bytes())
        }
        7 => {
            let b = r.data(n);
            (VariantDictValue::Array(b.clone()), 0x42, b)
        }
        _ => {
            let b = r.data(n);
            let t = *r.pick(&[1u8, 2, 3, 6, 7, 9, 0x0b, 0x0e, 0x17, 0x19, 0x41, 0x43, 0x80, 0xff]);
            (VariantDictValue::Unknown(t, b.clone()), t, b)
        }
    }
}
fn c06(j: &mut Jobs) {
    let seed = j.seed;
    let u64s = [0u64, 1, 255, 256, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX];
    let u32s = [0u32, 1, 255, 256, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX];
    for i in 0..j.n(80) {
        j.add(format!("known-{}", i), move || {
            let mut r = Rng::new(seed * 41 + i);
            let n = *r.pick(&[0usize, 1, 8, 16, 32, 64, 255, 256, 1000]);
            let salt = r.data(n);
            let k = if i % 3 == 0 {
                Kdf::Aes { rounds: *r.pick(&u64s), salt, old_uuid: i % 2 == 0 }
            } else {
                Kdf::Argon2 {
                    id: i % 3 == 1,
                    version: *r.pick(&u32s),
                    mem: *r.pick(&u64s),
                    iters: *r.pick(&u64s),
                    lanes: *r.pick(&u32s),
                    salt,
                }
            };
            let l = open(&with_dict(k.dict()))?;
            kdf_eq(&k, &l.header().kdf_params)?;
            let (dict, back) = written_dict(k.lib())?;
            kdf_eq(&k, &back)?;
            let got = kdf_of(&dict).map_err(|e| format!("written dictionary: {}", e))?;
            kdf_eq(&k, &got.lib())?;
            let want = match &k {
                Kdf::Aes { rounds, salt, .. } => Kdf::Aes { rounds: *rounds, salt: salt.clone(), old_uuid: false },
                k => k.clone(),
            };
            let mut a = dict_parse(&want.dict())?;
            let mut b = dict_parse(&dict)?;
            a.sort();
            b.sort();
            diff("written dictionary", &a, &b)
        });
    }
    for i in 0..j.n(80) {
        j.add(format!("unknown-kdf-{}", i), move || {
            let mut r = Rng::new(seed * 43 + i);
            let id = uuid(&mut r);
            let mut d = Dict::new();
            let mut params = kdbx_rs::binary::VariantDict::new();
            let mut list = vec![(0x42u8, "$UUID".to_string(), id.as_bytes().to_vec())];
            for n in 0..r.below(12) {
                let key = match r.below(4) {
                    _ if n == 11 || (n == 0 && i % 4 == 0) => String::new(),
                    0 => format!("{}{}", text(&mut r), n),
                    1 => format!("{}{}{}", r.pick(&["", " ", "\0", "\n", "$", "\u{feff}"]), n, r.pick(&["\0", "\0\0", " ", "\n", "\t", "$", "\0x", "A", "\u{a0}"])),
                    _ => format!("k{}", n),
                };
                let (v, t, b) = value(&mut r);
                params.insert(key.clone(), v);
                list.push((t, key, b));
            }
            shuffle(&mut list, &mut r);
            for (t, k, b) in &list {
                d.put(*t, k, b);
            }
            let want = KdfParams::Unknown { uuid: id, params };
            let l = open(&with_dict(d.end()))?;
            diff("parameters read", &want, &l.header().kdf_params)?;
            let (dict, back) = written_dict(want.clone())?;
            diff("parameters read back", &want, &back)?;
            let mut got = dict_parse(&dict).map_err(|e| format!("written dictionary: {}", e))?;
            got.sort();
            list.sort();
            diff("dictionary written", &list, &got)
        });
    }
    j.add("truncated", || {
        for k in [kdf(1, &mut Rng::new(3)), Kdf::aes(7)] {
            let d = k.dict();
            for n in 0..d.len() {
                must_err(open(&with_dict(d[..n].to_vec())), &format!("dictionary cut to {} of {} bytes", n, d.len()))?;
            }
        }
        Ok(())
    });
    j.add("versions", || {
        for v in [2u8, 3, 0x7f, 0xff] {
            let mut d = Kdf::aes(7).dict();
            d[1] = v;
            must_err(open(&with_dict(d)), &format!("dictionary version {}", v))?;
        }
        for m in [0u8, 1, 0xff] {
            let mut d = Kdf::aes(7).dict();
            d[0] = m;
            open(&with_dict(d))?;
        }
        Ok(())
    });
    for (t, size) in [(4u8, 4usize), (5, 8), (8, 1), (0x0c, 4), (0x0d, 8)] {
        j.add(format!("size-{:#x}", t), move || {
            for n in 0..=17usize {
                let mut d = Dict::new();
                d.put(0x42, "$UUID", &[7; 16]);
                d.put(t, "a", &vec![1; n]);
                let r = open(&with_dict(d.end()));
                if n == size {
                    r?;
                } else {
                    must_err(r, &format!("value of type {:#x} with {} bytes", t, n))?;
                }
            }
            Ok(())
        });
    }
    j.add("malformed", || {
        let build = |f: &dyn Fn(&mut Vec<u8>)| {
            let mut d = Dict::new();
            d.put(0x42, "$UUID", &[7; 16]);
            f(&mut d.0);
            d.end()
        };
        let mut bad: Vec<(&str, Vec<u8>)> = vec![];
        bad.push(("key that is not UTF-8", build(&|v| v.extend([0x18, 1, 0, 0, 0, 0xff, 0, 0, 0, 0]))));
        bad.push(("string that is not UTF-8", build(&|v| v.extend([0x18, 1, 0, 0, 0, b'a', 2, 0, 0, 0, 0xc3, 0x28]))));
        for neg in [-1i32, i32::MIN, -256] {
            let n = neg.to_le_bytes();
            bad.push(("negative key length", build(&|v| {
                v.push(0x18);
                v.extend(n)
            })));
            bad.push(("negative value length", build(&|v| {
                v.extend([0x18, 1, 0, 0, 0, b'a']);
                v.extend(n)
            })));
        }
        bad.push(("value longer than the dictionary", build(&|v| v.extend([0x18, 1, 0, 0, 0, b'a', 200, 0, 0, 0, 1]))));
        bad.push(("no UUID", Dict::new().end()));
        for n in [0usize, 1, 15, 17, 32] {
            let mut d = Dict::new();
            d.put(0x42, "$UUID", &vec![7; n]);
            bad.push(("UUID of the wrong size", d.end()));
        }
        let mut d = Dict::new();
        d.put(0x18, "$UUID", &[65; 16]);
        bad.push(("UUID that is a string", d.end()));
        for (w, b) in bad {
            must_err(open(&with_dict(b)), w)?;
        }
        Ok(())
    });
    for base in 0..3usize {
        j.add(format!("parameters-{}", base), move || {
            let k = kdf([0, 1, 2][base], &mut Rng::new(1));
            let list = dict_parse(&k.dict())?;
            let put = |l: &[(u8, String, Vec<u8>)]| {
                let mut d = Dict::new();
                for (t, k, v) in l {
                    d.put(*t, k, v);
                }
                d.end()
            };
            for i in 0..list.len() {
                let mut l = list.clone();
                let gone = l.remove(i);
                must_err(open(&with_dict(put(&l))), &format!("KDF parameters without {}", gone.1))?;
                for (t, n) in [(4u8, 4usize), (5, 8), (8, 1), (0x0c, 4), (0x0d, 8), (0x18, 32), (0x42, 32), (0x99, 8)] {
                    if t != list[i].0 {
                        let mut l = list.clone();
                        l[i].0 = t;
                        l[i].2 = vec![1; n];
                        must_err(open(&with_dict(put(&l))), &format!("KDF parameter {} of type {:#x}", list[i].1, t))?;
                    }
                }
                // same name in another case is another parameter
                let mut l = list.clone();
                l[i].1 = l[i].1.to_lowercase();
                must_err(open(&with_dict(put(&l))), &format!("KDF parameter {}", l[i].1))?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C07

fn inner_dbg(t: &Tlv) -> String {
    let n = match t.0 {
        0 => "EndOfHeader".to_string(),
        1 => "InnerRandomStreamCipherId".into(),
        2 => "InnerRandomStreamKey".into(),
        3 => "Binary".into(),
        x => format!("Unknown({})", x),
    };
    format!("HeaderField {{ ty: {}, data: {:?} }}", n, t.1)
}
fn c07(j: &mut Jobs) {
    let seed = j.seed;
    j.add("ids", || {
        use kdbx_rs::binary::InnerHeaderId;
        for i in 0..=255u8 {
            let id = InnerHeaderId::from(i);
            check(inner_dbg(&(i, vec![])).contains(&format!("ty: {:?},", id)), format!("inner id {} is {:?}", i, id))?;
            check(u8::from(id) == i, "inner id changes")?;
        }
        for i in [0u32, 1, 2, 3, 4, 255, 256, 258, 259, u32::MAX] {
            let want = match i {
                1 => InnerStreamCipherAlgorithm::ArcFour,
                2 => InnerStreamCipherAlgorithm::Salsa20,
                3 => InnerStreamCipherAlgorithm::ChaCha20,
                x => InnerStreamCipherAlgorithm::Unknown(x),
            };
            diff("inner stream", &want, &InnerStreamCipherAlgorithm::from(i))?;
            check(u32::from(want) == i, "inner stream id changes")?;
        }
        Ok(())
    });
    for i in 0..j.n(120) {
        j.add(format!("inner-{}", i), move || {
            let mut r = Rng::new(seed * 47 + i);
            let mut v = V4::new(CIPHERS[r.below(3)], r.below(3) as u8);
            v.inner_id = 2 + (i % 2) as u32;
            let n = *r.pick(&[0usize, 1, 32, 44, 64, 255, 256, 300]);
            v.inner_key = r.data(n);
            let mut f = v.inner_fields();
            for _ in 0..r.below(8) {
                let id = *r.pick(&[3u8, 3, 3, 4, 5, 0x42, 0xff]);
                let n = *r.pick(&[0usize, 1, 2, 15, 16, 17, 255, 256, 1000, 65535, 65536, 100_000, 1 << 20]);
                // (Twofish is slow)
                f.push((id, r.data(if v.ci == Ci::Twofish { n.min(70_000) } else { n })));
            }
            if i % 20 == 19 {
                f.extend((0..400usize).map(|k| (3, r.data(k % 9))));
            }
            shuffle(&mut f, &mut r);
            let others: Vec<Tlv> = f.iter().filter(|t| t.0 > 2).cloned().collect();
            v.inner = Some(f);
            let (d, x) = doc(seed + i, &mut v.stream());
            let b = v.seal(x.as_bytes());
            let k = unlock(&b, &v.creds)?;
            let alg = if v.inner_id == 2 { InnerStreamCipherAlgorithm::Salsa20 } else { InnerStreamCipherAlgorithm::ChaCha20 };
            let test = |k: &Kdbx<Unlocked>| -> R {
                diff("inner stream", &alg, &k.inner_header().inner_stream_cipher)?;
                diff("inner key", &v.inner_key, &k.inner_header().inner_stream_key)?;
                diff(
                    "other inner fields",
                    &others.iter().map(inner_dbg).collect::<Vec<_>>(),
                    &k.inner_header().other_headers.iter().map(|h| format!("{:?}", h)).collect::<Vec<_>>(),
                )
            };
            test(&k)?;
            check(k.raw_xml() == Some(x.as_bytes()), "the XML does not start right after the inner header")?;
            let b2 = save(&k)?;
            let o = ref_reads(&b2, &v.creds, &d)?;
            let o2: Vec<Tlv> = o.inner.iter().filter(|t| t.0 > 2).cloned().collect();
            diff("inner fields written", &others, &o2)?;
            check(o.inner.len() == others.len() + 2, "number of inner fields")?;
            let k2 = unlock(&b2, &v.creds)?;
            test(&k2)?;
            diff("raw XML after saving", &Some(&o.xml[..]), &k2.raw_xml())
        });
    }
    for i in 0..12usize {
        j.add(format!("attachments-{}", i), move || {
            let mut r = Rng::new(seed * 53 + i as u64);
            let mut v = V4::new(CIPHERS[i % 3], (i % 2) as u8);
            let one = (3u8, r.data([0, 1, 20, 500][i % 4]));
            let two = (3u8, r.data(30));
            let odd = (9u8, one.1.clone());
            let mut f = v.inner_fields();
            let list = match i / 4 {
                0 => vec![one.clone(), one.clone(), two.clone(), one.clone(), odd.clone(), odd.clone(), two.clone()],
                1 => (0..300).map(|n| if n % 3 == 0 { one.clone() } else { (3, vec![n as u8; n]) }).collect(),
                _ => (0..40).map(|n| (4 + (n * 7 % 252) as u8, vec![n as u8; 3])).collect(),
            };
            f.extend(list.clone());
            v.inner = Some(f);
            let (d, x) = doc(seed, &mut v.stream());
            let k = unlock(&v.seal(x.as_bytes()), &v.creds)?;
            let o = ref_reads(&save(&k)?, &v.creds, &d)?;
            diff("attachments and unknown fields written", &list, &o.inner.iter().filter(|t| t.0 > 2).cloned().collect())
        });
    }
    for (i, end) in ["\n", "\n\n\n", "\r\n", " ", "\t \n ", "<!-- end -->", "<!-- end -->\n", "<?pi?>\n"].into_iter().enumerate() {
        j.add(format!("document-end-{}", i), move || {
            let mut v = V4::new(CIPHERS[i % 3], (i % 2) as u8);
            v.inner_id = 2 + (i % 2) as u32;
            let (d, x) = doc(seed, &mut v.stream());
            for x in [format!("{}{}", x, end), format!("{}{}{}", x, end, end)] {
                let k = unlock(&v.seal(x.as_bytes()), &v.creds)?;
                diff("document", &Some(x.as_bytes()), &k.raw_xml())?;
                same_db(&d, &k)?;
            }
            let mut w = V3::new(Ci::Aes, (i % 2) as u8);
            w.inner_id = 2;
            let (d, x) = doc(seed, &mut w.stream());
            let x = format!("{}{}", x, end);
            let k = unlock(&w.seal(x.as_bytes()), &w.creds)?;
            diff("document", &Some(x.as_bytes()), &k.raw_xml())?;
            same_db(&d, &k)
        });
    }
    j.add("changed-by-caller", move || {
        let mut r = Rng::new(seed);
        for i in 0..6 {
            let d = db(&mut r, 0);
            let c = Creds::pw("x");
            let mut k = made(&d, Ci::Aes, false, &Kdf::aes(1), 2 + i % 2, &c, &mut r)?;
            let n = r.below(90);
            k.inner_header_mut().inner_stream_key = r.data(n);
            let k2 = unlock(&save(&k)?, &c)?;
            diff("inner header", k.inner_header(), k2.inner_header())?;
        }
        Ok(())
    });
    j.add("incomplete", move || {
        let v = V4::new(Ci::Aes, 0);
        let mut r = Rng::new(seed);
        let root = MGroup { uuid: uuid(&mut r), name: "plain".into(), times: times(&mut r), entries: vec![], groups: vec![] };
        let plain = MDb { name: "n".into(), desc: "d".into(), custom: vec![], mp: [false; 5], root };
        let x = xml_of(&plain, &mut v.stream(), &mut r, false, false);
        let id = (1u8, 3u32.to_le_bytes().to_vec());
        let key = (2u8, vec![4; 32]);
        let mut w = v.clone();
        w.inner = Some(vec![id.clone(), key.clone()]);
        unlock(&w.seal(x.as_bytes()), &v.creds)?;
        let bin = (3u8, vec![4; 32]);
        for (n, f) in [
            ("no cipher", vec![key.clone()]),
            ("no key", vec![id.clone()]),
            ("nothing", vec![]),
            ("only a binary", vec![bin.clone()]),
            ("cipher id of 3 bytes", vec![(1, vec![3, 0, 0]), key.clone()]),
            ("empty cipher id", vec![(1, vec![]), key.clone()]),
        ] {
            let mut w = v.clone();
            w.inner = Some(f);
            must_err(unlock(&w.seal(x.as_bytes()), &v.creds), &format!("inner header with {}", n))?;
        }
        let head = tlv4(&[id, key, bin]);
        for n in 0..head.len() + 5 {
            let mut c = head.clone();
            c.extend([0, 0, 0, 0, 0]);
            c.truncate(n);
            must_err(unlock(&v.seal_content(&c), &v.creds), &format!("inner header cut after {} bytes", n))?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C08

fn quiet<T>(_: T) -> R {
    Ok(())
}
fn poke(b: &[u8], c: &Creds) -> R {
    crate::evaluated("any bytes", b);
    if let Ok(k) = open(b) {
        let mut o = vec![];
        let _ = k.write(&mut o);
        match k.unlock(&c.lib()) {
            Ok(u) => {
                let mut o = vec![];
                let _ = u.write(&mut o);
            }
            Err(f) => {
                let mut o = vec![];
                let _ = f.0.write(&mut o);
            }
        }
    }
    Ok(())
}
fn c08(j: &mut Jobs) {
    let seed = j.seed;
    for ci in CIPHERS {
        for gz in 0..2u8 {
            j.add(format!("cut-v4-{:?}-{}", ci, gz), move || {
                let mut v = V4::new(ci, gz);
                v.block = 300;
                let b = v.seal(doc(seed, &mut v.stream()).1.as_bytes());
                for n in 0..b.len() {
                    poke(&b[..n], &v.creds)?;
                }
                Ok(())
            });
            j.add(format!("cut-v3-{:?}-{}", ci, gz), move || {
                let mut w = V3::new(ci, gz);
                w.blocks = vec![100, 200];
                let b = w.seal(doc(seed, &mut w.stream()).1.as_bytes());
                for n in 0..b.len() {
                    poke(&b[..n], &w.creds)?;
                }
                Ok(())
            });
        }
    }
    for i in 0..j.n(40) {
        // every outer field with every small size, codes recomputed
        j.add(format!("field-size-{}", i), move || {
            let n = i as usize;
            for ci in CIPHERS {
                let v = V4::new(ci, 0);
                let x = doc(seed, &mut v.stream()).1;
                for id in [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] {
                    let mut w = v.clone();
                    let mut f: Vec<Tlv> = v.outer_fields().into_iter().filter(|t| t.0 != id).collect();
                    f.push((id, vec![n as u8; n]));
                    if id == 5 || id == 6 {
                        f.retain(|t| t.0 != 11);
                        f.push(if id == 5 { (6, 3u64.to_le_bytes().to_vec()) } else { (5, vec![1; 32]) });
                        if id == 6 {
                            let l = f.len();
                            f[l - 2].1 = vec![0; n];
                        }
                    }
                    w.outer = Some(f);
                    match id {
                        4 => w.seed = vec![n as u8; n],
                        7 if n == ci.ivlen() => w.iv = vec![n as u8; n],
                        _ => {}
                    }
                    poke(&w.seal(x.as_bytes()), &v.creds)?;
                }
                let w3 = V3::new(ci, 0);
                let x = doc(seed, &mut w3.stream()).1;
                for id in [2u8, 3, 4, 5, 6, 7, 8, 9, 10, 11] {
                    let mut w = w3.clone();
                    let mut f: Vec<Tlv> = w3.outer_fields().into_iter().filter(|t| t.0 != id).collect();
                    f.push((id, vec![0; n]));
                    w.outer = Some(f);
                    match id {
                        4 => w.seed = vec![0; n],
                        9 => w.start = vec![0; n],
                        8 => w.psk = vec![0; n],
                        _ => {}
                    }
                    poke(&w.seal(x.as_bytes()), &w.creds)?;
                }
            }
            Ok(())
        });
        j.add(format!("inner-size-{}", i), move || {
            let n = i as usize;
            let v = V4::new(Ci::Aes, 0);
            let x = doc(seed, &mut v.stream()).1;
            for id in 0..6u8 {
                let mut w = v.clone();
                let mut f: Vec<Tlv> = v.inner_fields().into_iter().filter(|t| t.0 != id).collect();
                f.push((id, vec![n as u8; n]));
                w.inner = Some(f);
                poke(&w.seal(x.as_bytes()), &v.creds)?;
            }
            let mut r = Rng::new(seed + i);
            // lengths stay small: the allocator is not what is being tested
            fn fields(r: &mut Rng, n: usize) -> Vec<u8> {
                let mut o = vec![];
                while o.len() < n {
                    let l = *r.pick(&[0usize, 1, 3, 4, 5, 32, 200]);
                    o.push(*r.pick(&[0u8, 1, 2, 3, 4, 255]));
                    o.extend((l as u32).to_le_bytes());
                    o.extend(r.data(l));
                }
                o.truncate(n);
                o
            }
            for _ in 0..20 {
                let n = r.below(60);
                poke(&v.seal_content(&fields(&mut r, n)), &v.creds)?;
                let n = r.below(60);
                for ci in CIPHERS {
                    for g in 0..2 {
                        let v = V4::new(ci, g);
                        // a first block with a small length, the rest at random
                        let mut p = vec![1, 200, 0, 0, 0];
                        p.extend(r.data(11));
                        let mut ct = encrypt(v.ci, &sha256(&[&v.seed, &v.mk()]), &v.iv, &p);
                        ct.truncate(16);
                        ct.extend(r.data(n));
                        poke(&v.seal_cipher(&ct), &v.creds)?;
                        poke(&v.seal_cipher(&ct[..n.min(15)]), &v.creds)?;
                        if g == 1 {
                            poke(&v.seal_cipher(&r.data(n)), &v.creds)?;
                        }
                        let w = V3::new(ci, g);
                        let mut o = w.header();
                        o.extend(r.data(n));
                        poke(&o, &w.creds)?;
                        let mut f = r.data(n);
                        for b in f.iter_mut().skip(38).take(2) {
                            *b = 0;
                        }
                        poke(&w.seal_frames(&f), &w.creds)?;
                        poke(&w.seal_plain(&r.data(n)), &w.creds)?;
                    }
                }
            }
            Ok(())
        });
        j.add(format!("mutate-{}", i), move || {
            let mut r = Rng::new(seed * 53 + i);
            let v = V4::new(CIPHERS[r.below(3)], r.below(2) as u8);
            let w = V3::new(CIPHERS[r.below(3)], r.below(2) as u8);
            let b4 = v.seal(doc(seed, &mut v.stream()).1.as_bytes());
            let b3 = w.seal(doc(seed, &mut w.stream()).1.as_bytes());
            for _ in 0..60 {
                for (b, hl) in [(&b4, v.header().len()), (&b3, w.header().len())] {
                    let mut m = b.to_vec();
                    for _ in 0..1 + r.below(3) {
                        let p = r.below(hl + 40);
                        m[p] = byte(&mut r);
                    }
                    if big_lengths(&m) {
                        continue;
                    }
                    // make the checksum match again
                    if m[10] == 4 {
                        if let Ok((_, e)) = untlv4(&m, 12) {
                            if e + 32 <= m.len() {
                                let h = sha256(&[&m[..e]]);
                                m[e..e + 32].copy_from_slice(&h);
                            }
                        }
                    }
                    if m == *b || costly(&m) {
                        continue;
                    }
                    poke(&m, &v.creds)?;
                }
            }
            Ok(())
        });
        j.add(format!("dict-{}", i), move || {
            let mut r = Rng::new(seed * 59 + i);
            for _ in 0..60 {
                let mut d = kdf(r.below(5), &mut r).dict();
                for _ in 0..1 + r.below(3) {
                    let p = r.below(d.len());
                    d[p] = byte(&mut r);
                }
                // lengths of several megabytes only cost time
                if d.windows(4).any(|w| w[3] > 0 && w[3] < 0x80 && w[2] < 2) {
                    continue;
                }
                let _ = open(&with_dict(d));
            }
            Ok(())
        });
        j.add(format!("settings-{}", i), move || {
            let mut r = Rng::new(seed * 61 + i);
            for _ in 0..12 {
                let d = db(&mut r, 0);
                let mut k = Kdbx::from_database(d.lib());
                let kd = kdf(r.below(5), &mut r);
                k.header_mut().kdf_params = kd.lib();
                let _ = k.set_key(creds(r.below(7)).lib());
                let (a, b, c) = (r.below(70), r.below(70), r.below(70));
                let h = k.header_mut();
                h.cipher = *r.pick(&[Cipher::Aes128, Cipher::Aes256, Cipher::TwoFish, Cipher::ChaCha20, Cipher::Unknown(uuid::Uuid::from_bytes([0; 16]))]);
                h.compression_type = *r.pick(&[CompressionType::None, CompressionType::Gzip, CompressionType::Unknown(4)]);
                h.master_seed = r.data(a);
                if r.chance(2) {
                    h.encryption_iv = r.data(b);
                }
                if r.chance(3) {
                    h.kdf_params = match r.below(4) {
                        0 => KdfParams::Argon2 { variant: argon2::Variant::Argon2i, memory_bytes: u64::MAX, version: 3, salt: vec![], lanes: 0, iterations: 0 },
                        1 => KdfParams::Aes { rounds: 0, salt: vec![] },
                        2 => KdfParams::Unknown { uuid: uuid::Uuid::from_bytes([0; 16]), params: Default::default() },
                        _ => KdfParams::Argon2 { variant: argon2::Variant::Argon2d, memory_bytes: 0, version: 0, salt: vec![], lanes: 0, iterations: 0 },
                    };
                    if r.chance(2) {
                        let _ = k.set_key(Creds::pw("k").lib());
                    }
                }
                k.inner_header_mut().inner_stream_key = r.data(c);
                k.inner_header_mut().inner_stream_cipher = *r.pick(&[
                    InnerStreamCipherAlgorithm::ArcFour,
                    InnerStreamCipherAlgorithm::Salsa20,
                    InnerStreamCipherAlgorithm::ChaCha20,
                    InnerStreamCipherAlgorithm::Unknown(0),
                ]);
                quiet(save(&k))?;
            }
            Ok(())
        });
    }
    j.add("set-key-settings", || {
        for variant in [argon2::Variant::Argon2d, argon2::Variant::Argon2i, argon2::Variant::Argon2id] {
            for version in [0u32, 0x10, 0x13, u32::MAX] {
                for (mem, lanes, iters) in [(0u64, 1u32, 1u64), (8192, 0, 1), (8192, 1, 0), (8192, u32::MAX, 1), (8192, 1, u64::MAX), (8192, 1, 1), (u64::MAX, 1, 1)] {
                    for salt in [0usize, 7, 8, 32] {
                        let mut k = Kdbx::from_database(Default::default());
                        k.header_mut().kdf_params = KdfParams::Argon2 { variant, memory_bytes: mem, version, salt: vec![0; salt], lanes, iterations: iters };
                        let _ = k.set_key(Creds::pw("x").lib());
                        let _ = save(&k);
                    }
                }
            }
        }
        for n in 0..70 {
            let mut k = Kdbx::from_database(Default::default());
            k.header_mut().kdf_params = KdfParams::Aes { rounds: 1, salt: vec![0; n] };
            let _ = k.set_key(Creds::pw("x").lib());
            let _ = save(&k);
        }
        Ok(())
    });
}

fn byte(r: &mut Rng) -> u8 {
    let any = r.next() as u8;
    *r.pick(&[0, 1, 0x7f, 0x80, 0xff, any])
}
/// claims a field so long that reading it only exercises the memory allocator
fn big_lengths(m: &[u8]) -> bool {
    let mut i = 12;
    loop {
        let l = match m[10] {
            4 if i + 5 <= m.len() => u32::from_le_bytes(m[i + 1..i + 5].try_into().unwrap()) as usize,
            3 if i + 3 <= m.len() => u16::from_le_bytes(m[i + 1..i + 3].try_into().unwrap()) as usize,
            _ => return false,
        };
        if l > 1 << 26 {
            return true;
        }
        if m[i] == 11 && m[10] == 4 {
            if let Some(d) = m.get(i + 5..i + 5 + l) {
                let mut p = 2;
                while d.get(p).map_or(false, |t| *t != 0) {
                    p += 1;
                    for _ in 0..2 {
                        let l = match d.get(p..p + 4) {
                            Some(x) => u32::from_le_bytes(x.try_into().unwrap()) as usize,
                            None => break,
                        };
                        if l > 1 << 26 {
                            return true;
                        }
                        p += 4 + l;
                    }
                }
            }
        }
        if m[i] == 0 {
            return false;
        }
        i += l + if m[10] == 4 { 5 } else { 3 };
    }
}
/// key derivation settings that only take time
fn costly(m: &[u8]) -> bool {
    match open(m) {
        Ok(k) => match &k.header().kdf_params {
            KdfParams::Aes { rounds, .. } => *rounds > 50_000,
            KdfParams::Argon2 { memory_bytes, lanes, iterations, .. } => *memory_bytes > 1 << 20 || *lanes > 16 || *iterations > 20,
            _ => false,
        },
        Err(_) => false,
    }
}

// ---------------------------------------------------------------- C09

/// delivers the data in pieces of the given sizes, with interruptions
pub struct Chunky {
    pub data: Vec<u8>,
    pub pos: usize,
    pub r: Rng,
    pub max: usize,
    pub interrupt: bool,
}
impl Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.interrupt && self.r.chance(4) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        let n = (1 + self.r.below(self.max)).min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn c09(j: &mut Jobs) {
    let seed = j.seed;
    for i in 0..j.n(60) {
        j.add(format!("split-{}", i), move || {
            let mut r = Rng::new(seed * 67 + i);
            let v = V4 { minor: (i % 4) as u16, ..V4::new(CIPHERS[i as usize % 3], (i % 3) as u8) };
            let w = V3 { minor: (i % 3) as u16, ..V3::new(CIPHERS[i as usize % 2], (i % 3) as u8) };
            for (b, c, ver) in [
                (v.seal(doc(seed, &mut v.stream()).1.as_bytes()), &v.creds, (4, v.minor)),
                (w.seal(doc(seed, &mut w.stream()).1.as_bytes()), &w.creds, (3, w.minor)),
            ] {
                let mut variants = vec![b.clone()];
                let mut m = b.clone();
                let p = r.below(b.len().min(300));
                m[p] ^= 1;
                if !big_lengths(&m) {
                    variants.push(m);
                }
                let n = r.below(b.len());
                variants.push(b[..n].to_vec());
                for m in variants {
                    let whole = kdbx_rs::from_reader(&m[..]).map(|k| format!("{:?}", k)).map_err(|e| e.to_string());
                    for max in [1usize, 2, 3, 7, 33, 1000] {
                        let rd = Chunky { data: m.clone(), pos: 0, r: Rng::new(r.next()), max, interrupt: i % 2 == 0 };
                        let part = kdbx_rs::from_reader(rd).map(|k| format!("{:?}", k)).map_err(|e| e.to_string());
                        diff(&format!("result when the bytes come in pieces of up to {}", max), &whole.is_ok(), &part.is_ok())?;
                        if whole.is_ok() {
                            diff(&format!("archive when the bytes come in pieces of up to {}", max), &whole, &part)?;
                        }
                    }
                }
                let k = open(&b)?;
                diff("version", &ver, &(k.major_version() as u16, k.minor_version() as u16))?;
                k.unlock(&c.lib()).map_err(|e| format!("{}", e.1))?;
            }
            Ok(())
        });
    }
    j.add("signatures", move || {
        let v = V4::new(Ci::Aes, 0);
        let w = V3::new(Ci::Aes, 0);
        let x = doc(seed, &mut v.stream()).1;
        for b in [v.seal(x.as_bytes()), w.seal(x.as_bytes())] {
            for bit in 0..64 {
                let mut m = b.clone();
                m[bit / 8] ^= 1 << (bit % 8);
                must_err(open(&m), &format!("data with signature bit {} changed", bit))?;
            }
            let mut m = b.clone();
            m[..8].rotate_left(4);
            must_err(open(&m), "data with the signatures exchanged")?;
            m = b.clone();
            m[..8].reverse();
            must_err(open(&m), "data with the signatures reversed")?;
            for n in 0..12 {
                must_err(open(&b[..n]), &format!("{} bytes of a file", n))?;
            }
        }
        Ok(())
    });
    j.add("versions", move || {
        for major in (0..=20u16).chain([0x0103, 0x0104, 0x0203, 0x0304, 0x0403, 255, 256, 1024, 0x8004, u16::MAX]) {
            for minor in [0u16, 1, 2, 3, 4, 5, 0x0103, u16::MAX] {
                for three in [false, true] {
                    let v = V4 { minor, ..V4::new(Ci::Aes, 0) };
                    let w = V3 { minor, ..V3::new(Ci::Aes, 0) };
                    let mut b = if three { w.header() } else { v.header() };
                    b[10..12].copy_from_slice(&major.to_le_bytes());
                    let h = sha256(&[&b]);
                    b.extend(h);
                    b.extend([7; 32]);
                    let r = open(&b);
                    if major == if three { 3 } else { 4 } {
                        let k = r.map_err(|e| format!("version {}.{}: {}", major, minor, e))?;
                        check((k.major_version() as u16, k.minor_version() as u16) == (major, minor), format!("version {}.{} reported as {}.{}", major, minor, k.major_version(), k.minor_version()))?;
                    } else if major != 3 && major != 4 {
                        must_err(r, &format!("version {}.{}", major, minor))?;
                    }
                }
            }
        }
        Ok(())
    });
    for part in 0..8usize {
        j.add(format!("checksum-{}", part), move || {
            let v = V4 { extra: vec![(12, vec![5; 40]), (77, vec![])], ..V4::new(Ci::Aes, 0) };
            let b = v.head_with_codes(&v.header(), &v.mk());
            let n = v.header().len() + 32;
            for pos in (part..n).step_by(8) {
                for bit in 0..8 {
                    let mut m = b.clone();
                    m[pos] ^= 1 << bit;
                    if !big_lengths(&m) {
                        must_err(open(&m), &format!("header with bit {} of byte {} changed", bit, pos))?;
                    }
                }
            }
            for cut in (part..b.len()).step_by(8) {
                must_err(open(&b[..cut]), &format!("header cut to {} of {} bytes", cut, b.len()))?;
            }
            // checksum of something else
            let h = v.header();
            for wrong in [sha256(&[&h[12..]]), sha256(&[&h[..h.len() - 1]]), sha256(&[]), vec![0; 32], sha256(&[&sha256(&[&h])])] {
                let mut m = h.clone();
                m.extend(wrong);
                m.extend([0; 32]);
                must_err(open(&m), "header with a wrong checksum")?;
            }
            Ok(())
        });
    }
    j.add("required", move || {
        let v = V4::new(Ci::Aes, 0);
        for id in [2u8, 3, 4, 7, 11] {
            let mut w = v.clone();
            w.outer = Some(v.outer_fields().into_iter().filter(|t| t.0 != id).collect());
            must_err(open(&w.head_with_codes(&w.header(), &v.mk())), &format!("header without field {}", id))?;
        }
        let v = V3::new(Ci::Aes, 0);
        for id in [2u8, 3, 4, 5, 6, 7] {
            let mut w = v.clone();
            w.outer = Some(v.outer_fields().into_iter().filter(|t| t.0 != id).collect());
            must_err(open(&w.header()), &format!("KDBX 3 header without field {}", id))?;
        }
        Ok(())
    });
    j.add("content", move || {
        // everything after the codes is the content, whatever it is
        for n in [0usize, 1, 35, 36, 5000, 100_000, 9 << 20, (20 << 20) + 1] {
            let v = V4::new(Ci::Aes, 0);
            let mut b = v.head_with_codes(&v.header(), &v.mk());
            if n <= 100_000 {
                b.extend(Rng::new(n as u64).bytes(n));
            } else {
                b.resize(b.len() + n, 0x5a);
            }
            let k = open(&b)?;
            let mut o = vec![];
            k.write(&mut o).map_err(|e| e.to_string())?;
            check(o == b, "content of the opened archive differs")?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C10

pub fn documented_blocks(o: &Opened) -> R {
    for (i, s) in o.block_sizes.iter().enumerate() {
        check(*s >= 1 && *s <= 1 << 20, format!("block {} has {} bytes", i, s))?;
    }
    Ok(())
}
fn c10(j: &mut Jobs) {
    let seed = j.seed;
    // written by the library, read by the reference
    let mut sizes: Vec<(usize, bool)> = (0..34).map(|n| (3000 + n, false)).collect();
    for m in [1usize, 2] {
        for o in [-17i64, -16, -15, -1, 0, 1, 15, 16, 17] {
            sizes.push((((m << 20) as i64 + o) as usize, true));
        }
    }
    sizes.extend([(8191, true), (8192, true), (8193, true), (65536, true), ((3 << 20) + 5, true), (4 << 20, true)]);
    for (t, big) in sizes {
        for ci in CIPHERS {
            if big && ci == Ci::Twofish && !j.thorough && t != 1 << 20 {
                continue;
            }
            j.add(format!("write-{}-{:?}", t, ci), move || {
                let (d, k, c) = sized(t, ci, seed)?;
                let b = save(&k)?;
                let o = ref_reads(&b, &c, &d)?;
                documented_blocks(&o)?;
                check(o.content.len() == t, "content length")?;
                let u = unlock(&b, &c)?;
                diff("content after unlocking", &Some(&o.xml[..]), &u.raw_xml())
            });
        }
    }
    for i in 0..j.n(12) {
        j.add(format!("write-gzip-{}", i), move || {
            let mut r = Rng::new(seed * 71 + i);
            let n = if i % 2 == 0 { r.below(30_000) } else { 800_000 + r.below(3_000_000) };
            let d = bulky(&mut r, n);
            let c = Creds::pw("p");
            let k = made(&d, CIPHERS[i as usize % 3], true, &Kdf::aes(1), 3, &c, &mut r)?;
            let b = save(&k)?;
            let o = ref_reads(&b, &c, &d)?;
            documented_blocks(&o)?;
            let u = unlock(&b, &c)?;
            diff("content after unlocking", &Some(&o.xml[..]), &u.raw_xml())
        });
    }
    // written by the reference with any block sizes, read by the library
    for i in 0..j.n(60) {
        j.add(format!("read-{}", i), move || {
            let mut r = Rng::new(seed * 73 + i);
            let ci = CIPHERS[i as usize % 3];
            let mut v = V4::new(ci, (i / 3 % 3) as u8);
            v.block = *r.pick(&[1usize, 2, 3, 5, 7, 8, 15, 16, 17, 31, 32, 33, 100, 255, 1000, 8192, (1 << 20) + 17]);
            v.blocks = Some((0..r.below(6)).map(|_| 1 + r.below(100)).collect());
            let (_, x) = doc(seed + i, &mut v.stream());
            for n in 0..18 {
                let x = format!("{}<!--{}-->", x, "z".repeat(n));
                let k = unlock(&v.seal(x.as_bytes()), &v.creds)?;
                diff("content", &Some(x.as_bytes()), &k.raw_xml())?;
            }
            Ok(())
        });
    }
    for (t, block) in [(8191usize, 8192usize), (8192, 8192), (8193, 4096), (65536, 1000), (1 << 20, 1 << 20), ((1 << 20) + 1, 1 << 20), ((1 << 20) - 1, 99_999), (2_500_000, 700_001), (3 << 20, 3 << 20)] {
        for ci in CIPHERS {
            for gz in [0u8, 2] {
                if ci == Ci::Twofish && gz == 2 && !j.thorough {
                    continue;
                }
                j.add(format!("read-big-{}-{}-{:?}-{}", t, block, ci, gz), move || {
                    let mut v = V4::new(ci, gz);
                    v.block = block;
                    let (_, x) = doc(seed, &mut v.stream());
                    let have = v.content(x.as_bytes()).len() + 7;
                    let pad: String = Rng::new(seed).bytes(t.saturating_sub(have)).iter().map(|b| (b'a' + b % 26) as char).collect();
                    let x = format!("{}<!--{}-->", x, pad);
                    let k = unlock(&v.seal(x.as_bytes()), &v.creds)?;
                    check(Some(x.as_bytes()) == k.raw_xml(), "content differs")
                });
            }
        }
    }
    // ciphertexts that are not the encryption of any content
    j.add("bad-padding", move || {
        for ci in [Ci::Aes, Ci::Twofish] {
            let v = V4::new(ci, 0);
            let (_, x) = doc(seed, &mut v.stream());
            let c = v.content(x.as_bytes());
            let key = sha256(&[&v.seed, &v.mk()]);
            let full = pad(&c);
            for cut in 1..16 {
                let ct = raw(ci, &key, &v.iv, &full, true);
                must_err(unlock(&v.seal_cipher(&ct[..ct.len() - cut]), &v.creds), &format!("ciphertext {} bytes short", cut))?;
            }
            for last in [0u8, 17, 32, 255] {
                let mut p = full.clone();
                *p.last_mut().unwrap() = last;
                must_err(unlock(&v.seal_cipher(&raw(ci, &key, &v.iv, &p, true)), &v.creds), &format!("padding byte {}", last))?;
            }
            must_err(unlock(&v.seal_cipher(&[]), &v.creds), "no ciphertext at all")?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Copy, Debug)]
pub enum Fault {
    None,
    /// fails once `n` bytes were taken
    After(usize),
    /// takes nothing more after `n` bytes
    Full(usize),
    /// the n-th write call fails
    Call(usize),
    Flush,
}
const KINDS: [io::ErrorKind; 11] = [
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::Unsupported,
    io::ErrorKind::NotFound,
];
pub struct Sink {
    pub got: Vec<u8>,
    held: Vec<u8>,
    buffered: bool,
    fault: Fault,
    max: usize,
    interrupt: bool,
    pub kind: io::ErrorKind,
    pub calls: usize,
    pub failed: bool,
    r: Rng,
}
impl Sink {
    pub fn new(fault: Fault, max: usize, interrupt: bool, buffered: bool) -> Sink {
        let n = match fault {
            Fault::After(n) | Fault::Call(n) => n,
            _ => 0,
        };
        Sink { got: vec![], held: vec![], buffered, fault, max, interrupt, kind: KINDS[n % KINDS.len()], calls: 0, failed: false, r: Rng::new(max as u64) }
    }
    fn broken(&mut self) -> io::Error {
        self.failed = true;
        io::Error::new(self.kind, "disk full")
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.interrupt && self.r.chance(3) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        self.calls += 1;
        let taken = self.got.len() + self.held.len();
        let mut n = b.len().min(self.max);
        match self.fault {
            Fault::After(k) => {
                if taken >= k && !b.is_empty() {
                    return Err(self.broken());
                }
                n = n.min(k - taken);
            }
            Fault::Full(k) => {
                n = n.min(k.saturating_sub(taken));
                if n == 0 && !b.is_empty() {
                    self.failed = true;
                }
            }
            Fault::Call(k) if self.calls == k => return Err(self.broken()),
            _ => {}
        }
        if self.buffered {
            self.held.extend(&b[..n]);
        } else {
            self.got.extend(&b[..n]);
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Fault::Flush = self.fault {
            return Err(self.broken());
        }
        let h = std::mem::take(&mut self.held);
        self.got.extend(h);
        Ok(())
    }
}
fn c11(j: &mut Jobs) {
    let seed = j.seed;
    #[derive(Clone)]
    enum A {
        L(Vec<u8>),
        U(Ci, bool, MDb),
    }
    let mut list: Vec<(String, A)> = vec![];
    let v = V4::new(Ci::Aes, 0);
    let b4 = v.seal(doc(seed, &mut v.stream()).1.as_bytes());
    let w = V3::new(Ci::Aes, 1);
    let b3 = w.seal(doc(seed, &mut w.stream()).1.as_bytes());
    list.push(("locked-v4".into(), A::L(b4)));
    list.push(("locked-v3".into(), A::L(b3)));
    for ci in CIPHERS {
        for gz in [false, true] {
            list.push((format!("unlocked-{:?}-{}", ci, gz), A::U(ci, gz, doc(seed, &mut Ks::new(3, &[])).0)));
        }
    }
    list.push(("unlocked-big".into(), A::U(Ci::ChaCha, false, bulky(&mut Rng::new(seed), 1_600_000))));
    list.push(("unlocked-gzip-big".into(), A::U(Ci::Aes, true, bulky(&mut Rng::new(seed), 1_600_000))));
    let v = V4 { block: 700_000, ..V4::new(Ci::ChaCha, 0) };
    let x = format!("{}<!--{}-->", doc(seed, &mut v.stream()).1, "large ".repeat(400_000));
    list.push(("locked-big".into(), A::L(v.seal(x.as_bytes()))));
    for (name, a) in list {
        let parts = if name.ends_with("big") { 2 } else { 6 };
        for part in 0..parts {
            let a = a.clone();
            j.add(format!("{}-{}", name, part), move || {
                let c = Creds::pw("pass");
                let mut lk = None;
                let mut uk = None;
                match &a {
                    A::L(b) => lk = Some((open(b)?, b.clone())),
                    A::U(ci, gz, d) => uk = Some((made(d, *ci, *gz, &Kdf::aes(1), 3, &c, &mut Rng::new(seed))?, d.canon())),
                }
                let run = |s: &mut Sink| -> Result<(), String> {
                    match (&lk, &uk) {
                        (Some((k, _)), _) => k.write(s).map_err(|e| e.to_string()),
                        (_, Some((k, _))) => k.write(s).map_err(|e| e.to_string()),
                        _ => unreachable!(),
                    }
                };
                let complete = |got: &[u8]| -> R {
                    if let Some((_, b)) = &lk {
                        return check(got == &b[..], "the destination did not get the whole archive");
                    }
                    let (k, d) = uk.as_ref().unwrap();
                    let u = unlock(got, &c).map_err(|e| format!("the destination did not get the whole archive: {}", e))?;
                    same_db(d, &u)?;
                    diff("header", k.header(), u.header())?;
                    open4(got, &c).map(|_| ()).map_err(|e| format!("the destination did not get the whole archive: {}", e))
                };
                let mut s = Sink::new(Fault::None, usize::MAX, false, false);
                run(&mut s).map_err(|e| format!("saving failed: {}", e))?;
                complete(&s.got)?;
                let (len, calls) = (s.got.len(), s.calls);
                if part == 0 {
                    for max in [1usize, 2, 7, 64, 5000] {
                        for interrupt in [false, true] {
                            for buffered in [false, true] {
                                if len > 100_000 && max < 5000 {
                                    continue;
                                }
                                let mut s = Sink::new(Fault::None, max, interrupt, buffered);
                                run(&mut s).map_err(|e| format!("saving to a destination taking {} bytes at a time failed: {}", max, e))?;
                                complete(&s.got).map_err(|e| format!("{} (destination taking {} bytes at a time)", e, max))?;
                            }
                        }
                    }
                    for kind in KINDS {
                        for buffered in [true, false] {
                            let mut s = Sink::new(Fault::Flush, usize::MAX, false, buffered);
                            s.kind = kind;
                            must_err(run(&mut s), &format!("a destination whose flush fails ({:?})", kind))?;
                        }
                    }
                }
                let small = len < 100_000;
                let slow = matches!(a, A::U(Ci::Twofish, ..));
                let step = if slow { parts * 5 + 1 } else if small { parts } else { len / 6 };
                for p in (part..len).step_by(step) {
                    for max in [usize::MAX, 13] {
                        if max == 13 && (!small || p % 5 != 0) {
                            continue;
                        }
                        for f in [Fault::After(p), Fault::Full(p)] {
                            let mut s = Sink::new(f, max, p % 7 == 1, false);
                            let r = run(&mut s);
                            if r.is_ok() {
                                // only acceptable if the archive of this run was complete already
                                check(!s.failed, format!("saving succeeded although the destination failed ({:?} of {} bytes)", f, len))?;
                                complete(&s.got).map_err(|e| format!("{} ({:?})", e, f))?;
                            }
                        }
                    }
                }
                for k in (1 + part..=calls).step_by(if small { parts } else { 1 + calls / 6 }) {
                    let mut s = Sink::new(Fault::Call(k), usize::MAX, false, false);
                    let r = run(&mut s);
                    check(!(r.is_ok() && s.failed), format!("saving succeeded although write call {} of {} failed", k, calls))?;
                }
                Ok(())
            });
        }
    }
    j.add("no-key", move || {
        let mut r = Rng::new(seed);
        for i in 0..8 {
            let d = db(&mut r, 1);
            let mut k = Kdbx::from_database(d.lib());
            if i % 2 == 1 {
                k.header_mut().compression_type = CompressionType::Gzip;
            }
            let mut s = Sink::new(Fault::None, usize::MAX, false, false);
            must_err(k.write(&mut s), "saving without a key")?;
            check(s.got.is_empty(), format!("{} bytes written without a key", s.got.len()))?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C19

struct Slow(Vec<u8>, usize);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn c19(j: &mut Jobs) {
    let seed = j.seed;
    c19_sizes(j);
    for i in 0..j.n(120) {
        j.add(format!("locked-{}", i), move || {
            let mut r = Rng::new(seed * 79 + i);
            let extra = |r: &mut Rng| -> Vec<Tlv> {
                (0..r.below(4))
                    .map(|_| {
                        let n = *r.pick(&[0usize, 1, 33, 255, 300]);
                        (*r.pick(&[1u8, 12, 13, 99, 255]), r.data(n))
                    })
                    .collect()
            };
            let (mut b, c) = if i % 2 == 0 {
                let mut v = V4::new(CIPHERS[i as usize % 3], (i / 2 % 3) as u8);
                v.minor = r.next() as u16;
                v.kdf = kdf(i as usize, &mut r);
                v.block = 1 + r.below(3000);
                v.extra = extra(&mut r);
                let mut f = v.outer_fields();
                shuffle(&mut f, &mut r);
                if r.chance(4) {
                    f.push((12, vec![0; 70_000]));
                }
                v.outer = Some(f);
                (v.seal(doc(seed + i, &mut v.stream()).1.as_bytes()), v.creds)
            } else {
                let mut w = V3::new(CIPHERS[i as usize % 3], (i / 2 % 3) as u8);
                w.minor = r.next() as u16;
                w.extra = extra(&mut r);
                let mut f = w.outer_fields();
                shuffle(&mut f, &mut r);
                w.outer = Some(f);
                (w.seal(doc(seed + i, &mut w.stream()).1.as_bytes()), w.creds)
            };
            let intact = r.chance(2);
            if !intact {
                match r.below(3) {
                    0 => {
                        let n = b.len();
                        b[n - 10] ^= 4
                    }
                    1 => {
                        let n = r.below(300);
                        b.extend(r.data(n))
                    }
                    _ => {
                        let n = b.len() - r.below(20);
                        b.truncate(n)
                    }
                }
            }
            let mut k = open(&b)?;
            let wr = |k: &Kdbx<Locked>| -> R {
                let mut o = vec![];
                k.write(&mut o).map_err(|e| format!("writing failed: {}", e))?;
                if o != b {
                    let at = o.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(o.len().min(b.len()));
                    return Err(format!("written archive differs at byte {} ({} bytes instead of {})", at, o.len(), b.len()));
                }
                Ok(())
            };
            wr(&k)?;
            for w in ["wrong", "", "Pass"] {
                k = match k.unlock(&Creds::pw(w).lib()) {
                    Ok(_) => return Err("unlocked with a wrong password".into()),
                    Err(f) => f.0,
                };
                wr(&k)?;
            }
            // also to a destination that takes little at a time
            let mut o = Slow(vec![], 1 + r.below(5000));
            k.write(&mut o).map_err(|e| format!("writing in pieces failed: {}", e))?;
            check(o.0 == b, "archive written in pieces differs")?;
            if intact {
                let u = k.unlock(&c.lib()).map_err(|e| format!("{}", e.1))?;
                diff("database", unlock(&b, &c)?.database(), u.database())?;
            }
            Ok(())
        });
    }
}

fn c19_sizes(j: &mut Jobs) {
    let seed = j.seed;
    for n in [0usize, 1, 31, 32, 33, 4095, 4096, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 3_000_000, (5 << 20) + 3] {
        j.add(format!("size-{}", n), move || {
            let mut r = Rng::new(seed + n as u64);
            let v = V4 { minor: 1, ..V4::new(Ci::Aes, 0) };
            let mut a = v.head_with_codes(&v.header(), &v.mk());
            a.extend(r.data(n));
            let w = V3::new(Ci::Aes, 0);
            let mut b = w.header();
            b.extend(r.data(n));
            for (b, what) in [(a, "KDBX 4"), (b, "KDBX 3")] {
                let k = open(&b)?;
                for _ in 0..2 {
                    let mut o = vec![];
                    k.write(&mut o).map_err(|e| format!("writing failed: {}", e))?;
                    check(o == b, format!("written {} archive with {} bytes of content differs", what, n))?;
                }
                if let Err(f) = k.unlock(&Creds::pw("wrong").lib()) {
                    let mut o = vec![];
                    f.0.write(&mut o).map_err(|e| format!("writing failed: {}", e))?;
                    check(o == b, format!("{} archive with {} bytes of content differs after a failed attempt", what, n))?;
                }
            }
            Ok(())
        });
    }
    for n in [9usize << 20, (17 << 20) + 1, (33 << 20) + 7] {
        j.add(format!("long-{}", n), move || {
            let v = V4::new(Ci::Aes, 0);
            let w = V3::new(Ci::Aes, 0);
            for mut b in [v.head_with_codes(&v.header(), &v.mk()), w.header()] {
                b.extend((0..n / 4).flat_map(|k| (k as u32 ^ 0x55aa_0000).to_le_bytes()));
                b.extend(&[7; 3][..n % 4]);
                let k = open(&b)?;
                let mut o = vec![];
                k.write(&mut o).map_err(|e| format!("writing failed: {}", e))?;
                check(o == b, format!("written archive with {} bytes of content differs", n))?;
            }
            Ok(())
        });
    }
    // whatever the field that ends the header holds, and whatever comes right after it
    for (i, end) in [&[][..], &[0], &[0, 0, 0], &[13, 10, 13, 10], &[13, 10], &[10; 5], &[0; 64], &[0xff; 300]].into_iter().enumerate() {
        j.add(format!("end-{}", i), move || {
            for next in [&[][..], &[0; 40], &[13, 10, 13, 10], &[0, 4, 0, 13, 10, 13, 10], &[0xff; 9]] {
                let w = V3::new(Ci::Aes, 0);
                let mut f = w.outer_fields();
                f.push((0, end.to_vec()));
                let mut three = signature(3, 1);
                three.extend(tlv3(&f));
                three.extend(next);
                let v = V4::new(Ci::Aes, 0);
                let mut f = v.outer_fields();
                f.push((0, end.to_vec()));
                let mut four = signature(4, 0);
                four.extend(tlv4(&f));
                let mut four = v.head_with_codes(&four, &v.mk());
                four.extend(next);
                for b in [three, four] {
                    let k = open(&b)?;
                    let mut o = vec![];
                    k.write(&mut o).map_err(|e| format!("writing failed: {}", e))?;
                    diff("written archive", &b, &o)?;
                    let f = match k.unlock(&Creds::pw("wrong").lib()) {
                        Ok(_) => return Err("unlocked with a wrong password".into()),
                        Err(f) => f.0,
                    };
                    let mut o = vec![];
                    f.write(&mut o).map_err(|e| format!("writing failed: {}", e))?;
                    diff("archive written after a failed attempt", &b, &o)?;
                }
            }
            Ok(())
        });
    }
    // fields that occur twice or not where they usually are, long ones, and a field list with every id
    for i in 0..6usize {
        j.add(format!("fields-{}", i), move || {
            let mut r = Rng::new(seed + i as u64);
            let change = |mut f: Vec<Tlv>, r: &mut Rng, long: usize| -> Vec<Tlv> {
                match i {
                    0 => f.insert(0, f[2].clone()),
                    1 => {
                        let n = f.len();
                        f.push(f[n - 1].clone());
                        f.push(f[0].clone());
                    }
                    2 => f.insert(1, (1, r.data(long))),
                    3 => f.extend((13..=255u8).map(|id| (id, vec![id]))),
                    4 => f.extend((0..400).map(|_| (1, vec![]))),
                    _ => f.reverse(),
                }
                f
            };
            let mut v = V4::new(Ci::ChaCha, 0);
            let x = doc(seed, &mut v.stream()).1;
            v.outer = Some(change(v.outer_fields(), &mut r, 200_000));
            let mut w = V3::new(Ci::Aes, 0);
            let y = doc(seed, &mut w.stream()).1;
            w.outer = Some(change(w.outer_fields(), &mut r, 65_535));
            for (b, c) in [(v.seal(x.as_bytes()), v.creds.clone()), (w.seal(y.as_bytes()), w.creds.clone())] {
                let k = open(&b)?;
                let mut o = vec![];
                k.write(&mut o).map_err(|e| format!("writing failed: {}", e))?;
                check(o == b, "written archive differs")?;
                k.unlock(&c.lib()).map_err(|e| format!("{}", e.1))?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C20

fn c20(j: &mut Jobs) {
    let seed = j.seed;
    let swap4 = |v: &V4, id: u8, d: Vec<u8>| -> V4 {
        let mut w = v.clone();
        w.outer = Some(v.outer_fields().into_iter().map(|t| if t.0 == id { (id, d.clone()) } else { t }).collect());
        w
    };
    let swap3 = |v: &V3, id: u8, d: Vec<u8>| -> V3 {
        let mut w = v.clone();
        w.outer = Some(v.outer_fields().into_iter().map(|t| if t.0 == id { (id, d.clone()) } else { t }).collect());
        w
    };
    for ci in CIPHERS {
        for gz in 0..2u8 {
            j.add(format!("read-cipher-{:?}-{}", ci, gz), move || {
                let v = V4::new(ci, gz);
                let x = doc(seed, &mut v.stream()).1;
                for bit in 0..128 {
                    let mut id = ci.uuid();
                    id[bit / 8] ^= 1 << (bit % 8);
                    must_err(unlock(&swap4(&v, 2, id.to_vec()).seal(x.as_bytes()), &v.creds), &format!("cipher id {:?}", id))?;
                }
                for id in [AES128, [0; 16], KDF_AES4, KDF_A2D] {
                    must_err(unlock(&swap4(&v, 2, id.to_vec()).seal(x.as_bytes()), &v.creds), &format!("cipher id {:?}", id))?;
                }
                for other in CIPHERS {
                    if other != ci {
                        must_err(unlock(&swap4(&v, 2, other.uuid().to_vec()).seal(x.as_bytes()), &v.creds), &format!("content of {:?} read as {:?}", ci, other))?;
                    }
                }
                let w = V3::new(ci, gz);
                let x = doc(seed, &mut w.stream()).1;
                for bit in (0..128).step_by(5) {
                    let mut id = ci.uuid();
                    id[bit / 8] ^= 1 << (bit % 8);
                    must_err(unlock(&swap3(&w, 2, id.to_vec()).seal(x.as_bytes()), &w.creds), &format!("cipher id {:?} (KDBX 3)", id))?;
                }
                must_err(unlock(&swap3(&w, 2, AES128.to_vec()).seal(x.as_bytes()), &w.creds), "AES-128 (KDBX 3)")
            });
            j.add(format!("read-compression-{:?}-{}", ci, gz), move || {
                let v = V4::new(ci, gz);
                let x = doc(seed, &mut v.stream()).1;
                let w = V3::new(ci, gz);
                let y = doc(seed, &mut w.stream()).1;
                for n in [2u32, 3, 4, 128, 255, 256, 257, 0x10000, 0x10001, 0x0100_0000, 0x0100_0001, u32::MAX] {
                    let d = n.to_le_bytes().to_vec();
                    must_err(unlock(&swap4(&v, 3, d.clone()).seal(x.as_bytes()), &v.creds), &format!("compression {}", n))?;
                    must_err(unlock(&swap3(&w, 3, d).seal(y.as_bytes()), &w.creds), &format!("compression {} (KDBX 3)", n))?;
                }
                let d = (1 - gz as u32).to_le_bytes().to_vec();
                must_err(unlock(&swap4(&v, 3, d.clone()).seal(x.as_bytes()), &v.creds), "content with the other compression")?;
                must_err(unlock(&swap3(&w, 3, d).seal(y.as_bytes()), &w.creds), "content with the other compression (KDBX 3)")
            });
        }
        j.add(format!("read-iv-{:?}", ci), move || {
            for n in 0..40usize {
                let mut v = V4::new(ci, 0);
                let x = doc(seed, &mut v.stream()).1;
                if n != ci.ivlen() {
                    let mut iv = v.iv.clone();
                    iv.resize(n, 0);
                    must_err(unlock(&swap4(&v, 7, iv.clone()).seal(x.as_bytes()), &v.creds), &format!("IV of {} bytes", n))?;
                    let w = V3::new(ci, 0);
                    let y = doc(seed, &mut w.stream()).1;
                    let mut iv = w.iv.clone();
                    iv.resize(n, 0);
                    must_err(unlock(&swap3(&w, 7, iv).seal(y.as_bytes()), &w.creds), &format!("IV of {} bytes (KDBX 3)", n))?;
                } else {
                    v.iv[0] ^= 1;
                    unlock(&v.seal(x.as_bytes()), &v.creds)?;
                }
            }
            Ok(())
        });
        for gz in [false, true] {
            j.add(format!("write-{:?}-{}", ci, gz), move || {
                let mut r = Rng::new(seed);
                let d = doc(seed, &mut Ks::new(3, &[])).0;
                let c = Creds::pw("p");
                for inner in [2u32, 3] {
                    for kd in 0..5 {
                        let kd = kdf(kd, &mut r);
                        let k = made(&d, ci, gz, &kd, inner, &c, &mut r)?;
                        let b = save(&k)?;
                        let o = ref_reads(&b, &c, &d)?;
                        let f = |id: u8| o.outer.iter().find(|t| t.0 == id).map(|t| t.1.clone()).unwrap_or_default();
                        diff("cipher named", &ci.uuid().to_vec(), &f(2))?;
                        diff("compression named", &(gz as u32).to_le_bytes().to_vec(), &f(3))?;
                        diff("KDF named", &kd.lib(), &kdf_of(&f(11))?.lib())?;
                        let f = |id: u8| o.inner.iter().find(|t| t.0 == id).map(|t| t.1.clone()).unwrap_or_default();
                        diff("inner stream named", &inner.to_le_bytes().to_vec(), &f(1))?;
                    }
                    // refused settings
                    let bad = |what: &str, f: &dyn Fn(&mut Kdbx<Unlocked>)| -> R {
                        let mut k = made(&d, ci, gz, &Kdf::aes(1), inner, &c, &mut Rng::new(seed))?;
                        f(&mut k);
                        must_err(save(&k), what)
                    };
                    for n in 0..40usize {
                        if n != ci.ivlen() {
                            bad(&format!("IV of {} bytes", n), &|k| k.header_mut().encryption_iv = vec![1; n])?;
                        }
                    }
                    for n in [2u32, 3, 255, 256, 257, u32::MAX] {
                        bad(&format!("compression {}", n), &|k| k.header_mut().compression_type = CompressionType::Unknown(n))?;
                    }
                    for n in [0u32, 1, 4, 5, 255, 258, 259, u32::MAX] {
                        bad(&format!("inner stream {}", n), &|k| k.inner_header_mut().inner_stream_cipher = InnerStreamCipherAlgorithm::from(n))?;
                    }
                    bad("AES-128", &|k| k.header_mut().cipher = Cipher::Aes128)?;
                    bad("an unknown cipher", &|k| k.header_mut().cipher = Cipher::Unknown(uuid::Uuid::from_bytes([3; 16])))?;
                    bad("an unknown cipher", &|k| k.header_mut().cipher = Cipher::Unknown(uuid::Uuid::from_bytes([0; 16])))?;
                }
                Ok(())
            });
        }
    }
    j.add("read-kdf", move || {
        let v = V4::new(Ci::Aes, 0);
        let x = doc(seed, &mut v.stream()).1;
        for (base, k) in [(KDF_AES4, Kdf::aes(3)), (KDF_A2D, kdf(1, &mut Rng::new(1))), (KDF_A2ID, kdf(2, &mut Rng::new(1)))] {
            let v = V4 { kdf: k.clone(), ..v.clone() };
            unlock(&v.seal(x.as_bytes()), &v.creds)?;
            for bit in 0..128 {
                let mut id = base;
                id[bit / 8] ^= 1 << (bit % 8);
                let mut d = Dict::new();
                for (t, key, val) in dict_parse(&k.dict())? {
                    d.put(t, &key, if key == "$UUID" { &id } else { &val });
                }
                must_err(unlock(&swap4(&v, 11, d.end()).seal(x.as_bytes()), &v.creds), &format!("KDF id {:?}", id))?;
            }
        }
        Ok(())
    });
    j.add("read-inner-stream", move || {
        // without any protected value
        let mut r = Rng::new(seed);
        let mut d = db(&mut r, 0);
        d.custom.clear();
        d.root.entries.clear();
        for id in [0u32, 1, 4, 5, 128, 255, 256, 258, 259, 0x0200_0000, u32::MAX] {
            let mut v = V4::new(Ci::Aes, 0);
            let x = xml_of(&d, &mut v.stream(), &mut r, false, false);
            v.inner_id = id;
            must_err(unlock(&v.seal(x.as_bytes()), &v.creds), &format!("inner stream {}", id))?;
            let mut w = V3::new(Ci::Aes, 0);
            let x = xml_of(&d, &mut w.stream(), &mut r, false, true);
            w.inner_id = id;
            must_err(unlock(&w.seal(x.as_bytes()), &w.creds), &format!("inner stream {} (KDBX 3)", id))?;
        }
        Ok(())
    });
    j.add("write-kdf", || {
        let a = |variant| KdfParams::Argon2 { variant, memory_bytes: 16384, version: 0x13, salt: vec![1; 32], lanes: 1, iterations: 1 };
        let mut k = Kdbx::from_database(Default::default());
        k.header_mut().kdf_params = KdfParams::Unknown { uuid: uuid::Uuid::from_bytes([1; 16]), params: Default::default() };
        must_err(k.set_key(Creds::pw("p").lib()), "an unknown KDF")?;
        must_err(save(&k), "saving with an unknown KDF")?;
        let mut k = Kdbx::from_database(Default::default());
        k.header_mut().kdf_params = a(argon2::Variant::Argon2i);
        if k.set_key(Creds::pw("p").lib()).is_ok() {
            must_err(save(&k), "Argon2i, which has no id in the format")?;
        }
        Ok(())
    });
    j.add("write-v3", move || {
        for ci in CIPHERS {
            for gz in 0..2u8 {
                let w = V3::new(ci, gz);
                let mut k = unlock(&w.seal(doc(seed, &mut w.stream()).1.as_bytes()), &w.creds)?;
                must_err(save(&k), "saving an unlocked KDBX 3 archive")?;
                if k.set_key(w.creds.lib()).is_ok() {
                    must_err(save(&k), "saving an unlocked KDBX 3 archive")?;
                }
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C21

fn c21(j: &mut Jobs) {
    let seed = j.seed;
    for i in 0..j.n(60) {
        j.add(format!("intact-{}", i), move || {
            let mut r = Rng::new(seed * 83 + i);
            let mut w = V3::new(CIPHERS[i as usize % 3], (i / 3 % 3) as u8);
            w.creds = creds(i as usize);
            w.inner_id = 2 + (i % 2) as u32;
            let n = r.below(100);
            w.psk = r.data(n);
            w.rounds = r.next() % 40;
            w.start = match i % 6 {
                0 => vec![0; 32],
                1 => vec![0xff; 32],
                _ => r.data(32),
            };
            let m = *r.pick(&[1usize, 5, 16, 17, 100, 5000]);
            w.blocks = if m == 1 { vec![1; 600] } else { (0..r.below(50)).map(|_| 1 + r.below(m)).collect() };
            let depth = r.below(3);
            let mut d = db(&mut r, depth);
            let e = entry(&mut r, 1);
            d.root.entries.push(e);
            let mut x = xml_of(&d, &mut w.stream(), &mut r, i % 2 == 0, i % 4 < 2);
            if i % 10 == 9 {
                x.push_str(&format!("<!--{}-->", "big ".repeat(600_000)));
            }
            let k = unlock(&w.seal(x.as_bytes()), &w.creds)?;
            check(k.raw_xml() == Some(x.as_bytes()), "content differs")?;
            same_db(&d, &k)?;
            // with other block numbers: an error, or all of the content
            let mut f = w.frame(&w.comp(x.as_bytes()));
            let mut at = 0;
            let odd = if i % 10 == 9 { u32::MAX } else { *r.pick(&[u32::MAX, 0, 1, 0x8000_0000, 256, 7]) };
            while at < f.len() {
                let n = u32::from_le_bytes([f[at + 36], f[at + 37], f[at + 38], f[at + 39]]) as usize;
                if if i % 10 == 9 { at > f.len() / 2 } else { at == 0 || r.chance(3) } {
                    f[at..at + 4].copy_from_slice(&odd.to_le_bytes());
                }
                at += 40 + n;
            }
            match unlock(&w.seal_frames(&f), &w.creds) {
                Ok(k) => check(k.raw_xml() == Some(x.as_bytes()), format!("content differs with blocks numbered {}", odd)),
                Err(_) => Ok(()),
            }
        });
    }
    for n in [0usize, 1, 16, 31, 33, 40, 64, 100] {
        j.add(format!("start-length-{}", n), move || {
            // start bytes of another length than the 32 that are compared
            let mut w = V3::new(Ci::ChaCha, 0);
            w.start = vec![7; n];
            let x = doc(seed, &mut w.stream()).1;
            let f = w.frame(x.as_bytes());
            for have in [n.min(32), 32] {
                let mut plain = vec![7; have];
                plain.extend(&f);
                must_err(unlock(&w.seal_plain(&plain), &w.creds), &format!("{} start bytes with {} in the header", have, n))?;
            }
            Ok(())
        });
    }
    for (size, block) in [(70_000usize, 65_536usize), (70_000, 65_537), (1_100_000, 1 << 20), (1_200_000, (1 << 20) + 1), (2_500_000, 3 << 20)] {
        j.add(format!("large-blocks-{}", block), move || {
            let mut w = V3::new(Ci::ChaCha, 0);
            w.blocks = vec![block; 3];
            let x = format!("{}<!--{}-->", doc(seed, &mut w.stream()).1, "q".repeat(size));
            let f = w.frame(x.as_bytes());
            check(unlock(&w.seal_frames(&f), &w.creds)?.raw_xml() == Some(x.as_bytes()), "content differs")?;
            let l = block.min(x.len());
            for p in [4, 20, 35, 40, 40 + l / 2, 39 + l] {
                let mut m = f.clone();
                m[p] ^= 1;
                must_err(unlock(&w.seal_frames(&m), &w.creds), &format!("block of {} bytes with byte {} changed", l, p))?;
            }
            Ok(())
        });
    }
    for ci in [Ci::Aes, Ci::ChaCha] {
        for gz in 0..3u8 {
            for part in 0..4usize {
                j.add(format!("altered-{:?}-{}-{}", ci, gz, part), move || {
                    let mut w = V3::new(ci, gz);
                    w.blocks = vec![100, 1, 300, 16];
                    let x = doc(seed, &mut w.stream()).1;
                    let comp = w.comp(x.as_bytes());
                    let f = w.frame(&comp);
                    unlock(&w.seal_frames(&f), &w.creds)?;
                    // blocks: (offset of hash, offset of data, length)
                    let mut bl = vec![];
                    let mut at = 0;
                    loop {
                        let l = u32::from_le_bytes(f[at + 36..at + 40].try_into().unwrap()) as usize;
                        if l == 0 {
                            break;
                        }
                        bl.push((at, l));
                        at += 40 + l;
                    }
                    for (n, (at, l)) in bl.iter().enumerate() {
                        for p in (*at + 4..*at + 36).chain(*at + 40..*at + 40 + l).skip(part).step_by(4) {
                            let mut m = f.clone();
                            m[p] ^= 0x10;
                            must_err(unlock(&w.seal_frames(&m), &w.creds), &format!("block {} with byte {} changed", n, p - at))?;
                        }
                        for hash in [vec![0u8; 32], sha256(&[]), sha256(&[&f[*at..*at + 4]])] {
                            let mut m = f.clone();
                            m[at + 4..at + 36].copy_from_slice(&hash);
                            must_err(unlock(&w.seal_frames(&m), &w.creds), &format!("block {} with another hash", n))?;
                        }
                    }
                    // start bytes
                    for s in [vec![0u8; 32], vec![0xff; 32], vec![0x20; 32]] {
                        let mut v = w.clone();
                        v.start = s.clone();
                        let mut plain = s;
                        plain.extend(&f);
                        unlock(&v.seal_plain(&plain), &w.creds)?;
                        for p in (part..32).step_by(4) {
                            let mut m = plain.clone();
                            m[p] ^= 0x21;
                            must_err(unlock(&v.seal_plain(&m), &w.creds), &format!("start byte {} changed", p))?;
                        }
                        for p in [0u8, 0xff, 0x20] {
                            if v.start[0] != p {
                                let mut m = vec![p; 32];
                                m.extend(&f);
                                must_err(unlock(&v.seal_plain(&m), &w.creds), "other start bytes")?;
                            }
                        }
                    }
                    let mut plain = w.start.clone();
                    plain.extend(&f);
                    for p in (part..32).step_by(4) {
                        for bit in 0..8 {
                            let mut m = plain.clone();
                            m[p] ^= 1 << bit;
                            must_err(unlock(&w.seal_plain(&m), &w.creds), &format!("start byte {} changed", p))?;
                        }
                    }
                    if part == 0 {
                        must_err(unlock(&w.seal_plain(&f), &w.creds), "content without start bytes")?;
                        let mut v = w.clone();
                        v.outer = Some(w.outer_fields().into_iter().filter(|t| t.0 != 9).collect());
                        must_err(unlock(&v.seal_plain(&plain), &w.creds), "header without start bytes")?;
                        must_err(unlock(&v.seal_plain(&f), &w.creds), "header and content without start bytes")?;
                        for n in 0..32 {
                            must_err(unlock(&w.seal_plain(&plain[..n]), &w.creds), &format!("{} bytes of content", n))?;
                        }
                        for (n, (at, l)) in bl.iter().enumerate() {
                            for cut in [at + 3, at + 20, at + 38, at + 40 + l - 1] {
                                must_err(unlock(&w.seal_frames(&f[..cut]), &w.creds), &format!("block {} cut short", n))?;
                            }
                        }
                        if gz == 0 {
                            // nothing but the end marker ends the content
                            let end = f.len() - 40;
                            must_err(unlock(&w.seal_frames(&f[..end]), &w.creds), "content without an end marker")?;
                            for n in [1, 4, 35, 36, 39] {
                                must_err(unlock(&w.seal_frames(&f[..end + n]), &w.creds), &format!("end marker cut to {} bytes", n))?;
                            }
                            for hash in [vec![1u8; 32], sha256(&[b"x"]), w.start.clone()] {
                                let mut m = f.clone();
                                m[end + 4..end + 36].copy_from_slice(&hash);
                                must_err(unlock(&w.seal_frames(&m), &w.creds), "end marker with a wrong hash")?;
                            }
                        }
                        // what follows the end marker is not content
                        let mut m = f.clone();
                        let junk = b"<!-- more -->";
                        m.extend(7u32.to_le_bytes());
                        m.extend(sha256(&[junk]));
                        m.extend((junk.len() as u32).to_le_bytes());
                        m.extend(junk);
                        let k = unlock(&w.seal_frames(&m), &w.creds)?;
                        check(k.raw_xml() == Some(x.as_bytes()), "content goes on after the end marker")?;
                    }
                    Ok(())
                });
            }
        }
    }
}

// ---------------------------------------------------------------- C22

fn c22(j: &mut Jobs) {
    j.add("fresh", || {
        let n = 96;
        let mut all: Vec<[Vec<u8>; 4]> = vec![];
        for i in 0..n {
            let mut d = kdbx_rs::Database::default();
            if i % 2 == 0 {
                d.set_name("same name");
            }
            let k = Kdbx::from_database(d);
            let h = k.header();
            let salt = match &h.kdf_params {
                KdfParams::Argon2 { salt, .. } => salt.clone(),
                KdfParams::Aes { salt, .. } => salt.clone(),
                x => return Err(format!("new archives use {:?}", x)),
            };
            let iv = match h.cipher {
                Cipher::ChaCha20 => 12,
                _ => 16,
            };
            check(h.encryption_iv.len() == iv, format!("IV of {} bytes for {:?}", h.encryption_iv.len(), h.cipher))?;
            check(h.master_seed.len() == 32, format!("master seed of {} bytes", h.master_seed.len()))?;
            check(salt.len() >= 32, format!("salt of {} bytes", salt.len()))?;
            let key = k.inner_header().inner_stream_key.clone();
            let need = match k.inner_header().inner_stream_cipher {
                InnerStreamCipherAlgorithm::ChaCha20 => 44,
                _ => 32,
            };
            check(key.len() >= need, format!("inner key of {} bytes", key.len()))?;
            all.push([h.master_seed.clone(), h.encryption_iv.clone(), salt, key]);
        }
        const NAMES: [&str; 4] = ["master seed", "IV", "KDF salt", "inner stream key"];
        // every bit of every field varies
        for f in 0..4 {
            for p in 0..all[0][f].len() {
                let or = all.iter().fold(0u8, |a, x| a | x[f][p]);
                let and = all.iter().fold(0xffu8, |a, x| a & x[f][p]);
                check(or == 0xff && and == 0, format!("byte {} of the {} has bits that never change", p, NAMES[f]))?;
            }
        }
        // no 6 bytes occur twice, in one archive or in two
        let mut seen = std::collections::HashMap::new();
        for (i, a) in all.iter().enumerate() {
            for f in 0..4 {
                for (p, w) in a[f].windows(6).enumerate() {
                    if let Some((i2, f2, p2)) = seen.insert(w.to_vec(), (i, f, p)) {
                        let f2: usize = f2;
                        return Err(format!("the {} of archive {} shares bytes with the {} of archive {} ({} {})", NAMES[f], i, NAMES[f2], i2, p, p2));
                    }
                }
                let mut rev = a[f].clone();
                rev.reverse();
                for w in rev.windows(6) {
                    check(!seen.contains_key(w), format!("the {} of archive {} repeats bytes in reverse", NAMES[f], i))?;
                }
            }
        }
        // no two fields differ by a constant
        for f in 0..4 {
            for g in 0..4 {
                for p in 0..all[0][f].len() {
                    for q in 0..all[0][g].len() {
                        if (f, p) == (g, q) {
                            continue;
                        }
                        let x = all[0][f][p] ^ all[0][g][q];
                        let y = all[0][f][p].wrapping_sub(all[0][g][q]);
                        if all.iter().all(|a| a[f][p] ^ a[g][q] == x) || all.iter().all(|a| a[f][p].wrapping_sub(a[g][q]) == y) {
                            return Err(format!("byte {} of the {} follows from byte {} of the {}", p, NAMES[f], q, NAMES[g]));
                        }
                    }
                }
            }
        }
        Ok(())
    });
    j.add("threads", || {
        let all: Vec<Vec<u8>> = std::thread::scope(|s| {
            let h: Vec<_> = (0..8)
                .map(|_| s.spawn(|| (0..20).map(|_| Kdbx::from_database(Default::default()).header().master_seed.clone()).collect::<Vec<_>>()))
                .collect();
            h.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        let mut s = all.clone();
        s.sort();
        s.dedup();
        check(s.len() == all.len(), "two threads created the same master seed")
    });
    j.add("kept-by-set-key", || {
        // the key may be set without the secrets being replaced by anything not random
        let mut seen = std::collections::HashSet::new();
        for i in 0..20 {
            let mut k = Kdbx::from_database(Default::default());
            k.header_mut().kdf_params = Kdf::aes(1).lib();
            k.set_key(Creds::pw(&format!("p{}", i % 2)).lib()).map_err(|e| e.to_string())?;
            let b = save(&k)?;
            let (f, _) = untlv4(&b, 12)?;
            for id in [4u8, 7] {
                let v = f.iter().find(|t| t.0 == id).ok_or("field missing")?.1.clone();
                check(seen.insert(v), "two saved archives share a seed or IV")?;
            }
        }
        Ok(())
    });
}
