//! The content streams themselves, through the hook of /repo (`--cfg kdbx_verif`).
use crate::model::*;
use crate::p_arch::{check, documented_blocks, must_err, open, Chunky, Fault, Sink};
use crate::refk::*;
use crate::Jobs;
use kdbx_rs::verif::{kdbx3_reader, kdbx4_reader, kdbx4_write};
use std::io::Read;

const SIZES: [usize; 9] = [1, 2, 7, 15, 16, 17, 100, 4096, 1 << 20];

/// reads with buffers of any size until the end or the first error
fn read_split(mut s: Box<dyn Read + '_>, r: &mut Rng, small: bool) -> (Vec<u8>, Option<String>) {
    let mut out = vec![];
    loop {
        let n = if small { 1 + r.below(40) } else { *r.pick(&SIZES[3..]) };
        let mut b = vec![0xee; n];
        match s.read(&mut b) {
            Ok(0) => return (out, None),
            Ok(k) => out.extend(&b[..k]),
            Err(e) => return (out, Some(e.to_string())),
        }
    }
}
/// everything handed on by many reads, errors or not
fn read_on(mut s: Box<dyn Read + '_>, r: &mut Rng) -> (Vec<u8>, usize) {
    let (mut out, mut errors) = (vec![], 0);
    for _ in 0..20_000 {
        let mut b = vec![0xee; 1 + r.below(60)];
        match s.read(&mut b) {
            Ok(0) => break,
            Ok(k) => out.extend(&b[..k]),
            Err(_) => {
                errors += 1;
                if errors > 20 {
                    break;
                }
            }
        }
    }
    (out, errors)
}
fn content(v: &V4, r: &mut Rng, n: usize) -> Vec<u8> {
    let mut c = v.content(b"");
    c.extend(r.bytes(n));
    c
}

pub fn c02(j: &mut Jobs) {
    let seed = j.seed;
    for ci in CIPHERS {
        for i in 0..j.n(6) {
            j.add(format!("stream-{:?}-{}", ci, i), move || {
                let mut r = Rng::new(seed * 101 + i);
                let mut v = V4::new(ci, 0);
                v.block = *r.pick(&[16usize, 48, 50, 100]);
                let n = r.below(600);
                let mut c = content(&v, &mut r, n);
                if i % 2 == 1 {
                    // every place could be the end of the padding
                    c.iter_mut().for_each(|x| *x = 1);
                }
                let b = v.seal_content(&c);
                let k = open(&b)?;
                let key = v.creds.lib();
                let start = v.header().len() + 64;
                let mut at = start;
                let mut before = 0;
                while at < b.len() {
                    let l = u32::from_le_bytes(b[at + 32..at + 36].try_into().unwrap()) as usize;
                    for what in 0..6 {
                        let mut m = b[start..].to_vec();
                        let o = at - start;
                        match what {
                            0 => m[o + r.below(32)] ^= 1 << r.below(8),
                            1 if l > 0 => m[o + 36 + r.below(l)] ^= 1 << r.below(8),
                            2 if l > 0 => m[o + 36] ^= 0x80,
                            3 if l > 0 => m[o + 36..o + 36 + l].iter_mut().for_each(|x| *x ^= 0x55),
                            4 => m[o..o + 32].iter_mut().for_each(|x| *x = 0),
                            // a foreign block of the same length in front
                            5 if ci == Ci::ChaCha && l > 0 => {
                                let mut f = b[at..at + 36 + l].to_vec();
                                f[36] ^= 1;
                                m.splice(o..o, f);
                            }
                            _ => continue,
                        }
                        let s = kdbx4_reader(&m[..], &key, k.header()).map_err(|e| e.to_string())?;
                        let (got, errors) = read_on(s, &mut r);
                        check(errors > 0, format!("no error for a changed block (change {})", what))?;
                        check(c.starts_with(&got), format!("bytes of an unauthenticated block were handed on (change {})", what))?;
                        if what != 5 {
                            check(got.len() <= before, format!("{} bytes were handed on but only {} are authenticated", got.len(), before))?;
                        }
                    }
                    before += l;
                    at += 36 + l;
                }
                Ok(())
            });
        }
    }
}

pub fn c10(j: &mut Jobs) {
    let seed = j.seed;
    for i in 0..j.n(90) {
        j.add(format!("split-read-{}", i), move || {
            let mut r = Rng::new(seed * 103 + i);
            let ci = CIPHERS[i as usize % 3];
            let mut v = V4::new(ci, (i / 3 % 3) as u8);
            v.block = *r.pick(&[1usize, 2, 3, 15, 16, 17, 100, 5000]);
            v.blocks = Some((0..r.below(6)).map(|_| 1 + r.below(100)).collect());
            for n in 0..34 {
                let n = if n % 5 == 4 { r.below(9000) } else { n };
                let c = content(&v, &mut r, n);
                let b = v.seal_content(&c);
                let k = open(&b)?;
                let src = Chunky { data: b[v.header().len() + 64..].to_vec(), pos: 0, max: *r.pick(&SIZES), r: Rng::new(n as u64), interrupt: false };
                let s = kdbx4_reader(src, &v.creds.lib(), k.header()).map_err(|e| e.to_string())?;
                let (got, err) = read_split(s, &mut r, i % 2 == 0);
                if let Some(e) = err {
                    return Err(format!("reading {} bytes in pieces failed: {}", c.len(), e));
                }
                diff("content read in pieces", &c, &got)?;
            }
            Ok(())
        });
    }
    for i in 0..j.n(60) {
        j.add(format!("split-write-{}", i), move || {
            let mut r = Rng::new(seed * 107 + i);
            let ci = CIPHERS[i as usize % 3];
            let v = V4::new(ci, (i / 3 % 2) as u8);
            let k = open(&v.seal_content(&v.content(b"")))?;
            let big = i % 10 == 9 && (ci != Ci::Twofish || i < 30);
            for n in 0..(if big { 1 } else { 40 }) {
                let n = if big { (1 << 20) - 300 + r.below(600) + (1 << 20) * r.below(2) } else if n % 5 == 4 { r.below(9000) } else { n };
                let c = content(&v, &mut r, n);
                let mut pieces: Vec<&[u8]> = vec![];
                let mut rest = &c[..];
                while !rest.is_empty() {
                    if r.chance(9) && i % 4 == 3 {
                        pieces.push(&[]);
                    }
                    let l = if big { *r.pick(&[1usize, 5000, 65536, (1 << 20) + 1, 3 << 20]) } else { 1 + r.below(70) };
                    let (a, b) = rest.split_at(l.min(rest.len()));
                    pieces.push(a);
                    rest = b;
                }
                if i % 8 == 7 {
                    pieces.push(&[]);
                }
                let w = kdbx4_write(vec![], &v.creds.lib(), k.header(), &pieces).map_err(|e| format!("writing in pieces failed: {}", e))?;
                let mut o = v.head_with_codes(&v.header(), &v.mk());
                o.extend(w);
                let o = open4(&o, &v.creds)?;
                documented_blocks(&o)?;
                diff("content written in pieces", &c, &o.content)?;
            }
            Ok(())
        });
    }
}

pub fn c11(j: &mut Jobs) {
    let seed = j.seed;
    for i in 0..j.n(12) {
        j.add(format!("stream-{}", i), move || {
            let mut r = Rng::new(seed * 109 + i);
            let ci = CIPHERS[i as usize % 3];
            let v = V4::new(ci, (i / 3 % 2) as u8);
            let k = open(&v.seal_content(&v.content(b"")))?;
            let n = r.below(2000);
            let c = content(&v, &mut r, n);
            let pieces: Vec<&[u8]> = c.chunks(1 + r.below(500)).collect();
            let run = |s: &mut Sink| kdbx4_write(s, &v.creds.lib(), k.header(), &pieces).map(|_| ());
            let complete = |got: &[u8]| -> Result<(), String> {
                let mut o = v.head_with_codes(&v.header(), &v.mk());
                o.extend(got);
                let o = open4(&o, &v.creds).map_err(|e| format!("the destination did not get everything: {}", e))?;
                diff("content at the destination", &c, &o.content)
            };
            let mut s = Sink::new(Fault::None, usize::MAX, false, true);
            run(&mut s).map_err(|e| e.to_string())?;
            complete(&s.got)?;
            let (len, calls) = (s.got.len(), s.calls);
            for max in [1usize, 5, 100] {
                let mut s = Sink::new(Fault::None, max, max == 5, false);
                run(&mut s).map_err(|e| e.to_string())?;
                complete(&s.got)?;
            }
            must_err(run(&mut Sink::new(Fault::Flush, usize::MAX, false, true)), "a destination whose flush fails")?;
            let mut faults: Vec<Fault> = (1..=calls).map(Fault::Call).collect();
            for p in (0..len).step_by(7) {
                faults.extend([Fault::After(p), Fault::Full(p)]);
            }
            for f in faults {
                let mut s = Sink::new(f, 64, false, false);
                if run(&mut s).is_ok() {
                    check(!s.failed, format!("writing succeeded although the destination failed ({:?})", f))?;
                    complete(&s.got)?;
                }
            }
            Ok(())
        });
    }
}

pub fn c21(j: &mut Jobs) {
    let seed = j.seed;
    for i in 0..j.n(60) {
        j.add(format!("split-read-{}", i), move || {
            let mut r = Rng::new(seed * 113 + i);
            let mut w = V3::new(CIPHERS[i as usize % 3], (i / 3 % 3) as u8);
            let m = *r.pick(&[1usize, 2, 16, 17, 100, 5000]);
            w.blocks = (0..200).map(|_| 1 + r.below(m)).collect();
            for n in 0..30 {
                let n = if n % 5 == 4 { r.below(9000) } else { n };
                let c = r.bytes(n);
                let b = w.seal(&c);
                let k = open(&b)?;
                let src = Chunky { data: b[w.header().len()..].to_vec(), pos: 0, max: *r.pick(&SIZES), r: Rng::new(n as u64), interrupt: false };
                let s = kdbx3_reader(src, &w.creds.lib(), k.header()).map_err(|e| e.to_string())?;
                let (got, err) = read_split(s, &mut r, i % 2 == 0);
                if let Some(e) = err {
                    return Err(format!("reading {} bytes in pieces failed: {}", n, e));
                }
                diff("content read in pieces", &c, &got)?;
                // a damaged block: an error, and no byte of it before the error
                if w.gzip == 0 && n > 0 {
                    let mut f = w.frame(&c);
                    let mut at = 0;
                    let mut before = 0;
                    for _ in 0..r.below(5) {
                        let l = u32::from_le_bytes(f[at + 36..at + 40].try_into().unwrap()) as usize;
                        if at + 40 + l + 40 >= f.len() {
                            break;
                        }
                        before += l;
                        at += 40 + l;
                    }
                    f[at + 40] ^= 1 << r.below(8);
                    let b = w.seal_frames(&f);
                    let s = kdbx3_reader(&b[w.header().len()..], &w.creds.lib(), k.header()).map_err(|e| e.to_string())?;
                    let (got, err) = read_split(s, &mut r, true);
                    check(err.is_some(), "a block with a wrong hash gave no error")?;
                    check(got == c[..before], "bytes of a block with a wrong hash were handed on")?;
                }
            }
            Ok(())
        });
    }
}
