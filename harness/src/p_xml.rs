//! Properties of the XML form, dates and UUIDs.
use crate::model::*;
use crate::refk::*;
use crate::Jobs;
use base64::prelude::{Engine, BASE64_STANDARD};
use chrono::{NaiveDateTime, TimeDelta};
use kdbx_rs::binary::InnerStreamCipherAlgorithm as Alg;
use kdbx_rs::database::Database;
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::xml::{decode_datetime, decode_uuid, encode_datetime, encode_uuid, parse_xml, write_xml};

type R = Result<(), String>;

fn parse(x: &[u8], id: u32, key: &[u8]) -> Result<Database, String> {
    if id == 0 {
        return parse_xml(x, &mut NullStreamCipher).map_err(|e| format!("parsing failed: {}", e));
    }
    let mut c = Alg::from(id).stream_cipher(key).map_err(|e| e.to_string())?;
    parse_xml(x, c.as_mut()).map_err(|e| format!("parsing failed: {}", e))
}
fn write(d: &Database, id: u32, key: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    if id == 0 {
        write_xml(&mut o, d, &mut NullStreamCipher).map_err(|e| format!("writing failed: {}", e))?;
        return Ok(o);
    }
    let mut c = Alg::from(id).stream_cipher(key).map_err(|e| e.to_string())?;
    write_xml(&mut o, d, c.as_mut()).map_err(|e| format!("writing failed: {}", e))?;
    Ok(o)
}

pub fn jobs(p: &str, j: &mut Jobs) {
    match p {
        "C08" => c08(j),
        "C12" => c12(j),
        "C13" => c13(j),
        "C18" => c18(j),
        _ => {}
    }
}

fn c12(j: &mut Jobs) {
    let seed = j.seed;
    for i in 0..j.n(300) {
        j.add(format!("roundtrip-{}", i), move || {
            let mut r = Rng::new(seed * 101 + i);
            let depth = r.below(4);
            let d = db(&mut r, depth);
            let id = [0u32, 2, 3][i as usize % 3];
            let key = r.data(32);
            let x = write(&d.lib(), id, &key)?;
            let back = parse(&x, id, &key)?;
            diff("database read back", &d.canon(), &MDb::of(&back))?;
            // and once more: what was read writes and reads the same
            let y = write(&back, id, &key)?;
            diff("database read back twice", &MDb::of(&back), &MDb::of(&parse(&y, id, &key)?))
        });
        j.add(format!("foreign-{}", i), move || {
            let mut r = Rng::new(seed * 103 + i);
            let depth = r.below(4);
            let d = db(&mut r, depth);
            let id = 2 + (i % 2) as u32;
            let key = r.data(32);
            let x = xml_of(&d, &mut Ks::new(id, &key), &mut r, true, i % 5 == 0);
            diff("database of another program", &d.canon(), &MDb::of(&parse(x.as_bytes(), id, &key)?))
        });
    }
    // every piece of text in every place
    for place in 0..7usize {
        j.add(format!("text-{}", place), move || {
            let mut pieces: Vec<String> = vec![];
            for c in (0..0x3000u32).chain([0xd7ff, 0xe000, 0xfdd0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f511, 0x1fffe, 0x10fffe, 0x10ffff]) {
                if c > 0x300 && c < 0x2000 && c % 7 != 0 {
                    continue;
                }
                if let Some(ch) = char::from_u32(c) {
                    pieces.push(ch.to_string());
                    if c < 0x100 {
                        pieces.push(format!("a{}b", ch));
                        pieces.push(format!(" {}", ch));
                    }
                }
            }
            for n in [1usize, 2, 100, 5000] {
                pieces.push(" ".repeat(n));
                pieces.push("\r\n".repeat(n));
                pieces.push("]]>".repeat(n));
                pieces.push("&lt;".repeat(n));
            }
            for t in pieces {
                let mut r = Rng::new(1);
                let mut d = db(&mut r, 0);
                d.custom.clear();
                d.root.entries.clear();
                let f = |key: &str, v: &str, prot: bool| MField { key: key.into(), val: Some(v.into()), prot };
                let mut e = MEntry { uuid: uuid(&mut r), times: times(&mut r), fields: vec![], history: vec![] };
                match place {
                    0 => d.name = t.clone(),
                    1 => d.desc = t.clone(),
                    2 => d.root.name = t.clone(),
                    3 => e.fields.push(f(&t, "v", false)),
                    4 => e.fields.push(f("k", &t, false)),
                    5 => e.fields.push(f("k", &t, true)),
                    _ => d.custom.push(f("k", &t, false)),
                }
                d.root.entries.push(e);
                let ok = t.chars().all(|c| {
                    let u = c as u32;
                    u == 9 || u == 10 || u == 13 || (0x20..=0xfffd).contains(&u) || u >= 0x10000
                });
                match write(&d.lib(), 3, b"k") {
                    Ok(x) => {
                        if !ok && place != 5 {
                            return Err(format!("text {:?} that XML cannot represent was written", t));
                        }
                        let got = MDb::of(&parse(&x, 3, b"k").map_err(|e| format!("text {:?}: {}", t, e))?);
                        diff(&format!("text {:?}", t), &d.canon(), &got)?;
                    }
                    Err(e) => {
                        if ok || place == 5 {
                            return Err(format!("text {:?}: {}", t, e));
                        }
                    }
                }
            }
            Ok(())
        });
    }
    j.add("no-name", || {
        for prot in [false, true] {
            for custom in [false, true] {
                let mut r = Rng::new(1);
                let mut d = db(&mut r, 0);
                let f = MField { key: String::new(), val: Some("v".into()), prot };
                if custom {
                    d.custom.push(f);
                } else {
                    d.root.entries.push(MEntry { uuid: uuid(&mut r), times: times(&mut r), fields: vec![f], history: vec![] });
                }
                match write(&d.lib(), 3, b"k") {
                    Ok(x) => diff("field without a name", &d.canon(), &MDb::of(&parse(&x, 3, b"k")?))?,
                    Err(_) => {}
                }
            }
        }
        Ok(())
    });
    for i in 0..WIDE {
        j.add(format!("wide-{}", i), move || {
            let mut r = Rng::new(seed * 11 + i as u64);
            let d = wide(&mut r, i);
            for id in [0u32, 2, 3] {
                let x = write(&d.lib(), id, b"key")?;
                diff("database read back", &d.canon(), &MDb::of(&parse(&x, id, b"key")?))?;
            }
            let x = xml_of(&d, &mut Ks::new(2, b"key"), &mut r, true, false);
            diff("database of another program", &d.canon(), &MDb::of(&parse(x.as_bytes(), 2, b"key")?))
        });
    }
    for i in 0..j.n(10) {
        j.add(format!("several-roots-{}", i), move || {
            let mut r = Rng::new(seed * 127 + i);
            let d = db(&mut r, 1);
            let others: Vec<MGroup> = (0..1 + r.below(3)).map(|_| group(&mut r, 1)).collect();
            let key = r.data(32);
            let id = 2 + (i % 2) as u32;
            let mut ks = Ks::new(id, &key);
            let mut o = XmlOut { ks: &mut ks, r: &mut r, wild: i % 2 == 0, kdbx3: false, out: "<KeePassFile>".into() };
            o.meta(&d);
            o.out.push_str("<Root>");
            o.group(&d.root);
            for g in &others {
                o.group(g);
            }
            o.out.push_str("</Root></KeePassFile>");
            let back = parse(o.out.as_bytes(), id, &key)?;
            diff("first group", &d.canon(), &MDb::of(&back))?;
            let x = write(&back, id, &key)?;
            diff("database read back", &MDb::of(&back), &MDb::of(&parse(&x, id, &key)?))?;
            let mut want = vec![d.root.canon()];
            want.extend(others.iter().map(|g| g.canon()));
            let got: Vec<MGroup> = DomIn(&mut Ks::new(id, &key)).roots(&dom(&x)?)?.iter().map(|g| g.canon()).collect();
            diff("groups written", &want, &got)
        });
    }
    // unknown elements of any depth in any place
    for n in [2usize, 15, 16, 17, 31, 33, 64, 100, 128, 255, 256, 300] {
        j.add(format!("deep-unknown-{}", n), move || {
            let mut r = Rng::new(n as u64);
            let mut d = db(&mut r, 1);
            d.root.entries.push(entry(&mut r, 1));
            let x = xml_of(&d, &mut Ks::new(3, b"k"), &mut r, false, false);
            let mut junk = String::new();
            for k in 0..n {
                junk.push_str(["<Odd>", "<Group>", "<x a='1'>text ", "<Value>", "<Root>"][(k + n) % 5]);
            }
            for k in (0..n).rev() {
                junk.push_str(["</Odd>", "</Group>", "</x> tail", "</Value>", "</Root>"][(k + n) % 5]);
            }
            for place in ["</Meta>", "</Entry>", "</Group>", "</KeePassFile>", "</Times>"] {
                let mut m = x.clone();
                match m.find(place) {
                    Some(at) => m.insert_str(at, &format!("<Unknown>{}</Unknown>", junk)),
                    None => continue,
                }
                diff(&format!("database with unknown elements before {}", place), &d.canon(), &MDb::of(&parse(m.as_bytes(), 3, b"k")?))?;
            }
            Ok(())
        });
    }
    j.add("deep", || {
        let mut r = Rng::new(5);
        let mut d = db(&mut r, 0);
        for i in 0..60 {
            let mut g = group(&mut r, 0);
            g.name = format!("level {}", i);
            let old = std::mem::replace(&mut d.root, g);
            d.root.groups.push(old);
        }
        let x = write(&d.lib(), 3, b"k")?;
        diff("nested groups", &d.canon(), &MDb::of(&parse(&x, 3, b"k")?))
    });
}

fn protect_all(d: &mut MDb, r: &mut Rng, marks: &mut Vec<String>) {
    fn ent(e: &mut MEntry, r: &mut Rng, m: &mut Vec<String>) {
        for f in &mut e.fields {
            fld(f, r, m);
        }
        for h in &mut e.history {
            ent(h, r, m);
        }
    }
    fn fld(f: &mut MField, r: &mut Rng, m: &mut Vec<String>) {
        if f.prot && !r.chance(8) {
            let mark = format!("SECRET{:016x}é", r.next());
            m.push(mark.clone());
            f.val = Some(mark);
        }
    }
    fn grp(g: &mut MGroup, r: &mut Rng, m: &mut Vec<String>) {
        for e in &mut g.entries {
            ent(e, r, m);
        }
        for c in &mut g.groups {
            grp(c, r, m);
        }
    }
    for f in &mut d.custom {
        fld(f, r, marks);
    }
    grp(&mut d.root, r, marks);
}

fn c13(j: &mut Jobs) {
    let seed = j.seed;
    for i in 0..j.n(300) {
        j.add(format!("written-{}", i), move || {
            let mut r = Rng::new(seed * 107 + i);
            let depth = r.below(3);
            let mut d = db(&mut r, depth);
            let e = entry(&mut r, 2);
            d.root.entries.push(e);
            let mut marks = vec![];
            protect_all(&mut d, &mut r, &mut marks);
            let id = 2 + (i % 2) as u32;
            let n = r.below(70);
            let key = r.data(n);
            let x = write(&d.lib(), id, &key)?;
            let s = String::from_utf8_lossy(&x);
            for m in &marks {
                if s.contains(&m[..22]) || s.contains(&BASE64_STANDARD.encode(m)) {
                    return Err(format!("the protected value {} appears unencrypted", m));
                }
            }
            let got = DomIn(&mut Ks::new(id, &key)).db(&dom(&x)?)?;
            diff("values an independent reader decrypts in document order", &d.canon(), &got)
        });
        j.add(format!("read-{}", i), move || {
            let mut r = Rng::new(seed * 109 + i);
            let depth = r.below(3);
            let mut d = db(&mut r, depth);
            let mut e = entry(&mut r, 2);
            // a protected value can be any text, as it is stored encrypted
            e.fields.push(MField { key: "any".into(), val: Some(any_text(&mut r)), prot: true });
            e.fields.push(MField { key: "end".into(), val: Some(format!("{}{}", text(&mut r), r.pick(&["\0", "\0\0", " ", "\n", "\u{feff}", "="]))), prot: true });
            e.fields.push(MField { key: "after".into(), val: Some("after".into()), prot: true });
            d.root.entries.push(e);
            let id = 2 + (i % 2) as u32;
            let n = r.below(70);
            let key = r.data(n);
            let x = xml_of(&d, &mut Ks::new(id, &key), &mut r, i % 3 != 0, false);
            diff("database of another program", &d.canon(), &MDb::of(&parse(x.as_bytes(), id, &key)?))
        });
    }
    for i in 0..j.n(30) {
        j.add(format!("archive-{}", i), move || {
            let mut r = Rng::new(seed * 113 + i);
            let mut d = db(&mut r, 2);
            let e = entry(&mut r, 2);
            d.root.entries.push(e);
            let mut marks = vec![];
            protect_all(&mut d, &mut r, &mut marks);
            let id = 2 + (i % 2) as u32;
            let mut k = kdbx_rs::Kdbx::from_database(d.lib());
            k.header_mut().kdf_params = Kdf::aes(1).lib();
            k.inner_header_mut().inner_stream_cipher = Alg::from(id);
            k.set_key(Creds::pw("p").lib()).map_err(|e| e.to_string())?;
            let mut b = vec![];
            k.write(&mut b).map_err(|e| e.to_string())?;
            let u = kdbx_rs::from_reader(&b[..]).map_err(|e| e.to_string())?.unlock(&Creds::pw("p").lib()).map_err(|e| e.1.to_string())?;
            let x = u.raw_xml().ok_or("no XML")?;
            let s = String::from_utf8_lossy(x);
            for m in &marks {
                if s.contains(&m[..22]) {
                    return Err(format!("the protected value {} appears unencrypted", m));
                }
            }
            let got = DomIn(&mut Ks::new(id, &u.inner_header().inner_stream_key)).db(&dom(x)?)?;
            diff("values an independent reader decrypts in document order", &d.canon(), &got)?;
            diff("database", &d.canon(), &MDb::of(u.database()))
        });
    }
    for i in 0..j.n(20) {
        j.add(format!("kdbx3-{}", i), move || {
            let mut r = Rng::new(seed * 117 + i);
            let mut w = V3::new(CIPHERS[i as usize % 3], (i % 2) as u8);
            w.inner_id = 2 + (i % 2) as u32;
            let n = *r.pick(&[0usize, 1, 31, 32, 33, 44, 64, 100]);
            w.psk = r.data(n);
            let mut d = db(&mut r, 1);
            let mut e = entry(&mut r, 2);
            e.fields.push(MField { key: "Password".into(), val: Some(format!("secret {}", i)), prot: true });
            d.root.entries.push(e);
            let x = xml_of(&d, &mut w.stream(), &mut r, true, true);
            let b = w.seal(x.as_bytes());
            let u = kdbx_rs::from_reader(&b[..]).map_err(|e| e.to_string())?.unlock(&w.creds.lib()).map_err(|e| e.1.to_string())?;
            diff("database of a KDBX 3 archive", &d.canon(), &MDb::of(u.database()))
        });
    }
    for i in 0..WIDE {
        j.add(format!("wide-{}", i), move || {
            let mut r = Rng::new(seed * 13 + i as u64);
            let mut d = wide(&mut r, i);
            if i == 6 {
                for f in &mut d.root.entries.last_mut().unwrap().fields {
                    f.prot = true;
                }
            }
            for id in [2u32, 3] {
                let x = write(&d.lib(), id, b"key")?;
                diff("values", &d.canon(), &DomIn(&mut Ks::new(id, b"key")).db(&dom(&x)?)?)?;
                let x = xml_of(&d, &mut Ks::new(id, b"key"), &mut r, true, false);
                diff("values read", &d.canon(), &MDb::of(&parse(x.as_bytes(), id, b"key")?))?;
            }
            Ok(())
        });
    }
    // many values: the key stream runs over several cipher blocks
    j.add("long-stream", || {
        let mut r = Rng::new(9);
        let mut d = db(&mut r, 0);
        for i in 0..200 {
            let f = |k: &str, prot: bool, n: usize| MField { key: k.into(), val: Some("v".repeat(n)), prot };
            d.root.entries.push(MEntry {
                uuid: uuid(&mut r),
                times: times(&mut r),
                fields: vec![f("a", i % 2 == 0, i), f("b", true, i * 3 + 1), f("c", false, 5), f("d", true, 0)],
                history: vec![],
            });
        }
        for id in [2u32, 3] {
            let x = write(&d.lib(), id, b"key")?;
            diff("values", &d.canon(), &DomIn(&mut Ks::new(id, b"key")).db(&dom(&x)?)?)?;
            let x = xml_of(&d, &mut Ks::new(id, b"key"), &mut r, true, false);
            diff("values read", &d.canon(), &MDb::of(&parse(x.as_bytes(), id, b"key")?))?;
        }
        Ok(())
    });
}

fn when_any(r: &mut Rng) -> NaiveDateTime {
    match r.below(4) {
        0 => {
            // anywhere chrono can represent
            let lo = NaiveDateTime::MIN.and_utc().timestamp();
            let hi = NaiveDateTime::MAX.and_utc().timestamp();
            let span = (hi as i128 - lo as i128) as u128;
            let t = (lo as i128 + (r.next() as u128 % span) as i128) as i64;
            chrono::DateTime::from_timestamp(t, 0).unwrap().naive_utc()
        }
        _ => when(r),
    }
}
fn c18(j: &mut Jobs) {
    let seed = j.seed;
    for i in 0..j.n(40) {
        j.add(format!("dates-{}", i), move || {
            let mut r = Rng::new(seed * 127 + i);
            for _ in 0..300 {
                let d = when_any(&mut r);
                let e = encode_datetime(d);
                diff("encoded date", &enc_date(d), &e)?;
                diff("decoded date", &Some(d), &decode_datetime(&e))?;
                // RFC 3339 in any offset, for years 1 to 9998
                let d = date(1, 1, 2, 0, 0, 0) + TimeDelta::seconds((r.next() % 315_000_000_000) as i64);
                let z = d.format("%Y-%m-%dT%H:%M:%SZ").to_string();
                diff(&z.clone(), &Some(d), &decode_datetime(&z))?;
                let off = r.below(28 * 60) as i64 - 14 * 60;
                let local = d + TimeDelta::minutes(off);
                let s = format!("{}{}{:02}:{:02}", local.format("%Y-%m-%dT%H:%M:%S"), if off < 0 { '-' } else { '+' }, off.abs() / 60, off.abs() % 60);
                diff(&s.clone(), &Some(d), &decode_datetime(&s))?;
                let u = uuid(&mut r);
                diff("encoded UUID", &BASE64_STANDARD.encode(u.as_bytes()), &encode_uuid(u))?;
                diff("decoded UUID", &Some(u), &decode_uuid(&encode_uuid(u)))?;
            }
            Ok(())
        });
    }
    j.add("edges", || {
        for d in [
            date(1, 1, 1, 0, 0, 0),
            date(1, 1, 1, 0, 0, 1),
            date(0, 12, 31, 23, 59, 59),
            date(-1, 1, 1, 0, 0, 0),
            date(1970, 1, 1, 0, 0, 0),
            date(1969, 12, 31, 23, 59, 59),
            date(2038, 1, 19, 3, 14, 8),
            date(2106, 2, 7, 6, 28, 16),
            date(9999, 12, 31, 23, 59, 59),
            date(10000, 1, 1, 0, 0, 0),
            date(200_000, 1, 1, 0, 0, 0),
            date(-200_000, 1, 1, 0, 0, 0),
        ] {
            diff("encoded date", &enc_date(d), &encode_datetime(d))?;
            diff("decoded date", &Some(d), &decode_datetime(&encode_datetime(d)))?;
        }
        for s in [0i64, 1, -1, 255, 256, 1 << 32, 63_000_000_000, (1 << 33) + 7] {
            let want = Some(date(1, 1, 1, 0, 0, 0) + TimeDelta::seconds(s));
            diff("date from seconds", &want, &decode_datetime(&BASE64_STANDARD.encode(s.to_le_bytes())))?;
        }
        for b in [[0u8; 16], [0xff; 16], *b"0123456789abcdef"] {
            let u = uuid::Uuid::from_bytes(b);
            diff("UUID", &Some(u), &decode_uuid(&encode_uuid(u)))?;
            diff("UUID text", &BASE64_STANDARD.encode(b), &encode_uuid(u))?;
        }
        Ok(())
    });
    j.add("undecodable", || {
        for t in [
            "!", "a", "abc", "====", "2020", "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020-01-01", "2020-01-01T25:00:00Z",
            "2020-01-01T00:00:00", "2020-01-01 ", "not a date", "-", "AAAAAAAAAA A=", "AAAA\nAAAA", "日本", "AAAAAAAAAAA", "AAAAAAAAAAA==",
            "2020-01-01T00:00:00ZAAAA", "T12:00:00Z-", "AAAA-AAAA", "2021-02-29T12:00:00Z",
            "AAAA_wAAAAA=", "_AAAAAAAAAA=", "AAAAAAAAAA_=", "AAAAAAAAAA=\n", " AAAAAAAAAAA=", "AAAAAAAAAAA=\0", "AAAAAAAAAAA= ", "AAAAAAAAAAB=", "AAAA AAAAAAA=", "AAAAA\tAAAAAA=",
        ] {
            // 2020 is valid base64 of three bytes
            if t != "2020" {
                diff(&format!("date text {:?}", t), &None, &decode_datetime(t))?;
            }
        }
        let mut r = Rng::new(3);
        for _ in 0..300 {
            let d = date(1, 1, 2, 0, 0, 0) + TimeDelta::seconds((r.next() % 315_000_000_000) as i64);
            let s = d.format("%Y-%m-%dT%H:%M:%S").to_string();
            let s = format!("{}{}", s, r.pick(&["Z", "+00:00", "-08:30", "+14:00"]));
            let junk = *r.pick(&["Z", "z", "T", "abc", "+00:00", "-", "=", "0", "00", "é", " Z", "UTC", "Zulu", "A=="]);
            for t in [format!("{}{}", s, junk), format!("{}{}", junk, s), s[..s.len() - 1].to_string(), s.replace('T', ""), s.replace(':', "-")] {
                diff(&format!("date text {:?}", t), &None, &decode_datetime(&t))?;
            }
        }
        for s in [i64::MAX, i64::MIN, i64::MAX / 1000, i64::MIN / 1000, i64::MAX / 1000 + 1, 9_000_000_000_000] {
            let t = BASE64_STANDARD.encode(s.to_le_bytes());
            diff(&format!("date of {} seconds", s), &None, &decode_datetime(&t))?;
        }
        for n in (0..40usize).filter(|n| *n != 16) {
            diff(&format!("UUID of {} bytes", n), &None, &decode_uuid(&BASE64_STANDARD.encode(vec![7; n])))?;
        }
        for t in ["!", "abc", "00000000-0000-0000-0000-000000000000", "AAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAA=", "AAAAAAAAAAAAAAAAAAAA AA==", "31c1f2e6bf714350be5805216afc5aff", "____AAAAAAAAAAAAAAAAAA==", "AA-AAAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAAAAAAAA==\n", " AAAAAAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAAAAAAAB==", "{00000000-0000-0000-0000-000000000000}"] {
            diff(&format!("UUID text {:?}", t), &None, &decode_uuid(t))?;
        }
        Ok(())
    });
    // the same through the XML form
    for i in 0..j.n(20) {
        j.add(format!("xml-{}", i), move || {
            let mut r = Rng::new(seed * 131 + i);
            let mut d = db(&mut r, 2);
            d.root.times = times(&mut r);
            for k in 0..5 {
                d.root.times.t[k] = when_any(&mut r);
            }
            let x = write(&d.lib(), 3, b"k")?;
            diff("times", &d.root.times, &MTimes::of(parse(&x, 3, b"k")?.root().times()))?;
            for three in [false, true] {
                let d = db(&mut r, 1);
                let x = xml_of(&d, &mut Ks::new(3, b"k"), &mut r, false, three);
                diff("times of another program", &d.canon(), &MDb::of(&parse(x.as_bytes(), 3, b"k")?))?;
            }
            Ok(())
        });
    }
}

fn c08(j: &mut Jobs) {
    let seed = j.seed;
    const BITS: [&str; 40] = [
        "<", ">", "/>", "</Entry>", "</Group>", "<Group>", "<Entry>", "<History>", "<Times>", "<Value Protected=\"True\">", "</Value>", "&", "&#0;", "<![CDATA[",
        "]]>", "<!--", "\0", "<Key/>", "<UUID/>", "<UUID>AAAA</UUID>", "<Expires>maybe</Expires>", "<UsageCount>-1</UsageCount>", "<UsageCount>99999999999</UsageCount>",
        "<CreationTime>/////////38=</CreationTime>", "<CreationTime>AAAAAAAAAIA=</CreationTime>", "<ExpiryTime>9999-99-99</ExpiryTime>", "<String/>", "<Value/>", "<Root/>", "<Meta/>",
        "<Value Protected=\"True\">!!!</Value>", "<Value Protected=\"True\">/w==</Value>", "<String><Value>x</Value></String>", "<Name><Name/></Name>", "<Key>a<b/>c</Key>", "</KeePassFile>",
        "<KeePassFile>", "<CustomData>", "<Item>", "<MemoryProtection>",
    ];
    for i in 0..j.n(60) {
        j.add(format!("xml-{}", i), move || {
            let mut r = Rng::new(seed * 137 + i);
            for k in 0..40 {
                let d = db(&mut r, 1);
                let wild = r.chance(2);
                let mut x = xml_of(&d, &mut Ks::new(3, b"k"), &mut r, wild, false).into_bytes();
                for _ in 0..1 + r.below(4) {
                    let p = r.below(x.len());
                    match r.below(4) {
                        0 => {
                            let b = r.pick(&BITS).as_bytes().to_vec();
                            x.splice(p..p, b);
                        }
                        1 => {
                            let e = (p + r.below(60)).min(x.len());
                            x.drain(p..e);
                        }
                        2 => x[p] = r.next() as u8,
                        _ => x.truncate(p + 1),
                    }
                    if x.is_empty() {
                        x.push(b' ');
                    }
                }
                let id = [0u32, 2, 3][k % 3];
                if let Ok(d) = parse(&x, id, b"k") {
                    let _ = write(&d, id, b"k");
                }
                let _ = parse(&r.bytes(40), 0, b"");
            }
            Ok(())
        });
        j.add(format!("texts-{}", i), move || {
            let mut r = Rng::new(seed * 139 + i);
            for _ in 0..2000 {
                let n = r.below(24);
                let b = r.bytes(n);
                let t = match r.below(4) {
                    0 => BASE64_STANDARD.encode(&b),
                    1 => String::from_utf8_lossy(&b).to_string(),
                    2 => text(&mut r),
                    _ => {
                        let mut s = "2020-02-29T23:59:59.999+14:00".to_string();
                        let p = r.below(s.len());
                        s.replace_range(p..p + 1, r.pick(&["9", "-", "", "T", "0", ":", "é"]));
                        s
                    }
                };
                let _ = decode_datetime(&t);
                let _ = decode_uuid(&t);
                let d = r.next() as i64;
                let _ = decode_datetime(&BASE64_STANDARD.encode(d.to_le_bytes()));
            }
            let _ = encode_datetime(NaiveDateTime::MIN);
            let _ = encode_datetime(NaiveDateTime::MAX);
            Ok(())
        });
    }
    j.add("element-texts", move || -> R {
        let odd = [
            "", " ", "日本語", "tr日e", "T\u{e9}", "tru\u{e9}", "True\u{1F511}", "\u{130}\u{df}true", "TRUE ", "1", "-1", "+1", "0x1", "4294967295", "4294967296",
            "99999999999999999999", "٣", "1.5", "日", "=", "====", "A", "AA", "AAA", "AAAA", "AAAAAAAAAAA=", "//////////8=", "/////////38=", "AAAAAAAAAIA=", "-", "2020-13-45T25:61:61Z",
            "0000-00-00T00:00:00Z", "9999-12-31T23:59:60Z", "2020-01-01T00:00:00+99:99", "é-", "日-本", "-日本語", "\u{7f}", "]]&gt;", "<x/>", "a<x/>b", "<x>y</x>", "<!-- c -->", "<![CDATA[日本]]>", "&#x1F511;",
        ];
        let tags = ["UUID", "Name", "Generator", "DatabaseName", "DatabaseDescription", "CreationTime", "LastModificationTime", "LastAccessTime", "ExpiryTime", "LocationChanged", "Expires", "UsageCount",
            "ProtectTitle", "ProtectUserName", "ProtectPassword", "ProtectURL", "ProtectNotes", "Key", "Value", "Value Protected=\"True\"", "Value Protected=\"日本\"", "Icon", "Icon Protected=\"True\""];
        for t in odd {
            for tag in tags {
                let e = format!("<{}>{}</{}>", tag, t, tag.split(' ').next().unwrap());
                for id in [0u32, 3] {
                    for x in [
                        format!("<KeePassFile><Meta>{0}<MemoryProtection>{0}</MemoryProtection><CustomData><Item>{0}</Item></CustomData></Meta><Root><Group/></Root></KeePassFile>", e),
                        format!("<KeePassFile><Root><Group>{}</Group></Root></KeePassFile>", e),
                        format!("<KeePassFile><Root><Group><Times>{}</Times></Group></Root></KeePassFile>", e),
                        format!("<KeePassFile><Root><Group><Entry>{0}<String>{0}</String><History><Entry>{0}</Entry></History></Entry></Group></Root></KeePassFile>", e),
                    ] {
                        if let Ok(d) = parse(x.as_bytes(), id, b"k") {
                            let _ = write(&d, id, b"k");
                        }
                    }
                }
            }
        }
        Ok(())
    });
    j.add("xml-extremes", || -> R {
        for x in [
            "", " ", "<a/>", "<KeePassFile/>", "<KeePassFile><Root/></KeePassFile>", "<KeePassFile><Meta/></KeePassFile>", "<KeePassFile><Meta/><Root/></KeePassFile>",
            "<KeePassFile><Root><Group/></Root></KeePassFile>", "<KeePassFile><Meta/><Root><Group><Entry/></Group></Root></KeePassFile>",
            "<KeePassFile><Meta/><Root><Group/><Group/></Root></KeePassFile>", "<KeePassFile><Root><Group><Entry><History/></Entry></Group></Root></KeePassFile>",
            "<KeePassFile><Root><Group><Entry><History><Entry><History><Entry/></History></Entry></History></Entry></Group></Root></KeePassFile>",
        ] {
            if let Ok(mut d) = parse(x.as_bytes(), 0, b"") {
                let _ = d.root().find_entry(|_| false);
                d.add_entry(Default::default());
                let _ = d.root_mut();
                let _ = write(&d, 0, b"");
            }
        }
        let mut d = Database::default();
        for t in [NaiveDateTime::MIN, NaiveDateTime::MAX] {
            d.root_mut().times_mut().creation_time = t;
            let _ = write(&d, 0, b"");
        }
        Ok(())
    });
}
