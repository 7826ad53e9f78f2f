#!/usr/bin/env python3
"""Writes seeded/<id>/: each planted bug is a text replacement in one file of /repo."""
import json, os, subprocess, difflib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# builds demo.rs against the library in the current directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
kdbx-rs = { path = "$repo" }
uuid = "1"
chrono = "0.4"
sha2 = "0.10"
cipher = "0.4"
hmac = "0.12"
chacha20 = "0.9"
rust-argon2 = "2.1"
T
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable} CARGO_TARGET_DIR="$work/target"
cargo build --offline -q --manifest-path "$work/Cargo.toml"
"$work/target/debug/demo" "$repo"
'''
HEAD = '''#![allow(dead_code, unused_imports)]
use kdbx_rs::binary::{self, CompressionType, KdfParams, Unlocked, Locked};
use kdbx_rs::database::{Database, Entry, Field, Group};
use kdbx_rs::{CompositeKey, Kdbx};
use std::io::{self, Read, Write};

fn fixture(name: &str) -> Vec<u8> {
    let repo = std::env::args().nth(1).unwrap();
    std::fs::read(format!("{}/res/test_input/{}", repo, name)).unwrap()
}
fn quick(db: Database) -> Kdbx<Unlocked> {
    let mut k = Kdbx::from_database(db);
    k.header_mut().kdf_params = KdfParams::Aes { rounds: 2, salt: vec![7; 32] };
    k.set_key(CompositeKey::from_password("pw")).unwrap();
    k
}
fn saved(k: &Kdbx<Unlocked>) -> Vec<u8> {
    let mut out = Vec::new();
    k.write(&mut out).unwrap();
    out
}
/// position after the header of a KDBX 4 file
fn header_end(f: &[u8]) -> usize {
    let mut p = 12;
    loop {
        let ty = f[p];
        let n = u32::from_le_bytes([f[p + 1], f[p + 2], f[p + 3], f[p + 4]]) as usize;
        p += 5 + n;
        if ty == 0 {
            return p;
        }
    }
}
/// replaces the header of a KDBX 4 file and its checksum
fn with_header(f: &[u8], header: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    let mut out = header.to_vec();
    out.extend_from_slice(&sha2::Sha256::digest(header));
    out.extend_from_slice(&f[header_end(f) + 32..]);
    out
}
'''
SEEDS = []


def seed(id, prop, file, subs, needs, breaks, demo):
    SEEDS.append((id, prop, file, subs, needs, breaks, demo))


seed("hmac-empty-block", "C02", "src/crypto.rs",
     [("    pub(crate) fn verify_data_block(&self, hmac: &[u8], data: &[u8]) -> bool {\n",
       "    pub(crate) fn verify_data_block(&self, hmac: &[u8], data: &[u8]) -> bool {\n        if data.is_empty() {\n            return true;\n        }\n")],
     "a KDBX 4 archive whose end marker block carries a wrong authentication code",
     "the end marker of the block stream is not authenticated",
     '''
fn main() {
    let mut f = saved(&quick(Database::default()));
    let n = f.len();
    f[n - 20] ^= 1;
    let r = kdbx_rs::from_reader(&f[..]).unwrap().unlock(&CompositeKey::from_password("pw"));
    assert!(r.is_err(), "archive with an altered end marker was accepted");
}
''')

seed("seed-prefix", "C04", "src/crypto.rs",
     [("    pub(crate) fn hmac_key(&self, seed: &[u8]) -> HmacKey {\n        let mut data_to_hash = Vec::new();\n        data_to_hash.extend(seed.iter());\n",
       "    pub(crate) fn hmac_key(&self, seed: &[u8]) -> HmacKey {\n        let mut data_to_hash = Vec::new();\n        data_to_hash.extend(seed.iter().take(32));\n")],
     "a master seed longer than 32 bytes",
     "the authentication key depends only on the first 32 bytes of the master seed",
     '''
fn mac(last: u8) -> Vec<u8> {
    let mut k = quick(Database::default());
    k.header_mut().master_seed = vec![1; 40];
    k.header_mut().master_seed[39] = last;
    k.header_mut().encryption_iv = vec![2; 16];
    let f = saved(&k);
    f[f.len() - 36..].to_vec()
}
fn main() {
    assert_eq!(mac(0), mac(0));
    assert_ne!(mac(0), mac(1), "end marker code does not depend on the whole seed");
}
''')

seed("empty-password", "C04", "src/crypto.rs",
     [("        if let Some(ref pw) = self.pw {\n", "        if let Some(pw) = self.pw.as_ref().filter(|pw| !pw.is_empty()) {\n")],
     "an empty password together with a key file",
     "an empty password is left out of the composite key",
     '''
fn main() {
    let mut k = quick(Database::default());
    k.set_key(CompositeKey::new(Some(String::new()), Some(vec![1, 2, 3]))).unwrap();
    let f = saved(&k);
    let r = kdbx_rs::from_reader(&f[..]).unwrap().unlock(&CompositeKey::new(None, Some(vec![1, 2, 3])));
    assert!(r.is_err(), "key file alone opens an archive with password and key file");
}
''')

seed("empty-unknown-field", "C05", "src/binary/header.rs",
     [("            OuterHeaderId::MasterSeed => self.master_seed = Some(header.data),\n            _ => self.other_headers.push(header),\n",
       "            OuterHeaderId::MasterSeed => self.master_seed = Some(header.data),\n            OuterHeaderId::Unknown(_) if header.data.is_empty() => {}\n            _ => self.other_headers.push(header),\n")],
     "an unknown header field without data",
     "unknown header fields without data are dropped",
     '''
fn main() {
    let f = fixture("kdbx4-aes256.kdbx");
    let end = header_end(&f);
    let mut h = f[..12].to_vec();
    h.extend_from_slice(&[0x77, 0, 0, 0, 0]);
    h.extend_from_slice(&f[12..end]);
    let a = kdbx_rs::from_reader(&f[..]).unwrap().header().other_headers.len();
    let b = kdbx_rs::from_reader(&with_header(&f, &h)[..]).unwrap().header().other_headers.len();
    assert_eq!(a + 1, b, "header field lost");
}
''')

seed("dict-version", "C06", "src/binary/variant_dict.rs",
     [("    let major_version = version_buffer[1];\n", "    let major_version = version_buffer[0];\n")],
     "a variant dictionary of a later major version",
     "dictionaries of an unknown version are accepted",
     '''
fn main() {
    let f = fixture("kdbx4-aes256.kdbx");
    let end = header_end(&f);
    let mut h = f[..end].to_vec();
    let mut p = 12;
    while h[p] != 11 {
        p += 5 + u32::from_le_bytes([h[p + 1], h[p + 2], h[p + 3], h[p + 4]]) as usize;
    }
    assert_eq!(h[p + 6], 1);
    h[p + 6] = 2;
    assert!(kdbx_rs::from_reader(&with_header(&f, &h)[..]).is_err(), "dictionary of version 2 accepted");
}
''')

seed("date-bytes", "C08", "src/xml/decoders.rs",
     [("    let copy_size = usize::min(bytes.len(), decoded.len());\n    bytes[..copy_size].copy_from_slice(&decoded[..copy_size]);\n",
       "    bytes.copy_from_slice(&decoded);\n")],
     "a date whose base64 form is not 8 bytes long",
     "decoding a date of an unusual length panics",
     '''
fn main() {
    let _ = kdbx_rs::xml::decode_datetime("AAAA");
    let _ = kdbx_rs::xml::decode_datetime("AAAAAAAAAAAAAAAAAAAA");
}
''')

seed("short-hmac", "C09", "src/binary/read.rs",
     [("        input.read_exact(&mut hmac)?;\n        Some(hmac)\n",
       "        let count = input.read(&mut hmac)?;\n        if count == 0 {\n            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());\n        }\n        Some(hmac)\n")],
     "a source that returns the header authentication code in more than one read",
     "bytes after a short read of the header code are taken for content",
     '''
struct OneByOne<'a>(&'a [u8]);
impl<'a> Read for OneByOne<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(1);
        self.0.read(&mut buf[..n])
    }
}
fn main() {
    let f = saved(&quick(Database::default()));
    let k = kdbx_rs::from_reader(OneByOne(&f)).unwrap();
    assert!(k.unlock(&CompositeKey::from_password("pw")).is_ok(), "depends on how the source splits the data");
}
''')

seed("full-block-padding", "C10", "src/stream/block_cipher.rs",
     [("            Pkcs7::pad(&mut self.buffer, self.buf_idx);\n            self.write_buffer()?;\n",
       "            if self.buf_idx > 0 {\n                Pkcs7::pad(&mut self.buffer, self.buf_idx);\n                self.write_buffer()?;\n            }\n")],
     "content whose length is a multiple of the cipher block size",
     "no padding block is written after content that fills its last block",
     '''
fn main() {
    for n in 0..16 {
        let mut db = Database::default();
        db.set_name("x".repeat(n));
        let f = saved(&quick(db.clone()));
        let k = kdbx_rs::from_reader(&f[..]).unwrap().unlock(&CompositeKey::from_password("pw"));
        match k {
            Ok(k) => assert_eq!(k.name(), db.name()),
            Err(e) => panic!("{}", e.1),
        }
    }
}
''')

seed("locked-short-write", "C11", "src/binary/kdbx.rs",
     [("        output.write_all(&self.encrypted_data)?;\n", "        let _ = output.write(&self.encrypted_data)?;\n")],
     "saving a locked archive to a destination that takes only part of each write",
     "the content of a locked archive is written with a single write call",
     '''
struct Short(Vec<u8>);
impl Write for Short {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = buf.len().min(100);
        self.0.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn main() {
    let f = fixture("kdbx4-argon2d.kdbx");
    let mut out = Short(vec![]);
    kdbx_rs::from_reader(&f[..]).unwrap().write(&mut out).unwrap();
    assert!(out.0 == f, "{} of {} bytes written", out.0.len(), f.len());
}
''')

seed("single-version", "C12", "src/xml/serialize.rs",
     [("    if !entry.history.is_empty() {\n", "    if entry.history.len() > 1 {\n")],
     "an entry with exactly one older version",
     "the history of an entry with a single older version is not saved",
     '''
fn main() {
    let mut db = Database::default();
    let mut e = Entry::default();
    e.set_title("old");
    e.new_version();
    e.set_title("new");
    db.add_entry(e);
    let mut out = Vec::new();
    kdbx_rs::xml::write_xml(&mut out, &db, &mut kdbx_rs::utils::NullStreamCipher).unwrap();
    let r = kdbx_rs::xml::parse_xml(&out[..], &mut kdbx_rs::utils::NullStreamCipher).unwrap();
    assert_eq!(r.root().entries().next().unwrap().history().len(), 1);
}
''')

seed("custom-data-stream", "C13", "src/xml/parse.rs",
     [("                fields.push(parse_field(xml_event_reader, \"Item\", stream_cipher)?);\n",
       "                fields.push(parse_field(xml_event_reader, \"Item\", &mut NullStreamCipher)?);\n")],
     "a protected custom data item",
     "protected custom data is not decrypted and leaves the key stream out of step",
     '''
fn main() {
    let mut db = Database::default();
    db.meta_mut().custom_data.push(Field::new_protected("k", "secret"));
    let mut e = Entry::default();
    e.set_password("pass");
    db.add_entry(e);
    let f = saved(&quick(db.clone()));
    match kdbx_rs::from_reader(&f[..]).unwrap().unlock(&CompositeKey::from_password("pw")) {
        Ok(k) => {
            assert_eq!(k.meta().custom_data, db.meta().custom_data);
            assert_eq!(k.root(), db.root());
        }
        Err(e) => panic!("{}", e.1),
    }
}
''')

seed("find-first-subgroup", "C14", "src/database.rs",
     [("                if let Some(e) = group.find_entry_mut_internal(f) {\n                    return Some(e);\n                }\n",
       "                return group.find_entry_mut_internal(f);\n")],
     "an entry in the second or a later sub group",
     "searching an entry mutably looks only into the first sub group",
     '''
fn main() {
    let mut db = Database::default();
    db.add_group(Group::new("a"));
    let mut g = Group::new("b");
    let mut e = Entry::default();
    e.set_title("t");
    g.add_entry(e);
    db.add_group(g);
    assert!(db.find_entry_mut(|e| e.title() == Some("t")).is_some());
}
''')

seed("swap-remove", "C15", "src/database.rs",
     [("            Some(self.groups.remove(index))\n", "            Some(self.groups.swap_remove(index))\n")],
     "removing a group that is followed by at least two siblings",
     "removing a group changes the order of its siblings",
     '''
fn main() {
    let mut r = Group::new("r");
    for n in ["a", "b", "c", "d"] {
        r.add_group(Group::new(n));
    }
    let u = r.groups().next().unwrap().uuid();
    r.remove_group(u).unwrap();
    let names: Vec<_> = r.groups().map(|g| g.name().to_string()).collect();
    assert_eq!(names, ["b", "c", "d"]);
}
''')

seed("protect-empty", "C16", "src/database.rs",
     [("            (true, Value::Empty) => Value::ProtectEmpty,\n", "")],
     "protecting a field while it has no value",
     "an empty field stays unprotected",
     '''
fn main() {
    let mut f = Field::new("k", "v");
    f.clear();
    f.set_protected(true);
    f.set_value("x");
    assert!(f.protected());
}
''')

seed("remove-field-order", "C17", "src/database.rs",
     [("        matching_field_indices.reverse();\n", "")],
     "removing a key that occurs twice in an entry",
     "removing a key that occurs more than once removes other fields",
     '''
fn main() {
    let mut e = Entry::default();
    for (k, v) in [("a", "1"), ("b", "2"), ("a", "3"), ("c", "4"), ("d", "5")] {
        e.add_field(Field::new(k, v));
    }
    e.remove_field("a");
    let keys: Vec<_> = e.fields().map(|f| f.key().to_string()).collect();
    assert_eq!(keys, ["b", "c", "d"]);
}
''')

seed("local-time", "C18", "src/xml/decoders.rs",
     [("        Some(dt.naive_utc())\n", "        Some(dt.naive_local())\n")],
     "an RFC 3339 date with an offset other than zero",
     "dates with an offset decode to local time",
     '''
fn main() {
    let a = kdbx_rs::xml::decode_datetime("2020-01-01T12:00:00+02:00").unwrap();
    let b = kdbx_rs::xml::decode_datetime("2020-01-01T10:00:00Z").unwrap();
    assert_eq!(a, b);
}
''')

seed("unknown-compression", "C20", "src/stream/pipeline.rs",
     [("        binary::CompressionType::None => Kdbx4WriteInner::Raw(encrypted).into(),\n",
       "        binary::CompressionType::None | binary::CompressionType::Unknown(2) => {\n            Kdbx4WriteInner::Raw(encrypted).into()\n        }\n")],
     "saving with the unknown compression id 2",
     "content is stored uncompressed under an unknown compression id",
     '''
fn main() {
    let mut k = quick(Database::default());
    k.header_mut().compression_type = CompressionType::Unknown(2);
    assert!(k.write(&mut Vec::new()).is_err());
}
''')

seed("start-bytes-prefix", "C21", "src/stream/pipeline.rs",
     [("    if start_bytes != expected_start_bytes {\n",
       "    if !expected_start_bytes.starts_with(&start_bytes[..16]) {\n")],
     "a KDBX 3 archive whose start bytes differ after the first 16",
     "only half of the start bytes is compared",
     '''
fn main() {
    let mut f = fixture("kdbx31-aes256.kdbx");
    let mut p = 12;
    while f[p] != 9 {
        p += 3 + u16::from_le_bytes([f[p + 1], f[p + 2]]) as usize;
    }
    f[p + 3 + 31] ^= 0xff;
    let r = kdbx_rs::from_reader(&f[..]).unwrap().unlock(&CompositeKey::from_password("kdbxrs"));
    assert!(r.is_err(), "start bytes do not match but the archive unlocks");
}
''')

seed("iv-from-seed", "C22", "src/binary/header.rs",
     [("        OsRng.fill_bytes(&mut encryption_iv);\n", "        encryption_iv.copy_from_slice(&master_seed[16..]);\n")],
     "creating a new archive",
     "the IV is a part of the master seed instead of fresh random bytes",
     '''
fn main() {
    let h = binary::KdbxHeader::from_os_random();
    assert!(!h.master_seed.windows(16).any(|w| w == &h.encryption_iv[..]));
}
''')

seed("unlock-takes-hmac", "C03", "src/binary/kdbx.rs",
     [("    fn unlock_v4(self, key: &crypto::CompositeKey) -> Result<Kdbx<Unlocked>, FailedUnlock> {\n",
       "    fn unlock_v4(mut self, key: &crypto::CompositeKey) -> Result<Kdbx<Unlocked>, FailedUnlock> {\n"),
      ("        let hmac = self.state.hmac.clone().unwrap();\n", "        let hmac = self.state.hmac.take().unwrap_or_default();\n")],
     "unlocking or saving an archive after a failed unlock",
     "a failed unlock removes the authentication code from the archive it returns",
     '''
fn main() {
    let f = saved(&quick(Database::default()));
    let k = kdbx_rs::from_reader(&f[..]).unwrap();
    let k = match k.unlock(&CompositeKey::from_password("wrong")) {
        Ok(_) => panic!("wrong password"),
        Err(e) => e.0,
    };
    assert!(k.unlock(&CompositeKey::from_password("pw")).is_ok(), "cannot be unlocked after a failed attempt");
}
''')

seed("usage-count-width", "C01", "src/xml/serialize.rs",
     [("times.usage_count.to_string()", "(times.usage_count as u16).to_string()")],
     "an entry or group used more than 65535 times",
     "usage counts above 65535 are saved modulo 65536",
     '''
fn main() {
    let mut db = Database::default();
    let mut e = Entry::default();
    e.times_mut().usage_count = 70_000;
    db.add_entry(e);
    let f = saved(&quick(db));
    let k = kdbx_rs::from_reader(&f[..]).unwrap().unlock(&CompositeKey::from_password("pw")).ok().unwrap();
    assert_eq!(k.database().root().entries().next().unwrap().times().usage_count, 70_000);
}
''')

seed("repeated-attachment", "C07", "src/binary/header.rs",
     [("            InnerHeaderId::InnerRandomStreamKey => self.inner_stream_key = Some(header.data),\n            _ => self.other_headers.push(header),\n",
       "            InnerHeaderId::InnerRandomStreamKey => self.inner_stream_key = Some(header.data),\n            _ => {\n                if !self.other_headers.contains(&header) {\n                    self.other_headers.push(header)\n                }\n            }\n")],
     "two attachments with the same bytes",
     "an attachment that occurs twice is kept once, so the numbers of the later ones change",
     '''
fn sha(parts: &[&[u8]]) -> Vec<u8> {
    use sha2::Digest;
    sha2::Sha256::digest(parts.concat()).to_vec()
}
fn sha512(parts: &[&[u8]]) -> Vec<u8> {
    use sha2::Digest;
    sha2::Sha512::digest(parts.concat()).to_vec()
}
fn hmac(key: &[u8], data: &[u8]) -> Vec<u8> {
    use hmac::Mac;
    let mut m = hmac::Hmac::<sha2::Sha256>::new_from_slice(key).unwrap();
    m.update(data);
    m.finalize().into_bytes().to_vec()
}
fn main() {
    use cipher::{KeyIvInit, StreamCipher};
    // an archive without KDF rounds, as another program might write it
    let mut k = Kdbx::from_database(Database::default());
    k.header_mut().cipher = binary::Cipher::ChaCha20;
    k.header_mut().encryption_iv = vec![5; 12];
    k.header_mut().kdf_params = KdfParams::Aes { rounds: 0, salt: vec![7; 32] };
    k.set_key(CompositeKey::from_password("pw")).unwrap();
    let f = saved(&k);
    let header = &f[..header_end(&f)];
    let seed = &k.header().master_seed;
    let master = sha(&[&sha(&[&sha(&[b"pw"])])]);
    let auth = sha512(&[seed, &master, &[1]]);
    let mut content = Vec::new();
    let mut field = |ty: u8, data: &[u8]| {
        content.push(ty);
        content.extend_from_slice(&(data.len() as u32).to_le_bytes());
        content.extend_from_slice(data);
    };
    field(1, &3u32.to_le_bytes());
    field(2, &[9; 64]);
    field(3, b"\\x00same");
    field(3, b"\\x00other");
    field(3, b"\\x00same");
    field(0, b"");
    content.extend_from_slice(b"<KeePassFile><Meta></Meta><Root><Group><Name>x</Name></Group></Root></KeePassFile>");
    chacha20::ChaCha20::new_from_slices(&sha(&[seed, &master]), &[5; 12]).unwrap().apply_keystream(&mut content);
    let mut out = header.to_vec();
    out.extend(sha(&[header]));
    out.extend(hmac(&sha512(&[&[0xff; 8], &auth]), header));
    for (i, block) in [&content[..], &[]].iter().enumerate() {
        let i = (i as u64).to_le_bytes();
        let n = (block.len() as u32).to_le_bytes();
        out.extend(hmac(&sha512(&[&i, &auth]), &[&i[..], &n, block].concat()));
        out.extend(n);
        out.extend_from_slice(block);
    }
    let u = kdbx_rs::from_reader(&out[..]).unwrap().unlock(&CompositeKey::from_password("pw")).ok().expect("unlocks");
    assert_eq!(u.inner_header().other_headers.len(), 3, "an attachment is missing");
}
''')

seed("trailing-bytes", "C19", "src/binary/read.rs",
     [("    input.read_to_end(&mut encrypted_data)?;\n",
       "    input.read_to_end(&mut encrypted_data)?;\n    if major_version < 4 {\n        // the ciphertext is a whole number of cipher blocks\n        encrypted_data.truncate(encrypted_data.len() / 16 * 16);\n    }\n")],
     "a KDBX 3 file whose content is not a multiple of 16 bytes",
     "the bytes after the last whole cipher block are lost when the archive is copied",
     '''
fn main() {
    let mut f = fixture("kdbx31-aes256.kdbx");
    f.extend_from_slice(b"tail");
    let k = kdbx_rs::from_reader(&f[..]).unwrap();
    let mut out = Vec::new();
    k.write(&mut out).unwrap();
    assert!(out == f, "the copy differs: {} bytes instead of {}", out.len(), f.len());
}
''')

seed("short-compression-id", "C08", "src/binary/header.rs",
     [("                if header.data.len() != 4 {\n", "                if header.data.len() > 4 {\n")],
     "a compression field of less than 4 bytes",
     "opening a file with a short compression field panics",
     '''
fn main() {
    let f = saved(&quick(Database::default()));
    let end = header_end(&f);
    let mut h = f[..12].to_vec();
    let mut p = 12;
    while p < end {
        let n = u32::from_le_bytes([f[p + 1], f[p + 2], f[p + 3], f[p + 4]]) as usize;
        if f[p] == 3 {
            h.extend_from_slice(&[3, 1, 0, 0, 0, 1]);
        } else {
            h.extend_from_slice(&f[p..p + 5 + n]);
        }
        p += 5 + n;
    }
    assert!(kdbx_rs::from_reader(&with_header(&f, &h)[..]).is_err());
}
''')

seed("empty-branch", "C12", "src/xml/serialize.rs",
     [("    for group in group.groups() {\n",
       "    for group in group.groups() {\n        if group.name().is_empty() && group.entry_count() == 0 {\n            continue;\n        }\n")],
     "an unnamed group without own entries but with groups below it",
     "unnamed groups without entries are not written, with everything below them",
     '''
fn main() {
    let mut db = Database::default();
    let mut mid = Group::default();
    let mut leaf = Group::new("leaf");
    leaf.add_entry(Entry::default());
    mid.add_group(leaf);
    db.add_group(mid);
    let mut xml = Vec::new();
    kdbx_rs::xml::write_xml(&mut xml, &db, &mut kdbx_rs::utils::NullStreamCipher).unwrap();
    let back = kdbx_rs::xml::parse_xml(&xml[..], &mut kdbx_rs::utils::NullStreamCipher).unwrap();
    assert_eq!(back.root().recursive_entries().count(), 1);
}
''')

seed("remove-below", "C15", "src/database.rs",
     [("            Some(self.groups.remove(index))\n        } else {\n            None\n        }\n",
       "            Some(self.groups.remove(index))\n        } else {\n            self.groups.iter_mut().find_map(|g| g.remove_group(uuid))\n        }\n")],
     "removing a group that is not a direct child",
     "removing a group takes out groups further down the tree",
     '''
fn main() {
    let mut top = Group::new("top");
    let mut mid = Group::new("mid");
    let leaf = Group::new("leaf");
    let id = leaf.uuid();
    mid.add_group(leaf);
    top.add_group(mid);
    let before = top.clone();
    assert!(top.remove_group(id).is_none());
    assert_eq!(top, before);
}
''')

seed("two-levels", "C14", "src/database.rs",
     [("            } else if let Some(g) = group.find_group_internal(f) {\n",
       "            } else if let Some(g) = group.groups().find(|g| f(g)) {\n")],
     "a matching group three or more levels down",
     "groups are only found on two levels",
     '''
fn main() {
    let mut a = Group::new("a");
    let mut b = Group::new("b");
    let mut c = Group::new("c");
    c.add_group(Group::new("d"));
    b.add_group(c);
    a.add_group(b);
    assert!(a.find_group(|g| g.name() == "c").is_some());
    assert!(a.find_group(|g| g.name() == "d").is_some());
}
''')

seed("set-empty-text", "C16", "src/database.rs",
     [("        if self.protected() {\n            self.value = Value::Protected(value.to_string());\n",
       "        if value.is_empty() {\n            self.value = Value::Empty;\n        } else if self.protected() {\n            self.value = Value::Protected(value.to_string());\n")],
     "setting a protected field to the empty text",
     "a protected field set to the empty text is no longer protected",
     '''
fn main() {
    let mut f = Field::new_protected("k", "secret");
    f.set_value("");
    f.set_value("secret 2");
    assert!(f.protected());
}
''')

seed("otp-param-prefix", "C17", "src/database.rs",
     [("            if pkey == key {\n", "            if pkey.starts_with(key) {\n")],
     "an OTP URL with a parameter whose name begins with the name asked for",
     "period, digits or secret are taken from another parameter",
     '''
fn main() {
    let mut e = Entry::default();
    e.add_field(Field::new_protected("otp", "otpauth://totp/a:b?periodic=7&secret=AAAA&period=30&digits=6"));
    assert_eq!(e.otp().unwrap().period(), Some(30));
}
''')

seed("early-dates", "C18", "src/xml/decoders.rs",
     [("date.signed_duration_since(keepass_epoch()).num_seconds();", "date.signed_duration_since(keepass_epoch()).num_seconds().max(0);")],
     "a date before the year 1",
     "dates before the year 1 are written as the start of year 1",
     '''
fn main() {
    let d = chrono::NaiveDate::from_ymd_opt(-44, 3, 15).unwrap().and_hms_opt(12, 0, 0).unwrap();
    assert_eq!(kdbx_rs::xml::decode_datetime(&kdbx_rs::xml::encode_datetime(d)), Some(d));
}
''')

seed("blank-checksum", "C09", "src/binary/header.rs",
     [("        if crypto::verify_sha256(&header_bin, &sha) {\n", "        if sha.iter().all(|b| *b == 0) || crypto::verify_sha256(&header_bin, &sha) {\n")],
     "a KDBX 4 file whose header checksum is all zero",
     "files with a blank header checksum open",
     '''
fn main() {
    let mut f = saved(&quick(Database::default()));
    let end = header_end(&f);
    f[end..end + 32].fill(0);
    assert!(kdbx_rs::from_reader(&f[..]).is_err());
}
''')

seed("code-not-written", "C11", "src/binary/kdbx.rs",
     [("        output.write_all(&hmac.into_bytes())?;\n", "        output.write_all(&hmac.into_bytes()).ok();\n")],
     "a destination that fails once, while the authentication code is written",
     "saving succeeds although the authentication code did not reach the destination",
     '''
struct Flaky(usize, Vec<u8>);
impl Write for Flaky {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += 1;
        if self.0 == 3 {
            return Err(io::Error::new(io::ErrorKind::Other, "disk full"));
        }
        self.1.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn main() {
    let k = quick(Database::default());
    assert!(k.write(Flaky(0, Vec::new())).is_err());
}
''')

seed("lanes-limit", "C04", "src/crypto.rs",
     [("                    lanes: *lanes,\n", "                    lanes: (*lanes).min(4),\n")],
     "an archive whose Argon2 parallelism is above 4",
     "Argon2 runs with at most 4 lanes, whatever the header says",
     '''
fn main() {
    let mut k = Kdbx::from_database(Database::default());
    // too little memory for 8 lanes, enough for 4
    k.header_mut().kdf_params = KdfParams::Argon2 {
        variant: argon2::Variant::Argon2d,
        memory_bytes: 40 * 1024,
        version: 19,
        iterations: 1,
        lanes: 8,
        salt: vec![3; 32],
    };
    assert!(k.set_key(CompositeKey::from_password("pw")).is_err());
}
''')

seed("arcfour", "C20", "src/stream/random.rs",
     [("            InnerStreamCipherAlgorithm::Salsa20 => {\n", "            InnerStreamCipherAlgorithm::Salsa20 | InnerStreamCipherAlgorithm::ArcFour => {\n")],
     "an archive whose inner stream is ArcFour",
     "protected values of archives naming ArcFour are encrypted with Salsa20",
     '''
fn main() {
    let mut k = quick(Database::default());
    k.inner_header_mut().inner_stream_cipher = binary::InnerStreamCipherAlgorithm::ArcFour;
    assert!(k.write(&mut Vec::new()).is_err());
}
''')

seed("half-code", "C02", "src/crypto.rs",
     [("        calc_hmac.update(data);\n        calc_hmac.verify_slice(hmac).is_ok()\n    }\n\n    /// Calculate a HMAC for a block in the data",
       "        calc_hmac.update(data);\n        calc_hmac.verify_truncated_left(&hmac[..16]).is_ok()\n    }\n\n    /// Calculate a HMAC for a block in the data")],
     "a block whose authentication code differs in its second half",
     "only half of a block's authentication code is checked",
     '''
fn main() {
    let mut f = saved(&quick(Database::default()));
    let p = header_end(&f) + 64;
    f[p + 31] ^= 1;
    let k = kdbx_rs::from_reader(&f[..]).unwrap();
    assert!(k.unlock(&CompositeKey::from_password("pw")).is_err());
}
''')

seed("unknown-type-bit", "C05", "src/binary/header.rs",
     [("            OuterHeaderId::Unknown(x) => x,\n", "            OuterHeaderId::Unknown(x) => x & 0x7f,\n")],
     "an unknown header field with a type of 128 or more",
     "unknown header field types of 128 and above change when the header is written",
     '''
fn main() {
    let f = saved(&quick(Database::default()));
    let mut h = f[..12].to_vec();
    h.extend_from_slice(&[200, 2, 0, 0, 0, 1, 2]);
    h.extend_from_slice(&f[12..header_end(&f)]);
    let mut locked = kdbx_rs::from_reader(&with_header(&f, &h)[..]).unwrap();
    let mut k = quick(Database::default());
    k.header_mut().other_headers = std::mem::take(&mut locked.header_mut().other_headers);
    let g = saved(&k);
    let again = kdbx_rs::from_reader(&g[..]).unwrap();
    assert_eq!(again.header().other_headers, k.header().other_headers);
}
''')

seed("half-seed", "C22", "src/binary/header.rs",
     [("        OsRng.fill_bytes(&mut master_seed);\n", "        OsRng.fill_bytes(&mut master_seed[..16]);\n")],
     "creating a new archive",
     "half of the master seed is always zero",
     '''
fn main() {
    assert!((0..8).any(|_| binary::KdbxHeader::from_os_random().master_seed[16..].iter().any(|b| *b != 0)));
}
''')

seed("failed-unlock-fields", "C03", "src/binary/kdbx.rs",
     [("            Err(FailedUnlock(self, errors::UnlockError::HmacInvalid))\n",
       "            let mut failed = self;\n            failed.state.header.other_headers.clear();\n            Err(FailedUnlock(failed, errors::UnlockError::HmacInvalid))\n")],
     "a wrong password for an archive with additional header fields",
     "a failed unlock drops the additional header fields of the archive it returns",
     '''
fn main() {
    let f = saved(&quick(Database::default()));
    let mut h = f[..12].to_vec();
    h.extend_from_slice(&[200, 2, 0, 0, 0, 1, 2]);
    h.extend_from_slice(&f[12..header_end(&f)]);
    let g = with_header(&f, &h);
    let failed = kdbx_rs::from_reader(&g[..]).unwrap().unlock(&CompositeKey::from_password("wrong")).err().unwrap().0;
    assert_eq!(failed.header(), kdbx_rs::from_reader(&g[..]).unwrap().header());
}
''')

seed("lossy-text", "C06", "src/binary/variant_dict.rs",
     [("            TAG_STRING => Ok(Value::String(String::from_utf8(buffer)?)),\n",
       "            TAG_STRING => Ok(Value::String(\n                String::from_utf8_lossy(&buffer).into_owned(),\n            )),\n")],
     "a text in a variant dictionary that is not valid UTF-8",
     "malformed text in a dictionary is replaced instead of refused",
     '''
fn main() {
    let f = saved(&quick(Database::default()));
    let end = header_end(&f);
    let mut h = f[..12].to_vec();
    let mut p = 12;
    while p < end {
        let n = u32::from_le_bytes([f[p + 1], f[p + 2], f[p + 3], f[p + 4]]) as usize;
        if f[p] == 11 {
            let mut d = f[p + 5..p + 5 + n - 1].to_vec();
            d.extend_from_slice(&[0x18, 1, 0, 0, 0, b'x', 2, 0, 0, 0, 0xc3, 0x28, 0]);
            h.push(11);
            h.extend_from_slice(&(d.len() as u32).to_le_bytes());
            h.extend_from_slice(&d);
        } else {
            h.extend_from_slice(&f[p..p + 5 + n]);
        }
        p += 5 + n;
    }
    assert!(kdbx_rs::from_reader(&with_header(&f, &h)[..]).is_err());
}
''')

seed("long-secret", "C13", "src/xml/serialize.rs",
     [("            stream_cipher\n                .try_apply_keystream(&mut encrypt_buf)\n",
       "            let n = encrypt_buf.len().min(1024);\n            stream_cipher\n                .try_apply_keystream(&mut encrypt_buf[..n])\n")],
     "a protected value of more than 1024 bytes",
     "protected values are stored in plain after the first 1024 bytes",
     '''
fn main() {
    let text = "s".repeat(3000);
    let mut db = Database::default();
    let mut e = Entry::default();
    e.set_password(&text);
    db.add_entry(e);
    let key = [1u8; 64];
    let algo = binary::InnerStreamCipherAlgorithm::ChaCha20;
    let mut xml = Vec::new();
    kdbx_rs::xml::write_xml(&mut xml, &db, algo.stream_cipher(&key).unwrap().as_mut()).unwrap();
    // base64 of a run of the same letter
    assert!(!String::from_utf8(xml).unwrap().contains("c3Nzc3Nzc3Nzc3Nz"), "plain text in the XML");
}
''')


def main():
    for id, prop, file, subs, needs, breaks, demo in SEEDS:
        old = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + file], text=True)
        new = old
        for a, b in subs:
            assert new.count(a) == 1, (id, new.count(a), a)
            new = new.replace(a, b)
        d = os.path.join(ROOT, "seeded", id)
        os.makedirs(d, exist_ok=True)
        diff = "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + file, "b/" + file))
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.rs"), "w").write(HEAD + demo)
        p = os.path.join(d, "demo.sh")
        open(p, "w").write(DEMO_SH)
        os.chmod(p, 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
