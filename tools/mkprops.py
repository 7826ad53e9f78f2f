#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe),
            hook_needed="the content streams (src/verif.rs)" if id in ("C02", "C10", "C11", "C21") else None)))

p("C01", "A saved archive reopens to the same database and settings",
  "When saving an archive reports success, opening the saved bytes and unlocking them with the same credentials yields a database equal to the one saved: groups, entries, fields with their order and protection, history, whole-second times, name, description, custom data and memory-protection flags. "
  "The cipher, compression, KDF and inner-stream settings, seeds and preserved header fields also come back equal. "
  "Only the generator name is replaced, an empty text and an absent text are the same thing, and the KDF settings meant are those in force when the key was set.",
  ["inputs", "configurations"],
  "all databases (any tree, any text), all credentials, all supported cipher x compression x KDF x inner-stream settings, any content size",
  "The tests save three small hand-written trees with the default AES/uncompressed/ChaCha20 settings and compare a handful of accessors; sizes near block boundaries, gzip, Twofish/ChaCha20 output, protected-field ordering and odd text are never saved.",
  ["src/binary/kdbx.rs", "src/binary/header.rs", "src/stream/pipeline.rs", "src/stream/hmac.rs", "src/stream/block_cipher.rs", "src/xml/serialize.rs", "src/xml/parse.rs"],
  [("Unlocked::write / encrypt_inner: header, SHA-256, HMAC, then compressed+encrypted+HMAC-framed inner header and XML", "src/binary/kdbx.rs"),
   ("Kdbx<Locked>::decrypt_v4 undoes the layers in the opposite order", "src/binary/kdbx.rs"),
   ("kdbx4_write_stream / kdbx4_read_stream build mirrored layer stacks", "src/stream/pipeline.rs")],
  observe=["Kdbx::from_database/set_key/write, from_reader, unlock, database()"])

p("C02", "Altered KDBX 4 archives are never accepted as genuine",
  "If unlocking a KDBX 4 archive succeeds, its header carried the keyed authentication code for the given credentials and the content is exactly the data blocks of the file, in file order, each carrying the keyed code for its own position and length. "
  "Changing, reordering, duplicating or removing any header byte or data block therefore makes opening or unlocking fail, and no byte of an unauthenticated block is ever handed on, not even after an error.",
  ["inputs", "fault_sequences"],
  "all archives, all alterations, all ways the content is read back, including reads after a failed read",
  "The tests only open intact files; no test flips a bit, swaps blocks or reads on after a failure, and none can cover every alteration.",
  ["src/stream/hmac.rs", "src/crypto.rs", "src/binary/kdbx.rs", "src/binary/read.rs"],
  [("HMacReader::buffer_next_block verifies a block before its bytes become readable", "src/stream/hmac.rs"),
   ("HmacBlockKey::verify_data_block covers index, length and data", "src/crypto.rs"),
   ("unlock_v4 verifies the header HMAC over the raw header bytes first", "src/binary/kdbx.rs")],
  [("block_idx", "position of the next block, part of its key and MAC", "src/stream/hmac.rs")],
  ["unlock, raw_xml, database"])

p("C03", "A failed unlock reports an error and returns the locked archive untouched",
  "Unlocking either yields an unlocked archive or returns an error together with the very same locked archive: same header, same encrypted content, same authentication data. "
  "The returned archive can be written out or unlocked again with other credentials exactly as if the failed attempt had not happened, and credentials that do not match never yield an unlocked archive.",
  ["inputs", "histories"],
  "all archives (intact, corrupt, unsupported), all credentials, any sequence of failing attempts before a successful one",
  "No test unlocks with a wrong key, and none looks at the archive handed back with the error.",
  ["src/binary/kdbx.rs", "src/crypto.rs"],
  [("FailedUnlock carries the Kdbx<Locked> value", "src/binary/kdbx.rs"),
   ("unlock_v3/unlock_v4 decrypt from &self and move the state only on success", "src/binary/kdbx.rs")],
  observe=["unlock, FailedUnlock.0, FailedUnlock.1"])

p("C04", "Encryption keys are derived from the credentials by the documented formula",
  "All keys follow the KDBX formula: the password and key file are each hashed and hashed together, password first; the KDF named in the header runs with exactly the stored parameters; the content and authentication keys are the documented hashes of master seed and derived key, the authentication key of each block also depending on its position. "
  "A KDF or parameter that cannot be honoured is an error: no key is ever produced that does not depend on the credentials.",
  ["inputs", "configurations"],
  "all passwords, key files, KDF parameter sets, master seeds and block positions",
  "The tests open a few sample files with one password; they cannot show that every component takes part in every key, or that unusual parameters are refused rather than ignored.",
  ["src/crypto.rs", "src/stream/random.rs"],
  [("CompositeKey::composed, ComposedKey::master_key", "src/crypto.rs"),
   ("MasterKey::{hmac_key,cipher_key}, HmacKey::block_key", "src/crypto.rs"),
   ("InnerStreamCipherAlgorithm::stream_cipher", "src/stream/random.rs")],
  observe=["archives written and read by an independent implementation of the format"])

p("C05", "Outer header fields are encoded and decoded without loss",
  "Writing a KDBX 4 header and reading it back gives an equal header: cipher, compression, seed, IV, KDF parameters and all other fields in their order (the KDBX 3 start bytes have no place in KDBX 4). "
  "Reading follows the type/length/value layout exactly, so every field keeps its type and its bytes, unknown types, ciphers and compression ids included, and exactly the header's bytes are consumed.",
  ["inputs"],
  "all headers: every field id 0-255, every field content and length, every order",
  "The tests read a few sample headers with common settings; unknown ids, empty and large fields, and re-encoding after reading are not exercised.",
  ["src/binary/header.rs", "src/binary/header_fields.rs", "src/utils.rs"],
  [("HeaderParser::read_one_header/read_all_headers", "src/binary/header.rs"),
   ("KdbxHeaderBuilder::add_header/build, KdbxHeader::write", "src/binary/header.rs"),
   ("id tables: OuterHeaderId, Cipher, CompressionType <-> number", "src/binary/header_fields.rs")],
  observe=["header() after from_reader; bytes produced by write"])

p("C06", "KDF parameters and variant dictionaries survive encoding",
  "Every set of KDF parameters written into a header is read back equal, whichever KDF it is for, including parameters of KDFs this library does not know. "
  "Every typed dictionary value keeps its type and value through its byte encoding, and malformed dictionaries or missing and mistyped parameters are errors.",
  ["inputs"],
  "all KDF parameter values (full integer ranges, any salt), all dictionaries, all byte strings given as a dictionary",
  "One unit test decodes four numbers from one dictionary; encoding, the other value types and boundary values are not tested.",
  ["src/binary/variant_dict.rs", "src/binary/header_fields.rs"],
  [("Value::{tag,data,from_bytes}, parse_variant_dict, write_variant_dict", "src/binary/variant_dict.rs"),
   ("TryFrom<VariantDict> for KdfParams, From<KdfParams> for VariantDict", "src/binary/header_fields.rs")],
  observe=["header().kdf_params after from_reader"])

p("C07", "The encrypted inner header and its attachments survive encoding",
  "Writing an archive and unlocking it again gives back an equal inner header: the inner stream cipher, its key and every other field, such as attached binaries, with its type, bytes and order. "
  "Inner headers that lack a required field or end early are errors, and the XML that follows the inner header starts exactly after it.",
  ["inputs"],
  "all inner headers: any cipher id, any key length, any number, size and order of further fields",
  "No test looks at the inner header after saving and none has an attachment.",
  ["src/binary/header.rs", "src/binary/header_fields.rs"],
  [("KdbxInnerHeader::{read,write}, KdbxInnerHeaderBuilder", "src/binary/header.rs"),
   ("InnerHeaderId and InnerStreamCipherAlgorithm <-> number", "src/binary/header_fields.rs")],
  observe=["inner_header() after unlock; raw_xml()"])

p("C08", "Malformed input gives an error, never a panic",
  "Opening any byte string, unlocking whatever was opened, decoding any date or UUID text and parsing any XML return a value or an error; they never panic, overflow, index out of bounds or run on without end. "
  "The same holds for saving an archive with any settings a caller can put into it. "
  "Element nesting deep enough to exhaust the thread's stack is outside this property.",
  ["inputs", "configurations"],
  "all byte strings given as archive or XML, all header field contents and lengths, all settings",
  "The tests feed well-formed sample files only.",
  ["src/binary/read.rs", "src/binary/header.rs", "src/binary/variant_dict.rs", "src/binary/kdbx.rs", "src/stream", "src/xml", "src/crypto.rs"],
  [("length checks before indexing and converting", "src/binary/header.rs"),
   ("errors instead of unwrap in key and cipher set-up", "src/crypto.rs"),
   ("checked date arithmetic", "src/xml/decoders.rs")],
  observe=["from_reader, unlock, write, parse_xml, decode_datetime, decode_uuid"])

p("C09", "Only well-formed KDBX 3 and 4 files open, however the source delivers bytes",
  "Opening succeeds only for data that starts with the KeePass and KDBX signatures, has major version 3 or 4, has all required header fields and, for version 4, a matching header checksum; the version, header fields and content reported are those in the data. "
  "The outcome depends only on the bytes, not on how the source splits them over reads.",
  ["inputs", "schedules"],
  "all byte strings and all ways a reader can split them into short reads",
  "The tests read whole files through readers that fill every buffer and check a few bad signatures.",
  ["src/binary/read.rs", "src/binary/header.rs", "src/utils.rs", "src/crypto.rs"],
  [("from_reader checks signatures and version, reads exact counts", "src/binary/read.rs"),
   ("CachingReader records exactly the bytes consumed", "src/utils.rs"),
   ("KdbxHeader::read compares the SHA-256 of those bytes", "src/binary/header.rs")],
  observe=["from_reader result"])

p("C10", "Content of any size passes the compression, cipher and block layers unchanged",
  "For every supported cipher and compression, the content recovered on unlocking is byte for byte the content that was saved: nothing lost, repeated, padded or reordered, whatever its length and however it is split over writes and reads. "
  "The saved form is the documented one: blocks of at most 1 MiB, one empty block at the end and nowhere else, PKCS#7-padded CBC or a ChaCha20 stream.",
  ["inputs", "schedules"],
  "all contents and lengths, including multiples of 16 bytes and of 1 MiB, and all ways of splitting writes and reads",
  "The tests save a few hundred bytes; block boundaries, multi-block content and odd write sizes are never reached.",
  ["src/stream/hmac.rs", "src/stream/block_cipher.rs", "src/stream/stream_cipher.rs", "src/stream/pipeline.rs"],
  [("HmacWriter/HMacReader framing", "src/stream/hmac.rs"),
   ("BlockCipherWriter/BlockCipherReader CBC and padding", "src/stream/block_cipher.rs"),
   ("StreamCipherWriter/StreamCipherReader", "src/stream/stream_cipher.rs"),
   ("kdbx4_write_stream, kdbx4_read_stream", "src/stream/pipeline.rs")],
  [("buffer/buf_idx/buf_len", "bytes decoded but not yet delivered", "src/stream/block_cipher.rs")],
  ["raw_xml() and database() after unlock; block structure of the written bytes"])

p("C11", "Saving reports success only when the whole archive reached its destination",
  "If saving returns success, the destination has accepted every byte of the complete archive, also when it takes only part of each write. "
  "If the destination fails at any point, or no key was set, saving returns an error; without a key nothing at all is written.",
  ["fault_sequences", "schedules"],
  "all failure points and all partial-write behaviours of the destination",
  "The tests write to memory buffers that never fail and never write short.",
  ["src/binary/kdbx.rs", "src/binary/header.rs", "src/stream/pipeline.rs", "src/stream/hmac.rs"],
  [("write_all and ? on every write", "src/binary/kdbx.rs"),
   ("Kdbx4Write::finish closes every layer before the content is written", "src/stream/pipeline.rs")],
  observe=["Kdbx::write result and the bytes in the destination"])

p("C12", "The XML form of a database reads back as the same database",
  "Writing a database as XML and parsing it with an inner-stream cipher in the same initial state yields an equal database, for every tree of groups and entries, every text XML can represent and every whole-second time. "
  "Text XML cannot represent and fields without a name are refused when writing, and elements this library does not know are skipped when parsing without disturbing the rest.",
  ["inputs"],
  "all databases and all documents with additional unknown elements or a different element order",
  "Two tests compare fixed documents; nested groups, history, custom data, markup and whitespace in text and unknown elements are hardly covered.",
  ["src/xml/serialize.rs", "src/xml/parse.rs", "src/xml/decoders.rs"],
  [("write_xml and the write_* functions", "src/xml/serialize.rs"),
   ("parse_xml and the parse_* functions", "src/xml/parse.rs")],
  observe=["write_xml, parse_xml"])

p("C13", "Protected values are only ever stored encrypted, in document order",
  "In the XML form, the value of every protected field is the base64 of its text encrypted with the inner stream, the key stream running on over all protected values in document order, history included; its plain text never appears. "
  "Reading applies the key stream to the same values in the same order, so values of files written by other KeePass programs decrypt correctly, and fields that are not protected do not use up key stream.",
  ["inputs", "configurations"],
  "all databases, any number, order and nesting of protected and unprotected values, both inner stream ciphers",
  "The tests contain one or two protected values and never check the stored form.",
  ["src/xml/serialize.rs", "src/xml/parse.rs", "src/stream/random.rs"],
  [("write_field encrypts Value::Protected", "src/xml/serialize.rs"),
   ("parse_field decrypts when Protected is true", "src/xml/parse.rs"),
   ("one cipher instance is threaded through the whole document", "src/binary/kdbx.rs")],
  observe=["write_xml output, parse_xml result, raw_xml()"])

p("C14", "Searching the tree finds a match exactly when one exists",
  "Searching for a group or an entry returns something exactly when a descendant satisfies the condition, what it returns satisfies it, and it is the first one in the traversal order; searching mutably returns the same item and changes nothing. "
  "Recursive iteration visits every descendant entry, or group, exactly once.",
  ["inputs"],
  "all trees and all conditions",
  "The tests search trees two levels deep for one item.",
  ["src/database.rs"],
  [("Group::find_*_internal, recursive_entries, recursive_entries_mut, recursive_groups", "src/database.rs")],
  observe=["Group/Database find_group, find_entry and their _mut variants, recursive_*"])

p("C15", "Adding and removing groups and entries changes nothing else",
  "Adding an entry or group puts exactly that item after its siblings; removing by UUID takes out exactly the first direct child with that UUID and returns it, or returns nothing and changes nothing. "
  "Every other group and entry, its content and its position among its siblings stay as they were, so moving an item loses and duplicates nothing.",
  ["inputs", "histories"],
  "all trees, all items, any sequence of additions and removals, duplicate and missing UUIDs included",
  "One test removes one entry from a two-entry tree.",
  ["src/database.rs"],
  [("Group::add_entry/add_group/remove_entry/remove_group, Database::add_*/replace_root", "src/database.rs")],
  observe=["Group and Database add/remove methods, entries(), groups(), counts"])

p("C16", "A field keeps its protection and key through value changes",
  "Setting or clearing a field's value never changes its key or whether it is protected, also when it is empty in between; changing protection never changes its text. "
  "After setting a value that value is read back, after clearing no value is.",
  ["histories"],
  "all fields and all sequences of set, clear and protect operations",
  "No test clears a protected field or toggles protection.",
  ["src/database.rs"],
  [("Field::{value,set_value,clear,protected,set_protected}", "src/database.rs")],
  observe=["Field methods"])

p("C17", "Entry accessors and history read back exactly what was stored",
  "Each of title, user name, password, URL and OTP returns the value last set for it, or the first field with that key, and setting one leaves all other fields, their order, the history, times and UUID unchanged; passwords and OTP secrets set this way are protected. "
  "Removing a field removes all fields with that key and only those; recording a version appends one copy of the current state without its history and keeps the entry and the older versions; OTP period, digits and (base32) secret read back as given.",
  ["inputs", "histories"],
  "all entries with any fields, duplicate keys included, and all operation sequences",
  "The tests set each accessor once on an empty entry.",
  ["src/database.rs"],
  [("Entry::{find,find_mut,remove_field,new_version,set_*}, History", "src/database.rs"), ("Otp::{new,find_url_param}", "src/database.rs")],
  observe=["Entry, History and Otp methods"])

p("C18", "Dates and UUIDs read back as the values that were written",
  "Every date and time with whole seconds and every UUID decodes from its encoded form to the same value, the encoded form being the base64 of the 8-byte little-endian number of seconds since the start of year 1, or of the 16 UUID bytes. "
  "RFC 3339 dates as used by KDBX 3 decode to the same instant in UTC, and text that is neither base64 nor an RFC 3339 date is reported as undecodable.",
  ["inputs"],
  "all representable dates and times, all UUIDs, all texts",
  "The tests decode a few constants.",
  ["src/xml/decoders.rs"],
  [("encode_datetime/decode_datetime/decode_datetime_b64, encode_uuid/decode_uuid", "src/xml/decoders.rs")],
  observe=["xml::{encode,decode}_{datetime,uuid}"])

p("C19", "Writing a locked archive reproduces the file it was read from",
  "Writing a locked archive gives byte for byte the archive that was opened, for KDBX 3 and 4, whatever its field order, unknown fields and content. "
  "A copy made this way therefore opens and unlocks with the same credentials to the same database, also after failed unlock attempts.",
  ["inputs", "histories"],
  "all archives that can be opened, any failed unlock attempts in between",
  "No test writes a locked archive.",
  ["src/binary/kdbx.rs", "src/binary/read.rs", "src/binary/header.rs"],
  [("Locked::write emits the recorded header bytes, checksum, HMAC and content", "src/binary/kdbx.rs")],
  observe=["Kdbx<Locked>::write"])

p("C20", "Settings the library does not support are refused, never replaced",
  "An unknown cipher, compression, KDF or inner stream, key or IV sizes the cipher cannot take, and writing in a format version that is not supported are reported as errors, when reading and when writing. "
  "Content is never decrypted, encrypted or stored with another algorithm than the one named in the header.",
  ["configurations"],
  "all cipher, compression, KDF and inner-stream ids and all key, IV and seed sizes, for reading and writing, KDBX 3 and 4",
  "The tests only use supported settings.",
  ["src/stream/pipeline.rs", "src/stream/random.rs", "src/crypto.rs", "src/binary/kdbx.rs"],
  [("match on cipher and compression in the pipeline functions", "src/stream/pipeline.rs"),
   ("stream_cipher, master_key errors", "src/stream/random.rs")],
  observe=["set_key, write, unlock"])

p("C21", "KDBX 3 content is returned only if start bytes and block hashes match",
  "Unlocking a KDBX 3 archive succeeds only if the decrypted content starts with the start bytes from the header and every block used carries the SHA-256 hash of its data; the content is then exactly the blocks' data in order up to the end marker, decompressed. "
  "Intact archives, compressed or not, with any number and size of blocks, unlock.",
  ["inputs"],
  "all KDBX 3 archives, intact or altered, any block sizes and read sizes",
  "One KDBX 3 sample file with one compressed block is opened.",
  ["src/stream/kdbx3.rs", "src/stream/pipeline.rs", "src/binary/kdbx.rs", "src/binary/header.rs"],
  [("kdbx3_read_stream compares start bytes", "src/stream/pipeline.rs"),
   ("HashedBlockReader::buffer_next_block", "src/stream/kdbx3.rs"),
   ("from_legacy_fields takes the inner stream settings from the outer header", "src/binary/header.rs")],
  observe=["unlock of KDBX 3 archives"])

p("C22", "New archives use fresh secrets of full length from the system generator",
  "Every newly created archive gets a master seed, IV, KDF salt and inner stream key that are each filled entirely by the operating system's random generator, independently of each other, with the sizes its default settings need. "
  "No two archives created this way share any of them.",
  ["histories"],
  "all archives created, in any number",
  "No test looks at the generated values; sampling a few cannot show that every byte comes from the generator.",
  ["src/binary/header.rs", "src/binary/kdbx.rs"],
  [("KdbxHeader::from_os_random, KdbxInnerHeader::from_os_random", "src/binary/header.rs")],
  observe=["header() and inner_header() after Kdbx::from_database"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
