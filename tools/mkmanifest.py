#!/usr/bin/env python3
"""Writes cones.json and MANIFEST.json."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "Verus 0.2026.09.13 and Z3",
    "extract/ (source to Verus translation, rules listed in DESIGN.md)",
    "contracts of external crates and std in shims/: assumed where they have no body (trust_scan), otherwise proved for the body given there",
]
ASSUMPTIONS = [
    "the contracts of external crates in shims/ describe those crates",
    "the rewriting rules of extract/ preserve the meaning of the function bodies",
    "memory is sufficient; collections stay below usize::MAX elements",
]

# property -> functions under contract (verifier obligations), bounded stand-in, rest
P = {}


def prop(id, bounded, functions=(), not_proved="", level=None, note=""):
    P[id] = {
        "functions": list(functions),
        "bounded": bounded,
        "not_proved": not_proved,
        "level": level or ("proof" if functions else "exploration"),
        "note": note,
    }


CRYPTO = ["crypto::*"]
HMAC = ["stream::hmac::*"]
STREAM = ["stream::*"]
KDBX3 = ["stream::kdbx3::*", "stream::block_cipher::*", "stream::stream_cipher::*", "stream::pipeline::kdbx3_read_stream", "stream::pipeline::lemma_*"]
UTILS = ["utils::*"]
TREE = ["database::Group::*", "database::Database::*", "database::<Default for Group>*", "database::<Default for Database>*"]
TREE_LEMMAS = ["database::lemma_pre_*", "database::lemma_sub_*", "database::lemma_found_*", "database::lemma_first_*", "database::lemma_grp_*", "database::lemma_ent_*", "database::lemma_visits_*", "database::lemma_rec_*", "database::lemma_ref_*"]
FIELD = ["database::Field::*", "database::<Default for Field>*", "database::<Default for Value>*"]
ENTRY = FIELD + ["database::Entry::*", "database::History::*", "database::<Default for Entry>*", "database::<Default for History>*", "database::<Default for Times>*",
                 "database::lemma_first_key", "database::lemma_without_*", "database::lemma_idxs*", "database::lemma_somes_*", "database::lemma_remove_*",
                 "database::Otp::*", "database::lemma_pieces", "database::lemma_otp", "database::lemma_texts"]
DATES = ["xml::decoders::*"]

DICT = ["binary::variant_dict::*", "binary::header_fields::*", "utils::*"]
OUTER = ["binary::header::*"]
WRITE = ["binary::kdbx::<KdbxState for Unlocked>*", "binary::kdbx::Unlocked::*", "binary::kdbx::Kdbx::*"]
UNLOCK = ["binary::kdbx::Kdbx<Locked>::*", "binary::kdbx::Kdbx::*", "binary::kdbx::<From<FailedUnlock>*"]
LOCKED = ["binary::kdbx::<KdbxState for Locked>*", "binary::kdbx::Kdbx::*", "binary::kdbx::lemma_locked_writes_back"]
KDBX = ["binary::kdbx::*"]
OPEN = ["binary::read::*"]
XMLW = ["xml::serialize::*"]
XMLR = ["xml::parse::*"]
XML = XMLW + XMLR + DATES + ["xml::lemma_*"]

prop("C01", "random databases (groups, entries, fields, histories, dates), ciphers, compressions, KDFs and keys, written and read back by the library and by an independent codec; content lengths around all block boundaries",
     CRYPTO + STREAM + DICT + OUTER + OPEN + KDBX + XML, "")
prop("C02", "bit flips at every byte region, block removal, reordering, truncation, forged blocks under wrong keys for all cipher and compression combinations",
     CRYPTO + STREAM + UNLOCK + OPEN + OUTER, "the step from keyed codes to unforgeability (cryptographic assumption)")
prop("C03", "every kind of failed unlock: wrong key, credentials close to the right ones, damaged file, then the right key on the returned archive",
     UNLOCK + LOCKED + CRYPTO, "that different credentials give different codes (cryptographic assumption)")
prop("C04", "random credentials and KDF parameters, among them keys, seeds and key files of special form, against an independent key derivation",
     CRYPTO + KDBX, "")
prop("C05", "random headers parsed and written, known and unknown ids, against an independent codec", OUTER + DICT, "")
prop("C06", "random dictionaries and KDF parameters, truncations, malformed values, sizes up to 4 GiB", DICT, "")
prop("C07", "random inner headers, every truncation and size change", OUTER + ["binary::header_fields::*", "binary::kdbx::Kdbx<Locked>::*", "binary::kdbx::Unlocked::*", "binary::kdbx::lemma_saved_*", "utils::*"], "")
prop("C08", "mutated and truncated archives, dictionaries, XML documents, extreme settings; every case must return",
     CRYPTO + STREAM + DICT + OUTER + OPEN + KDBX + XML + ["database::*"])
prop("C09", "archives read through readers returning every split of the input; damaged signatures, versions and checksums", OPEN + OUTER + DICT)
prop("C10", "contents of lengths around block boundaries up to several MiB, through chunking readers and writers",
     STREAM + ["binary::kdbx::Kdbx<Locked>::*", "binary::kdbx::Unlocked::*", "binary::kdbx::lemma_saved_*"], "")
prop("C11", "writers failing at every offset and with every kind of error, short writing, failing flush", STREAM + WRITE + LOCKED + OUTER + XMLW, "")
prop("C12", "random databases through the XML writer and parser, foreign documents by an independent writer, special characters in every place", XML, "")
prop("C13", "documents with protected values in every position against an independent key stream", XML, "")
prop("C14", "random trees, searches compared with a model", TREE + TREE_LEMMAS, "that predicates are pure")
prop("C15", "random edit sequences compared with a model", TREE + TREE_LEMMAS, "")
prop("C16", "sequences of field operations compared with a model, saved and read back", FIELD + ["xml::serialize::write_field", "xml::parse::parse_field", "xml::lemma_value_back", "xml::lemma_field_back"], "")
prop("C17", "random entries, histories and OTP values compared with a model", ENTRY, "")
prop("C18", "dates over the representable range, both encodings, malformed texts; UUIDs", DATES + ["xml::serialize::write_*", "xml::parse::parse_*", "xml::lemma_date_*", "xml::lemma_uuid_tag"], "")
prop("C19", "random archives written while locked, also in pieces, compared byte by byte", LOCKED + OPEN + OUTER + UNLOCK, "")
prop("C20", "every unsupported setting on read and write", CRYPTO + STREAM + DICT + OUTER + KDBX, "")
prop("C21", "random KDBX 3 archives; other block numbers, bit flips, block removal and truncation in every region", CRYPTO + KDBX3 + UNLOCK, "")
prop("C22", "repeated generation, all values compared", ["binary::header::KdbxHeader::from_os_random", "binary::header::KdbxInnerHeader::from_os_random", "binary::kdbx::Kdbx<Unlocked>::from_database"],
     "that the system generator does not repeat (assumption)")


def main():
    cones = {"trusted_base": TRUSTED, "assumptions": ASSUMPTIONS, "properties": P}
    with open(os.path.join(ROOT, "cones.json"), "w") as f:
        json.dump(cones, f, indent=1)
        f.write("\n")
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
    assert ids == sorted(P), (ids, sorted(P))
    checks = []
    for i in ids:
        p = P[i]
        if p["functions"]:
            tech = "contracts on the extracted real functions, discharged by Verus; bounded replay for the rest"
            note = "Proved: contracts of %s. Bounded only: %s." % (", ".join(p["functions"]), p["not_proved"] or "nothing")
        else:
            tech = "bounded check of the real code against an independent model"
            note = "Bounded, not proved: " + p["bounded"] + "."
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech,
            "level": p["level"],
            "level_note": p["note"] or note,
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "hooks": {
            "guard": "cfg(kdbx_verif)",
            "enable": "RUSTFLAGS='--cfg kdbx_verif' (src/verif.rs hands the private content streams to the harness)",
            "source_commits": ["6a807ba3ebaaf7c8faa41c1bdbef5dd15a9756c8"],
        },
        "checks": checks,
        "not_applicable": [],
        "notes": "See DESIGN.md. Repairs of defects found are listed in known-findings.txt.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
