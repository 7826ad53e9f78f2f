#!/usr/bin/env python3
"""Decides one property on the current working tree of /repo.

usage: check.py PROPERTY | check.py --setup | check.py --baseline

1. extract/ turns /repo/src into a Verus crate with the contracts attached,
   Verus discharges the obligations, a probe run shows that no verified
   function has contradictory assumptions.
2. harness/ searches for a failing input through the public API
   and the content streams of the hook.  It is the
   replay of a failed obligation and the bounded stand-in for what is not
   under contract.

exit 0: held; exit 1: VIOLATION printed; anything else: error of the check.
"""
import json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(ROOT, ".work")
EVID = os.path.join(ROOT, "evidence")
BASE = os.path.join(ROOT, "contracts", "baseline.tsv")
PROOF = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"arithmetic underflow/overflow|division by zero|decreases not satisfied|bit shift|"
    r"may fail to meet its declared type invariant|unable to prove|could not prove|termination|"
    r"assert_by|assertion not satisfied|cannot show|fails to satisfy|requires not satisfied|ensures not satisfied"
)
LIMIT = re.compile(r"[Rr]esource limit|rlimit|timed? ?out|not finish")
MAX_DEMOTE = 8
HOOK = "--cfg kdbx_verif"


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = e.get("RUSTUP_TOOLCHAIN", "stable")
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def cargo(which):
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "t-" + which)
    # the hook of /repo; a tree in which it does not compile is still checked through its public API
    for flags in ([HOOK, None] if which == "harness" else [None]):
        if flags:
            e["RUSTFLAGS"] = flags
        else:
            e.pop("RUSTFLAGS", None)
        p = subprocess.run(
            ["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, which), env=e,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
        if flags:
            log("without the hook (it does not compile):", " | ".join(re.findall(r"error.*", p.stdout)[:3]))
    return p.returncode, p.stdout


# modules of the stand-ins for std and external crates that have bodies or lemmas to prove
EXT = ["ext::" + m for m in ("prelude", "io", "string", "eiter", "uuid", "argon2", "chrono", "base64::prelude", "sha2", "hmac", "hmac::digest", "cbc", "map", "cipher",
                             "cipher::generic_array", "cipher::block_padding", "xml", "xml::writer", "xml::writer::events")]


class Proof:
    """One extraction and verification of the whole crate."""

    def __init__(self, work, threads, pats=None):
        self.work, self.threads = work, threads
        self.demoted = {}          # key -> why
        self.undecided = None      # why nothing could be decided
        self.index = None
        self.failed = {}           # function key or lemma name -> [messages]
        self.details = {}          # verus name -> (mode, success, ms)
        self.smt_ms = 0
        self.output = ""
        self.cmd = ""
        self.pats = pats
        self.probed = None, []

    def modules(self):
        """the modules the property's functions are in"""
        ms = set()
        for f in self.index["functions"]:
            if self.pats is None or match(self.pats, f["key"]):
                m = re.match(r"(?:[a-z_0-9]+::)*", f["key"]).group(0).strip(":")
                if m:
                    ms.add(m)
        # and the lemmas named, which may be in modules without functions
        for q in self.pats or ():
            m = re.match(r"(?:[a-z_0-9]+::)*", q).group(0).strip(":")
            if os.path.exists(os.path.join(ROOT, "contracts", m.replace("::", ".") + ".vc")):
                ms.add(m)
        return sorted(ms)

    def extract(self, out, probe=False):
        exe = os.path.join(WORK, "t-extract", "debug", "kdbx-extract")
        a = [exe, REPO, os.path.join(ROOT, "contracts"), os.path.join(ROOT, "shims"), out, "baseline=" + BASE]
        a += ["demote=" + k for k in self.demoted]
        if probe:
            a.append("probe")
        p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            return p.stdout.strip() or "extractor failed"
        return None

    def verus(self, out, extra=(), keep=False):
        a = ["verus", "lib.rs", "--crate-type", "lib", "--output-json", "--time-expanded",
             "--num-threads", str(self.threads), *extra, "--", "--error-format=json"]
        if keep:
            self.cmd = " ".join(a)
        try:
            p = subprocess.run(a, cwd=out, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", timeout=600)
        except subprocess.TimeoutExpired:
            return None, [], "verifier did not finish within 600 s"
        try:
            js = json.loads(p.stdout[p.stdout.index("{"):])
        except Exception:
            js = None
        diags = []
        for l in p.stderr.splitlines():
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except Exception:
                    continue
                if d.get("level") == "error":
                    diags.append(d)
        return js, diags, p.stderr[-3000:]

    def owner(self, line):
        for f in self.index["functions"]:
            if f["start"] and f["start"] <= line <= f["end"]:
                return f
        return None

    def run(self):
        out = os.path.join(self.work, "vx")
        for _ in range(MAX_DEMOTE + 1):
            err = self.extract(out)
            if err:
                self.undecided = "extraction: " + err
                return
            self.index = json.load(open(os.path.join(out, "index.json")))
            ms = [x for m in self.modules() + EXT for x in ("--verify-module", m)]
            probe = threading.Thread(target=self.probe)
            probe.start()
            js, diags, tail = self.verus(out, ms, True)
            probe.join()
            vr = (js or {}).get("verification-results", {})
            if js is None or not vr:
                self.undecided = "verifier gave no result: " + tail[-800:]
                return
            run_smt = vr.get("verified", 0) + vr.get("errors", 0) > 0
            if not run_smt:
                # did not get as far as proving: set the functions concerned aside
                new = {}
                for d in diags:
                    own = None
                    for s in d.get("spans", []):
                        f = self.owner(s["line_start"])
                        if f and (s.get("is_primary") or own is None):
                            own = f
                    if own and own["mode"] == "verify":
                        new[own["key"]] = "not accepted by the verifier: " + d.get("message", "")[:200]
                if not new:
                    self.undecided = "the extracted crate is not accepted: " + "; ".join(
                        d.get("message", "")[:200] for d in diags[:4]) + tail[-400:] * (not diags)
                    return
                self.demoted.update(new)
                continue
            self.collect(js, diags)
            return
        self.undecided = "too many functions not accepted by the verifier"

    def collect(self, js, diags):
        smt = js["times-ms"]["smt"]
        self.smt_ms = smt["total"]
        bad = set()
        for m in smt["smt-run-module-times"]:
            for f in m.get("function-breakdown", []):
                # impls of primitive types have no name of their own there
                n = re.sub(r"impl&%\d+", "prim", f["function"].removeprefix("lib::"))
                old = self.details.get(n)
                ok = f["success"] and (old is None or old[1])
                self.details[n] = (f.get("mode:", f.get("mode", "")), ok, f["time-micros"] / 1000 + (old[2] if old else 0))
                if not f["success"]:
                    bad.add(n)
        named = set()
        for d in diags:
            msg = d.get("message", "")
            if msg.startswith("aborting"):
                continue
            own = None
            for s in sorted(d.get("spans", []), key=lambda s: not s.get("is_primary")):
                own = self.owner(s["line_start"])
                if own and own["mode"] == "verify":
                    break
            text = d.get("rendered", msg)
            self.output += text + "\n"
            kind = "limit" if LIMIT.search(msg) else "proof" if PROOF.search(msg) else "other"
            if own:
                self.failed.setdefault(own["key"], []).append((kind, msg, text))
                named.add(detail_name(own["key"], self.details))
            else:
                # a lemma or a spec function: the breakdown names it
                for n in bad:
                    if n not in named:
                        self.failed.setdefault(n, []).append((kind, msg, text))
        for n in bad:
            if n not in named and not any(k == n or detail_name(k, self.details) == n for k in self.failed):
                self.failed.setdefault(n, []).append(("other", "failed without a message", ""))

    def probe(self):
        """every verified function must fail when asked to prove false"""
        out = os.path.join(self.work, "vp")
        self.probed = None, []
        err = self.extract(out, probe=True)
        if err:
            return
        idx = json.load(open(os.path.join(out, "index.json")))
        ms = [x for m in self.modules() for x in ("--verify-module", m)]
        js, diags, _ = self.verus(out, ["--multiple-errors", "1"] + ms)
        if js is None:
            return
        hit = set()
        for d in diags:
            for s in d.get("spans", []):
                for f in idx["functions"]:
                    if f["mode"] == "verify" and match(self.pats, f["key"]) and f["start"] <= s["line_start"] <= f["end"]:
                        hit.add(f["key"])
        want = {f["key"] for f in idx["functions"] if f["mode"] == "verify" and match(self.pats, f["key"])}
        self.probed = len(want & hit), sorted(want - hit)


def verus_name(key):
    """index key -> name in the verifier's breakdown"""
    m = re.match(r"^(.*?)<(.+) for (.+)>::(\w+)$", key)
    if m:
        ty = re.sub(r"<.*", "", m.group(3))
        if re.fullmatch(r"[iu](8|16|32|64|128|size)", ty):
            ty = "prim"
        return m.group(1) + ty + "::" + m.group(4)
    return re.sub(r"<[^>]*>", "", key)


def detail_name(key, details):
    """the same, looking through re-homed types (an impl in another module than its type)"""
    n = verus_name(key)
    if n in details:
        return n
    tail = "::" + "::".join(n.split("::")[-2:])
    c = [d for d in details if d.endswith(tail)]
    return c[0] if len(c) == 1 else n


def baseline():
    b = {}
    try:
        for l in open(BASE):
            p = l.rstrip("\n").split("\t")
            if len(p) == 4:
                b[p[0]] = p[1:]
    except FileNotFoundError:
        pass
    return b


def shape_of(s):
    d = dict(x.split("=", 1) for x in s.split(";"))
    d["calls"] = set(filter(None, d["calls"].split(",")))
    return d


def intact(f, base):
    """the function's structure is the one its hints were written for"""
    if f["lost"]:
        return "anchor not found: " + "; ".join(f["lost"])
    b = base.get(f["key"])
    if b is None:
        return "function not in the inventory"
    if b[1] == f["body"]:
        return None
    if b[2] == f["sorted"]:
        return "statements reordered"
    old, new = shape_of(b[0]), shape_of(f["shape"])
    for k in ("args", "loops", "closures"):
        if old[k] != new[k]:
            return "structure changed: %s %s -> %s" % (k, old[k], new[k])
    if new["calls"] - old["calls"]:
        return "structure changed: now calls " + ", ".join(sorted(new["calls"] - old["calls"]))
    return None


def match(pats, key):
    return any(key == p or (p.endswith("*") and key.startswith(p[:-1])) for p in pats)


def scan(lib):
    """what the extracted crate takes on trust"""
    t = open(lib).read()
    i = t.find("pub mod binary {")
    ext, own = t[:i], t[i:]
    c = lambda p, s: len(re.findall(p, s))
    return {
        "external_contracts": c(r"external_body", ext),
        "uninterpreted_functions": c(r"uninterp spec fn", t),
        "axioms": c(r"\baxiom\b|axiom fn|broadcast proof fn axiom", ext),
        "assume_statements": [x.strip() for x in re.findall(r"\n([^\n]*\bassume\s*\([^\n]*)", own)],
        "admit": c(r"\badmit\s*\(", t),
    }


def harness(prop, seed, tier):
    exe = os.path.join(WORK, "t-harness", "debug", "kdbx-harness")
    scratch = os.path.join(WORK, prop, "scratch")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        p = subprocess.run([exe, prop, str(seed), tier], cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=780)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        out, err, rc = "", "harness did not finish within 780 s", 3
    shutil.rmtree(scratch, ignore_errors=True)
    fails = re.findall(r"^FAIL (.+?) :: (.*)$", out, re.M)
    m = re.search(r"^CASES (\d+) FAILED (\d+)$", out, re.M)
    samples = re.findall(r"^SAMPLE (.*)$", out, re.M)
    d = re.search(r"^EVALUATED (\d+) DISTINCT (\d+)$", out, re.M)
    return rc, fails, (int(m.group(1)), int(m.group(2)), int(d.group(1)), int(d.group(2))) if m and d else None, samples, (out[-1500:] + err[-1500:])


def main():
    t0 = time.time()
    prop = sys.argv[1]
    os.makedirs(WORK, exist_ok=True)
    if prop == "--setup":
        for w in ("extract", "harness"):
            rc, o = cargo(w)
            if rc:
                sys.exit("cannot build %s: %s" % (w, o))
        return 0
    if prop == "--baseline":
        rc, o = cargo("extract")
        p = Proof(os.path.join(WORK, "baseline"), 8)
        os.makedirs(p.work, exist_ok=True)
        if rc or p.extract(os.path.join(p.work, "vx")):
            sys.exit("cannot extract: " + o)
        idx = json.load(open(os.path.join(p.work, "vx", "index.json")))
        with open(BASE, "w") as f:
            for x in sorted(idx["functions"], key=lambda x: x["key"]):
                f.write("\t".join((x["key"], x["shape"], x["body"], x["sorted"])) + "\n")
        return 0
    cones = json.load(open(os.path.join(ROOT, "cones.json")))
    cone = cones["properties"][prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    work = os.path.join(WORK, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(EVID, exist_ok=True)

    res = {}
    pats = cone.get("functions", [])
    proof = Proof(work, 4, pats)

    def prove():
        rc, o = cargo("extract")
        if rc:
            res["xfail"] = o
            return
        if not pats:
            return
        proof.run()

    def explore():
        rc, o = cargo("harness")
        if rc:
            res["hfail"] = o
            return
        res["h"] = harness(prop, seed, tier)

    ts = [threading.Thread(target=f) for f in (prove, explore)]
    [t.start() for t in ts]
    [t.join() for t in ts]

    if "xfail" in res:
        log("cannot build the extractor:\n" + res["xfail"])
        return 2
    if "hfail" in res:
        log("cannot build the harness with /repo:\n" + res["hfail"][-3000:])
        return 2
    rc, fails, cases, samples, tail = res["h"]
    if cases is None:
        # the process ended early: aborted, stack overflow, killed
        log("harness ended without a result (exit %s):\n%s" % (rc, tail))
        if rc in (-6, -11, -4, -7, -8):
            fails, cases = [("process", "the process was aborted (signal %d): %s" % (-rc, tail[-600:].replace("\n", "\\n")))], (0, 1, 0, 0)
        else:
            return 2

    # ------------------------------------------------------------- proof side
    base = baseline()
    violations, undecided = [], []
    suspect = []                   # failed obligations of functions whose structure changed
    under, names = [], set()
    probe_hit, vacuous = None, []
    if pats:
        if proof.undecided:
            undecided.append("everything: " + proof.undecided)
        else:
            idx = {f["key"]: f for f in proof.index["functions"]}
            for k, why in proof.demoted.items():
                if match(pats, k):
                    undecided.append("%s: %s" % (k, why))
            for k in proof.index["unused_overlay"]:
                if match(pats, k):
                    undecided.append("%s: no longer present" % k)
            under = [k for k, f in idx.items() if f["mode"] == "verify" and match(pats, k)]
            names = {detail_name(k, proof.details) for k in under} | {n for n in proof.details if match(pats, n)}
            for k, msgs in proof.failed.items():
                if not (match(pats, k) or detail_name(k, proof.details) in names):
                    continue
                first = msgs[0][1]
                f = idx.get(k)
                if all(m[0] != "proof" for m in msgs):
                    undecided.append("%s: %s" % (k, first))
                    continue
                # a lemma speaks about the contracts only; the functions it connects are judged themselves
                why = intact(f, base) if f else "a lemma about the contracts was not proved"
                if why:
                    undecided.append("%s: %s (%s)" % (k, why, first))
                    suspect.append((k, why, [m for m in msgs if m[0] == "proof"]))
                else:
                    violations.append((k, [m for m in msgs if m[0] == "proof"]))
            probe_hit, vacuous = proof.probed
            for k in vacuous:
                if match(pats, k):
                    undecided.append("%s: its assumptions contradict each other" % k)
    support = [n for n in proof.details if n.startswith("ext::") and n not in names]
    discharged = [n for n in names if proof.details.get(n, (None, False))[1]]

    # --------------------------------------------------------- known findings
    known = []
    try:
        for l in open(os.path.join(ROOT, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    new_fails = []
    for c, msg in fails:
        k = [w for n, w in known if n == c]
        if k:
            log("KNOWN-FINDING: property=%s %s" % (prop, k[0]))
        else:
            new_fails.append((c, msg))

    # ---------------------------------------------------------------- verdict
    code = 0
    if new_fails or violations:
        code = 1
        rep = os.path.join(EVID, "replay-%s.txt" % prop)
        with open(rep, "w") as f:
            f.write("property %s\n" % prop)
            for k, msgs in violations:
                f.write("failed obligation: %s\n" % k)
                for _, msg, text in msgs:
                    f.write("  %s\n%s\n" % (msg, text))
            for k, why, msgs in suspect if new_fails else []:
                f.write("failed obligation, confirmed by the failing input below: %s (on its own not decisive: %s)\n" % (k, why))
                for _, msg, text in msgs:
                    f.write("  %s\n%s\n" % (msg, text))
            for c, msg in new_fails:
                f.write("failing input: case %s (seed %d, %s)\n  %s\n" % (c, seed, tier, msg))
                f.write("  replay: cd /verif/harness && RUSTFLAGS='--cfg kdbx_verif' cargo run --offline -- %s %d %s %s\n" % (prop, seed, tier, c))
        for k, msgs in violations:
            log("failed obligation %s: %s" % (k, msgs[0][1]))
        for k, why, msgs in suspect if new_fails else []:
            log("failed obligation %s: %s (confirmed by the failing input)" % (k, msgs[0][1]))
        for c, msg in new_fails:
            log("failing input %s: %s" % (c, msg[:400]))
        log("VIOLATION property=%s replay=%s%s" % (prop, rep, "" if new_fails else " no-failing-input-found"))
    for u in undecided:
        log("undecided by proof: " + u)

    # --------------------------------------------------------------- evidence
    trust = scan(os.path.join(work, "vx", "lib.rs")) if pats and os.path.exists(os.path.join(work, "vx", "lib.rs")) else {}
    cov = {
        "evaluations": cases[2],
        "distinct_nontrivial": cases[3],
        "rule": "an evaluation is one comparison of an answer of the library with the independent model; "
                "it is distinct when no other comparison asked the same question about the same value "
                "(or, where the question carries no value, in the same case). Cases: " + cone["bounded"],
        "samples": samples[:5] or ["see rule"],
        "bounded_checks": {"cases": cases[0], "failed": len(new_fails), "bound": cone["bounded"], "tool": "kdbx-harness %s %d %s" % (prop, seed, tier)},
    }
    assumptions = list(cones["assumptions"])
    if pats:
        cov.update({
            "obligations": len(names),
            "discharged": len(discharged),
            "unit": "one verification condition per function, lemma or specification function (Verus query, backend Z3)",
            "checker_cmd": proof.cmd,
            "back_end": "Verus 0.2026.09.13 / Z3",
            "solver_ms": round(sum(proof.details[n][2] for n in names if n in proof.details), 1),
            "supporting_obligations": {
                "what": "bodies and lemmas of the stand-ins for std and external crates (shims/), not counted above",
                "total": len(support), "discharged": sum(proof.details[n][1] for n in support)},
            "functions_under_contract": sorted(under),
            "lemmas": sorted(n for n in names if n not in {detail_name(k, proof.details) for k in under}),
            "vacuity_probes_refuted": probe_hit,
            "undecided": undecided,
            "trusted_base": cones["trusted_base"] + cone.get("trusted", []),
            "trust_scan": trust,
        })
        assumptions += ["assume: " + a for a in trust.get("assume_statements", [])]
    if cone.get("not_proved"):
        assumptions.append("not under contract, covered by the bounded checks only: " + cone["not_proved"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cone["level"], "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new_fails) + len(violations)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    shutil.rmtree(work, ignore_errors=True)
    log("%s: %d of %d obligations discharged, %d bounded cases, %d violations, %.1f s"
        % (prop, len(discharged), len(names), cases[0], len(new_fails) + len(violations), time.time() - t0))
    return code


if __name__ == "__main__":
    sys.exit(main())
