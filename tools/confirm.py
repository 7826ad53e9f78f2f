#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo: they apply, compile, pass the tests, and the demo tells them apart.

usage: confirm.py [ID...]
"""
import json, os, re, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/confirm"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    sh("rm -rf /tmp/confirm")
    sh("git clone -q /repo /tmp/confirm")
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR="/tmp/confirm/target")
    for i in ids:
        d = os.path.join(ROOT, "seeded", i)
        bad = []
        # removed lines must be lines of the base commit
        patch = open(os.path.join(d, "patch.diff")).read()
        f = re.search(r"^--- a/(.*)$", patch, re.M).group(1)
        bl = sh("git -C /repo blame -s HEAD -- " + f).stdout.splitlines()
        ln = 0
        for l in patch.splitlines():
            m = re.match(r"@@ -(\d+)", l)
            if m:
                ln = int(m.group(1))
            elif l.startswith("-") and not l.startswith("---"):
                if not bl[ln - 1].startswith("^"):
                    bad.append("changes a line of a repair: " + bl[ln - 1])
                ln += 1
            elif l.startswith(" "):
                ln += 1
        if sh("bash %s/demo.sh" % d, cwd=W).returncode:
            bad.append("demo fails on the unchanged tree")
        if sh("git apply %s/patch.diff" % d, cwd=W).returncode:
            bad.append("does not apply")
        t = sh("cargo test --offline 2>&1", cwd=W, env=env)
        if t.returncode:
            bad.append("tests fail\n" + t.stdout[-1500:])
        r = sh("bash %s/demo.sh" % d, cwd=W)
        if r.returncode == 0:
            bad.append("demo does not notice")
        elif "panicked" not in r.stdout:
            bad.append("demo fails for another reason\n" + r.stdout[-800:])
        sh("git checkout -q -- .", cwd=W)
        print(i, "ok" if not bad else "\n  ".join(bad), flush=True)
    sh("rm -rf /tmp/confirm")


main()
