#!/usr/bin/env python3
"""seed.py [id ...]: (re)builds seeded/<id>/ from tools/seed_defs.py against /repo's HEAD in a scratch copy and confirms it:
applies, touches original lines, 727 tests pass, demo 0 without / non-zero with; then runs the property's check on the copy.
--no-check skips the last part; --all-checks runs every check."""
import json
import os
import re
import shutil
import subprocess
import sys
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from seed_defs import SEEDS  # noqa

BASE = "f0bb8e7"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache", PYTHONHASHSEED="0")


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


DEMO = """#!/bin/bash
# exit 0 while the property holds, non-zero when it is broken
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
"""


def base_lines(path):
    out = sh(f"git show {BASE}:{path}", cwd="/repo")
    return {l.strip() for l in out.stdout.splitlines()}


def build(s, check=True, all_checks=False):
    scratch = f"/tmp/seed-{s['id']}"
    shutil.rmtree(scratch, ignore_errors=True)
    sh(f"cp -a /repo {scratch}")
    try:
        sh("git checkout -q -- . && git clean -fdq", cwd=scratch)
        for path, old, new in s["edits"]:
            p = os.path.join(scratch, path)
            text = open(p).read()
            if text.count(old) != 1:
                return f"edit does not apply once ({text.count(old)}) in {path}: {old[:80]!r}"
            open(p, "w").write(text.replace(old, new))
        diff = sh("git diff", cwd=scratch).stdout
        fresh = []
        cur = None
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = base_lines(line[6:])
            elif line.startswith("-") and line[1:].strip() and line[1:].strip() not in cur:
                fresh.append(line)
        if fresh:
            print(f"  note: changes lines which are not original: {fresh[:3]}")
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(textwrap.dedent(s["demo"]).lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -3", cwd=scratch)
        if "727 passed" not in t.stdout or "failed" in t.stdout:
            return "tests: " + t.stdout[-300:]
        a = sh(f"bash {d}/demo.sh", cwd="/repo")
        if a.returncode != 0:
            return "demo fails on the unchanged tree: " + a.stdout[-500:]
        b = sh(f"bash {d}/demo.sh", cwd=scratch)
        if b.returncode == 0:
            return "demo passes with the change"
        if not check:
            return "confirmed"
        ids = [s["property"]]
        if all_checks:
            ids = sorted(x[:-3].upper() for x in os.listdir(os.path.join(ROOT, "pbt", "props")) if re.fullmatch(r"c\d+\.py", x))
        caught = []
        for i in ids:
            r = sh(f"./check {i}", cwd=ROOT, env=dict(ENV, VERIF_REPO=scratch))
            if r.returncode == 1 and f"VIOLATION property={i}" in r.stdout:
                caught.append(i)
            elif r.returncode not in (0, 1):
                caught.append(f"{i}!error {r.stdout[-300:]}")
        path = os.path.join(ROOT, "tools", "seed_results.json")
        known = {r["id"]: r for r in json.load(open(path))} if os.path.exists(path) else {}
        if all_checks or s["id"] not in known or known[s["id"]]["ran"] != "all" or not set(caught) <= set(known[s["id"]]["caught"]):
            known[s["id"]] = {"id": s["id"], "property": s["property"], "needs": s["needs"], "caught": caught, "ran": "all" if all_checks else s["property"]}
        order = [x["id"] for x in SEEDS]
        json.dump(sorted((r for r in known.values() if r["id"] in order), key=lambda r: order.index(r["id"])), open(path, "w"), indent=1)
        return f"confirmed; caught by {caught or 'NOTHING'}"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    flags = {a for a in sys.argv[1:] if a.startswith("--")}
    want = [a for a in sys.argv[1:] if not a.startswith("--")]
    for s in SEEDS:
        if want and s["id"] not in want and s["property"] not in want:
            continue
        print(s["id"], s["property"], build(s, "--no-check" not in flags, "--all-checks" in flags), flush=True)


main()
