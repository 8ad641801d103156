#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects (they suppress nothing) and, if any, open ones."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
# property of each repair, by commit subject
BY = {}
def f(props, subject):
    BY[subject] = props
for line in open(os.path.join(ROOT, "tools", "fixes.txt")):
    props, _, subject = line.rstrip("\n").partition(" ")
    if subject:
        BY[subject] = props.split("/")
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    commit, subject = line.split(" ", 1)
    if not subject.startswith("fix: "):
        continue
    what = subject[5:]
    props = BY.get(what)
    if props is None:
        print("no property for:", commit, what)
        continue
    out.append({"property": props[0], "status": "fixed", "commit": commit, "what": what,
                "line": f"fixed: property={props[0]} {commit} before the repair this did not hold: {what}"})
with open(os.path.join(ROOT, "known_findings.json"), "w") as fh:
    json.dump({"findings": out}, fh, indent=1); fh.write("\n")
print(len(out), "fixed")
