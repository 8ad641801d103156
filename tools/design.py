"""DESIGN.md from its parts: head, properties, fixes (known_findings.json), planted bugs (seeded/*/meta.json, seeded-results.json)."""
import json
import os

here = os.path.dirname(os.path.realpath(__file__))
root = os.path.dirname(here)
out = open(here + "/design_head.md").read() + "\n" + open(here + "/design_props.md").read()
findings = json.load(open(root + "/known_findings.json"))["findings"]
out += "## Defects found and repaired\n\nEach is one `fix:` commit in /repo; none is recorded as a known, unrepaired finding.\n\n"
for f in sorted(findings, key=lambda f: f["property"]):
    out += f"- {f['property']} {f['commit']}: {f['what']}\n"
path = here + "/seed_results.json"
if os.path.exists(path):
    results = json.load(open(path))
    out += ("\n## Planted bugs\n\nEach was written from a property's text and the code, passes the 727 tests, and has a demonstration "
            "(`seeded/<id>/`). \"Caught by\" lists the checks run on it that reported a violation.\n\n| id | property | needs | caught by |\n|---|---|---|---|\n")
    for r in results:
        out += f"| {r['id']} | {r['property']} | {r['needs']} | {', '.join(r['caught']) or 'missed'} |\n"
tail = here + "/design_tail.md"
if os.path.exists(tail):
    out += "\n" + open(tail).read()
open(root + "/DESIGN.md", "w").write(out)
