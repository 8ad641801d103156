"""Creating and replacing resources: what POST and PUT requests demand and hand on."""
import copy

from hypothesis import strategies as st

from src.data.container import SCIMDataContainer

from .. import endpoints as E
from .. import gen
from .. import messages as M
from .. import presence as P
from .. import resmodel as R
from .. import specs
from ..harness import call, expect, prop
from ..issues import flat


def server_issued_required(spec):
    out = []
    for schema, attrs in [(spec["schema"], spec["attrs"])] + [(e["schema"], e["attrs"]) for e in spec["ext"]]:
        for a in attrs:
            if a["req"] and a["iss"] == "SERVER":
                out.append((schema, a["n"], ""))
            for s in a["subs"]:
                if s["req"] and s["iss"] == "SERVER":
                    out.append((schema, a["n"], s["n"]))
    return out


def strip_read_only(attrs, obj):
    out = {}
    for a in attrs:
        if a["n"] not in obj or a["mut"] == "readOnly":
            continue
        v = obj[a["n"]]
        if a["t"] == "complex" and v is not None:
            if a["mv"]:
                v = [strip_read_only(a["subs"], x) for x in v]
            else:
                v = strip_read_only(a["subs"], v)
        out[a["n"]] = v
    return out


def without_read_only(spec, obj):
    out = strip_read_only(spec["attrs"], obj)
    for e in spec["ext"]:
        if e["schema"] in obj:
            out[e["schema"]] = strip_read_only(e["attrs"], obj[e["schema"]])
    return out


def no_empty_objects(v):
    """Objects which lost all their members may stay or go."""
    if isinstance(v, dict):
        return {k: no_empty_objects(x) for k, x in v.items() if x != {}}
    if isinstance(v, list):
        return [x if x == {} else no_empty_objects(x) for x in v]
    return v


@st.composite
def fill_required(draw, spec, data, direction, skip=()):
    """Give most required attributes a value so that complete resources are frequent."""
    def fill(attrs, obj):
        for a in attrs:
            if a["n"] in skip or a["n"] == "schemas":
                continue
            value, hit = P.lookup(obj, a["n"])
            if a["req"] and P.absent(value) and draw(st.integers(0, 9)) < 9:
                value = False if a["n"] == "primary" else draw(specs.value_for(dict(a, req=True), direction, 0.9, nulls=False))
                obj[a["n"]] = value
            if a["t"] == "complex" and isinstance(obj.get(a["n"]), (dict, list)):
                for item in (obj[a["n"]] if a["mv"] else [obj[a["n"]]]):
                    fill(a["subs"], item)

    fill(spec["attrs"], data)
    for e in spec["ext"]:
        if any(a["req"] for a in e["attrs"]) or e["schema"] in data:
            inner = data.setdefault(e["schema"], {})
            fill(e["attrs"], inner)
            if not inner:
                del data[e["schema"]]
        if e["schema"] in data and e["schema"] not in data["schemas"]:
            data["schemas"].append(e["schema"])
    return data


@st.composite
def cases(draw, with_faults=False):
    spec = draw(P.checked_specs(twins=True))
    kind = draw(st.sampled_from(["PUT", "POST"]))
    data = draw(specs.resource_data(spec, "parse"))
    if draw(st.integers(0, 3)):
        data = draw(fill_required(spec, data, "parse", skip=() if kind == "PUT" or draw(st.booleans()) else ("id", "meta")))
    if draw(st.integers(0, 7)) == 0:
        how = draw(st.integers(0, 2))
        if how == 0:
            del data["schemas"]
        elif how == 1:
            data["schemas"] = draw(st.sampled_from([None, []]))
        else:
            data["schemas"] = data["schemas"][1:] or ["urn:no:such:schema"]
    case = {"spec": spec, "kind": kind}
    if with_faults:
        case["faults"] = draw(R.faults(spec, data, "parse"))
    elif draw(st.integers(0, 2)) == 0:
        data = draw(R.disguised(spec, data))
    case["body"] = data
    case["query"] = draw(st.sampled_from([None, None, {}, {"attributes": "userName"}, {"excludeAttributes": "id,name"}]))
    case["headers"] = draw(st.sampled_from([None, {}, {"Location": "x"}]))
    return case


def schemas_codes(spec, data):
    value, _ = R.lookup(data, "schemas")
    if not value:
        return []
    have = [s.lower() for s in value]
    codes = []
    if any(h not in [s.lower() for s in specs.all_schemas(spec)] for h in have):
        codes.append(27)
    if spec["schema"].lower() not in have:
        codes.append(28)
    kept = R.expected_resource(spec, data, "parse")
    codes += [29 for e in spec["ext"] if e["schema"] in kept and e["schema"].lower() not in have]
    return codes


def submit(case):
    v = E.single(case["kind"], case["spec"])
    return call(v.parse_request, body=copy.deepcopy(case["body"]), query_string=copy.deepcopy(case["query"]), headers=case["headers"])


@prop(
    "C14", cases(), quick=4000,
    rule="resources of built-in and random schemas (required, read-only, server-issued at every level, extensions, nulls, empty values, "
         "names in any case, unknown members) sent with POST or PUT: refused exactly for the missing required attributes and wrong "
         "`schemas`, otherwise handed on with exactly the known (PUT: and writable) attributes; non-trivial = accepted, or refused for "
         "a missing attribute",
)
def required_and_read_only(case, rec):
    spec, kind, body = case["spec"], case["kind"], case["body"]
    ignore = server_issued_required(spec) if kind == "POST" else ()
    want = {("body",) + k: [v] for k, v in P.expected(spec, body, [], None, "REQUEST", ignore).items()}
    codes = schemas_codes(spec, body)
    if codes:
        want.setdefault(("body", "schemas"), []).extend(codes)
        want[("body", "schemas")].sort()
    data, issues = submit(case)
    found = flat(issues)
    what = f"{kind} {spec['name']} {body!r}"
    rec.tag(f"{kind} {'refused' if want else 'accepted'}")
    if not want or any(15 in v for v in want.values()):
        rec.hit(f"{what} -> {want}")
    expect(found == want, "{}: issues {}, expected {}", what, found, want)
    if want:
        expect(data.body is None, "{}: handed on {!r} despite {}", what, data.body, found)
        return
    expected = R.expected_resource(spec, body, "parse")
    if kind == "PUT":
        expected = without_read_only(spec, expected)
    expect(isinstance(data.body, SCIMDataContainer), "{}: body is {!r}", what, data.body)
    d = R.diff(no_empty_objects(R.plain(data.body)), no_empty_objects(expected))
    expect(d is None, "{}: {}", what, d)


@prop(
    "C14", cases(with_faults=True), quick=2500,
    rule="the same with up to three values made invalid at random places: every fault is reported at its place, nothing is reported "
         "elsewhere but missing attributes, and nothing is handed on; non-trivial = a fault and a missing attribute together",
)
def faulty_requests_are_refused(case, rec):
    spec, kind, body = case["spec"], case["kind"], case["body"]
    ignore = server_issued_required(spec) if kind == "POST" else ()
    missing = {("body",) + k: [v] for k, v in P.expected(spec, body, [], None, "REQUEST", ignore).items()}
    data, issues = submit(case)
    found = flat(issues)
    what = f"{kind} {spec['name']} {body!r}"
    spots = [("body",) + R.loc(path) for path, _, _ in case["faults"]]
    if spots and missing:
        rec.hit(f"{what} faults {spots} missing {sorted(missing)}")
    for (path, value, code), spot in zip(case["faults"], spots):
        got = found.get(spot, [])
        expect(got == [code], "{}: fault {!r} at {} reported as {}", what, value, spot, got)
    for loc, codes in found.items():
        if loc == ("body", "schemas") or loc in spots:
            continue
        expect(not any(loc[: len(s)] == s for s in spots), "{}: {} at {}, below a refused value", what, codes, loc)
        expect(loc in missing and codes == [15], "{}: unexpected {} at {}", what, codes, loc)
    for loc in missing:
        if not any(loc[: len(s)] == s or s[: len(loc)] == loc for s in spots) and loc != ("body", "schemas"):
            expect(loc in found, "{}: missing attribute at {} not reported: {}", what, loc, found)
    if spots or missing:
        expect(data.body is None, "{}: handed on {!r} despite {}", what, data.body, found)
