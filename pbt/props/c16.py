"""Responses with a single resource: status, Location, meta, presence."""
import copy

from hypothesis import strategies as st

from src import request_validators as rv
from src.attributes_presence import AttributePresenceChecker

from .. import endpoints as E
from .. import gen
from .. import presence as P
from .. import resmodel as R
from .. import specs
from ..harness import call, expect, prop
from ..issues import flat
from .c14 import fill_required

EXPECTED = {"GET": 200, "PUT": 200, "PATCH": 200, "POST": 201}
LOCATIONS = ["https://x/v2/Things/1", "https://x/v2/Things/2", "https://x/v2/things/1", "/Things/1", "https://x/v2/Things/1/", "", "https://x/v2/Things/1?a=1", "https://x/v2/Things/1#f", "http://x/v2/Things/1"]


def checker(case):
    if case["include"] is None:
        return None
    return AttributePresenceChecker.parse(list(case["reps"]), case["include"])[0]


@st.composite
def cases(draw, with_faults=False):
    spec = draw(P.checked_specs(twins=True))
    kind = draw(st.sampled_from(sorted(EXPECTED)))
    data = draw(specs.resource_data(spec, "dump"))
    if draw(st.integers(0, 5)):
        data = draw(fill_required(spec, data, "dump"))
    if draw(st.integers(0, 2)):  # otherwise nearly always refused
        for a in spec["attrs"]:
            if a["ret"] == "never":
                data.pop(a["n"], None)
    how = draw(st.integers(0, 3))
    if how:
        meta = data["meta"] = data.get("meta") or {}
        meta["resourceType"] = spec["name"] if draw(st.integers(0, 3)) else draw(st.sampled_from(
            [spec["name"].upper(), spec["plural"], "User", "Group", "", None, spec["name"] + "x", " " + spec["name"], spec["name"] + " ", spec["name"][:-1]]))
        meta["location"] = draw(st.sampled_from(LOCATIONS))
        if how == 1:
            meta.pop(draw(st.sampled_from(["location", "resourceType"])))
    if not with_faults and draw(st.integers(0, 11)) == 0:
        data["schemas"] = draw(st.sampled_from([None, [], ["urn:no:such:schema"]]))
    headers = draw(st.one_of(
        st.sampled_from([None, {}, {"ETag": "W/1"}]),
        st.builds(lambda v, x: {"Location": v, **x}, st.sampled_from(LOCATIONS), st.sampled_from([{}, {"ETag": "W/1"}])),
    ))
    if how > 1 and draw(st.booleans()):
        headers = {"Location": draw(gen.near(data["meta"]["location"])) if draw(st.integers(0, 2)) == 0 else data["meta"]["location"]}
    status = EXPECTED[kind] if draw(st.integers(0, 3)) else draw(st.one_of(st.sampled_from([200, 201, 202, 204, 404, 199, 300]), st.integers(200, 210), st.integers(100, 599)))
    include = draw(st.sampled_from([None, None, True, False]))
    reps = draw(st.lists(P.rep_text(spec), min_size=1, max_size=4)) if include is not None else []
    case = {"spec": spec, "kind": kind, "headers": headers, "status": status, "include": include, "reps": reps}
    if with_faults:
        case["faults"] = draw(R.faults(spec, data, "dump"))
        if how > 1 and draw(st.integers(0, 2)) == 0 and not any(p[:1] == ("meta",) for p in (tuple(f[0]) for f in case["faults"])):
            what, value = draw(st.sampled_from([("location", 5), ("location", {}), ("resourceType", 5), ("location", ["https://x/v2/Things/1"])]))
            data["meta"][what] = value
            case["faults"].append((("meta", what), value, 2))
    elif draw(st.integers(0, 3)) == 0:
        data = draw(R.disguised(spec, data))
    case["body"] = data
    return case


def respond(case):
    kw = {"presence_checker": checker(case)}
    return call(E.single(case["kind"], case["spec"]).dump_response, status_code=case["status"], body=copy.deepcopy(case["body"]),
                headers=copy.deepcopy(case["headers"]), **kw)


def expected(case, invalid=()):
    """invalid: paths of the values that are reported for themselves, and so not compared."""
    spec, body, headers = case["spec"], case["body"], case["headers"]
    out = {}

    def add(loc, code):
        out.setdefault(loc, []).append(code)

    if case["status"] != EXPECTED[case["kind"]]:
        add(("status",), 16)
    if case["kind"] == "POST" and "Location" not in (headers or {}):
        add(("headers", "Location"), 10)
    reps = [P.parse(t) for t in case["reps"]]
    for loc, code in P.expected(spec, body, reps, case["include"], "RESPONSE").items():
        add(("body",) + loc, code)
    meta, _ = R.lookup(body, "meta")
    meta = meta if isinstance(meta, dict) and ("meta",) not in invalid else {}
    location, kind = (None if ("meta", k) in invalid else R.lookup(meta, k)[0] for k in ("location", "resourceType"))
    if kind is not None and kind != spec["name"]:
        add(("body", "meta", "resourceType"), 17)
    given = (headers or {}).get("Location")
    if given is not None and location is not None and given != location:
        add(("body", "meta", "location"), 11)
        add(("headers", "Location"), 11)
    schemas, _ = R.lookup(body, "schemas")
    if schemas == ["urn:no:such:schema"]:
        add(("body", "schemas"), 27)
        add(("body", "schemas"), 28)
        kept = R.expected_resource(spec, body, "dump")
        for e in spec["ext"]:
            if e["schema"] in kept:
                add(("body", "schemas"), 29)
    return {k: sorted(v) for k, v in out.items()}


@prop(
    "C16", cases(), quick=4500,
    rule="GET, PUT, POST and PATCH responses of built-in and random schemas with right and wrong status codes, Location headers, "
         "meta.location and meta.resourceType, requested and excluded attributes, missing attributes: issues equal a reference, body is "
         "handed on complete exactly without issues; non-trivial = accepted, or refused for status, location or resource type",
)
def responses_are_consistent(case, rec):
    spec, kind, body = case["spec"], case["kind"], case["body"]
    data, issues = respond(case)
    found = flat(issues)
    what = f"{kind} {case['status']} {spec['name']} headers={case['headers']!r} include={case['include']} {case['reps']} {body!r}"
    if kind == "PATCH" and case["status"] == 204:
        want = {("status",): [16]} if case["reps"] else {}
        rec.hit(what)
        expect(found == want, "{}: issues {}, expected {}", what, found, want)
        expect(data.body is None, "{}: body {!r} with 204", what, data.body)
        return
    want = expected(case)
    rec.tag("refused" if want else "accepted")
    if not want or any(set(v) & {16, 10, 11, 17} for v in want.values()):
        rec.hit(f"{what} -> {want}")
    for codes in want.values():
        for c in codes:
            rec.tag(f"code {c}")
    expect(found == want, "{}: issues {}, expected {}", what, found, want)
    if want:
        expect(data.body is None, "{}: handed on {!r} despite {}", what, data.body, found)
        return
    d = R.diff(R.plain(data.body), R.expected_resource(spec, body, "dump"))
    expect(d is None, "{}: {}", what, d)
    expect((data.headers or {}) == (case["headers"] or {}), "{}: headers became {!r}", what, data.headers)


@prop(
    "C16", cases(with_faults=True), quick=1500,
    rule="the same with up to four invalid values: each reported at its place, everything else judged as if they were absent, no "
         "body handed on; non-trivial = a fault together with a wrong status or location",
)
def faulty_responses_are_refused(case, rec):
    if case["kind"] == "PATCH" and case["status"] == 204 or not case["faults"]:
        return
    data, issues = respond(case)
    found = flat(issues)
    what = f"{case['kind']} {case['status']} {case['spec']['name']} headers={case['headers']!r} {case['body']!r}"
    spots = {("body",) + R.loc(path): code for path, _, code in case["faults"]}
    want = {k: v for k, v in expected(case, {tuple(p) for p, _, _ in case["faults"]}).items()
            if not any(k[: len(spot)] == spot for spot in spots)}
    want.update((spot, [code]) for spot, code in spots.items())
    expect(found == want, "{}: issues {}, expected {}", what, found, want)
    if ("status",) in want or ("headers", "Location") in want:
        rec.hit(what)
    expect(data.body is None, "{}: handed on {!r} despite {}", what, data.body, found)


@prop(
    "C16", st.fixed_dictionaries({"status": st.one_of(st.sampled_from([204, 200, 404, 205]), st.integers(0, 999)),
                                  "headers": st.sampled_from([None, {}, {"Location": "x"}])}),
    quick=300, rule="DELETE responses with any status; POST responses without a body; non-trivial = other than 204",
)
def bodiless_responses(case, rec):
    data, issues = call(rv.ResourceObjectDELETE(E.config()).dump_response, status_code=case["status"], headers=copy.deepcopy(case["headers"]))
    found = flat(issues)
    want = {("status",): [16]} if case["status"] != 204 else {}
    if want:
        rec.hit(repr(case))
    expect(found == want and data.body is None, "DELETE {}: issues {}, body {!r}", case["status"], found, data.body)
    data, issues = call(E.single("POST", specs.USER).dump_response, status_code=case["status"], headers=copy.deepcopy(case["headers"]), body=None)
    expect(not flat(issues) and data.body is None, "POST without body: issues {}, body {!r}", flat(issues), data.body)
