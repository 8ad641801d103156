"""Bulk responses: every result is judged as the stand-alone response it stands for."""
import copy

from hypothesis import strategies as st

from src import request_validators as rv

from .. import endpoints as E
from .. import gen
from .. import messages as M
from .. import resmodel as R
from .. import specs
from ..harness import call, expect, prop
from ..issues import below, flat
from .c14 import fill_required
from .c18 import KNOWN

URN = M.API + "BulkResponse"
GOOD = {"GET": "200", "POST": "201", "PUT": "200", "PATCH": "200", "DELETE": "204"}


@st.composite
def results(draw, plurals, calm):
    method = draw(st.sampled_from(["GET", "POST", "POST", "PUT", "PATCH", "DELETE"]))
    plural = draw(st.sampled_from(plurals))
    spec = KNOWN[plural]
    op = {"method": method}
    info = {"method": method, "plural": plural, "must": {}, "may": [], "judge": None, "error": False}
    must = info["must"]

    def odd(n):
        return not calm and draw(st.integers(0, n)) == 0

    error = draw(st.integers(0, 3)) == 0
    if error:
        op["status"] = draw(st.sampled_from(["400", "404", "409", "500", "412", "300", "599"]))
    else:
        op["status"] = GOOD[method] if not odd(4) else draw(st.sampled_from(["200", "201", "204", "202", "299", "199"]))
        if method == "PATCH" and draw(st.integers(0, 3)) == 0:
            op["status"] = "204"
    info["error"] = error
    if method == "POST" or draw(st.booleans()):
        op["bulkId"] = "q"
        if method == "POST" and odd(9):
            if draw(st.booleans()):
                op["bulkId"] = None
            else:
                del op["bulkId"]
            must[("bulkId",)] = {15}
    # location
    base = draw(st.sampled_from(["https://example.com/v2", "http://x", "https://u:p@h:80/scim"]))
    location = f"{base}/{plural}/" + draw(st.sampled_from(["1", "2819c223", "a-b"]))
    known = True
    if method == "POST" and error and draw(st.booleans()):
        known = False
        if draw(st.booleans()):
            op["location"] = None
    elif odd(11):
        known = False
        if draw(st.booleans()):
            op["location"] = None
        if not (method == "POST" and error):
            must[("location",)] = {15}
    elif odd(11):
        op["location"] = f"{base}/{draw(st.sampled_from(['Nope', plural.lower(), plural + 's']))}/1"
        must[("location",)] = {36}
        known = False
    else:
        op["location"] = location
    # response
    if error:
        if odd(7):
            if draw(st.booleans()):
                op["response"] = None
            must[("response",)] = {15}
        else:
            op["response"] = {"schemas": [M.API + "Error"], "status": op["status"]}
            if draw(st.booleans()):
                op["response"]["scimType"] = draw(st.sampled_from(M.SCIM_TYPES))
            if draw(st.integers(0, 3)) == 0:
                op["response"]["unlisted"] = draw(st.sampled_from([1, "x", {"a": 1}]))
            if odd(3):
                op["response"] = draw(M.mangled(st.just(op["response"])).filter(lambda v: v is not None))
            if odd(5) and isinstance(op["response"], dict):
                op["response"]["status"] = draw(st.sampled_from(["400", "404", "200"]))
            info["judge"] = "error"
    elif draw(st.integers(0, 2)) == 0 or method == "DELETE" and draw(st.integers(0, 2)):
        if draw(st.booleans()):
            op["response"] = None
    else:
        data = draw(specs.resource_data(spec, "dump", presence=draw(st.sampled_from([0.15, 0.3]))))
        if calm or draw(st.integers(0, 3)):
            data = draw(fill_required(spec, data, "dump"))
        data.pop("password", None)
        meta = data["meta"] = {"resourceType": spec["name"], "location": op.get("location") or location}
        if odd(5):
            meta["location"] = draw(st.sampled_from(["https://example.com/v2/Users/x", "http://x/" + plural + "/1"]))
        if draw(st.integers(0, 1)) == 0:
            meta["version"] = draw(gen.versions) if not calm else "v1"
        if draw(st.integers(0, 5)) == 0:
            data["unlisted"] = draw(st.sampled_from([1, "x", {"a": 1}]))
        if odd(4):
            del data["meta"]
        if odd(5):
            draw(R.faults(spec, data, "dump"))
        op["response"] = data
        if odd(9):
            op["response"] = draw(st.sampled_from([{}, {}, {"schemas": None}, {"id": None}] if method != "POST" else [{"schemas": None}, {"id": None}]))
        if known:
            info["judge"] = "resource"
    if draw(st.integers(0, 1)) == 0:
        op["version"] = "v1" if calm else draw(st.one_of(gen.versions, st.sampled_from(["v1", None, ""])))
        shown = op["response"].get("meta") if isinstance(op.get("response"), dict) else None
        if not calm and isinstance(shown, dict) and isinstance(shown.get("version"), str) and draw(st.booleans()):
            version = shown["version"]
            weak = version[2:] if version[:2] in ("W/", "w/") else "W/" + version
            op["version"] = draw(st.one_of(gen.near(version), st.just(weak), st.just(weak.swapcase())))
    # faults which leave the rest of the result unjudged
    if odd(14):
        name = draw(st.sampled_from(["method", "status", "status", "location", "bulkId", "version"]))
        pick = {"method": [None, "post", "HEAD", 5, []], "status": [None, "x", 200, "2xx", [], True, "²"],
                "location": [5, "/Users/1", "x", []], "bulkId": [5, {}], "version": [5, []]}[name]
        bad = op[name] = draw(st.sampled_from(pick))
        if bad is None:
            code = 15
        elif not isinstance(bad, str):
            code = 2
        else:
            code = {"method": 14, "status": 1, "location": 8}[name]
        info["must"] = {(name,): {code}}
        info["may"] = [("path",), ("response",), ("bulkId",), ("version",), ("method",), ("location",), ("status",)]
        info["judge"] = None
        info["error"] = None if name == "status" else info["error"]
        if name == "method":
            info["error"] = None
    return {"op": op, "info": info}


@st.composite
def responses(draw):
    plurals = draw(st.lists(st.sampled_from(sorted(KNOWN)), min_size=1, max_size=3, unique=True))
    calm = draw(st.integers(0, 2)) == 0
    ops = draw(st.lists(results(plurals, calm), min_size=1, max_size=4))
    case = {"plurals": plurals, "ops": ops, "status": 200, "fail": None, "extra": {}}
    if not calm and draw(st.integers(0, 9)) == 0:
        case["status"] = draw(st.sampled_from([201, 204, 400]))
    if draw(st.integers(0, 1)):
        errors = sum(bool(o["info"]["error"]) for o in ops)
        case["fail"] = draw(st.integers(max(0, errors - 1), errors + 1))
    body = {"schemas": [URN], "Operations": [copy.deepcopy(o["op"]) for o in ops]}
    if not calm and draw(st.integers(0, 9)) == 0:
        if draw(st.booleans()):
            del body["schemas"]
            case["extra"] = {("body", "schemas"): {15}}
        else:
            body["schemas"] = [URN, "urn:x:y"]
            case["extra"] = {("body", "schemas"): {27}}
    if draw(st.integers(0, 4)) == 0:
        body = {draw(gen.recased(k)): v for k, v in body.items()}
    case["body"] = body
    return case


def expected_result(o):
    """({location: codes}, response handed on)"""
    op, info = o["op"], o["info"]
    want = {k: set(v) for k, v in info["must"].items()}

    def add(loc, codes):
        want[loc] = want.get(loc, set()) | set(codes)

    handed = copy.deepcopy(op.get("response"))
    if info["judge"] == "error":
        out, issues = call(rv.Error().dump_response, status_code=int(op["status"]), body=copy.deepcopy(op["response"]))
        for loc, codes in flat(issues).items():
            add((("response",) + loc[1:]) if loc[0] == "body" else loc, codes)
        handed = out.body
    elif info["judge"] == "resource":
        kw = {"status_code": int(op["status"]), "headers": {"Location": op["location"]}}
        if info["method"] == "DELETE":
            out, issues = call(rv.ResourceObjectDELETE(E.config()).dump_response, **kw)
        else:
            out, issues = call(E.single(info["method"], KNOWN[info["plural"]]).dump_response, body=copy.deepcopy(op["response"]), **kw)
        for loc, codes in flat(issues).items():
            if loc == ("headers", "Location"):
                add(("location",), codes)
            else:
                add((("response",) + loc[1:]) if loc[0] == "body" else loc, codes)
        handed = out.body
        if out.body is not None:
            version = ((out.body.get("meta") or {}).get("version"))
            if op.get("version") and version and version != op["version"]:
                add(("response", "meta", "version"), [11])
                add(("version",), [11])
    return want, handed


@prop(
    "C19", responses(), quick=3500,
    rule="bulk responses of 1-4 results of every method over 1-3 resource kinds, successes and errors (faults: missing or unknown "
         "location, wrong status, missing or invalid response, mismatching meta.location and version, too many errors, malformed "
         "members): each result's issues are its own rules' plus those of the stand-alone response or error, whatever the others; "
         "non-trivial = accepted, or two results refused",
)
def results_are_judged_like_standalone_responses(case, rec):
    v = E.bulk([KNOWN[p] for p in case["plurals"]])
    data, issues = call(v.dump_response, status_code=case["status"], body=copy.deepcopy(case["body"]), fail_on_errors=case["fail"])
    found = flat(issues)
    what = f"bulk {case['plurals']} {case['status']} fail_on_errors={case['fail']} {case['body']!r}"
    want_top = {k: set(c) for k, c in case["extra"].items()}
    if case["status"] != 200:
        want_top[("status",)] = {16}
    errors = sum(bool(o["info"]["error"]) for o in case["ops"])
    unsure = sum(o["info"]["error"] is None for o in case["ops"])
    top = {k: set(c) for k, c in found.items() if k[:2] != ("body", "Operations") or len(k) == 2}
    if case["fail"] is not None:
        if errors > case["fail"]:
            want_top[("body", "Operations")] = {38}
        elif errors + unsure > case["fail"]:
            top.pop(("body", "Operations"), None)
    expect(top == want_top, "{}: issues {}, expected {}", what, top, want_top)
    refused, handed_on = 0, []
    for i, o in enumerate(case["ops"]):
        info = o["info"]
        mine = {k: set(c) for k, c in below(found, ("body", "Operations", str(i))).items()}
        want, handed = expected_result(o)
        handed_on.append(handed)
        refused += bool(want)
        label = f"{what}: result {i}"
        for loc, codes in want.items():
            expect(mine.get(loc) == codes, "{}: {} at {}, expected {}", label, mine.get(loc), loc, codes)
        for loc in mine:
            expect(loc in want or any(loc[: len(m)] == m for m in info["may"]), "{}: unexpected {} at {}", label, mine[loc], loc)
        rec.tag(f"{info['method']} {'refused' if want else 'accepted'} {info['judge']}")
        for codes in want.values():
            for c in codes:
                rec.tag(f"code {c}")
    if refused >= 2 or not found:
        rec.hit(what)
    if found:
        expect(data.body is None, "{}: handed on {!r} despite {}", what, data.body, found)
        return
    rec.tag("accepted")
    ops = R.plain_ops(data.body)
    expect(len(ops) == len(case["ops"]), "{}: {} results handed on", what, len(ops))
    for i, (o, got, handed) in enumerate(zip(case["ops"], ops, handed_on)):
        for name in ("method", "bulkId", "version", "location", "status"):
            have, hit = R.lookup(got, name)
            expect((have if hit else None) == o["op"].get(name), "{}: {} of result {} handed on as {!r}", what, name, i, have)
        have, hit = R.lookup(got, "response")
        expect(R.shape(have if hit else None) == R.shape(handed), "{}: response of result {} handed on as {!r}, stand-alone {!r}", what, i, R.shape(have),
               R.shape(handed))


@prop(
    "C19", st.fixed_dictionaries({
        "ops": st.sampled_from([None, [], 5, "x", {}, True, "absent", [5], [None], ["x", 5]]),
        "schemas": st.sampled_from([[URN], [URN.lower()], None, [], ["urn:x:y"], [URN, "urn:x:y"], 5, "absent"]),
        "fail": st.sampled_from([None, 0, 1]), "status": st.sampled_from([200, 200, 201])}), quick=200,
    rule="bulk responses without proper `Operations` or `schemas`: refused exactly at these, or at the malformed item; non-trivial = all",
)
def envelopes_are_checked(case, rec):
    rec.hit(repr(case))
    body = {k: v for k, v in (("schemas", case["schemas"]), ("Operations", case["ops"])) if v != "absent"}
    data, issues = call(E.bulk([specs.USER], None).dump_response, status_code=case["status"], body=copy.deepcopy(body), fail_on_errors=case["fail"])
    found = flat(issues)
    want = {}
    s, ops = body.get("schemas"), body.get("Operations")
    if s in (None, []):
        want["body", "schemas"] = [15]
    elif s == 5:
        want["body", "schemas"] = [2]
    else:
        low = [x.lower() for x in s]
        codes = ([27] if "urn:x:y" in low else []) + ([28] if URN.lower() not in low else [])
        if codes:
            want["body", "schemas"] = codes
    if ops in (None, []):
        want["body", "Operations"] = [15]
    elif not isinstance(ops, list):
        want["body", "Operations"] = [2]
    else:
        for i in range(len(ops)):
            want["body", "Operations", str(i)] = [2]
    if case["status"] != 200:
        want[("status",)] = [16]
    expect(found == want, "bulk response {!r}: issues {}, expected {}", body, found, want)
    expect(data.body is None, "bulk response {!r}: handed on {!r}", body, data.body)
