"""Bulk requests: every operation is judged as the same request sent on its own."""
import copy

from hypothesis import strategies as st

from .. import endpoints as E
from .. import gen
from .. import messages as M
from .. import patchmodel as PM
from .. import resmodel as R
from .. import specs
from ..harness import call, expect, prop
from ..issues import below, flat
from .c14 import fill_required

URN = M.API + "BulkRequest"
KNOWN = {"Users": specs.USER, "Groups": specs.GROUP, "RichOnes": specs.RICH}
POST_PATHS = {"bad": ["Users", "", "/", "//", "/Users/", "/Users/1", "/Users Groups", " /Users", "/Us-ers", "/Users?x=1", "/Users#f"], "unknown": ["/Nope", "/users", "/User", "/_"]}
OBJECT_PATHS = {"bad": ["Users/1", "", "/", "//", "/Users", "/Users/", "/Us-ers/1", "x/Users/1"], "unknown": ["/Nope/1", "/users/1", "/User/Users"]}


@st.composite
def operations(draw, plurals, calm):
    method = draw(st.sampled_from(["GET", "POST", "POST", "PUT", "PUT", "PATCH", "PATCH", "DELETE"]))
    plural = draw(st.sampled_from(plurals))
    spec = KNOWN[plural]
    op = {"method": method}
    info = {"method": method, "plural": plural, "must": {}, "may": [], "delegate": True}
    must = info["must"]

    def odd(n):
        return not calm and draw(st.integers(0, n)) == 0

    # path
    paths = POST_PATHS if method == "POST" else OBJECT_PATHS
    if odd(9):
        op["path"] = draw(st.sampled_from(paths["bad"]))
        must[("path",)] = {34 if method == "POST" else 35}
        if op["path"] == "":
            must[("path",)] = None  # missing or bad
        info["delegate"] = False
    elif odd(9):
        op["path"] = draw(st.sampled_from(paths["unknown"]))
        must[("path",)] = {36}
        info["delegate"] = False
    elif odd(14):
        if draw(st.booleans()):
            op["path"] = None
        must[("path",)] = {15}
        info["delegate"] = False
    else:
        op["path"] = "/" + plural
        if method != "POST":
            op["path"] += "/" + draw(st.sampled_from(["1", "2819c223-7f76", "a b", "x/y", "Groups", "Users/1"]))
    # bulkId
    if not odd(4) or (calm and method == "POST"):
        op["bulkId"] = draw(st.sampled_from(["q", "w", "1", "é"]))
    elif method == "POST":
        if draw(st.booleans()):
            op["bulkId"] = None
        must[("bulkId",)] = {15}
    if draw(st.integers(0, 3)) == 0:
        op["version"] = draw(st.sampled_from(["W/1", "v", None]))
    # data
    if method in ("GET", "DELETE"):
        if draw(st.integers(0, 2)) == 0:
            op["data"] = draw(st.sampled_from([{"userName": "x"}, 5, None, [], {"schemas": 5}]))
    elif odd(9):
        if draw(st.booleans()):
            op["data"] = None
        must[("data",)] = {15}
        info["delegate"] = False
        if must.get(("path",)) == {36}:  # whether the resource is known need not be looked at any more
            del must[("path",)]
            info["may"].append(("path",))
    elif odd(14):
        op["data"] = copy.deepcopy(draw(M.odd.filter(lambda v: v is not None)))
    elif method == "PATCH":
        ops = draw(st.lists(PM.operations(spec, faults=not calm and draw(st.booleans())), min_size=1, max_size=2))
        op["data"] = {"schemas": [M.API + "PatchOp"], "Operations": [o["wire"] for o in ops]}
    else:
        data = draw(specs.resource_data(spec, "parse", presence=draw(st.sampled_from([0.15, 0.3]))))
        if calm or draw(st.booleans()):
            data = draw(fill_required(spec, data, "parse"))
        if odd(3):
            draw(R.faults(spec, data, "parse"))
        elif draw(st.integers(0, 4)) == 0:
            data = draw(R.disguised(spec, data))
        op["data"] = data
    # faults which leave the rest of the operation unjudged
    if odd(14):
        name = draw(st.sampled_from(["method", "method", "path", "bulkId", "version"]))
        if name == "method":
            op["method"] = draw(st.sampled_from([None, "post", "Get", "HEAD", "", 5, [], "POST "]))
            bad = op["method"]
            if draw(st.integers(0, 3)) == 0:
                op.pop("method")
                bad = None
            code = 15 if bad is None else (14 if isinstance(bad, str) and bad else 2)
            if bad == "":
                code = None
        else:
            op[name] = draw(st.sampled_from([5, [], {}, True]))
            code = 2
        info["must"] = {(name,): {code} if code else None}
        info["may"] = [("path",), ("data",), ("bulkId",), ("version",), ("method",)]
        info["delegate"] = False
    return {"op": op, "info": info}


@st.composite
def requests(draw):
    plurals = draw(st.lists(st.sampled_from(sorted(KNOWN)), min_size=1, max_size=3, unique=True))
    calm = draw(st.integers(0, 2)) == 0
    ops = draw(st.lists(operations(plurals, calm), min_size=1, max_size=4))
    limit = draw(st.sampled_from([None, 1, 2, 3, 10, 10]))
    if draw(st.integers(0, 9)) == 0:  # around a greater limit
        limit = draw(st.sampled_from([4, 5, 7, 10, 16, 33]))
        size = limit + draw(st.sampled_from([-1, 0, 0, 1, 1, 1, 2]))
        j = draw(st.integers(0, len(ops) - 1))
        ops = ([copy.deepcopy(ops[j]) for _ in range(max(size - len(ops), 0))] + ops)[:size]
    body = {"schemas": [URN], "Operations": [copy.deepcopy(o["op"]) for o in ops]}
    case = {"plurals": plurals, "ops": ops, "limit": limit, "extra": {}}
    if draw(st.integers(0, 2)) == 0:
        body["failOnErrors"] = draw(st.sampled_from([0, 1, 5]))
    if not calm and draw(st.integers(0, 7)) == 0:
        how = draw(st.integers(0, 3))
        if how == 0:
            body["failOnErrors"] = draw(st.sampled_from(["1", 1.5, True, []]))
            case["extra"] = {("body", "failOnErrors"): {2}}
        elif how == 1:
            del body["schemas"]
            case["extra"] = {("body", "schemas"): {15}}
        elif how == 2:
            body["schemas"] = ["urn:x:y"]
            case["extra"] = {("body", "schemas"): {27, 28}}
        else:
            body["schemas"] = None
            case["extra"] = {("body", "schemas"): {15}}
    if draw(st.integers(0, 4)) == 0:
        body = {draw(gen.recased(k)): v for k, v in body.items()}
        for op in body[next(k for k in body if k.lower() == "operations")]:
            for k in list(op):
                op[draw(gen.recased(k))] = op.pop(k)
    case["body"] = body
    return case


def standalone(info, op):
    v = E.single(info["method"], KNOWN[info["plural"]])
    data, issues = call(v.parse_request, body=copy.deepcopy(op["data"]))
    return data.body, below(flat(issues), ("body",))


@prop(
    "C18", requests(), quick=3500,
    rule="bulk requests of 1-4 operations of every method over 1-3 resource kinds (faults: paths of the wrong kind, unknown or missing, "
         "missing bulkId, data or method, malformed members, invalid data, limits): each operation's issues are its own rules' plus "
         "exactly those of the stand-alone validator for its data, whatever the other operations; accepted requests hand on what "
         "the stand-alone validators do; non-trivial = accepted, or two operations refused",
)
def operations_are_judged_like_standalone_requests(case, rec):
    v = E.bulk([KNOWN[p] for p in case["plurals"]], case["limit"])
    data, issues = call(v.parse_request, body=copy.deepcopy(case["body"]))
    found = flat(issues)
    what = f"bulk {case['plurals']} limit {case['limit']} {case['body']!r}"
    want_top = {k: set(c) for k, c in case["extra"].items()}
    if case["limit"] is not None and len(case["ops"]) > case["limit"]:
        want_top[("body", "Operations")] = {37}
    top = {k: set(c) for k, c in found.items() if k[:2] != ("body", "Operations") or len(k) == 2}
    expect(top == want_top, "{}: issues {}, expected {}", what, top, want_top)
    refused, bodies = 0, []
    for i, o in enumerate(case["ops"]):
        op, info = o["op"], o["info"]
        mine = {k: set(c) for k, c in below(found, ("body", "Operations", str(i))).items()}
        want = dict(info["must"])
        body = None
        if info["delegate"] and info["method"] in ("POST", "PUT", "PATCH"):
            body, issues_ = standalone(info, op)
            want.update({("data",) + k: set(c) for k, c in issues_.items()})
        bodies.append(body)
        refused += bool(want)
        label = f"{what}: operation {i}"
        for loc, codes in want.items():
            expect(loc in mine, "{}: nothing at {} (expected {}): {}", label, loc, codes, mine)
            expect(codes is None or mine[loc] == codes, "{}: {} at {}, expected {}", label, mine.get(loc), loc, codes)
        for loc in mine:
            expect(loc in want or any(loc[: len(m)] == m for m in info["may"]), "{}: unexpected {} at {}", label, mine[loc], loc)
        rec.tag(f"{info['method']} {'refused' if want else 'accepted'}")
        for codes in info["must"].values():
            for c in codes or ():
                rec.tag(f"code {c}")
    if refused >= 2 or not found:
        rec.hit(what)
    if found:
        expect(data.body is None, "{}: handed on {!r} despite {}", what, data.body, found)
        return
    rec.tag("accepted")
    ops = R.plain_ops(data.body)
    expect(len(ops) == len(case["ops"]), "{}: {} operations handed on", what, len(ops))
    fail, given = R.lookup(case["body"], "failOnErrors")
    if given:
        expect(R.lookup(R.plain(data.body), "failOnErrors")[0] == fail, "{}: failOnErrors lost", what)
    for i, (o, got, body) in enumerate(zip(case["ops"], ops, bodies)):
        op, info = o["op"], o["info"]
        for name in ("method", "path", "bulkId", "version"):
            have, hit = R.lookup(got, name)
            expect((have if hit else None) == op.get(name), "{}: {} of operation {} handed on as {!r}", what, name, i, have)
        have, hit = R.lookup(got, "data")
        if info["method"] in ("GET", "DELETE"):
            expect(not hit, "{}: data of operation {} ({}) handed on as {!r}", what, i, info["method"], have)
        else:
            expect(hit and R.shape(have) == R.shape(body), "{}: data of operation {} handed on as {!r}, stand-alone {!r}",
                   what, i, R.shape(have), R.shape(body))


@prop(
    "C18", st.fixed_dictionaries({"ops": st.sampled_from([None, [], 5, "x", {}, True, "absent", [5], [None], ["x", 5]]),
                                  "limit": st.sampled_from([None, 1, 5])}), quick=60,
    rule="bulk envelopes without proper `Operations`: refused at `Operations` or at the malformed item; non-trivial = all",
)
def envelopes_are_checked(case, rec):
    rec.hit(repr(case))
    body = {"schemas": [URN], "Operations": case["ops"]}
    if case["ops"] == "absent":
        del body["Operations"]
    data, issues = call(E.bulk([specs.USER], case["limit"]).parse_request, body=copy.deepcopy(body))
    found = flat(issues)
    at = ("body", "Operations")
    if isinstance(case["ops"], list) and case["ops"]:
        want = {at + (str(i),): [2] for i in range(len(case["ops"]))}
        if case["limit"] is not None and len(case["ops"]) > case["limit"]:
            want[at] = [37]
        expect(found == want, "bulk {!r}: issues {}, expected {}", body, found, want)
    else:
        want = [15] if case["ops"] in (None, [], "absent") else [2]
        expect(found == {at: want}, "bulk {!r}: issues {}, expected {}", body, found, want)
    expect(data.body is None, "bulk {!r}: handed on {!r}", body, data.body)
