"""PATCH requests: every operation is judged by its target's type and mutability, each on its own."""
import copy

from hypothesis import strategies as st

from src.data.container import Missing, SCIMDataContainer

from .. import endpoints as E
from .. import filters as F
from .. import gen
from .. import messages as M
from .. import patchmodel as PM
from .. import presence as P
from .. import resmodel as R
from .. import specs
from ..harness import call, expect, prop
from ..issues import below, flat

PATCH = M.API + "PatchOp"


@st.composite
def requests(draw, faults=True):
    spec = draw(P.checked_specs(twins=True))
    ops = draw(st.lists(PM.operations(spec, faults), min_size=1, max_size=4))
    if draw(st.integers(0, 11)) == 0:  # late operations are judged like early ones
        ops = [copy.deepcopy(ops[0]) for _ in range(draw(st.sampled_from([3, 6, 10])))] + ops
    body = {"schemas": [PATCH], "Operations": [copy.deepcopy(o["wire"]) for o in ops]}
    if draw(st.integers(0, 3)) == 0:
        body = {draw(gen.recased(k)): v for k, v in body.items()}
        for op in body[next(k for k in body if k.lower() == "operations")]:
            for k in list(op):
                op[draw(gen.recased(k))] = op.pop(k)
    return {"spec": spec, "ops": ops, "body": body}


def submit(spec, body):
    return call(E.single("PATCH", spec).parse_request, body=copy.deepcopy(body))


def check_handed_on(spec, judged, got, what):
    got = got.to_dict() if isinstance(got, SCIMDataContainer) else got
    expect(isinstance(got, dict), "{}: handed on as {!r}", what, got)
    expect(got.get("op") == judged["op"], "{}: operation handed on as {!r}", what, got.get("op"))
    path = got.get("path", Missing)
    if judged["nopath"]:
        expect(path is Missing or path is None, "{}: path handed on as {!r}", what, path)
    else:
        attr, sub, filtered = judged["target"]
        rep = path.complex_filter_attr_rep if filtered and sub else path.attr_rep
        have = (path.attr_rep.attr.lower(), rep.sub_attr.lower() if sub else "", path.complex_filter is not None)
        expect(have == (attr.lower(), sub.lower(), filtered), "{}: target read as {}", what, have)
        expect(path.attr_rep.schema.lower() in (judged.get("schema", "").lower(), "" if "schema" in judged else spec["schema"].lower()),
               "{}: target read as of {!r}", what, path.attr_rep.schema)
        if filtered:
            tree = path.complex_filter.to_dict()
            expect(F.same_tree(tree.get("sub_op"), judged["filter"]), "{}: filter read as {!r}", what, tree)
        if not sub:
            expect(not path.attr_rep.sub_attr and path.complex_filter_attr_rep is None, "{}: target read as {!r}", what, path)
    if judged["op"] == "remove":
        return
    value = R.plain(got.get("value"))
    d = R.diff({"value": value}, {"value": judged["value"]})
    expect(d is None, "{}: {}", what, d)


@prop(
    "C15", requests(), quick=4000,
    rule="PATCH requests of 1-4 operations (any case of op, all targets of built-in and random schemas with and without path, filter, "
         "sub-attribute, extension; faults: unknown and malformed paths, missing parts, wrong-typed values, read-only targets and "
         "sub-attributes, missing required sub-attributes): the issues of each operation equal the reference's, whatever the other "
         "operations are; accepted requests hand on every operation; non-trivial = accepted, or two different operations refused",
)
def operations_are_judged_one_by_one(case, rec):
    spec = case["spec"]
    data, issues = submit(spec, case["body"])
    found = flat(issues)
    what = f"PATCH {spec['name']} {case['body']!r}"
    bad = 0
    for i, judged in enumerate(case["ops"]):
        mine = below(found, ("body", "Operations", str(i)))
        wrong = PM.compare(mine, judged)
        expect(wrong is None, "{}: operation {} {!r}: {}", what, i, judged["wire"], wrong)
        bad += bool(judged["must"] or "some" in judged)
        for codes in judged["must"].values():
            for c in codes:
                rec.tag(f"code {c}")
    for loc in found:
        expect(loc[:2] == ("body", "Operations") and len(loc) > 2, "{}: issue {} at {}", what, found[loc], loc)
    if bad >= 2 or not found:
        rec.hit(what)
    if bad:
        expect(data.body is None, "{}: handed on {!r} despite {}", what, data.body, found)
        return
    if found:  # only unspecified ones
        return
    rec.tag("accepted")
    ops = R.plain_ops(data.body)
    expect(len(ops) == len(case["ops"]), "{}: {} operations handed on", what, len(ops))
    for judged, got in zip(case["ops"], ops):
        check_handed_on(spec, judged, got, what)


@prop(
    "C15", requests(faults=False), quick=2500,
    rule="the same without faults other than read-only targets and required sub-attributes; non-trivial = all operations accepted",
)
def valid_operations_are_handed_on(case, rec):
    operations_are_judged_one_by_one(case, rec)


@st.composite
def envelopes(draw):
    ops = draw(st.one_of(
        st.sampled_from([None, [], 5, "x", {}, {"op": "add"}, True, [5], [None], ["x"], [[]]]),
        st.just([{"op": "remove", "path": "title"}]),
        st.just([{"op": "remove", "path": "title"}, 5]),
        st.just([None, {"op": "remove", "path": "title"}]),
    ))
    body = {"schemas": draw(st.sampled_from([[PATCH], [PATCH.lower()], [], None, ["urn:x:y"], [PATCH, "urn:x:y"], 5])), "Operations": ops}
    for k in list(body):
        if draw(st.integers(0, 5)) == 0:
            del body[k]
    return body


@prop(
    "C15", envelopes(), quick=600,
    rule="PATCH envelopes with missing, malformed or empty `Operations` and `schemas`: each reported where it is; non-trivial = a fault",
)
def envelopes_are_checked(body, rec):
    data, issues = submit(specs.USER, body)
    found = flat(issues)
    want = {}
    s = body.get("schemas")
    if s in (None, []):
        want[("body", "schemas")] = [15]
    elif not isinstance(s, list):
        want[("body", "schemas")] = [2]
    else:
        low = [x.lower() for x in s]
        codes = ([27] if any(x != PATCH.lower() for x in low) else []) + ([28] if PATCH.lower() not in low else [])
        if codes:
            want[("body", "schemas")] = codes
    ops = body.get("Operations")
    if ops is None or ops == []:
        want[("body", "Operations")] = [15]
    elif not isinstance(ops, list):
        want[("body", "Operations")] = [2]
    else:
        for i, op in enumerate(ops):
            if not isinstance(op, dict):
                want[("body", "Operations", str(i))] = [2]
    if want:
        rec.hit(f"{body!r} -> {want}")
    expect(found == want, "PATCH {!r}: issues {}, expected {}", body, found, want)
    expect((data.body is None) == bool(want), "PATCH {!r}: handed on {!r} with {}", body, data.body, found)
