"""Totality: every schema judges every JSON value."""
import copy

from hypothesis import strategies as st

from src.data.container import Invalid, SCIMDataContainer

from .. import gen
from .. import messages as M
from .. import resmodel as R
from .. import specs
from ..harness import call, expect, prop
from ..issues import flat


def judge(schema, direction, data, rec, what):
    out = call(getattr(schema, direction), copy.deepcopy(data))
    expect(isinstance(out, tuple) and len(out) == 2, "{}: result is {!r}", what, out)
    result, issues = out
    found = flat(issues)
    call(issues.to_dict, msg=True, ctx=True)
    if not isinstance(data, dict):
        want = 15 if data is None else 2
        expect(result is Invalid and found == {(): [want]}, "{} {} of {!r}: {!r} with {}", what, direction, data, result, found)
        return
    expect(() not in found or result is Invalid, "{} {} of {!r}: issue at the root but a result", what, direction, data)
    expect(isinstance(result, SCIMDataContainer), "{} {} of {!r}: result is {!r}", what, direction, data, result)
    plain = R.plain(result)
    expect(isinstance(plain, dict), "{} {}: result converts to {!r}", what, direction, plain)
    if found:
        rec.tag("issues")
    else:
        rec.tag("accepted")
        expect(not contains_invalid(plain), "{} {} of {!r}: no issue but an invalid value in {!r}", what, direction, data, plain)
    again = call(getattr(schema, direction), copy.deepcopy(data))
    expect(flat(again[1]) == found, "{} {} of {!r}: {} the second time {}", what, direction, data, found, flat(again[1]))


def contains_invalid(v):
    if v is Invalid:
        return True
    if isinstance(v, dict):
        return any(contains_invalid(x) for x in v.values())
    if isinstance(v, list):
        return any(contains_invalid(x) for x in v)
    return False


@st.composite
def messages(draw):
    kind = draw(st.sampled_from(sorted(M.MESSAGES)))
    return {"kind": kind, "dir": draw(st.sampled_from(["parse", "dump"])), "data": draw(M.mangled(M.MESSAGES[kind]()))}


@prop(
    "C10", messages(), quick=6000,
    rule="plausible messages of every kind (error, list, search, patch, bulk request and response, schema, resource type, service "
         "provider configuration) with up to three sub-trees replaced by arbitrary JSON, removed, re-cased or inserted: judged without "
         "an exception, the same way twice, invalid values only together with issues; non-trivial = object with issues or accepted",
)
def every_message_is_judged(case, rec):
    if isinstance(case["data"], dict):
        rec.hit(f"{case['kind']} {case['dir']} {case['data']!r}")
    judge(M.build(case["kind"]), case["dir"], case["data"], rec, case["kind"])


@st.composite
def resources(draw):
    spec = draw(specs.any_resource)
    direction = draw(st.sampled_from(["parse", "dump"]))
    return {"spec": spec, "dir": direction, "data": draw(M.mangled(specs.resource_data(spec, direction)))}


@prop(
    "C10", resources(), quick=4000,
    rule="resources of built-in and random schemas mangled the same way; non-trivial = object",
)
def every_resource_is_judged(case, rec):
    if isinstance(case["data"], dict):
        rec.hit(f"{case['spec']['name']} {case['dir']} {case['data']!r}")
    judge(specs.build(case["spec"]), case["dir"], case["data"], rec, case["spec"]["name"])


@st.composite
def anything(draw):
    keys = st.sampled_from(["schemas", "id", "meta", "userName", "emails", "name", "Operations", "Resources", "attributes", "status",
                            "totalResults", "op", "path", "value", "method", "data", "x"])
    return {"kind": draw(st.sampled_from(sorted(M.MESSAGES) + ["User"])), "dir": draw(st.sampled_from(["parse", "dump"])),
            "data": draw(gen.json_values(keys=keys, max_leaves=14))}


@prop("C10", anything(), quick=3000,
      rule="arbitrary JSON whose member names are those of the messages, given to every schema; non-trivial = object")
def arbitrary_json(case, rec):
    if isinstance(case["data"], dict) and case["data"]:
        rec.hit(f"{case['kind']} {case['dir']} {case['data']!r}")
    schema = specs.build(specs.USER) if case["kind"] == "User" else M.build(case["kind"])
    judge(schema, case["dir"], case["data"], rec, case["kind"])


@st.composite
def whole_messages(draw):
    kind = draw(st.sampled_from(sorted(M.MESSAGES) + ["User", "custom"]))
    spec = specs.USER if kind == "User" else draw(specs.resource_specs()) if kind == "custom" else None
    base = specs.resource_data(spec, "parse", presence=0.8) if spec else M.MESSAGES[kind]()
    return {"kind": kind, "spec": spec, "dir": draw(st.sampled_from(["parse", "dump"])), "data": draw(base), "junk": draw(M.odd)}


@prop(
    "C10", whole_messages(), quick=1200, thorough=8000,
    rule="a plausible message or resource of any kind, each of its members and items in turn set to null, to an empty object, list and "
         "text, to a number and to arbitrary JSON, and taken away: judged without an exception; non-trivial = ten or more places",
)
def every_place_may_be_odd(case, rec):
    schema = specs.build(case["spec"]) if case["spec"] else M.build(case["kind"])
    spots = [p for p in M.places(case["data"]) if p]
    if len(spots) >= 10:
        rec.hit(f"{case['kind']} {case['dir']} {case['data']!r}")
    for at in spots[:60]:
        for value in (None, {}, [], "", 5, "٤٠٠", case["junk"], "<gone>"):
            data = copy.deepcopy(case["data"])
            parent = data
            for p in at[:-1]:
                parent = parent[p]
            if value == "<gone>" and isinstance(value, str):
                parent.pop(at[-1])
            else:
                parent[at[-1]] = copy.deepcopy(value)
            result, issues = call(getattr(schema, case["dir"]), data)
            if not flat(issues):
                expect(not contains_invalid(R.plain(result)), "{} {} of {!r}: no issue but an invalid value", case["kind"], case["dir"], data)
