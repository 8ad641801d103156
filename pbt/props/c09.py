import copy

from hypothesis import strategies as st

from src.data.container import Invalid, Missing, SCIMDataContainer

from .. import gen
from .. import resmodel as R
from .. import specs
from ..harness import Violation, call, expect, prop
from ..issues import flat


@st.composite
def valid(draw, direction=None):
    spec = draw(specs.any_resource)
    direction = direction or draw(st.sampled_from(["parse", "dump"]))
    data = draw(specs.resource_data(spec, direction))
    return {"spec": spec, "dir": direction, "data": data, "as": draw(st.sampled_from(["dict", "container"]))}


def has_duplicates(v):
    if isinstance(v, dict):
        low = [k.lower() for k in v]
        return len(set(low)) != len(low) or any(has_duplicates(x) for x in v.values())
    if isinstance(v, list):
        return any(has_duplicates(x) for x in v)
    return False


@st.composite
def valid_disguised(draw):
    case = draw(valid())
    case["sent"] = draw(R.disguised(case["spec"], case["data"]))
    return case


def run(case, data):
    schema = specs.build(case["spec"])
    arg = copy.deepcopy(data)
    if case["as"] == "container":
        arg = SCIMDataContainer(arg)
    return call(getattr(schema, case["dir"]), arg)


@prop(
    "C09", valid_disguised(), quick=3200,
    rule="valid resources of the built-in and of random schemas (all types, multi-valued, complex, extensions, nulls), with "
         "names re-cased and unknown attributes added at any level, parsed and dumped: no issue, every value kept and converted, "
         "unknown ones dropped; non-trivial = two or more attributes besides schemas",
    examples=[
        {"spec": dict(specs.RICH, ext=[{"schema": "urn:example:ext", "attrs": [specs.A("str")]}]), "dir": "parse", "as": "dict",
         "data": {"schemas": [specs.RICH["schema"]], "str": "x"}, "sent": {"schemas": [specs.RICH["schema"]], "str": "x"}},
    ],
)
def valid_data_is_preserved(case, rec):
    spec, direction = case["spec"], case["dir"]
    got, issues = run(case, case["sent"])
    found = flat(issues)
    expect(not found, "{} of a valid resource reports {}: {!r}", direction, found, case["sent"])
    want = R.expected_resource(spec, case["data"], direction)
    have = R.plain(got)
    d = R.diff(have, want)
    if d:
        raise Violation(f"{direction} of {case['sent']!r} gave a wrong result at {d}")
    if len(want) > 2:
        rec.hit(f"{direction} {spec['name']} {case['sent']!r}")
    if case["sent"] != case["data"]:
        rec.tag("disguised")


@st.composite
def faulty(draw):
    case = draw(valid())
    data = copy.deepcopy(case["data"])
    case["faults"] = draw(R.faults(case["spec"], data, case["dir"]))
    case["sent"] = draw(R.disguised(case["spec"], data)) if draw(st.booleans()) else data
    return case


@prop(
    "C09", faulty(), quick=3600,
    rule="valid resources with 1..3 values made invalid at disjoint places (leaf, list item, whole list, whole complex value, "
         "extension): exactly those places are reported, everything else is kept; non-trivial = at least one fault",
)
def faults_are_located(case, rec):
    spec, direction = case["spec"], case["dir"]
    got, issues = run(case, case["sent"])
    found = flat(issues)
    want = {R.loc(path): code for path, _, code in case["faults"]}
    rec.tag(f"faults={len(want)}")
    if want:
        rec.hit(f"{direction} {spec['name']} faults {case['faults']!r}")
    if set(found) != set(want):
        raise Violation(
            f"{direction} of {case['sent']!r} with faults {case['faults']!r} reports {found}, expected issues at {sorted(want)}"
        )
    for at, code in want.items():
        expect(len(found[at]) == 1 and code in (None, found[at][0]), "issue at {}: {} expected [{}]", at, found[at], code)
    expected = R.expected_resource(spec, case["data"], direction)
    have = R.plain(got)
    d = R.diff(have, expected, skip=set(want))
    if d:
        raise Violation(f"{direction} with faults {case['faults']!r} spoiled something else: {d}")
    for path, value, _ in case["faults"]:
        left = R.at(have, path)
        expect(left in (Invalid, Missing), "refused value at {} is passed on as {!r}", path, left)


@st.composite
def primaries(draw):
    spec = draw(st.one_of(st.just(specs.USER), st.just(specs.RICH), specs.resource_specs()))
    cands = [a for a in spec["attrs"] if a["t"] == "complex" and a["mv"] and specs.find(a["subs"], "primary")]
    direction = draw(st.sampled_from(["parse", "dump"]))
    if not cands:
        spec = specs.USER
        cands = [a for a in spec["attrs"] if a["n"] in ("emails", "phoneNumbers", "roles")]
    picked = draw(st.lists(st.sampled_from(cands), min_size=1, max_size=2, unique_by=lambda a: a["n"]))
    data = {"schemas": [spec["schema"]]}
    for a in picked:
        n = draw(st.sampled_from([0, 1, 2, 3, 4, 4, 9, 14]))
        values = [True, True, False, None] if n < 9 else [True, False, False, False, False, False, None]
        data[a["n"]] = [{"primary": draw(st.sampled_from(values))} if draw(st.integers(0, 4)) else {} for _ in range(n)]
    if "builtin" not in spec and draw(st.integers(0, 2)) == 0:  # the schema itself spells the name in another way
        spec = copy.deepcopy(spec)
        for a in spec["attrs"]:
            for s in a["subs"]:
                if s["n"].lower() == "primary":
                    s["n"] = draw(st.sampled_from(["Primary", "PRIMARY", "primarY"]))
    return {"spec": spec, "dir": direction, "data": data, "as": "dict"}


@prop("C09", primaries(), quick=1000,
      rule="multi-valued complex attributes with any number of primary items: reported exactly when more than one is primary; "
           "non-trivial = some attribute has two or more primary items")
def at_most_one_primary(case, rec):
    got, issues = run(case, case["data"])
    want = {}
    for name, items in case["data"].items():
        if name != "schemas" and sum(1 for i in items if i.get("primary") is True) > 1:
            want[(name,)] = [9]
    if want:
        rec.hit(repr(case["data"]))
    found = flat(issues)
    expect(found == want, "{!r}: issues {}, expected {}", case["data"], found, want)


@prop("C09", valid("dump"), quick=1200,
      rule="a dumped resource parses back without issues to the same values; non-trivial = two or more attributes")
def dump_then_parse(case, rec):
    schema = specs.build(case["spec"])
    dumped, issues = run(case, case["data"])
    expect(not issues.has_issues(), "valid resource refused: {}", flat(issues))
    back, issues = call(schema.parse, dumped.to_dict())
    expect(not issues.has_issues(), "dumped resource is refused by parse: {} {!r}", flat(issues), dumped.to_dict())
    again, issues = call(schema.dump, back)
    expect(not issues.has_issues(), "dump of the parsed resource refused: {}", flat(issues))
    d = R.diff(R.plain(again), R.plain(dumped))
    expect(d is None, "dump, parse, dump changed the resource: {}", d)
    if len(case["data"]) > 2:
        rec.hit()
