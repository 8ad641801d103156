"""Presence and returnability of attributes."""
from hypothesis import strategies as st

from src.attributes_presence import AttributePresenceChecker
from src.data.container import AttrRep, Invalid, SCIMDataContainer

from .. import gen
from .. import presence as P
from .. import resmodel as R
from .. import specs
from ..harness import call, expect, prop
from ..issues import flat


@st.composite
def cases(draw):
    spec = draw(P.checked_specs(twins=True))
    data = draw(specs.resource_data(spec, "dump", presence=draw(st.sampled_from([0.3, 0.6, 0.9]))))
    if draw(st.booleans()):  # the other ways of being unassigned
        for name in list(data):
            if draw(st.integers(0, 5)) == 0 and name not in P_EXT(spec):
                data[name] = draw(st.sampled_from([None, "", []])) if not isinstance(data[name], dict) else None
    if draw(st.integers(0, 2)) == 0:  # values which have been refused already, and nulls among the items
        for name, value in data.items():
            if name in P_EXT(spec):
                continue
            if draw(st.integers(0, 7)) == 0:
                data[name] = P.INVALID
            elif isinstance(value, list) and draw(st.integers(0, 2)) == 0:
                value.insert(draw(st.integers(0, len(value))), draw(st.sampled_from([None, P.INVALID])))
            for item in value if isinstance(value, list) else [value]:
                if isinstance(item, dict) and item and draw(st.integers(0, 5)) == 0:
                    item[draw(st.sampled_from(sorted(item)))] = P.INVALID
    if draw(st.integers(0, 3)) == 0:
        data = draw(R.disguised(spec, data, extras=False))
    include = draw(st.sampled_from([None, True, False]))
    reps = draw(st.lists(P.rep_text(spec), max_size=4)) if include is not None else []
    ignore = draw(st.lists(P.rep_text(spec), max_size=3)) if draw(st.booleans()) else []
    return {
        "spec": spec, "data": data, "include": include, "reps": reps, "ignore": ignore,
        "dir": draw(st.sampled_from(["REQUEST", "RESPONSE", "RESPONSE"])), "parse": draw(st.booleans()), "twice": draw(st.integers(0, 3)) == 0,
    }


def with_invalid(v):
    if isinstance(v, dict):
        return {k: with_invalid(x) for k, x in v.items()}
    if isinstance(v, list):
        return [with_invalid(x) for x in v]
    return Invalid if v == P.INVALID else v


def P_EXT(spec):
    return {e["schema"] for e in spec["ext"]}


def to_rep(text):
    schema, attr, sub = P.parse(text)
    return AttrRep(schema, attr, sub)


@prop(
    "C12", cases(), quick=8000,
    rule="resources of built-in and random schemas (required, always/never/request returned, at every level, extensions, nulls, "
         "empty values), random sets of requested or excluded references (qualified or not, any case, sub-attributes, unknown ones), "
         "both directions: issues equal those of a reference; non-trivial = some issue expected",
)
def presence_matches_reference(case, rec):
    spec, include = case["spec"], case["include"]
    reps = [P.parse(t) for t in case["reps"]]
    ignore = [P.parse(t) for t in case["ignore"]]
    if case["parse"] and not ignore:
        checker, issues = call(AttributePresenceChecker.parse, case["reps"], include)
        expect(not issues.has_issues(), "{} refused: {}", case["reps"], flat(issues))
    else:
        checker = AttributePresenceChecker(
            [to_rep(t) for t in case["reps"]], include, [to_rep(t) for t in case["ignore"]]
        )
    want = P.expected(spec, case["data"], reps, include, case["dir"], ignore)
    schema = specs.build(spec)
    if case["twice"]:  # what the same checker was used for before does not matter
        call(checker, SCIMDataContainer(with_invalid(case["data"])), schema.attrs, "REQUEST" if case["dir"] == "RESPONSE" else "RESPONSE")
        call(checker, SCIMDataContainer({}), specs.build(specs.USER).attrs, case["dir"])
    issues = call(checker, SCIMDataContainer(with_invalid(case["data"])), schema.attrs, case["dir"])
    if want:
        rec.hit(f"{spec['name']} {case['dir']} include={include} {case['reps']} -> {want}")
    for code in set(want.values()):
        rec.tag(f"code {code}")
    rec.tag(f"include={include}")
    got = flat(issues)
    expect(
        got == {k: [v] for k, v in want.items()},
        "{} {} include={} {} ignoring {}: data {!r}: issues {}, expected {}",
        spec["name"], case["dir"], include, case["reps"], case["ignore"], case["data"], got, want,
    )
    # a missing attribute can not be proceeded with, a surplus one can
    for loc, code in want.items():
        if code == 15:
            real = tuple(int(p) if p.isdigit() else p for p in loc)
            expect(not call(issues.can_proceed, real), "missing attribute at {} can be proceeded with", loc)


@prop(
    "C12", st.tuples(st.lists(st.one_of(gen.any_text(8), P.rep_text(specs.USER)), max_size=5), st.sampled_from([None, True, False])),
    quick=2000,
    rule="lists of references, well-formed or arbitrary text: refused exactly at the malformed ones, otherwise kept in order; "
         "non-trivial = a malformed and a well-formed one",
)
def parsing(case, rec):
    texts, include = case
    want = {(t,): [111] * texts.count(t) for t in texts if P.parse(t) is None}
    checker, issues = call(AttributePresenceChecker.parse, list(texts), include)
    if want and len(want) < len(set(texts)):
        rec.hit(repr(texts))
    if want:
        expect(checker is Invalid, "{} accepted", texts)
        expect(set(flat(issues)) == set(want), "{}: issues {}, expected at {}", texts, flat(issues), sorted(want))
    else:
        expect(not issues.has_issues(), "{} refused: {}", texts, flat(issues))
        have = [(r.schema, r.attr, r.sub_attr) for r in checker.attr_reps]
        expect(have == [P.parse(t) for t in texts], "{} read as {}", texts, have)
        expect(checker.include is include, "include is {}", checker.include)
