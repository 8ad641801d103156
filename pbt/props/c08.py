from datetime import datetime

from hypothesis import strategies as st

from src.data.container import Invalid, SCIMDataContainer
from src.error import ValidationError, ValidationIssues

from .. import gen
from .. import specs
from .. import typemodel as T
from ..harness import Violation, call, expect, prop

ALL = specs.SIMPLE_TYPES

near_b64 = st.one_of(
    gen.b64(), st.text(alphabet="ABab01+/=", max_size=9), gen.b64(200, 50),
    st.builds(lambda t, i, x: t[: i % (len(t) + 1)] + x + t[i % (len(t) + 1):], st.one_of(gen.b64(12), gen.b64(120, 50)), st.integers(0, 200), st.sampled_from(["=", "\n", " ", "-", "A", "AA", "é", "!"])),
    st.sampled_from(["YWJj\n", "YWJj ", "YW Jj", "YWI", "YWI=", "YWJ=", "YQ==", "YR==", "Y===", "====", "=YWJ", "YWJj====", "-_8=", "ÿ", "中", "YW=="]),
)
near_dt = st.one_of(
    gen.iso_datetimes().map(lambda d: d.isoformat()),
    gen.iso_datetimes().filter(lambda d: d.tzinfo is None).map(lambda d: d.isoformat(timespec="seconds") + "Z"),
    st.sampled_from(["2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020-01-01T24:30:00Z", "2020-01-01T00:61:00", "2022/05/05 12:34:56",
                     "", "now", "yesterday", "2020", "12:00", "2020-01-01T00:00:00+25:00", "2020-01-01T00:00:00Zjunk_", "２０２０-01-01T00:00:00"]),
)
near_num = st.one_of(
    gen.ints, gen.floats, st.integers(-9, 9).map(float), st.sampled_from([1.5, -0.0, 1e300, float("inf"), float("-inf"), float("nan"), 10**400, True, False, "1"]),
)
values = {
    "string": st.one_of(gen.any_text(6), gen.any_text(6), gen.long_text), "boolean": st.booleans(), "decimal": near_num, "integer": near_num, "dateTime": near_dt,
    "binary": near_b64, "external": st.one_of(gen.urls, gen.not_urls), "uri": gen.uris, "scim": gen.uris,
}
foreign = st.one_of(
    gen.json_scalars.filter(lambda v: v is not None), near_dt, near_b64, near_num, gen.iso_datetimes(), gen.urls,
    st.just([]), st.just(["a"]), st.just({"$container": {"a": 1}}), st.just({}), st.just({"a": 1}),
)


def revive(v):
    if isinstance(v, dict) and "$container" in v:
        return SCIMDataContainer(v["$container"])
    return v


@st.composite
def scalar_cases(draw):
    t = draw(st.sampled_from(ALL))
    d = draw(st.sampled_from(["parse", "dump"]))
    if t == "dateTime" and d == "dump" and draw(st.booleans()):
        v = draw(gen.iso_datetimes())
    else:
        v = draw(gen.pick(values[t], values[t], foreign))
    return t, d, v


def judged(t, value, direction):
    return T.judge(t, value, direction)


def run(t, direction, value):
    return call(getattr(specs.TYPES[t], direction), value)


@prop(
    "C08", scalar_cases(), quick=9000,
    rule="every simple type x parse/dump x values of that type, near misses (base64 padding and trailing bits, dates, URLs, "
         "integral/infinite/huge numbers, booleans) and values of other types, against a reference judgement; non-trivial = specified",
    examples=[("integer", "parse", float("inf")), ("integer", "parse", float("nan")), ("integer", "parse", True), ("decimal", "parse", True),
              ("decimal", "parse", 10**400), ("binary", "parse", "ÿ"), ("integer", "dump", 2.0), ("decimal", "dump", 2)],
)
def scalars(case, rec):
    t, direction, raw = case
    value = revive(raw)
    got, issues = run(t, direction, value)
    expect((got is Invalid) == issues.has_issues(), "{} {} of {!r}: outcome and issues disagree", t, direction, value)
    try:
        verdict, want = judged(t, value, direction)
    except T.Unspecified:
        rec.tag("unspecified")
        return
    rec.tag(f"{t}:{verdict}")
    rec.hit(f"{direction} {t} {value!r} -> {verdict}")
    if verdict == "ok":
        expect(not issues.has_issues(), "{} of valid {} {!r} was refused: {}", direction, t, value, issues.to_dict(msg=True))
        expect(T.same(got, want), "{} of {} {!r} gave {!r}, expected {!r}", direction, t, value, got, want)
    else:
        expect(got is Invalid and not issues.can_proceed(), "{} of invalid {} {!r} was accepted as {!r}", direction, t, value, got)
        codes = [e["code"] for e in issues.to_dict().get("_errors", [])]
        expect(len(codes) == 1 and (want is None or codes == [want]), "{} of invalid {} {!r}: issues {}", direction, t, value, codes)
        text = issues.to_dict(msg=True)["_errors"][0]["error"]
        expect(isinstance(text, str) and text, "issue without a message")


@st.composite
def round_trips(draw):
    t = draw(st.sampled_from(ALL))
    spec = specs.A("x", t)
    return t, draw(specs.scalar(spec, "dump"))


@prop("C08", round_trips(), quick=2500,
      rule="what is dumped can be parsed back to the same value, and dumping that gives the same text; non-trivial = all")
def dump_parse_round_trip(case, rec):
    t, value = case
    rec.hit(f"{t} {value!r}")
    text, issues = run(t, "dump", value)
    expect(not issues.has_issues(), "dump of valid {} {!r} refused: {}", t, value, issues.to_dict(msg=True))
    back, issues = run(t, "parse", text)
    expect(not issues.has_issues(), "dumped {} {!r} is refused by parse: {}", t, text, issues.to_dict(msg=True))
    expect(type(back) is type(value) and back == value, "{} {!r} dumped as {!r} parses to {!r}", t, value, text, back)
    again, _ = run(t, "dump", back)
    expect(again == text, "second dump of {} {!r} gives {!r}, first gave {!r}", t, value, again, text)


# --- attributes: multi-valued, canonical values, null -------------------------------------------


@st.composite
def attr_cases(draw):
    t = draw(st.sampled_from(ALL + ["string"] * 4))
    canon = None
    if t == "string" and draw(st.integers(0, 2)):
        canon = draw(st.lists(st.sampled_from(["work", "Home", "OTHER", "mobile", "x y"]), min_size=1, max_size=3, unique=True))
    elif t in ("integer", "decimal", "uri") and draw(st.booleans()):
        pool = {"integer": [1, 2, -3, 10**20], "decimal": [1.5, 2, -0.25], "uri": ["urn:one", "urn:Two:x", "/Users/3"]}[t]
        canon = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True))
    spec = specs.A("thing", t, mv=draw(st.booleans()), cs=draw(st.booleans()), canon=canon, vcanon=draw(st.integers(0, 3)) > 0)
    d = draw(st.sampled_from(["parse", "dump"]))
    base = gen.iso_datetimes() if t == "dateTime" and d == "dump" else values[t]
    if canon and t != "string":
        base = gen.pick(st.sampled_from(pool), st.sampled_from(canon), base)
    elif canon:
        base = gen.pick(st.sampled_from(canon).flatmap(gen.recased), st.sampled_from(canon), st.sampled_from(canon).flatmap(gen.near), st.just("nope"), base)
    one = gen.pick(base, base, base, foreign)
    if t == "string" and canon and spec["mv"] and draw(st.integers(0, 5)) == 0:  # the one stray value stands late
        good = draw(st.sampled_from(canon))
        return spec, d, [good] * draw(st.sampled_from([9, 10, 11, 16, 25, 64])) + draw(st.sampled_from([["nope"], ["nope", good], [good]]))
    v = draw(gen.pick(one, one, one, st.none(), gen.listed(one, 4), st.lists(one, min_size=1, max_size=4)))
    return spec, d, v


def judge_item(spec, value, direction):
    verdict, want = judged(spec["t"], value, direction)
    if verdict == "ok" and spec["canon"] and spec["vcanon"]:
        fold = (lambda x: x) if spec["cs"] else (lambda x: x.lower() if isinstance(x, str) else x)
        have, allowed = fold(want), [fold(c) for c in spec["canon"]]
        if have not in allowed:
            return "bad", 14
    return verdict, want


@prop(
    "C08", attr_cases(), quick=6000,
    rule="single and multi-valued attributes of every type, with enforced or advisory canonical values, given null, single "
         "values, lists mixing good and bad items, and values of the wrong shape; non-trivial = a list of two or more, or refused",
)
def attributes(case, rec):
    spec, direction, raw = case
    attr = specs.build_attr(spec)
    if spec["mv"] and isinstance(raw, list):
        value = [revive(v) for v in raw]
    else:
        value = revive(raw)
    got, issues = call(getattr(attr, direction), value)
    tree = issues.to_dict()
    if value is None:
        expect(got is None and not issues.has_issues(), "null was refused or changed: {!r} {}", got, tree)
        return
    if not spec["mv"]:
        try:
            verdict, want = judge_item(spec, value, direction)
        except T.Unspecified:
            return
        if verdict == "ok":
            expect(not issues.has_issues() and T.same(got, want), "{} {!r} gave {!r} {}, expected {!r}", spec, value, got, tree, want)
        else:
            rec.hit(f"{spec['t']} {value!r} refused")
            expect(got is Invalid and not issues.can_proceed(), "{} {!r} accepted as {!r}", spec, value, got)
            codes = [e["code"] for e in tree.get("_errors", [])]
            expect(len(codes) == 1 and want in (None, codes[0]) and len(tree) == 1, "{} {!r}: issues {}", spec, value, tree)
        return
    if not isinstance(value, list):
        rec.hit(f"multi-valued {spec['t']} given {value!r}")
        expect(got is Invalid and [e["code"] for e in tree.get("_errors", [])] == [2], "multi-valued attribute accepted {!r}: {!r} {}", value, got, tree)
        return
    if len(value) > 1:
        rec.hit(f"{spec['t']} mv {value!r}")
    try:
        verdicts = [judge_item(spec, v, direction) for v in value]
    except T.Unspecified:
        return
    expect(isinstance(got, list) and len(got) == len(value), "{!r} gave {!r}", value, got)
    bad = {str(i): want for i, (v, want) in enumerate(verdicts) if v == "bad"}
    rec.tag(f"bad={min(len(bad), 3)}")
    expect(set(tree) == set(bad), "{} {!r}: issues at {}, expected at {}", spec, value, sorted(tree), sorted(bad))
    for i, (verdict, want) in enumerate(verdicts):
        if verdict == "ok":
            expect(T.same(got[i], want), "item {} of {!r} became {!r}, expected {!r}", i, value, got[i], want)
            expect(issues.can_proceed((i,)), "valid item {} is not usable", i)
        else:
            expect(got[i] is Invalid, "refused item {} of {!r} is {!r}", i, value, got[i])
            codes = [e["code"] for e in tree[str(i)].get("_errors", [])]
            expect(len(codes) == 1 and want in (None, codes[0]), "item {} of {!r}: issues {}", i, value, tree[str(i)])
            expect(not issues.can_proceed((i,)), "refused item {} is usable", i)


@st.composite
def canonical_cases(draw):
    canon = draw(st.lists(st.sampled_from(["work", "Home", "OTHER", "mobile", "x y", "é", "STRASSE", "a-b", "w"]), min_size=1, max_size=4, unique=True))
    spec = specs.A("thing", "string", mv=draw(st.booleans()), cs=draw(st.booleans()), canon=canon, vcanon=draw(st.integers(0, 5)) > 0)
    if draw(st.integers(0, 4)) == 0:
        spec["t"] = "uri"
    c = st.sampled_from(canon)
    one = gen.pick(c, c.flatmap(gen.near), c.flatmap(gen.recased), c.map(lambda x: x + "\n"), c.map(lambda x: "\t" + x), c.map(lambda x: x + x),
                   st.builds(lambda x, y: f"{x} {y}", c, c), st.just(","), c.map(lambda x: x[: len(x) // 2]))
    return spec, draw(st.sampled_from(["parse", "dump"])), draw(st.lists(one, min_size=1, max_size=4)) if spec["mv"] else draw(one)


@prop("C08", canonical_cases(), quick=2000,
      rule="string and reference attributes with canonical values given these, in other letter case, and near misses of them; "
           "non-trivial = a value refused, or a list of two or more")
def canonical_values_are_compared_exactly(case, rec):
    attributes(case, rec)


# --- custom processors --------------------------------------------------------------------------


@st.composite
def processor_cases(draw):
    n = draw(st.integers(0, 3))
    fail = draw(st.one_of(st.none(), st.integers(0, 2)))
    mv = draw(st.booleans())
    v = draw(st.lists(st.one_of(st.sampled_from(["a", "b"]), st.just(5)), max_size=3) if mv else st.one_of(st.sampled_from(["a", "b"]), st.just(5), st.none()))
    return n, fail, mv, v, draw(st.sampled_from(["parse", "dump"]))


@prop("C08", processor_cases(), quick=800,
      rule="attributes with 0..3 own processors, one possibly reporting an issue: they run in order on the typed value, only when "
           "it is free of issues; non-trivial = two or more processors")
def custom_processors(case, rec):
    from src.data.attributes import Attribute

    n, fail, mv, value, direction = case
    calls = []

    def make(i):
        def process(v):
            issues = ValidationIssues()
            calls.append((i, v))
            if i == fail:
                issues.add(issue=ValidationError.bad_value_syntax(), proceed=False)
                return Invalid, issues
            return ([f"{x}{i}" for x in v] if mv else f"{v}{i}"), issues
        return process

    kw = {"parsers" if direction == "parse" else "dumpers": [make(i) for i in range(n)]}
    attr = Attribute(name="x", type_=specs.TYPES["string"], multi_valued=mv, **kw)
    got, issues = call(getattr(attr, direction), value)
    if n >= 2:
        rec.hit()
    bad = value is None or (5 in value if mv else value == 5)
    if bad:
        expect(calls == [], "processors ran on {!r}", value)
        return
    want_calls, v = [], value
    for i in range(n):
        want_calls.append((i, v))
        if i == fail:
            break  # a refused value goes to no further processor
        v = [f"{x}{i}" for x in v] if mv else f"{v}{i}"
    expect(calls == want_calls, "processors ran as {}, expected {}", calls, want_calls)
    if fail is not None and fail < n:
        expect(got is Invalid and issues.to_dict() == {"_errors": [{"code": 1}]}, "processor's issue lost: {!r} {}", got, issues.to_dict())
    else:
        expect(got == v and not issues.has_issues(), "processed value {!r}, expected {!r}", got, v)


@prop("C08", processor_cases(), quick=800,
      rule="complex attributes with 0..3 own processors of the whole value, one possibly refusing it: they run in order, only on a "
           "value free of issues, and not after a refusal; non-trivial = two or more processors")
def custom_complex_processors(case, rec):
    from src.data.attributes import Attribute, ComplexAttribute

    n, fail, mv, value, direction = case
    calls = []

    def make(i):
        def process(v):
            issues = ValidationIssues()
            calls.append((i, [x["value"] for x in v] if mv else v["value"]))
            if i == fail:
                issues.add(issue=ValidationError.bad_value_syntax(), proceed=False)
                return Invalid, issues
            for x in v if mv else [v]:
                x["value"] = f"{x['value']}{i}"
            return v, issues
        return process

    attr = ComplexAttribute(
        sub_attributes=[Attribute(name="value", type_=specs.TYPES["string"])], name="x", multi_valued=mv,
        **{"complex_parsers" if direction == "parse" else "complex_dumpers": [make(i) for i in range(n)]})
    given = None if value is None else [SCIMDataContainer({"value": x}) for x in value] if mv else SCIMDataContainer({"value": value})
    got, issues = call(getattr(attr, direction), given)
    if n >= 2:
        rec.hit()
    if value is None or (5 in value if mv else value == 5):
        expect(calls == [], "processors ran on {!r}", given)
        return
    want_calls, v = [], value
    for i in range(n):
        want_calls.append((i, v))
        if i == fail:
            break
        v = [f"{x}{i}" for x in v] if mv else f"{v}{i}"
    expect(calls == want_calls, "processors ran as {}, expected {}", calls, want_calls)
    if fail is not None and fail < n:
        expect(got is Invalid and issues.to_dict() == {"_errors": [{"code": 1}]}, "processor's issue lost: {!r} {}", got, issues.to_dict())
    else:
        have = [x["value"] for x in got] if mv else got["value"]
        expect(have == v and not issues.has_issues(), "processed value {!r}, expected {!r}", have, v)
