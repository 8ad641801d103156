import copy
from datetime import datetime, timezone

from hypothesis import strategies as st

from src.data.container import Invalid, SCIMDataContainer
from src.sorter import Sorter

from .. import attrs
from .. import gen
from .. import specs
from .c03 import as_parsed
from ..harness import Violation, call, expect, prop

A = specs.A

# words whose lower-casing is uncontroversial
WORDS = st.sampled_from(
    ["a", "A", "b", "B", "ab", "aB", "Ab", "AB", "abc", "z", "Z", "zed", "Zed", "10", "9", "_x", "[x", "Zz", "é", "É", "a b",
     "bjensen", "Bjensen", "", "common-prefix-of-some-length-1", "common-prefix-of-some-length-2", "Common-Prefix-Of-Some-Length-10", "a" * 70 + "b", "a" * 70 + "A", "A" * 70 + "c", "a" * 300, "a" * 299 + "b", "a-b", "a.b", "a_b", " b", "a ", " ", "\tz"]
)
STAMPS = ["2020-01-01T00:00:00", "2020-01-01T00:00:00+00:00", "2020-01-01T00:30:00+01:00", "2019-12-31T23:45:00+00:00",
          "2020-01-01T00:00:00.500000+00:00", "1999-06-01T10:00:00+00:00", "2020-01-01T00:00:00.000001+00:00", "2020-01-01T02:00:00-05:00"]
POOL = {
    "string": WORDS,
    "boolean": st.booleans(),
    "integer": st.one_of(st.integers(-3, 12), st.integers(-(2**60), 2**60)),
    "decimal": st.sampled_from([-1.5, -1.25, -1.2, -1.75, 0.0, 0.25, 0.251, 1.0, 1.01, 1.04, 2.0, 10.0, 1e6, 1e6 + 0.25, 1e-9, -1e-9]),
    "dateTime": st.sampled_from(STAMPS),
    "binary": st.sampled_from(["YWJj", "YWJD", "ZGVm", "MDE="]),
    "external": st.sampled_from(["http://a.example/x", "HTTP://A.example/y", "https://b.example"]),
    "uri": st.sampled_from(["/Users/1", "/users/1", "urn:a:b", "/Users/2", "/USERS/3"]),
    "scim": st.sampled_from(["/Users/1", "/users/2", "/Groups/1"]),
}

# one twin of RICH where the otherwise case-insensitive attributes are case-exact, and the other way round
# (the extension also has attributes named like the schema's own)
RICH = copy.deepcopy(specs.RICH)
RICH["ext"][0]["attrs"] += [specs.A("str"), specs.A("int", "integer"), specs.A("extMv", mv=True),
                            specs.A("extCx", "complex", subs=[specs.A("str"), specs.A("int", "integer")]),
                            specs.A("extItems", "complex", mv=True, subs=[specs.A("value", cs=True), specs.A("n", "integer"), specs.A("primary", "boolean")])]
TWIN = copy.deepcopy(RICH)
TWIN["schema"], TWIN["name"], TWIN["plural"] = "urn:example:schemas:2.0:Twin", "Twin", "Twins"
for _a in TWIN["attrs"]:
    if _a["n"] not in ("schemas", "id", "externalId", "meta"):
        _a["cs"] = not _a["cs"]
        for _s in _a["subs"]:
            if _s["n"] == "value":
                _s["n"] = "Value"
SPECS = {"RICH": RICH, "TWIN": TWIN}


def key_attrs():
    out = []
    for a in RICH["attrs"]:
        if a["n"] in ("schemas", "id", "meta"):
            continue
        out.append(a["n"])
    out += ["id", "cx.str", "cx.strCs", "cx.int", "cx.bool", "cx.dt", "meta.created", "meta.resourceType", "meta.version"]
    out += ["cxMv.value", "cxMv.int", "cxMv.type", "cxCsMv.value", "cxCsMv.display", "cxIntMv.value", "cxNoValueMv.type", "cxMv.primary"]
    return out


KEYS = key_attrs()
EXT = RICH["ext"][0]
EXT_KEYS = [f"{EXT['schema']}:{n}" for n in ("extStr", "extInt", "str", "int", "extMv", "extCx.str", "extCx.int", "extCx", "extItems.value", "extItems.n", "extItems")]


def locate(spec, key):
    """(container attrs, attr spec, sub spec or None)"""
    name, _, sub = (key.rsplit(":", 1)[1] if key in EXT_KEYS else key).partition(".")
    attr = specs.find(spec["ext"][0]["attrs"] if key in EXT_KEYS else spec["attrs"], name)
    return attr, (specs.find(attr["subs"], sub) if sub else None)


@st.composite
def attr_value(draw, attr):
    if attr["t"] != "complex":
        s = POOL[attr["t"]]
        return draw(gen.listed(s)) if attr["mv"] else draw(s)
    if not attr["mv"]:
        return {s["n"]: draw(POOL[s["t"]]) for s in attr["subs"] if draw(st.booleans())}
    items = []
    primary, n = draw(st.sampled_from([(-1, 3), (0, 3), (1, 3), (2, 3), (6, 8), (11, 12)]))
    for i in range(n if n > 3 else draw(st.integers(0, n))):
        item = {}
        value = specs.find(attr["subs"], "value")
        if value and draw(st.integers(0, 5)):
            item["value"] = draw(POOL[value["t"]])
        if specs.find(attr["subs"], "display") and draw(st.booleans()):
            item["display"] = draw(WORDS)
        if i == primary:
            item["primary"] = True
        elif draw(st.booleans()):
            item["primary"] = False
        if draw(st.booleans()):
            item["type"] = draw(WORDS) if specs.find(attr["subs"], "type") else "work"
        for name in ("int", "n"):
            if specs.find(attr["subs"], name) and draw(st.integers(0, 3)):
                item[name] = draw(POOL["integer"])
        items.append(item)
    return items


@st.composite
def cases(draw):
    key = draw(st.sampled_from(KEYS + EXT_KEYS))
    many = draw(st.integers(0, 3)) == 0
    items, which = [], []
    n = draw(st.one_of(st.integers(0, 7), st.integers(0, 7), st.integers(0, 7), st.integers(8, 24))) if not many else draw(st.sampled_from([2, 2, 2, 3, 5, 12]))
    for i in range(n):
        w = draw(st.sampled_from(["RICH", "TWIN"])) if many else "RICH"
        attr, sub = locate(SPECS[w], key)
        item = {}
        style = draw(st.integers(0, 9))
        if style < 8:
            v = draw(POOL[sub["t"]]) if sub and not attr["mv"] else draw(attr_value(attr))
            if style == 0:
                v = None
            if sub and not attr["mv"]:
                v = {sub["n"]: v}
            if key in EXT_KEYS:
                item[EXT["schema"]] = {attr["n"]: v}
            else:
                item[attr["n"]] = v
        elif key in EXT_KEYS and style == 8:
            item[EXT["schema"]] = {}
        elif sub and style == 8:
            item[attr["n"]] = [] if attr["mv"] else {}
        if draw(st.booleans()) and key != "str":
            item["str"] = draw(WORDS)
        if draw(st.integers(0, 3)) == 0 and key != "int":
            item["int"] = draw(st.integers(-3, 12))
        items.append(item)
        which.append(w)
    if draw(st.integers(0, 2)) == 0 and items:
        j = draw(st.integers(0, len(items) - 1))
        items.append(copy.deepcopy(items[j]))
        which.append(draw(st.sampled_from(["RICH", "TWIN"])) if many else "RICH")
    rep = key
    if draw(st.integers(0, 3)) == 0:
        rep = draw(gen.recased(key))
    if not many and key not in EXT_KEYS and draw(st.integers(0, 4)) == 0:
        rep = draw(gen.recased(RICH["schema"])) + ":" + rep
    return {"key": key, "rep": rep, "items": items, "which": which, "asc": draw(st.booleans()),
            "style": draw(st.sampled_from(["parse", "one", "list"])) if not many else "list"}


MISSING = object()


def reference_key(spec, key, item):
    """(value to compare, case_exact) or MISSING"""
    attr, sub = locate(spec, key)
    if key in EXT_KEYS:
        item = item.get(EXT["schema"], {})
    if attr["t"] == "complex" and not attr["mv"] and not sub:
        return MISSING  # nothing to compare
    if sub and attr["mv"]:
        items = item.get(attr["n"]) or []
        name = sub["n"].lower()
        chosen = [x.get(name) for x in items if x.get("primary") is True][:1] or [
            x[name] for x in items if x.get(name) not in (None, "")
        ]
        v = chosen[0] if chosen else None
        target = sub
    elif sub:
        v = item.get(attr["n"], {}).get(sub["n"])
        target = sub
    else:
        v = item.get(attr["n"])
        target = attr
        if attr["mv"]:
            if not v:
                return MISSING
            if attr["t"] == "complex":
                target = specs.find(attr["subs"], "value")
                chosen = [x for x in v if x.get("primary") is True]
                if not chosen or target is None:
                    return MISSING
                v = chosen[0].get("value")
            else:
                v = v[0]
    if v is None or v == "":
        return MISSING
    if target["t"] == "dateTime":
        v = datetime.fromisoformat(v)
        if v.tzinfo is None:
            v = v.replace(tzinfo=timezone.utc)
    return v, target["cs"]


def compare(a, b):
    (x, xc), (y, yc) = a, b
    if isinstance(x, str) and not (xc or yc):
        x, y = x.lower(), y.lower()
    return (x > y) - (x < y)


@prop(
    "C04", cases(), quick=9000,
    rule="lists of 0..25 resources of one or two schemas, sorted by every kind of attribute (simple, sub-attribute, "
         "multi-valued, complex multi-valued and sub-attributes of them, complex, extension), with missing/null/empty/zero/false/duplicate values; "
         "non-trivial = at least two resources carry a value",
    examples=[
        {"key": "int", "rep": "int", "items": [{"int": 1}, {"int": 0}, {"int": -1}], "which": ["RICH"] * 3, "asc": True, "style": "one"},
        {"key": "strMv", "rep": "strMv", "items": [{"strMv": []}, {"strMv": ["a"]}], "which": ["RICH"] * 2, "asc": True, "style": "one"},
        {"key": "dt", "rep": "dt", "items": [{"dt": STAMPS[0]}, {"dt": STAMPS[5]}], "which": ["RICH"] * 2, "asc": True, "style": "one"},
    ],
)
def sorts_like_reference(case, rec):
    key, asc = case["key"], case["asc"]
    contents = [as_parsed(SPECS[w], i) if (n + len(case["rep"])) % 3 == 0 else i for n, (w, i) in enumerate(zip(case["which"], case["items"]))]
    containers = [SCIMDataContainer(copy.deepcopy(i)) for i in contents]
    if asc and len(case["items"]) % 2:  # ascending is the default
        sorter, issues = call(Sorter.parse, case["rep"])
    else:
        sorter, issues = call(Sorter.parse, case["rep"], asc)
    expect(sorter is not Invalid and not issues.has_issues(), "sort attribute {!r} rejected", case["rep"])
    expect(sorter.asc is asc, "sort direction lost")
    rich = [specs.build(SPECS[w]) for w in case["which"]]
    if case["style"] == "one":
        result = call(sorter, list(containers), specs.build(RICH))
    else:
        result = call(sorter, list(containers), rich)
    keys = [reference_key(SPECS[w], key, i) for w, i in zip(case["which"], case["items"])]
    index = {id(c): i for i, c in enumerate(containers)}
    expect(isinstance(result, list) and len(result) == len(containers), "result is not a list of the same length")
    try:
        order = [index[id(c)] for c in result]
    except KeyError:
        raise Violation("result contains something that was not in the input")
    expect(sorted(order) == list(range(len(containers))), "result is not a permutation of the input: {}", order)
    for c, i in zip(containers, contents):
        expect(c.to_dict() == i, "sorting changed a resource")
    present = [k for k in keys if k is not MISSING]
    rec.tag(f"{'asc' if asc else 'desc'}")
    if len(present) >= 2:
        rec.hit(f"by {case['rep']} asc={asc}: {case['items']!r}")
    mixed = len({k[1] for k in present if isinstance(k[0], str)}) > 1
    if mixed and len(present) > 2:
        rec.tag("mixed-case-sensitivity")
        missing = [i for i in order if keys[i] is MISSING]
        block = order[-len(missing):] if asc else order[:len(missing)]
        expect(not missing or block == sorted(missing), "resources without a value are not kept together in order: {}", order)
        return
    import functools

    def cmp(i, j):
        a, b = keys[i], keys[j]
        if a is MISSING or b is MISSING:
            return (a is MISSING) - (b is MISSING)
        return compare(a, b)

    if not present:
        want = list(range(len(containers)))
    else:
        want = sorted(range(len(containers)), key=functools.cmp_to_key(cmp), reverse=not asc)
    if order != want:
        raise Violation(f"sort by {case['rep']!r} asc={asc} of {case['items']!r}: got order {order}, expected {want}")
    again = call(sorter, list(result), specs.build(RICH)) if case["style"] == "one" else None
    if again is not None:
        expect([id(x) for x in again] == [id(x) for x in result], "sorting a sorted list changed it")


bad_names = st.one_of(
    st.sampled_from(["", " ", "a.b.c", "a b", ".a", "a.", "urn:x:", "a[b]", "a-b.c!", "$", "a..b", "ref$", ":"]),
    gen.any_text(10),
)


@prop("C04", st.tuples(bad_names, st.booleans()), quick=1500,
      rule="any text as sort attribute: accepted exactly when it is an attribute reference; non-trivial = rejected")
def sort_attribute_accepted_iff_valid(case, rec):
    text, asc = case
    sorter, issues = call(Sorter.parse, text, asc)
    good = attrs.parse_ref(text) is not None
    expect((sorter is Invalid) == (not good), "sort attribute {!r}: {}", text, "accepted" if good is False else "rejected")
    expect(issues.has_issues() == (not good), "issues disagree with the outcome for {!r}", text)
    if not good:
        rec.hit(repr(text))
