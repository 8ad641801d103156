import copy
from datetime import datetime

from hypothesis import strategies as st

from src.data.container import Invalid, SCIMDataContainer
from src.data.operator import MatchResult
from src.filter import Filter

from .. import evalmodel as M
from .. import filters as F
from .. import gen
from .. import specs
from ..harness import Violation, call, expect, prop

DT = ["2020-01-01T00:00:00", "2020-01-01T00:00:00Z", "2020-01-01T01:00:00+01:00", "2021-06-01T12:00:00+00:00",
      "1999-12-31T23:59:59.5+00:00", "2020-01-01T00:00:01Z"]
POOL = {
    "string": st.one_of(st.sampled_from(["abc", "ABC", "Abc", "ab", "c", "b", "zz", "", "AbCd", "é", "É", "5", " ", "\t", "abc ", " abc"]), gen.words),
    "boolean": st.booleans(),
    "integer": st.integers(-3, 3),
    "decimal": st.sampled_from([-1.5, 0.0, 1.0, 2.0, 2.5, 1e3, 2.01, 2.04, 1.0000001]),
    "dateTime": st.sampled_from(DT),
    "binary": st.sampled_from(["YWJj", "ZGVm", "MDE="]),
    "external": st.sampled_from(["http://a.example/x", "HTTP://A.example/x", "https://b.example"]),
    "uri": st.sampled_from(["/Users/1", "/users/1", "urn:a:b", "/Users/2"]),
    "scim": st.sampled_from(["/Users/1", "/users/1", "/Groups/1"]),
}


@st.composite
def small_value(draw, spec, nulls=True):
    if nulls and draw(st.integers(0, 9)) == 0:
        return None
    if spec["t"] != "complex":
        s = POOL[spec["t"]]
        return draw(gen.listed(s)) if spec["mv"] else draw(s)
    obj = small_object(spec["subs"])
    return draw(gen.listed(obj)) if spec["mv"] else draw(obj)


@st.composite
def small_object(draw, attrs, density=6):
    out = {}
    for a in attrs:
        if draw(st.integers(0, 9)) < density:
            out[a["n"]] = draw(small_value(a))
    return out


RICH_TOP = [a for a in specs.RICH["attrs"] if a["n"] not in ("schemas", "meta", "id", "externalId")]
USER_TOP = [specs.find(specs.USER["attrs"], n) for n in
            ("userName", "name", "title", "active", "emails", "phoneNumbers", "profileUrl", "groups", "addresses")]
# an extension whose attributes have the same names as attributes of the schema it extends
TWINS = dict(specs.RICH, schema="urn:example:schemas:2.0:Twins", name="Twins", plural="Twins", ext=[{
    "schema": "urn:example:schemas:extension:2.0:Twins",
    "attrs": [specs.A("str", cs=True), specs.A("int", "integer"), specs.A("bool", "boolean"), specs.A("extStr"),
              specs.A("cxMv", "complex", mv=True, subs=[specs.A("value"), specs.A("type"), specs.A("int", "integer")])]}])
SPECS = {"RICH": (specs.RICH, RICH_TOP), "USER": (specs.USER, USER_TOP), "TWINS": (TWINS, [a for a in RICH_TOP if a["n"] in ("str", "int", "bool", "cxMv")])}


@st.composite
def lit_for(draw, spec, op):
    t = spec["t"]
    if t == "complex":
        sub = specs.find(spec["subs"], "value")
        t = sub["t"] if sub else "string"
    if draw(st.integers(0, 7)) == 0:  # any literal, also of another type
        return draw(F.literal(op))[1]
    if op in F.STR_OPS or (op in F.ORD_OPS and t == "boolean"):
        t = "string" if t in ("boolean", "integer", "decimal") else t
    v = draw(POOL[t])
    if isinstance(v, str) and op in F.STR_OPS and draw(st.booleans()):
        i = draw(st.integers(0, len(v)))
        j = draw(st.integers(i, len(v)))
        v = v[i:j]
    if isinstance(v, str) and draw(st.integers(0, 3)) == 0:
        v = v.swapcase()
    return v


@st.composite
def tree(draw, attrs, depth, inner=False):
    kind = draw(st.integers(0, 9)) if depth else 0
    if kind <= 3 or (kind == 4 and inner):
        if draw(st.integers(0, 14)) == 0:
            name, spec = "noSuchAttr", specs.A("noSuchAttr")
        else:
            spec = draw(st.sampled_from(attrs))
            name = spec["n"]
            if draw(st.integers(0, 5)) == 0 and name != "$ref":
                name = draw(gen.recased(name))
        op = draw(st.sampled_from(["pr", "eq", "eq"] + F.BINARY))
        if not inner and spec["t"] == "complex" and draw(st.integers(0, 2)) > 0:
            sub = draw(st.sampled_from(spec["subs"]))
            if op == "pr":
                return F.atom_tree("pr", name, sub["n"])
            return F.atom_tree(op, name, sub["n"], draw(lit_for(sub, op)))
        if op == "pr":
            return F.atom_tree("pr", name, "")
        return F.atom_tree(op, name, "", draw(lit_for(spec, op)))
    if kind == 4:
        cx = [a for a in attrs if a["t"] == "complex"]
        spec = draw(st.sampled_from(cx or attrs)) if draw(st.integers(0, 19)) else draw(st.sampled_from(attrs))
        subs = spec["subs"] or [specs.A("value")]
        return {"op": "complex", "attr_rep": spec["n"], "sub_op": draw(tree(subs, depth - 1, True))}
    if kind in (5, 6):
        return {"op": "not", "sub_op": draw(tree(attrs, depth - 1, inner))}
    word = "and" if kind in (7, 8) else "or"
    n = draw(st.integers(2, 3))
    return {"op": word, "sub_ops": [draw(tree(attrs, depth - 1, inner)) for _ in range(n)]}


def of(which):
    """The specification and the attributes filters talk about."""
    if isinstance(which, str):
        return SPECS[which]
    return which, [a for a in which["attrs"] if a["n"] not in ("schemas", "meta", "id", "externalId")]


@st.composite
def qualified(draw, node, spec):
    """The same tree with some references written with the schema, and some aimed at an extension or at an unknown schema."""
    if "sub_ops" in node:
        return dict(node, sub_ops=[draw(qualified(s, spec)) for s in node["sub_ops"]])
    if node["op"] == "not":
        return dict(node, sub_op=draw(qualified(node["sub_op"], spec)))
    how = draw(st.integers(0, 5))
    if how <= 2:
        schema = spec["schema"]
    elif how <= 4 and spec["ext"]:
        e = draw(st.sampled_from(spec["ext"]))
        sub = draw(tree(e["attrs"], 0))
        return dict(sub, attr_rep=e["schema"] + ":" + sub["attr_rep"]) if draw(st.booleans()) else dict(
            sub, attr_rep=draw(gen.recased(e["schema"])) + ":" + sub["attr_rep"])
    elif how == 5 and draw(st.integers(0, 3)) == 0:
        schema = "urn:no:such:1.0:Schema"
    else:
        return node
    return dict(node, attr_rep=draw(gen.recased(schema)) + ":" + node["attr_rep"])


@st.composite
def cases(draw):
    which = draw(st.sampled_from(["RICH", "RICH", "USER", "random", "random", "TWINS"]))
    if which == "random":
        which = draw(specs.resource_specs(max_attrs=3))
    spec, attrs = of(which)
    data = draw(small_object(attrs, draw(st.sampled_from([3, 6, 9]))))
    node = draw(tree(attrs, draw(st.sampled_from([0, 1, 2, 3]))))
    if which == "TWINS" or draw(st.integers(0, 3)) == 0:
        node = draw(qualified(node, spec))
        for e in spec["ext"]:
            if draw(st.integers(0, 3)):
                data[e["schema"]] = draw(small_object(e["attrs"], 7))
    return {"spec": which, "data": data, "tree": node, "strict": draw(st.booleans())}


def flattened(spec, data, node):
    """Attributes, data and tree with every reference reduced to one plain name, for the evaluator."""
    attrs = [dict(a) for a in spec["attrs"]]
    data = dict(data)
    known = {spec["schema"].lower(): ""}
    for i, e in enumerate(spec["ext"]):
        known[e["schema"].lower()] = f"ext{i}|"
        attrs += [dict(a, n=f"ext{i}|" + a["n"]) for a in e["attrs"]]
        data.update({f"ext{i}|" + k: v for k, v in (data.pop(e["schema"], None) or {}).items()})

    def walk(t):
        if "sub_ops" in t:
            return dict(t, sub_ops=[walk(s) for s in t["sub_ops"]])
        if t["op"] == "not":
            return dict(t, sub_op=walk(t["sub_op"]))
        schema, _, name = t["attr_rep"].rpartition(":")
        if not schema:
            return t
        return dict(t, attr_rep=known.get(schema.lower(), "unknown|") + name)

    return attrs, data, walk(node)


def outcome(result):
    if result == MatchResult.passed():
        return "P"
    if result == MatchResult.missing_data():
        return "M"
    if result == MatchResult.failed() or result == MatchResult.failed_no_attr():
        return "F"
    raise Violation(f"unknown filter result {result!r}")


def run_filter(text, data, schema, strict):
    parsed, issues = call(Filter.parse, text)
    expect(parsed is not Invalid, "well-formed filter rejected: {!r} {}", text, issues.to_dict())
    data = SCIMDataContainer(copy.deepcopy(data))
    if strict and len(text) % 2:  # strict is the default
        return call(parsed, data, schema)
    return call(parsed, data, schema, strict)


def as_parsed(spec, data):
    """The same data as parsing hands it on: date-times are objects."""

    def value(a, v):
        if isinstance(v, list):
            return [value(a, x) for x in v]
        if a["t"] == "complex" and isinstance(v, dict):
            return members(a["subs"], v)
        if a["t"] == "dateTime" and isinstance(v, str):
            return datetime.fromisoformat(v)
        return v

    def members(attrs, d):
        return {k: value(specs.find(attrs, k), v) if specs.find(attrs, k) else v for k, v in d.items()}

    out = members(spec["attrs"], data)
    for e in spec["ext"]:
        if isinstance(out.get(e["schema"]), dict):
            out[e["schema"]] = members(e["attrs"], out[e["schema"]])
    return out


@prop(
    "C03", cases(), quick=8000,
    rule="random filter tree (depth<=3, incl. unknown attributes, type-mismatched literals, references qualified by the main, an "
         "extension's or an unknown schema) over built-in, rich and random schemas x random resource "
         "data (missing, null, empty, multi-valued, mixed case) judged by an independent evaluator, strict and "
         "lenient; non-trivial = the oracle specifies the outcome and at least one referenced attribute has data",
    examples=[
        {"spec": "RICH", "data": {"str": "abc"}, "tree": {"op": "gt", "attr_rep": "str", "value": 5}, "strict": True},
        {"spec": "RICH", "data": {"cxMv": [{"value": "x"}]}, "tree": {"op": "pr", "attr_rep": "cxMv"}, "strict": True},
        {"spec": "RICH", "data": {"str": "abc"}, "strict": True, "tree": {"op": "and", "sub_ops": [
            {"op": "pr", "attr_rep": "str"}, {"op": "pr", "attr_rep": "noSuchAttr"}]}},
        {"spec": "RICH", "data": {"dt": "2020-01-01T00:00:00"}, "strict": True,
         "tree": {"op": "gt", "attr_rep": "dt", "value": "2019-01-01T00:00:00Z"}},
    ],
)
def matches_reference(case, rec):
    spec, _ = of(case["spec"])
    text = F.render(case["tree"])
    if text is None or "\\" in text:
        return
    schema = specs.build(spec)
    result = run_filter(text, case["data"], schema, case["strict"])
    got = outcome(result)
    parsed = as_parsed(spec, case["data"])
    if parsed != case["data"]:
        rec.tag("date-times")
        again = outcome(run_filter(text, parsed, schema, case["strict"]))
        expect(again == got, "filter {!r} on {!r}: {} for date-time objects, {} for their texts", text, case["data"], again, got)
    try:
        attrs, data, node = flattened(spec, case["data"], case["tree"])
        want = M.evaluate(node, data, attrs, case["strict"])
    except M.Unspecified:
        rec.tag("unspecified")
        return
    want = {"N": "F"}.get(want, want)
    rec.tag(f"outcome={want}")
    if case["data"]:
        rec.hit(f"{text}  on {case['data']!r} strict={case['strict']} -> {want}")
    if got != want:
        raise Violation(f"filter {text!r} on {case['data']!r} strict={case['strict']}: got {got}, expected {want}")
    if got == "M":
        try:
            bool(result)
        except ValueError:
            pass
        else:
            raise Violation("undecidable result has a truth value")
    else:
        expect(bool(result) == (got == "P"), "truth value of the result disagrees with its status")
    for value in (True, False):
        same = {"P": True, "F": False}.get(got) is value
        expect((result == value) == same and (result != value) != same, "result {} == {} gave {}", got, value, result == value)


@st.composite
def two(draw):
    c = draw(cases())
    spec, attrs = of(c["spec"])
    c["other"] = draw(tree(attrs, 1))
    c["third"] = draw(tree(attrs, 1))
    return c


@prop(
    "C03", two(), quick=2500,
    rule="metamorphic laws on arbitrary sub-filters: operand order of and/or is irrelevant, x and x = x, grouping is "
         "associative, adding an or-operand never loses a match; non-trivial = non-empty data",
)
def boolean_laws(case, rec):
    spec, _ = of(case["spec"])
    schema = specs.build(spec)
    a, b, c = (F.render(case[k]) for k in ("tree", "other", "third"))
    if None in (a, b, c) or "\\" in a + b + c:
        return
    if case["data"]:
        rec.hit(f"{a} | {b} | {c} on {case['data']!r}")

    def run(t):
        return outcome(run_filter(t, case["data"], schema, case["strict"]))

    for w in ("and", "or"):
        x, y = run(f"({a}) {w} ({b})"), run(f"({b}) {w} ({a})")
        expect(x == y, "{} is not commutative for {!r}, {!r}: {} vs {}", w, a, b, x, y)
        x, y = run(f"(({a}) {w} ({b})) {w} ({c})"), run(f"({a}) {w} (({b}) {w} ({c}))")
        expect(x == y, "{} is not associative for {!r}, {!r}, {!r}: {} vs {}", w, a, b, c, x, y)
        z = run(f"({a}) {w} ({b}) {w} ({c})")
        expect(z == y, "{} chain differs from grouping for {!r}, {!r}, {!r}", w, a, b, c)
    ra, rb = run(a), run(b)
    expect(run(f"({a}) and ({a})") == ra, "x and x differs from x for {!r}", a)
    expect(run(f"({a}) or ({a})") == ra, "x or x differs from x for {!r}", a)
    both = run(f"({a}) and ({b})")
    expect((both == "P") == (ra == "P" and rb == "P"), "conjunction of {!r} ({}) and {!r} ({}) gave {}", a, ra, b, rb, both)
    either = run(f"({a}) or ({b})")
    expect((either == "P") == (ra == "P" or rb == "P"), "disjunction of {!r} ({}) and {!r} ({}) gave {}", a, ra, b, rb, either)
    neg = run(f"not ({a})")
    if ra == "P" and case["strict"]:
        expect(neg == "F", "both {!r} and its negation match", a)


@st.composite
def item_cases(draw):
    which = draw(st.sampled_from(["RICH", "USER", "random"]))
    if which == "random":
        which = draw(specs.resource_specs())
    spec, attrs = of(which)
    cx = [a for a in attrs if a["t"] == "complex" and a["mv"]]
    if not cx:
        which = "USER"
        cx = [a for a in of(which)[1] if a["t"] == "complex" and a["mv"]]
    attr = draw(st.sampled_from(cx))
    items = draw(st.lists(small_object(attr["subs"], 7), min_size=1, max_size=3))
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 13]))
    order = draw(st.lists(st.integers(0, len(items) - 1), min_size=n, max_size=n))
    wanted = items[draw(st.sampled_from([order[-1], order[-1], order[0]]))]
    parts = []
    for s in attr["subs"]:  # what is true of the wanted item
        v = wanted.get(s["n"])
        one = v[-1] if isinstance(v, list) and v else v
        if one in (None, [], "") or s["n"] == "$ref" or draw(st.integers(0, 2)) == 0:
            continue
        parts.append(F.atom_tree(draw(st.sampled_from(["eq", "eq", "eq", "ge", "sw"])) if isinstance(one, str) and s["t"] == "string" else "eq", s["n"], "", one))
    if not parts or draw(st.integers(0, 3)) == 0:
        parts.append(draw(tree(attr["subs"], 1, True)))
    sub = parts[0] if len(parts) == 1 else {"op": draw(st.sampled_from(["and", "and", "or"])), "sub_ops": parts}
    if draw(st.integers(0, 5)) == 0:
        sub = {"op": "not", "sub_op": sub}
    node = {"op": "complex", "attr_rep": attr["n"], "sub_op": sub}
    if draw(st.integers(0, 5)) == 0:
        node = {"op": "not", "sub_op": node}
    return {"spec": which, "tree": node, "data": {attr["n"]: [copy.deepcopy(items[i]) for i in order]}, "strict": draw(st.booleans())}


@prop(
    "C03", item_cases(), quick=3000,
    rule="value filters describing one of up to 13 items of a multi-valued complex attribute: match exactly if the reference says that "
         "some single item satisfies them; non-trivial = four or more items",
)
def items_are_all_considered(case, rec):
    if len(next(iter(case["data"].values()))) > 3:
        rec.hit(f"{case['tree']} over {case['data']!r}")
    matches_reference(case, rec)


@st.composite
def path_cases(draw):
    """attr.sub <op> value over items in which the sub-attribute is often not there, null or empty."""
    which = draw(st.sampled_from(["RICH", "USER", "random"]))
    if which == "random":
        which = draw(specs.resource_specs())
    spec, attrs = of(which)
    cx = [a for a in attrs if a["t"] == "complex" and a["mv"]]
    if not cx:
        which = "RICH"
        cx = [a for a in of(which)[1] if a["t"] == "complex" and a["mv"]]
    attr = draw(st.sampled_from(cx))
    sub = draw(st.sampled_from(attr["subs"] + [s for s in attr["subs"] if s["n"].lower() == "value"] * 3))
    op = draw(st.sampled_from(["pr", "pr", "eq", "ne", "ne"] + F.BINARY))
    value = draw(lit_for(sub, "eq" if op == "pr" else op))
    blank = "" if sub["t"] == "string" and not sub["mv"] else [] if sub["mv"] else None
    items = []
    for _ in range(draw(st.integers(0, 4))):
        how = draw(st.integers(0, 4))
        items.append({} if how == 0 else {sub["n"]: None} if how == 1 else {sub["n"]: blank} if how == 2 else {sub["n"]: draw(small_value(sub, False))})
        if draw(st.integers(0, 3)) == 0:
            other = draw(st.sampled_from(attr["subs"]))
            items[-1].setdefault(other["n"], draw(small_value(other)))
    plain = sub["n"].lower() == "value" and draw(st.booleans())  # the default of the complex attribute
    node = F.atom_tree(op, attr["n"], "" if plain else sub["n"], value)
    if draw(st.integers(0, 4)) == 0:
        node = {"op": "not", "sub_op": node}
    return {"spec": which, "tree": node, "data": {attr["n"]: items}, "strict": draw(st.booleans())}


@prop(
    "C03", path_cases(), quick=3000,
    rule="a sub-attribute of a multi-valued complex attribute compared or asked for, over items in which it is often missing, null or "
         "empty, strict and lenient, judged by the reference; non-trivial = two or more items",
)
def sparse_items(case, rec):
    if len(next(iter(case["data"].values()))) > 1:
        rec.hit(f"{case['tree']} over {case['data']!r} strict={case['strict']}")
    matches_reference(case, rec)


@st.composite
def itself(draw):
    text = draw(st.one_of(gen.any_text(), st.text(max_size=8), gen.long_text, gen.words))
    text = text.replace("\\", "/").replace('"', "'")
    i = draw(st.integers(0, len(text)))
    return {"text": text, "cut": i, "attr": draw(st.sampled_from(["str", "strCs", "strMv", "strCsMv", "cx.str", "cx.strCs", "cxMv.value", "cxCsMv.value", "cxMv"])),
            "strict": draw(st.booleans())}


@prop(
    "C03", itself(), quick=2000,
    rule="any text (all of Unicode) stored in a string attribute, case-exact or not, single, multi-valued or inside a complex attribute, "
         "is equal to itself, contains itself, starts and ends with its own parts, and is present unless empty; non-trivial = has a "
         "non-ASCII or white-space character",
)
def a_text_equals_itself(case, rec):
    text, cut, (attr, _, sub) = case["text"], case["cut"], case["attr"].partition(".")
    value = {sub: text} if sub else {"value": text} if attr == "cxMv" else text
    data = {attr: [value] if attr.endswith("Mv") else value}
    schema = specs.build(specs.RICH)
    if any(ord(c) > 127 or c.isspace() for c in text):
        rec.hit(f"{case['attr']}: {text!r}")
    for op, v, want in [("eq", text, "P"), ("ne", text, "F"), ("co", text, "P"), ("sw", text[:cut], "P"), ("ew", text[cut:], "P"), ("ge", text, "P"),
                        ("le", text, "P"), ("gt", text, "F"), ("lt", text, "F"), ("eq", text + "x", "F")]:
        # lower-casing a part may differ from the part of the lower-cased
        if op in ("sw", "ew") and not all(len(c.lower()) == 1 and c != "Σ" for c in text) and "Cs" not in case["attr"]:
            continue
        got = outcome(run_filter(f'{case["attr"]} {op} "{v}"', data, schema, case["strict"]))
        expect(got == want, "{} {} {!r} on {!r}: {}", case["attr"], op, v, data, got)
    got = outcome(run_filter(f'{case["attr"]} pr', data, schema, case["strict"]))
    expect(got == ("P" if text else "F"), "{} pr on {!r}: {}", case["attr"], data, got)
