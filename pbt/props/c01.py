from hypothesis import strategies as st

from src.data.container import Invalid
from src.filter import Filter

from .. import attrs
from .. import filters as F
from .. import gen
from ..harness import Violation, call, expect, prop

EXAMPLES = [
    {
        "text": "a[b pr] and (c pr) and d[e pr]",
        "tree": {
            "op": "and",
            "sub_ops": [
                {"op": "complex", "attr_rep": "a", "sub_op": {"op": "pr", "attr_rep": "b"}},
                {"op": "pr", "attr_rep": "c"},
                {"op": "complex", "attr_rep": "d", "sub_op": {"op": "pr", "attr_rep": "e"}},
            ],
        },
    },
    {"text": "a eq 9007199254740993", "tree": {"op": "eq", "attr_rep": "a", "value": 2**53 + 1}},
]


def check_tree(text, tree):
    parsed, issues = call(Filter.parse, text)
    expect(parsed is not Invalid, "well-formed filter rejected: {!r} {}", text, issues.to_dict(msg=True))
    expect(not issues.has_issues(), "well-formed filter parsed with issues: {!r}", text)
    got = call(parsed.to_dict)
    if not F.same_tree(got, tree):
        raise Violation(f"wrong tree for {text!r}: got {got!r}, expected {tree!r}")
    return parsed


def mark(case, rec):
    n = case["text"].count("(") + case["text"].count("[")
    rec.tag(f"top={case['tree']['op']}")
    if n or case["tree"]["op"] in ("and", "or", "not"):
        rec.hit(case["text"])


@prop(
    "C01", F.filters(3), quick=4000, examples=EXAMPLES,
    rule="random AST (depth<=3) rendered with random whitespace, redundant groups, quoting, "
         "letter case; non-trivial = has a logical operator, group or complex attribute",
)
def text_to_tree(case, rec):
    mark(case, rec)
    check_tree(case["text"], case["tree"])


@prop(
    "C01", F.long_filters(), quick=3000,
    rule="long flat chains (3-8 operands) mixing groups, bracketed attributes and strings",
)
def long_text_to_tree(case, rec):
    mark(case, rec)
    check_tree(case["text"], case["tree"])


@prop(
    "C01", F.filters(2).map(lambda c: c["tree"]), quick=2000,
    rule="tree -> canonical text -> tree round trip; equal trees compare equal, and a filter "
         "differing in one leaf compares unequal; non-trivial = compound tree",
)
def canonical_round_trip(tree, rec):
    text = F.render(tree)
    if text is None:
        return
    if tree["op"] in ("and", "or", "not", "complex"):
        rec.hit(text)
    parsed = check_tree(text, tree)
    again = check_tree("( " + text + " )", tree)
    expect(call(lambda: parsed == again), "same tree compares unequal: {!r}", text)
    for thing in (None, text, 5, parsed.to_dict()):
        expect(not call(lambda: parsed == thing), "a filter compares equal to {!r}", thing)
    other = check_tree("not (" + text + ")", {"op": "not", "sub_op": tree})
    expect(not call(lambda: parsed == other), "negated filter compares equal: {!r}", text)
    expect(not call(lambda: other == parsed), "negated filter compares equal: {!r}", text)


def _depth(tree):
    subs = tree.get("sub_ops") or ([tree["sub_op"]] if "sub_op" in tree else [])
    return 1 + max([_depth(s) for s in subs], default=0)


@st.composite
def _one_leaf_changed(draw):
    case = draw(F.filters(2))
    leaves = []

    def walk(t, path):
        if "sub_ops" in t:
            for i, s in enumerate(t["sub_ops"]):
                walk(s, path + ["sub_ops", i])
        elif "sub_op" in t:
            walk(t["sub_op"], path + ["sub_op"])
        else:
            leaves.append(path)

    walk(case["tree"], [])
    case["path"] = draw(st.sampled_from(leaves))
    case["how"] = draw(st.sampled_from(["attr", "op", "value", "value", "order", "nest"]))
    multi = []

    def walk_multi(t, path):
        if "sub_ops" in t:
            multi.append(path)
            for i, s in enumerate(t["sub_ops"]):
                walk_multi(s, path + ["sub_ops", i])
        elif "sub_op" in t:
            walk_multi(t["sub_op"], path + ["sub_op"])

    walk_multi(case["tree"], [])
    if case["how"] in ("order", "nest"):
        if not multi:
            case["how"] = "value"
        else:
            case["path"] = draw(st.sampled_from(multi))
            case["at"] = draw(st.integers(0, 6))
            return case
    leaf = case["tree"]
    for p in case["path"]:
        leaf = leaf[p]
    value = leaf.get("value")
    if case["how"] == "attr":
        case["name"] = draw(gen.near(leaf["attr_rep"]))
        if case["name"].lower() == leaf["attr_rep"].lower() or attrs.parse_ref(case["name"]) is None or not case["name"].isalnum():
            case["name"] = "zzz"
        if case["name"].lower() in ("and", "or", "not"):
            case["name"] = "zzz"
    if isinstance(value, str):
        case["new"] = draw(gen.near(value).filter(lambda t: t != value))
    elif isinstance(value, bool):
        case["new"] = draw(st.sampled_from([not value, str(value).lower()]))
    elif isinstance(value, (int, float)):
        case["new"] = draw(st.sampled_from([-value or 7, value + 1, value * 2 or 5, str(value)]))
    else:
        case["new"] = draw(st.sampled_from(["null", "", 5]))
    return case


@prop(
    "C01", _one_leaf_changed(), quick=1500,
    rule="filters differing from the original in exactly one leaf (name, operator or value), the order or the grouping of operands, "
         "must compare unequal, in both directions; non-trivial = leaf below the root",
)
def equality_is_exact(case, rec):
    import copy

    tree = case["tree"]
    other = copy.deepcopy(tree)
    leaf = other
    for p in case["path"]:
        leaf = leaf[p]
    if case["how"] == "order":
        ops = leaf["sub_ops"]
        i = case["at"] % (len(ops) - 1)
        ops[i], ops[i + 1] = ops[i + 1], ops[i]
        if F.same_tree(ops[i], ops[i + 1]):
            return
    elif case["how"] == "nest":
        ops = leaf["sub_ops"]
        i = case["at"] % (len(ops) - 1)
        if len(ops) < 3:
            leaf["op"] = "or" if leaf["op"] == "and" else "and"
        else:
            ops[i : i + 2] = [{"op": leaf["op"], "sub_ops": ops[i : i + 2]}]
    elif case["how"] == "attr":
        leaf["attr_rep"] = case.get("name", "zzz")
    elif case["how"] == "op":
        leaf["op"] = "ne" if leaf["op"] == "eq" else ("eq" if "value" in leaf else "pr")
        if leaf["op"] == "pr":
            leaf["attr_rep"] = "zzz"
    else:
        if "value" not in leaf:
            leaf["attr_rep"] = "zzz"
        else:
            if leaf["op"] not in ("eq", "ne") and type(case["new"]) is not type(leaf["value"]):
                leaf["op"] = "eq"
            elif leaf["value"] == case["new"] and type(leaf["value"]) is type(case["new"]):
                return
            leaf["value"] = case["new"]
    a, b = F.render(tree), F.render(other)
    if a is None or b is None:
        return
    fa, fb = check_tree(a, tree), check_tree(b, other)
    expect(call(lambda: fa == check_tree(a, tree)), "the same filter parsed again compares unequal: {!r}", a)
    if case["path"]:
        rec.hit(f"{a}  !=  {b}")
    expect(not call(lambda: fa == fb), "different filters compare equal: {!r} vs {!r}", a, b)
    expect(not call(lambda: fb == fa), "different filters compare equal: {!r} vs {!r}", b, a)


@st.composite
def _internal_looking(draw):
    """Strings which look like whatever a parser may put in the place of a part of this very filter."""
    n = draw(st.integers(1, 4))
    atoms = []
    for _ in range(n):
        attr = draw(st.sampled_from(["a", "userName", "urn:x:1.0:Y:b", "displayName"]))
        op = draw(st.sampled_from(["eq", "co", "ne"]))
        before, after = draw(st.sampled_from(["", "", "x ", "('"])), draw(st.sampled_from(["", "", " y", "')"]))
        kind = draw(st.sampled_from(["plain", "group", "complex", "not"]))
        atoms.append([attr, op, before, after, kind])
    word = draw(st.sampled_from([" and ", " or "]))
    return {"atoms": atoms, "word": word, "which": draw(st.lists(st.integers(0, 20), min_size=n, max_size=n)), "digits": draw(st.sampled_from([1, 2, 2, 3]))}


def _internal_text(case, indexes):
    text, trees, marks = "", [], []
    for i, (attr, op, before, after, kind) in enumerate(case["atoms"]):
        if i:
            text += case["word"]
        value = f"{before}|&PLACE_HOLDER_{indexes[i]}&|{after}"
        tree = {"op": op, "attr_rep": attr if kind != "complex" else "value", "value": value}
        marks.append(len(text))
        open_, close = {"plain": ("", ""), "group": ("(", ")"), "complex": (attr + "[", "]"), "not": ("not (", ")")}[kind]
        text += open_ + tree["attr_rep"] + " " + op + " "
        marks.append(len(text))
        text += '"' + value + '"' + close
        if kind == "complex":
            tree = {"op": "complex", "attr_rep": attr, "sub_op": tree}
        elif kind == "not":
            tree = {"op": "not", "sub_op": tree}
        trees.append(tree)
    return text, trees[0] if len(trees) == 1 else {"op": case["word"].strip(), "sub_ops": trees}, marks


@prop(
    "C01", _internal_looking(), quick=1500,
    rule="1-4 comparisons, grouped, negated or in brackets, whose strings contain the parser's own placeholder for one of the positions "
         "of this text; every case is non-trivial",
)
def strings_are_never_interpreted(case, rec):
    digits = case["digits"]
    indexes = ["0" * digits] * len(case["atoms"])
    for _ in range(2):  # the positions do not depend on the digits themselves
        text, tree, marks = _internal_text(case, indexes)
        indexes = [str(marks[w % len(marks)]).zfill(digits)[-digits:] for w in case["which"]]
    text, tree, _ = _internal_text(case, indexes)
    rec.hit(text)
    check_tree(text, tree)
