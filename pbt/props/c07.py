import copy
import json

from hypothesis import strategies as st

from src.data.container import AttrRep, Invalid
from src.data.path import PatchPath
from src.filter import Filter

from .. import attrs
from .. import filters as F
from .. import gen
from ..harness import Violation, call, expect, prop
from .c02 import ATOMS, TOK, token_trees

TOP = [n for n in gen.ATTR_NAMES]


@st.composite
def refs(draw, sub=True):
    schema = draw(st.sampled_from(gen.CORE_URNS)) if draw(st.integers(0, 3)) == 0 else ""
    attr = draw(st.sampled_from(TOP))
    s = draw(st.sampled_from(gen.SUB_NAMES)) if sub and draw(st.booleans()) else ""
    return schema, attr, s


def text_of(ref):
    schema, attr, sub = ref
    return (schema + ":" if schema else "") + attr + ("." + sub if sub else "")


@st.composite
def valid(draw):
    if draw(st.integers(0, 3)) == 0:
        ref = draw(refs())
        return {"text": text_of(ref), "ref": ref, "tree": None, "sub": None}
    ref = draw(refs(sub=False))
    inner = draw(F.filters(2, inside_complex=True))
    sub = draw(st.sampled_from(gen.SUB_NAMES)) if draw(st.booleans()) else None
    text = text_of(ref) + "[" + inner["text"] + "]" + ("." + sub if sub else "")
    return {"text": text, "ref": ref, "sub": sub,
            "tree": {"op": "complex", "attr_rep": text_of(ref), "sub_op": inner["tree"]}}


def check_parsed(path, ref, tree, sub, text):
    have = (path.attr_rep.schema, path.attr_rep.attr, path.attr_rep.sub_attr)
    expect(have == tuple(ref), "path {!r} targets {!r}, expected {!r}", text, have, ref)
    if tree is None:
        expect(path.complex_filter is None and path.complex_filter_attr_rep is None,
               "path {!r} got a value filter", text)
        return
    expect(path.complex_filter is not None, "path {!r} lost its value filter", text)
    got = call(path.complex_filter.to_dict)
    if not F.same_tree(got, tree):
        raise Violation(f"path {text!r}: value filter {got!r}, expected {tree!r}")
    if sub is None:
        expect(path.complex_filter_attr_rep is None, "path {!r} got a sub-attribute", text)
    else:
        r = path.complex_filter_attr_rep
        expect(r is not None, "path {!r} lost its sub-attribute", text)
        have = (r.schema, r.attr, r.sub_attr)
        want = (ref[0], ref[1], sub)
        expect(have == want, "path {!r}: sub-attribute {!r}, expected {!r}", text, have, want)


@prop(
    "C07", valid(), quick=5000,
    rule="paths rendered from a target, an optional value filter (depth 2, arbitrary string literals) and an optional "
         "sub-attribute; the parts must come back; non-trivial = has a value filter",
    examples=[
        {"text": 'emails[value eq "|&PLACE_HOLDER_44&|" and type eq "w"]', "ref": ("", "emails", ""), "sub": None,
         "tree": {"op": "complex", "attr_rep": "emails", "sub_op": {"op": "and", "sub_ops": [
             {"op": "eq", "attr_rep": "value", "value": "|&PLACE_HOLDER_44&|"},
             {"op": "eq", "attr_rep": "type", "value": "w"}]}}},
    ],
)
def well_formed(case, rec):
    text = case["text"]
    path, issues = call(PatchPath.parse, text)
    expect(path is not Invalid and not issues.has_issues(), "well-formed path rejected: {!r} {}", text, issues.to_dict(msg=True))
    check_parsed(path, case["ref"], case["tree"], case["sub"], text)
    again, _ = call(PatchPath.parse, text)
    expect(path == again and not (path != again), "the same path text parses to different paths: {!r}", text)
    if case["tree"]:
        rec.hit(text)


def leaves(tree):
    """Every comparison of a filter tree (shared with the tree)."""
    if tree["op"] in ("and", "or"):
        return [x for t in tree["sub_ops"] for x in leaves(t)]
    if tree["op"] in ("not", "complex"):
        return leaves(tree["sub_op"])
    return [tree]


def show(tree, top=True):
    """Filter text of a tree, with every nested operator in its own group."""
    op = tree["op"]
    if op in ("and", "or"):
        text = f" {op} ".join(show(t, False) for t in tree["sub_ops"])
        return text if top else f"({text})"
    if op == "not":
        return f"not ({show(tree['sub_op'])})"
    if op == "pr":
        return f"{tree['attr_rep']} pr"
    return f"{tree['attr_rep']} {op} {literal(tree['value'])}"


def literal(value):
    if isinstance(value, str):
        quote = "'" if '"' in value else '"'
        return quote + value + quote
    return json.dumps(value)


VALUES = st.sampled_from(["work", "Work", "work ", "home", "", "x" * 30, 5, 5.5, -1, True, False, None, "5", "true"])


@st.composite
def plain_trees(draw, depth=2):
    kind = draw(st.integers(0, 4)) if depth else 0
    if kind <= 1:
        op = draw(st.sampled_from(["eq", "ne", "co", "sw", "pr", "gt", "le"]))
        leaf = {"op": op, "attr_rep": draw(st.sampled_from(gen.SUB_NAMES[:5]))}
        if op != "pr":
            leaf["value"] = draw(VALUES if op in ("eq", "ne") else st.sampled_from(["work", "Work", "w"]) if op in ("co", "sw") else st.sampled_from([5, 5.5, "w"]))
        return leaf
    if kind == 2:
        return {"op": "not", "sub_op": draw(plain_trees(depth - 1))}
    return {"op": "and" if kind == 3 else "or", "sub_ops": draw(st.lists(plain_trees(depth - 1), min_size=2, max_size=3))}


@st.composite
def two(draw):
    """A path and a copy of it in which exactly one part was changed - or none."""
    ref = draw(refs(sub=False))
    a = {"ref": ref, "tree": draw(plain_trees()) if draw(st.integers(0, 4)) else None, "sub": draw(st.sampled_from([None] + gen.SUB_NAMES[:5]))}
    b = copy.deepcopy(a)
    how = draw(st.sampled_from(["same", "case", "name", "schema", "sub", "leaf", "leaf", "leaf", "leaf", "drop", "swap-op"]))
    differs = False
    if how == "case" and not a["tree"]:  # whether re-cased value filters are equal is not specified
        b["ref"] = (ref[0], draw(gen.recased(ref[1])), "")
        b["sub"] = b["sub"] and draw(gen.recased(b["sub"]))
    elif how == "case" and b["sub"]:
        b["sub"] = draw(gen.recased(b["sub"]))
    elif how == "name":
        name = draw(st.sampled_from([n for n in TOP if n.lower() != ref[1].lower()]))
        b["ref"], differs = (ref[0], name, ""), True
    elif how == "schema" and ref[0]:
        b["ref"], differs = (draw(st.sampled_from([u for u in gen.CORE_URNS if u != ref[0]])), ref[1], ""), True
    elif how == "sub":
        b["sub"] = draw(st.sampled_from([n for n in [None] + gen.SUB_NAMES if n != a["sub"]]))
        if a["sub"] and draw(st.booleans()):
            near = draw(gen.near(a["sub"]))
            if near.lower() != a["sub"].lower() and attrs.parse_ref("x." + near) == ("", "x", near):
                b["sub"] = near
        differs = True
    elif how == "leaf" and a["tree"]:
        leaf = draw(st.sampled_from(leaves(b["tree"])))
        what = draw(st.sampled_from(["attr", "op", "value", "value"]))
        if what == "value" and leaf["op"] in ("eq", "ne"):
            # values which Python calls equal (1 and true, 5 and 5.0) are left out
            new = draw(VALUES.filter(lambda v: type(v) is not type(leaf["value"]) or v != leaf["value"]))
            leaf["value"], differs = new, True
        elif what == "op" and leaf["op"] in ("eq", "ne"):
            leaf["op"], differs = {"eq": "ne", "ne": "eq"}[leaf["op"]], True
        else:
            leaf["attr_rep"] = draw(st.sampled_from([n for n in gen.SUB_NAMES[:5] if n != leaf["attr_rep"]]))
            differs = True
    elif how == "drop" and a["tree"]:
        b["tree"], differs = None, True
    elif how == "swap-op" and a["tree"] and a["tree"]["op"] in ("and", "or"):
        b["tree"]["op"] = {"and": "or", "or": "and"}[a["tree"]["op"]]
        differs = True
    return a, b, differs, how


def path_text(c):
    if c["tree"] is None:
        return text_of((c["ref"][0], c["ref"][1], c["sub"] or ""))
    return text_of(c["ref"]) + "[" + show(c["tree"]) + "]" + ("." + c["sub"] if c["sub"] else "")


@prop(
    "C07", two(), quick=3000,
    rule="pairs of paths, the second a copy of the first with exactly one part changed (target name, schema, sub-attribute, operator, "
         "attribute or value of one comparison, and/or, no filter) or only re-cased: equal exactly when nothing was changed; "
         "non-trivial = the texts differ",
)
def different_paths_differ(case, rec):
    a, b, differs, how = case
    texts = [path_text(c) for c in (a, b)]
    x, y = (call(PatchPath.parse, t)[0] for t in texts)
    for p, t in ((x, texts[0]), (y, texts[1])):
        expect(p is not Invalid, "well-formed path rejected: {!r}", t)
    rec.tag(how)
    if texts[0] != texts[1]:
        rec.hit(" / ".join(texts))
    for p, q in ((x, y), (y, x)):
        expect((p == q) == (not differs), "paths {!r} and {!r} {}", *texts, "are equal" if differs else "differ")
        expect((p != q) == differs, "paths {!r} != {!r} gave {}", *texts, p != q)
    expect(not (x == texts[0]) and x != texts[0], "a path equals its text {!r}", texts[0])


# --- near misses --------------------------------------------------------------------------------

SUFFIX = st.sampled_from([[".", "value"], ["value"], [".", "a.b"], [".", "urn:x:value"], ["."], [".", "emails.value"], ["[", "]"],
                          [".", ".value"], [".", "value."], ["..value"], ["value."], [".", "value", " "], [" ", ".value"], [".", "$ref"], [".", "va lue"], [".", "type[value pr]"], []])


@st.composite
def broken(draw):
    toks = draw(token_trees(1, True))
    for _ in range(draw(st.integers(0, 2))):
        how = draw(st.integers(0, 3))
        i = draw(st.integers(0, max(len(toks) - 1, 0)))
        if how == 0 and toks:
            toks = toks[:i] + toks[i + 1:]
        elif how == 1:
            toks = toks[:i] + [draw(TOK)] + toks[i:]
        elif how == 2 and toks:
            toks = toks[:i] + [draw(TOK)] + toks[i + 1:]
        elif how == 3 and len(toks) > 1:
            j = draw(st.integers(0, len(toks) - 1))
            toks[i], toks[j] = toks[j], toks[i]
    prefix = draw(st.sampled_from(["", "", "", "", "", "not ", "(", "a eq 1 and ", "a pr or ", ".", "name."]))
    name = draw(st.sampled_from(["emails", "urn:x:1.0:Y:emails", "emails.type", "em-ails", "", "emails"]))
    return {"toks": toks, "prefix": prefix, "name": name, "suffix": draw(SUFFIX)}


@prop(
    "C07", broken(), quick=5000,
    rule="value-filter paths with edited filter tokens, wrong prefixes (not, and, group) or wrong suffixes; an independent "
         "grammar decides acceptance; non-trivial = rejected or has a sub-attribute",
    examples=[
        {"toks": ATOMS[0], "prefix": "not ", "name": "emails", "suffix": []},
        {"toks": ATOMS[0], "prefix": "a eq 1 and ", "name": "emails", "suffix": []},
        {"toks": ATOMS[0], "prefix": "", "name": "emails", "suffix": ["value"]},
        {"toks": ATOMS[0], "prefix": "", "name": "emails", "suffix": [".", "emails.value"]},
    ],
)
def near_misses(case, rec):
    toks, suffix = case["toks"], "".join(case["suffix"])
    inner = F.tokens_to_text(toks)
    text = case["prefix"] + case["name"] + "[" + inner + "]" + suffix
    if case["prefix"].endswith("."):  # part of the name
        case = dict(case, prefix="", name=case["prefix"] + case["name"])
    ref = attrs.parse_ref(case["name"])
    tree = None
    brackets = [t[0] for t in toks if t[0] in "[]"]
    if brackets:
        if sorted(brackets) == ["[", "]"] or len(brackets) != 1:
            # the first closing bracket may end a complete value path: only the structure rule applies
            tree = None
    else:
        try:
            tree = F.reference_parse(toks)
        except F.Ambiguous:
            return
        if tree is not None and any(t[0] == "attr" and ("." in t[1] or ":" in t[1]) for t in toks):
            return  # qualified names inside a value filter: not specified here
    ok = (
        tree is not None and not brackets and case["prefix"] == "" and ref is not None and not ref[2]
        and (suffix == "" or (suffix[0] == "." and attrs.is_name(suffix[1:])))
    )
    path, issues = call(PatchPath.parse, text)
    if ok:
        rec.tag("accept")
        expect(path is not Invalid and not issues.has_issues(), "well-formed path rejected: {!r} {}", text, issues.to_dict(msg=True))
        check_parsed(path, ref, {"op": "complex", "attr_rep": case["name"], "sub_op": tree}, suffix[1:] or None, text)
        if suffix:
            rec.hit(text)
    else:
        rec.tag("reject")
        rec.hit(text)
        expect(path is Invalid and issues.has_issues() and not issues.can_proceed(), "malformed path accepted: {!r}", text)


fragments = st.sampled_from(["emails", "[", "]", ".", "value", " eq ", '"x"', "'", '"', " and ", "not ", "(", ")", "type pr", "type eq 5",
                             "urn:x:1.0:Y:", "$ref", " ", "|&PLACE_HOLDER_7&|", "\n", "1", "é", ":", "-", "[type pr]"])


@prop(
    "C07", st.one_of(st.lists(fragments, max_size=9).map("".join), gen.any_text(20)), quick=5000,
    rule="arbitrary text: either a path without issues or a rejection with an issue, never an exception; unfiltered text is "
         "accepted exactly when it is an attribute reference; non-trivial = has a bracket, or is accepted",
)
def any_text(case, rec):
    path, issues = call(PatchPath.parse, case)
    expect((path is Invalid) == issues.has_issues(), "outcome and issues disagree for {!r}", case)
    call(issues.to_dict, msg=True, ctx=True)
    if "[" not in case and "]" not in case:
        want = attrs.parse_ref(case)
        expect((want is None) == (path is Invalid), "{!r} {}", case, "rejected" if want else "accepted")
        if want:
            rec.hit(case)
            check_parsed(path, want, None, None, case)
        return
    rec.hit(case)
    if path is not Invalid and path.complex_filter is not None:
        head = case[: case.index("[")]
        want = attrs.parse_ref(head.strip())
        expect(want is not None and not want[2], "path {!r} accepted although {!r} is no attribute", case, head)
        rec.tag("accepted with filter")


# --- made from parts -----------------------------------------------------------------------------


@st.composite
def made(draw):
    return {
        "ref": draw(refs()), "tree": draw(st.none() | plain_trees(1)), "filter": draw(st.sampled_from(["own", "own", "own", "other", "plain"])),
        "sub": draw(st.sampled_from([None, None, "own", "own", "other", "nosub"])), "name": draw(st.sampled_from(gen.SUB_NAMES[:5])),
    }


@prop(
    "C07", made(), quick=800,
    rule="paths made from a target, a filter and a sub-attribute: refused exactly when the filter is no value filter of the target, the "
         "sub-attribute is not one of the target, or the target itself is a sub-attribute; non-trivial = refused",
)
def construction(case, rec):
    schema, attr, sub = case["ref"]
    target = AttrRep(schema=schema, attr=attr, sub_attr=sub)
    filter_, ok = None, True
    if case["tree"]:
        text = show(case["tree"])
        if case["filter"] != "plain":
            text = (text_of((schema, attr, "")) if case["filter"] == "own" else "otherAttribute") + "[" + text + "]"
        filter_, _ = call(Filter.parse, text)
        ok = case["filter"] == "own" and not sub
    after = None
    if case["sub"]:
        after = AttrRep(schema=schema, attr=attr if case["sub"] != "other" else "otherAttribute", sub_attr=case["name"] if case["sub"] != "nosub" else "")
        ok = ok and case["sub"] == "own" and not sub
    try:
        path = PatchPath(attr_rep=target, complex_filter=filter_, complex_filter_attr_rep=after)
    except ValueError:
        path = None
    if not ok:
        rec.hit()
    expect((path is not None) == ok, "path from {!r}, {!r} and {!r} was {}", target, filter_ and filter_.to_dict(), after, "made" if path else "refused")
    if path is not None:
        expect(path.attr_rep == target and path.complex_filter is filter_ and path.complex_filter_attr_rep is after, "parts of a path were changed")
