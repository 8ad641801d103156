import copy
import re

from hypothesis import strategies as st

from src.data.container import Invalid, SCIMDataContainer
from src.filter import Filter

from .. import filters as F
from .. import gen
from ..harness import Violation, call, expect, prop

BAD_VALUES = [
    "abc", "True", "TRUE", "False", "FALSE", "fALSE", "NULL", "Null", "nUll", "nan", "inf", "-inf", "infinity", "1_000", "0x1F", "1,5", "1e", "--1",
    "1e999", '"', "'", '"abc', "abc'", "\"abc'", "1.2.3", "e5", "+", "-", ".", "١", "(b pr)",
    "x[y pr]", '(b eq "x")', "()", "[]",
]
BAD_NAMES = ["a-b", "a.b.c", "a.", ".a", "a$", "$", "$refs", "a:", ":", "urn:x:", "a..b", "a,b", "a/b",
             '"a"', "'a'", "a@b", "a:b.c.d", "é-", "#", "a.$", "a.b-c", "|&PLACE_HOLDER_0&|"]
BAD_OPS = ["xx", "=", "==", "equals", "is", "&&", "eqq", "p", "prr", "e q", "in", "contains", "no"]


def squeezed(text):
    return re.sub(r"\s+", "", text)


def quotes(text, issues):
    """Whatever an issue says about an expression is a part of the text."""
    rendered = call(issues.to_dict, msg=True, ctx=True)
    if "PLACE_HOLDER" in text:
        return
    expect("PLACE_HOLDER" not in repr(rendered), "the issues of {!r} do not quote it: {}", text, rendered)
    for error in rendered.get("_errors", []):
        for key in ("expression", "attribute", "attr", "sub_attr", "operator", "value"):
            quoted = error.get("context", {}).get(key)
            if isinstance(quoted, str):
                expect(squeezed(quoted).lower() in squeezed(text).lower(), "the {} of {!r} is not in the text: {}", key, text, error)


def must_be_rejected(text):
    parsed, issues = call(Filter.parse, text)
    quotes(text, issues)
    if parsed is not Invalid or not issues.has_issues():
        got = parsed if parsed is Invalid else parsed.to_dict()
        raise Violation(
            f"malformed filter accepted: {text!r} as {got!r}, issues={issues.to_dict()!r}"
        )
    call(issues.to_dict, msg=True, ctx=True)


# --- token soup: an independent grammar decides -----------------------------------------------

TOK = st.one_of(
    st.sampled_from([["attr", "a"], ["attr", "userName"], ["attr", "name.familyName"],
                     ["attr", "urn:x:1.0:Y:b"], ["attr", "emails"], ["attr", "urn:x:1.0:Y:b.c"]]),
    st.sampled_from([["op", "pr"], ["op", "eq"], ["op", "co"], ["op", "gt"], ["op", "PR"], ["op", "xx"]] + [["op", o] for o in F.BINARY]),
    st.sampled_from([["val", '"x"', "x"], ["val", "5", 5], ["val", "true", True], ["val", "null", None],
                     ["val", "'a and b'", "a and b"], ["val", '"(["', "(["]]),
    st.sampled_from([["and"], ["or"], ["not"], ["("], [")"], ["["], ["]"]]),
    st.sampled_from([["and"], ["or"], ["not"], ["("], [")"], ["["], ["]"]]),
)

ATOMS = [
    [["attr", "a"], ["op", "pr"]],
    [["attr", "b"], ["op", "eq"], ["val", '"x y"', "x y"]],
    [["attr", "n.m"], ["op", "gt"], ["val", "5", 5]],
    [["attr", "c"], ["op", "ne"], ["val", "false", False]],
    [["attr", "d"], ["op", "eq"], ["val", "null", None]],
] + [
    [["attr", name], ["op", op], ["val", text, value]]
    for name, op, text, value in [
        ("d", "ge", "0", 0), ("urn:x:1.0:Y:e", "lt", '"2020"', "2020"), ("f", "le", "1.5", 1.5), ("urn:x:1.0:Y:g.h", "sw", "'x'", "x"), ("i", "ew", '""', ""),
        ("j", "co", '"("', "("),
    ]
]


@st.composite
def token_trees(draw, depth=2, inner=False):
    """Well-formed token lists."""
    kind = draw(st.integers(0, 7)) if depth else 0
    if kind <= 1:
        toks = copy.deepcopy(draw(st.sampled_from(ATOMS)))
        if inner and ("." in toks[0][1] or ":" in toks[0][1]):
            toks[0] = ["attr", "m"]
        return toks
    if kind == 2 and not inner:
        return [["attr", "emails"], ["["]] + draw(token_trees(depth - 1, True)) + [["]"]]
    if kind == 3:
        return [["not"], ["("]] + draw(token_trees(depth - 1, inner)) + [[")"]]
    if kind == 4:
        n = draw(st.sampled_from([1, 1, 1, 2, 4, 8, 13]))
        return [["("]] * n + draw(token_trees(depth - 1, inner)) + [[")"]] * n
    word = "and" if kind < 6 else "or"
    return draw(token_trees(depth - 1, inner)) + [[word]] + draw(token_trees(depth - 1, inner))


@st.composite
def long_chains(draw):
    """3 to 7 operands in a row, most of them groups, negations and value filters."""
    toks = []
    for i in range(draw(st.integers(3, 7))):
        if i:
            toks.append([draw(st.sampled_from(["and", "or"]))])
        kind = draw(st.integers(0, 5))
        if kind <= 2:
            toks += [["attr", draw(st.sampled_from(["emails", "ims", "addresses"]))], ["["]] + draw(token_trees(1, True)) + [["]"]]
        elif kind == 3:
            toks += [["not"], ["("]] + draw(token_trees(1)) + [[")"]]
        elif kind == 4:
            toks += [["("]] + draw(token_trees(1)) + [[")"]]
        else:
            toks += draw(token_trees(0))
    return toks


@st.composite
def mutated_tokens(draw, base=token_trees(2), fewest=1, most=2):
    toks = draw(base)
    for _ in range(draw(st.integers(fewest, most))):
        how = draw(st.integers(0, 4))
        i = draw(st.integers(0, max(len(toks) - 1, 0)))
        if how == 0 and toks:
            toks = toks[:i] + toks[i + 1 :]
        elif how == 1:
            toks = toks[:i] + [draw(TOK)] + toks[i:]
        elif how == 2 and toks:
            toks = toks[:i] + [draw(TOK)] + toks[i + 1 :]
        elif how == 3 and len(toks) > 1:
            j = draw(st.integers(0, len(toks) - 1))
            toks[i], toks[j] = toks[j], toks[i]
        elif how == 4 and toks:
            toks = toks[:i] + [toks[i]] + toks[i:]
    return toks


def grammar(toks, rec):
    text = F.tokens_to_text(toks)
    try:
        tree = F.reference_parse(toks)
    except F.Ambiguous:
        return
    rec.tag("accept" if tree else "reject")
    if len(toks) >= 3:
        rec.hit(text)
    if tree is None:
        must_be_rejected(text)
        return
    parsed, issues = call(Filter.parse, text)
    expect(parsed is not Invalid and not issues.has_issues(), "well-formed filter rejected: {!r} {}", text,
           issues.to_dict(msg=True))
    got = call(parsed.to_dict)
    expect(F.same_tree(got, tree), "wrong tree for {!r}: {} expected {}", text, got, tree)


@prop("C02", mutated_tokens(), quick=7000,
      rule="well-formed token lists with 1-2 token edits; an independent recursive-descent grammar "
           "decides acceptance and tree; non-trivial = 3 or more tokens")
def near_miss_grammar(case, rec):
    grammar(case, rec)


@prop("C02", mutated_tokens(long_chains(), 0, 2), quick=2500,
      rule="chains of 3-7 operands, mostly value filters, groups and negations, with 0-2 token edits, judged by the same reference "
           "grammar; non-trivial = 3 or more tokens")
def near_miss_chains(case, rec):
    grammar(case, rec)


@prop("C02", st.sampled_from([5, 7, 9, 14]).flatmap(lambda n: st.lists(TOK, max_size=n)), quick=3000,
      rule="random token soup judged by the same reference grammar; non-trivial = 3 or more tokens")
def token_soup(case, rec):
    grammar(case, rec)


# --- lexical faults ----------------------------------------------------------------------------


@st.composite
def lexical_fault(draw):
    toks = draw(token_trees(2))
    kinds = [i for i, t in enumerate(toks) if t[0] in ("attr", "op", "val")]
    i = draw(st.sampled_from(kinds))
    kind = toks[i][0]
    if kind == "attr":
        bad = draw(st.sampled_from(BAD_NAMES))
        if i + 1 < len(toks) and toks[i + 1][0] == "[":
            # only a suffix of these would still be a legal bracketed attribute
            bad = draw(st.sampled_from(["a.b", "a.b.c", "a.", "a:", "urn:x:", "a$", "a-b", "urn:x:1.0:Y:a.b", "a:b.c"]))
    elif kind == "op":
        bad = draw(st.sampled_from(BAD_OPS))
    else:
        op = toks[i - 1][1].lower()
        bad = draw(st.sampled_from(BAD_VALUES))
        if op in F.STR_OPS:
            bad = draw(st.sampled_from(BAD_VALUES + ["5", "true", "null", "1.5"]))
        elif op in F.ORD_OPS:
            bad = draw(st.sampled_from(BAD_VALUES + ["true", "null", "false"]))
        if any("\"" in b or "'" in b for b in [bad]):
            # an unterminated quote could pair up with another literal: keep it the only one
            toks = [toks[i - 2], toks[i - 1], toks[i]]
            i = 2
    return {"text": F.tokens_to_text(toks[:i] + [["val", bad]] + toks[i + 1 :])
            if not (kind == "attr" and i + 1 < len(toks) and toks[i + 1][0] == "[")
            else F.tokens_to_text(toks[:i] + [["attr", bad]] + toks[i + 1 :])}


@prop("C02", lexical_fault(), quick=3000,
      rule="one attribute name, operator or literal of a well-formed filter replaced by an ill-formed or "
           "type-incompatible one; every case is non-trivial",
      examples=[{"text": 'a eq "'}, {"text": "a eq 1_000"}, {"text": "a eq 1e999"}, {"text": "a eq inf"},
                {"text": "[a pr"}, {"text": "(a pr) and |&PLACE_HOLDER_0&|"},
                {"text": 'a eq "x" and |&PLACE_HOLDER_5&| pr'}])
def lexical_faults_rejected(case, rec):
    rec.hit(case["text"])
    must_be_rejected(case["text"])


# --- arbitrary text ----------------------------------------------------------------------------

FRAG = st.one_of(
    gen.nasty_fragments,
    st.sampled_from(["userName", "emails", "name.familyName", " eq ", " pr", " co ", " gt ", ' "x"', " 5 ",
                     " true", "not", "and", "or", "[", "]", "(", ")", ".", ":", " ", '"', "'", "|&", "&|",
                     "|&PLACE_HOLDER_", "urn:a:b:", "$ref", "-", "1e999", "inf", "\u2028", "\x1c", "٣"]),
    st.text(max_size=3),
)

ARBITRARY = st.one_of(st.lists(FRAG, max_size=14).map("".join), st.text(max_size=30), gen.any_text(30))


@prop("C02", ARBITRARY, quick=5000,
      rule="arbitrary text and grammar fragments; parsing never raises, rejects iff it reports issues, and an "
           "accepted tree re-renders to text with the same tree; non-trivial = length >= 5",
      examples=["a eq inf", "a eq 1e999", "not emails[a pr]", "|&PLACE_HOLDER_0&|", "a eq |&PLACE_HOLDER_0&|"])
def any_text_is_judged(text, rec):
    if len(text) >= 5:
        rec.hit(text)
    parsed, issues = call(Filter.parse, text)
    expect((parsed is Invalid) == issues.has_issues(),
           "result and issues disagree for {!r}: {!r} {}", text, parsed, issues.to_dict())
    quotes(text, issues)
    if parsed is Invalid:
        rec.tag("rejected")
        return
    rec.tag("accepted")
    tree = call(parsed.to_dict)
    again = F.render(tree)
    if again is None or "\\" in again or re.search(r"\$ref\[", again, re.I):
        return
    p2, issues2 = call(Filter.parse, again)
    expect(p2 is not Invalid, "accepted {!r} but its canonical form {!r} is rejected: {}", text, again,
           issues2.to_dict(msg=True))
    expect(F.same_tree(p2.to_dict(), tree), "canonical form of {!r} denotes another tree", text)
