"""Generators for SCIM filter expressions together with the operator tree they must denote, and an
independent reference parser over token lists."""
import re

from hypothesis import strategies as st

from . import gen

STR_OPS = ["co", "sw", "ew"]
ORD_OPS = ["gt", "ge", "lt", "le"]
EQ_OPS = ["eq", "ne"]
BINARY = EQ_OPS + STR_OPS + ORD_OPS
URNS = gen.CORE_URNS * 2 + ["or-else:1.0:X", "and-so-on:and", "not-yet:z", "x:or"]


def ws(draw, minimum=1):
    options = [" ", " ", " ", "  ", "\t", "\n ", " \t ", "\r\n", "\r"] if minimum else ["", "", "", " ", "\n", "\r\n"]
    return draw(st.sampled_from(options))


@st.composite
def string_literal(draw):
    """(text, value)"""
    quote = draw(st.sampled_from(['"', '"', '"', "'"]))
    other = "'" if quote == '"' else '"'
    content = draw(
        st.one_of(
            gen.words,
            gen.plain_text(10),
            st.lists(gen.nasty_fragments, max_size=3).map("".join),
            st.just(other),
            st.text(max_size=6),
            st.builds(lambda a, t, b: a + t + b, st.sampled_from(["", "", " ", "\t"]), gen.long_text, st.sampled_from(["", " ", "  ", "\n", ".", " x"])),
            st.builds(lambda a, c, b: a + c + b, gen.words, st.characters(), st.sampled_from(["", "x"])),
            st.just("it" + other + "s"),
            st.sampled_from(["C:\\\\dir\\file", "\\n", "a\\\\b", "\\u0041", "\\\\ x", "50\\% off"]),
            # another literal, with its quotes, inside of this one
            st.builds(lambda a, w, b: a + other + w + other + b, st.sampled_from(["", "a ", "x", "b eq "]), gen.words, st.sampled_from(["", " c", "y"])),
        )
    )
    # a backslash before a quote may or may not escape it
    content = re.sub(r"\\+(?=['\"]|\Z)", "/", content.replace(quote, other))
    return quote + content + quote, content


@st.composite
def number_literal(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        n = draw(st.integers(-20, 20))
        return str(n), n
    if kind == 1:
        n = draw(st.integers(-(2**80), 2**80))
        return str(n), n
    if kind == 2:
        a, b = draw(st.one_of(st.integers(0, 999), st.integers(0, 10**15))), draw(st.one_of(st.integers(0, 999), st.integers(0, 10**9)))
        sign = draw(st.sampled_from(["", "-"]))
        text = f"{sign}{a}.{b}"
        return text, float(text)
    a = draw(st.integers(1, 99))
    e = draw(st.one_of(st.integers(-5, 5), st.integers(-250, 250)))
    text = f"{draw(st.sampled_from(['', '', '-']))}{a}{draw(st.sampled_from(['', '', '.5', '.125']))}{draw(st.sampled_from(['e', 'E']))}{e}"
    return text, float(text)


@st.composite
def literal(draw, op):
    options = [string_literal(), string_literal()]
    if op not in STR_OPS:
        options.append(number_literal())
    if op in EQ_OPS:
        options.append(
            st.sampled_from([("true", True), ("false", False), ("null", None)])
        )
    return draw(st.one_of(options))


@st.composite
def attr_name(draw, urn=True, sub=True, names=None):
    """(text, schema-qualified attr, sub attr or '')"""
    attr = draw(gen.fresh_names(names or gen.ATTR_NAMES))
    if urn and draw(st.integers(0, 4)) == 0:
        attr = draw(st.sampled_from(URNS)) + ":" + attr
    sub_attr = ""
    if sub and draw(st.integers(0, 4)) == 0:
        sub_attr = draw(gen.fresh_names(gen.SUB_NAMES))
    return (attr + "." + sub_attr if sub_attr else attr), attr, sub_attr


def atom_tree(op, attr, sub_attr, value=None):
    leaf = {"op": op, "attr_rep": sub_attr or attr}
    if op != "pr":
        leaf["value"] = value
    if sub_attr:
        return {"op": "complex", "attr_rep": attr, "sub_op": leaf}
    return leaf


@st.composite
def atom(draw, inside_complex=False):
    text, attr, sub_attr = draw(
        attr_name(urn=not inside_complex, sub=not inside_complex,
                  names=gen.SUB_NAMES if inside_complex else None)
    )
    op = draw(st.sampled_from(["pr", "pr"] + BINARY))
    op_text = draw(gen.recased(op)) if draw(st.integers(0, 3)) == 0 else op
    if op == "pr":
        return text + ws(draw) + op_text, atom_tree(op, attr, sub_attr)
    lit_text, value = draw(literal(op))
    return (
        text + ws(draw) + op_text + ws(draw) + lit_text,
        atom_tree(op, attr, sub_attr, value),
    )


def group(draw, text):
    return "(" + ws(draw, 0) + text + ws(draw, 0) + ")"


def kw(draw, word):
    return draw(gen.recased(word)) if draw(st.integers(0, 5)) == 0 else word


@st.composite
def expr(draw, depth=3, inside_complex=False):
    """(text, tree, level) where level is the binding level: 0 or, 1 and, 2 not, 3 primary."""
    kind = draw(st.integers(0, 9)) if depth > 0 else 0
    if kind <= 2:
        text, tree = draw(atom(inside_complex))
        level = 3
    elif kind == 3 and not inside_complex:
        _, attr, _ = draw(attr_name(sub=False))
        sub_text, sub_tree, _ = draw(expr(depth - 1, inside_complex=True))
        text = attr + "[" + ws(draw, 0) + sub_text + ws(draw, 0) + "]"
        tree = {"op": "complex", "attr_rep": attr, "sub_op": sub_tree}
        level = 3
    elif kind in (4, 5):
        t, sub_tree, lvl = draw(expr(depth - 1, inside_complex))
        if lvl < 3:
            text = kw(draw, "not") + ws(draw, 0) + group(draw, t)
        elif draw(st.booleans()):
            text = kw(draw, "not") + ws(draw, 0) + group(draw, t)
        else:
            text = kw(draw, "not") + ws(draw) + t
        tree, level = {"op": "not", "sub_op": sub_tree}, 2
    else:
        word = "and" if kind in (6, 7) else "or"
        own = 1 if word == "and" else 0
        n = draw(st.sampled_from([2, 2, 2, 3, 4]))
        parts, trees = [], []
        for _ in range(n):
            t, sub_tree, lvl = draw(expr(depth - 1, inside_complex))
            if parts and draw(st.integers(0, 9)) == 0:  # the same operand once more
                i = draw(st.integers(0, len(parts) - 1))
                t, sub_tree, lvl = parts[i], trees[i], 3
            if lvl <= own or draw(st.integers(0, 4)) == 0:
                t = group(draw, t)
            parts.append(t)
            trees.append(sub_tree)
        text = parts[0]
        for p in parts[1:]:
            text += ws(draw) + kw(draw, word) + ws(draw) + p
        tree, level = {"op": word, "sub_ops": trees}, own
    if depth > 0 and draw(st.integers(0, 7)) == 0:
        text, level = group(draw, text), 3
        for _ in range(draw(st.sampled_from([0, 0, 0, 0, 1, 2, 6, 11]))):
            text = group(draw, text)
    return text, tree, level


@st.composite
def filters(draw, depth=3, inside_complex=False):
    text, tree, _ = draw(expr(depth, inside_complex))
    if draw(st.integers(0, 5)) == 0:
        text = ws(draw, 0) + text + ws(draw, 0)
    return {"text": text, "tree": tree}


@st.composite
def long_filters(draw):
    """Flat, long mixes of groups, complex attributes and strings."""
    n = draw(st.integers(3, 8))
    word = draw(st.sampled_from(["and", "or"]))
    parts, trees = [], []
    for _ in range(n):
        kind = draw(st.integers(0, 3))
        t, tree = draw(atom())
        if kind == 0:
            t = "(" + t + ")"
        elif kind == 1:
            _, attr, _ = draw(attr_name(sub=False))
            s, sub_tree = draw(atom(True))
            if draw(st.booleans()):
                s2, sub_tree2 = draw(atom(True))
                s, sub_tree = f"{s} or ({s2})", {"op": "or", "sub_ops": [sub_tree, sub_tree2]}
            t, tree = f"{attr}[{s}]", {"op": "complex", "attr_rep": attr, "sub_op": sub_tree}
        elif kind == 2:
            t2, tree2 = draw(atom())
            t, tree = f"({t} or ({t2}))", {"op": "or", "sub_ops": [tree, tree2]}
        parts.append(t)
        trees.append(tree)
        if draw(st.integers(0, 7)) == 0:
            i = draw(st.integers(0, len(parts) - 1))
            parts.append(parts[i])
            trees.append(trees[i])
    return {"text": f" {word} ".join(parts), "tree": {"op": word, "sub_ops": trees}}


def same_value(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return type(a) is type(b) and a == b
    if isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    return a == b


def same_tree(a, b):
    """Deep equality which distinguishes booleans, null, numbers and strings."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_tree(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_tree(x, y) for x, y in zip(a, b))
    return same_value(a, b)


# --- reference parser over token lists ---------------------------------------------------------
# token: ["attr", text] ["op", text] ["val", text, value] ["(",] [")"] ["["] ["]"] ["and"] ["or"]
#        ["not"]; returns tree or None


class _Reject(Exception):
    pass


class Ambiguous(Exception):
    """A bare literal (5, true, null) or the word "not" stands where an attribute name is expected."""


ALLOWED = {op: (str,) for op in STR_OPS}
ALLOWED.update({op: (str, int, float) for op in ORD_OPS})
ALLOWED.update({op: (str, int, float, bool, type(None)) for op in EQ_OPS})


def reference_parse(tokens):
    pos = 0

    def peek():
        return tokens[pos][0] if pos < len(tokens) else None

    def take(kind):
        nonlocal pos
        if peek() != kind:
            raise _Reject
        pos += 1
        return tokens[pos - 1]

    def or_(inner):
        parts = [and_(inner)]
        while peek() == "or":
            take("or")
            parts.append(and_(inner))
        return parts[0] if len(parts) == 1 else {"op": "or", "sub_ops": parts}

    def and_(inner):
        parts = [not_(inner)]
        while peek() == "and":
            take("and")
            parts.append(not_(inner))
        return parts[0] if len(parts) == 1 else {"op": "and", "sub_ops": parts}

    def not_(inner):
        if peek() == "not":
            take("not")
            if peek() == "not":  # an attribute may be named "not"
                raise Ambiguous
            return {"op": "not", "sub_op": primary(inner)}
        return primary(inner)

    def primary(inner):
        if peek() == "(":
            take("(")
            t = or_(inner)
            take(")")
            return t
        if peek() == "val" and tokens[pos][1][0] not in "\"'":
            raise Ambiguous
        name = take("op" if peek() == "op" else "attr")[1]
        attr, sub = name, ""
        local = name.rsplit(":", 1)[-1]
        if "." in local:
            sub = local.split(".", 1)[1]
            attr = name[: -len(sub) - 1]
        if peek() == "[":
            if inner or sub:
                raise _Reject
            take("[")
            t = or_(True)
            take("]")
            return {"op": "complex", "attr_rep": attr, "sub_op": t}
        op = take("op")[1]
        if op.lower() == "pr":
            return atom_tree("pr", attr, sub)
        if op.lower() not in BINARY:
            raise _Reject
        value = take("val")[2]
        if type(value) not in ALLOWED[op.lower()]:
            raise _Reject
        return atom_tree(op.lower(), attr, sub, value)

    try:
        tree = or_(False)
        if pos != len(tokens):
            raise _Reject
        return tree
    except _Reject:
        return None


def tokens_to_text(tokens):
    out = ""
    prev = None
    for tok in tokens:
        kind = tok[0]
        text = tok[1] if kind in ("attr", "op", "val") else kind
        glue = kind == "[" and prev in ("attr", "op")
        if out and not glue:
            out += " "
        out += text
        prev = kind
    return out


# --- rendering of trees back to text -----------------------------------------------------------


def render_value(v):
    if v is True:
        return "true"
    if v is False:
        return "false"
    if v is None:
        return "null"
    if isinstance(v, str):
        if '"' in v and "'" in v:
            return None
        q = "'" if '"' in v else '"'
        return q + v + q
    return repr(v)


def render(tree):
    """Canonical, fully parenthesised text of a tree; None if a string can not be quoted."""
    op = tree["op"]
    if op == "pr":
        return tree["attr_rep"] + " pr"
    if op in BINARY:
        v = render_value(tree["value"])
        return None if v is None else f"{tree['attr_rep']} {op} {v}"
    if op == "complex":
        inner = render(tree["sub_op"])
        return None if inner is None else f"{tree['attr_rep']}[{inner}]"
    if op == "not":
        inner = render(tree["sub_op"])
        return None if inner is None else f"not ({inner})"
    parts = [render(s) for s in tree["sub_ops"]]
    if any(p is None for p in parts):
        return None
    return f" {op} ".join(f"({p})" for p in parts)
