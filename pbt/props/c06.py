import copy

from hypothesis import strategies as st

from src.data.container import AttrRep, Invalid

from .. import attrs
from .. import gen
from .. import specs
from ..harness import Violation, call, expect, prop

SEGMENTS = ["urn", "ietf", "params", "scim", "core", "2.0", "User", "my-ext", "x.y", "and", "not", "A_b", "1", "or-x"]
names = gen.fresh_names(gen.ATTR_NAMES + ["$ref", "é", "_", "9a"], size=40)


@st.composite
def parts(draw):
    schema = ":".join(draw(st.lists(st.sampled_from(SEGMENTS), min_size=1, max_size=6))) if draw(st.booleans()) else ""
    return schema, draw(names), draw(st.one_of(st.just(""), st.sampled_from(gen.SUB_NAMES)))


def render(p):
    schema, attr, sub = p
    return (schema + ":" if schema else "") + attr + ("." + sub if sub else "")


@st.composite
def texts(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return draw(gen.any_text(12))
    text = render(draw(parts()))
    if kind == 1:
        return text
    pos = draw(st.integers(0, len(text)))
    if kind == 2:
        return text[:pos] + draw(st.sampled_from([".", ":", " ", "$", "-", "[", "]", "\n", "..", "::", "/", '"', "(", "é", "#"])) + text[pos:]
    return text[:pos] + text[pos + 1:]


@prop(
    "C06", st.one_of(texts(), parts().map(render)), quick=6000,
    rule="references built from URI segments, names and sub-attributes, mutated by one character, or arbitrary text, "
         "against a hand-written reading; non-trivial = accepted with a schema or a sub-attribute, or rejected",
    examples=["a.$ref", "urn:my-ext:2.0:a.b", "a.b.c", "a\n", "", ":a", "a:", "$ref", "urn:x:$ref.$ref"],
)
def parses_exactly(case, rec):
    want = attrs.parse_ref(case)
    got = call(AttrRep.parse, case)
    if want is None:
        rec.tag("rejected")
        rec.hit(repr(case))
        expect(got is Invalid, "{!r} is no attribute reference but was accepted", case)
        return
    rec.tag("accepted")
    if want[0] or want[2]:
        rec.hit(repr(case))
    expect(got is not Invalid, "{!r} was rejected", case)
    have = (got.schema, got.attr, got.sub_attr)
    expect(have == want, "{!r} read as {!r}, expected {!r}", case, have, want)
    expect(repr(got) == case, "{!r} is displayed as {!r}", case, repr(got))
    expect(got.attr_with_schema == case[: len(case) - len(want[2]) - 1] if want[2] else got.attr_with_schema == case,
           "{!r}: top-level part {!r}", case, got.attr_with_schema)
    same = AttrRep(schema=want[0], attr=want[1], sub_attr=want[2])
    expect(got == same, "{!r} differs from the reference made of its parts", case)


@st.composite
def two(draw):
    a = draw(parts())
    b = tuple(draw(gen.recased(p)) if p and p != "$ref" else p for p in a)
    mode = draw(st.sampled_from(["same", "noschema", "schema", "attr", "sub", "nosub", "other", "near", "near", "marks", "marks"]))
    if mode == "noschema":
        b = ("",) + b[1:]
    elif mode == "schema":
        b = (draw(parts())[0],) + b[1:]
    elif mode == "attr":
        b = (b[0], draw(names), b[2])
    elif mode == "sub":
        b = b[:2] + (draw(st.sampled_from(gen.SUB_NAMES)),)
    elif mode == "nosub":
        b = b[:2] + ("",)
    elif mode == "other":
        b = draw(parts())
    elif mode == "marks" and b[0]:  # other punctuation in the schema
        i = draw(st.sampled_from([k for k, ch in enumerate(b[0]) if not ch.isalnum()] or [0]))
        b = (b[0][:i] + draw(st.sampled_from(["", "-", ".", ":", "_"])) + b[0][i + 1:],) + b[1:]
        if attrs.parse_ref(render(b)) != b:
            b = a
    elif mode == "near":  # one part differs in a single character
        i = draw(st.sampled_from([k for k in range(3) if b[k]]))
        part = draw(gen.near(b[i]))
        b = b[:i] + (part,) + b[i + 1:]
        if attrs.parse_ref(render(b)) != b:
            b = a
    return a, b


@prop(
    "C06", two(), quick=6000,
    rule="pairs of references derived from one another (re-cased, schema dropped or changed, name or sub-attribute changed); "
         "non-trivial = the texts differ",
)
def equality(case, rec):
    a, b = case
    x, y = call(AttrRep.parse, render(a)), call(AttrRep.parse, render(b))
    low = [tuple(p.lower() for p in r) for r in (a, b)]
    schemas_ok = not (a[0] and b[0]) or low[0][0] == low[1][0]
    top = schemas_ok and low[0][1] == low[1][1]
    want = top and low[0][2] == low[1][2]
    rec.tag("equal" if want else "different")
    if render(a) != render(b):
        rec.hit(f"{render(a)} / {render(b)}")
    for p, q in ((x, y), (y, x)):
        expect((p == q) == want, "{!r} == {!r} gave {}", p, q, p == q)
        expect((p != q) == (not want), "{!r} != {!r} gave {}", p, q, p != q)
        expect(call(p.top_level_equals, q) == top, "top level of {!r} and {!r}: expected {}", p, q, top)
    expect(not (x == render(a)), "a reference equals its text")
    for rep, parts_ in ((x, a), (y, b), (call(AttrRep.parse, render(a)), a)):  # whatever was read before
        expect(repr(rep) == render(parts_) and (rep.schema, rep.attr, rep.sub_attr) == tuple(parts_), "{!r} read as {!r}", render(parts_), rep)


@st.composite
def lookups(draw):
    spec = draw(specs.any_resource)
    own = [a for a in spec["attrs"] if a["n"] not in ("schemas", "id", "externalId", "meta")]
    if "builtin" not in spec and own and draw(st.integers(0, 2)) == 0:  # an extension has an attribute named like one of the schema's own
        twin = draw(st.sampled_from(own))
        spec = copy.deepcopy(spec)
        if not spec["ext"]:
            spec["ext"] = [{"schema": "urn:example:twin:2.0:Ext", "attrs": []}]
        if not specs.find(spec["ext"][0]["attrs"], twin["n"]):
            spec["ext"][0]["attrs"].append(specs.A(draw(gen.recased(twin["n"])), draw(st.sampled_from(["string", "integer", "boolean"]))))
            if draw(st.booleans()):
                return spec, ["", draw(gen.recased(twin["n"])), ""]
    table = [(spec["schema"], a, False) for a in spec["attrs"]]
    for e in spec["ext"]:
        table += [(e["schema"], a, True) for a in e["attrs"]]
    schema, attr, _ = draw(st.sampled_from(table))
    sub = draw(st.sampled_from(attr["subs"]))["n"] if attr["subs"] and draw(st.booleans()) else ""
    mode = draw(st.sampled_from(["exact", "exact", "noschema", "badschema", "badattr", "badsub", "badsub"]))
    rep = [schema, attr["n"], sub]
    if mode == "noschema":
        rep[0] = ""
    elif mode == "badschema":
        rep[0] = draw(st.sampled_from(["urn:no:such:Schema", schema + "x", schema[:-1] or "urn:q", "urn"]))
    elif mode == "badattr":
        rep[1] = draw(st.sampled_from([attr["n"] + "x", "nope", attr["n"][:-1] or "nope", "value", "type"]))
    elif mode == "badsub":
        rep[2] = draw(st.sampled_from(["nope", "valu", "value", "value", "type", "primary", "display", "$ref"] + [n + "x" for n in [sub] if n and "$" not in n]))
    rep = [p if "$" in p else draw(gen.recased(p)) for p in rep]
    return spec, rep


def model_find(spec, rep):
    schema, name, sub = (p.lower() for p in rep)
    table = [(spec["schema"], spec["attrs"])] + [(e["schema"], e["attrs"]) for e in spec["ext"]]
    hits = []
    for s, table_attrs in table:
        if schema and s.lower() != schema:
            continue
        for a in table_attrs:
            if a["n"].lower() != name:
                continue
            if not sub:
                hits.append((s, a, None))
            else:
                hits += [(s, a, b) for b in a["subs"] if b["n"].lower() == sub]
    return hits if schema else hits[:1]  # a bare name denotes the schema's own attribute first


SCIM_NAMES = {"external": "reference", "uri": "reference", "scim": "reference"}


@prop(
    "C06", lookups(), quick=6000,
    rule="looking references up in built-in and random schemas with extensions, in random case, with wrong schema, name or "
         "sub-attribute; non-trivial = found through a schema URI or a sub-attribute, or not found",
)
def lookup(case, rec):
    spec, rep = case
    schema = specs.build(spec)
    hits = model_find(spec, rep)
    found = call(schema.attrs.get, AttrRep(schema=rep[0], attr=rep[1], sub_attr=rep[2]))
    text = render(rep)
    if not hits:
        rec.hit(f"{text} -> none")
        rec.tag("none")
        expect(found is None, "{!r} found {!r} in the schema, which has no such attribute", text, found)
        return
    rec.tag("found")
    if rep[0] or rep[2]:
        rec.hit(f"{text} -> found")
    expect(found is not None, "{!r} not found in {}", text, spec["schema"])
    for s, a, b in hits:
        want = b or a
        same = (
            found.rep.schema.lower() == s.lower()
            and found.rep.attr.lower() == a["n"].lower()
            and found.rep.sub_attr.lower() == (b["n"].lower() if b else "")
            and found.type.SCIM_NAME == SCIM_NAMES.get(want["t"], want["t"])
            and found.multi_valued == want["mv"]
            and found.case_exact == (want["cs"] if want["t"] != "complex" else found.case_exact)
        )
        if same:
            break
    else:
        raise Violation(f"{text!r} found {found!r} ({found.rep!r}), expected one of {[(s, a['n'], b and b['n']) for s, a, b in hits]}")


bad_parts = st.sampled_from(["", "a.b", "a b", "a:b", "-", "a!", "$x", "a\n", "[x]"])


@prop(
    "C06", st.tuples(st.sampled_from(["", "urn:x:y"]), st.one_of(names, bad_parts), st.one_of(st.just(""), st.sampled_from(gen.SUB_NAMES), bad_parts),
                     st.booleans()), quick=1000,
    rule="making a reference from parts: refused exactly for malformed names or an extension without schema; non-trivial = refused",
)
def construction(case, rec):
    schema, attr, sub, ext = case
    ok = attrs.is_name(attr) and (not sub or attrs.is_name(sub)) and not (ext and not schema)
    try:
        AttrRep(schema=schema, attr=attr, sub_attr=sub, extension=ext)
        made = True
    except ValueError:
        made = False
    if not ok:
        rec.hit()
    expect(made == ok, "reference from parts {!r}: {}", case, "made" if made else "refused")
