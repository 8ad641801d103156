"""Reference for attribute presence: which attributes of a resource must be there and which may not be returned."""
import copy

from hypothesis import strategies as st

from . import attrs as ref
from . import gen
from . import specs


def lookup(obj, name):
    for k, v in obj.items():
        if k.lower() == name.lower():
            return v, True
    return None, False


INVALID = "\x00invalid"  # stands for a value which has been refused already: it is not judged again


def absent(v):
    return v is None or v == "" or v == []


def matches(rep, schema, attr, sub):
    """rep: (schema, attr, sub) as given by the client; the schema is optional."""
    return (
        (not rep[0] or rep[0].lower() == schema.lower())
        and rep[1].lower() == attr.lower()
        and rep[2].lower() == sub.lower()
    )


def expected(spec, data, reps, include, direction, ignore=()):
    """{location: code} for plain data (names may be in any case)."""
    out = {}

    def listed(schema, attr, sub):
        return any(matches(r, schema, attr, sub) for r in reps)

    def related(schema, attr, sub):
        if sub:
            return listed(schema, attr, "")
        return any((not r[0] or r[0].lower() == schema.lower()) and r[1].lower() == attr.lower() for r in reps)

    def judge(a, value, schema, attr, sub, loc):
        if value == INVALID:
            return
        if not absent(value):
            if direction != "RESPONSE":
                return
            if a["ret"] == "never":
                out[loc] = 19
            elif a["ret"] != "always":
                if include is False and listed(schema, attr, sub):
                    out[loc] = 19
                if include is True and not listed(schema, attr, sub) and not related(schema, attr, sub):
                    out[loc] = 19
            return
        if not a["req"] or any(matches(i, schema, attr, sub) for i in ignore):
            return
        wanted = include is None or include == listed(schema, attr, sub)
        if wanted or (direction == "RESPONSE" and a["ret"] == "always"):
            out[loc] = 15

    def attr_level(a, obj, schema, prefix):
        value, _ = lookup(obj, a["n"])
        loc = prefix + (a["n"],)
        judge(a, value, schema, a["n"], "", loc)
        if a["t"] != "complex":
            return
        if a["mv"]:
            items = [(loc + (str(i),), item) for i, item in enumerate(value if isinstance(value, list) else [])]
        else:
            items = [(loc, value)]
        for item_loc, item in items:
            if isinstance(item, dict):
                for s in a["subs"]:
                    v, _ = lookup(item, s["n"])
                    judge(s, v, schema, a["n"], s["n"], item_loc + (s["n"],))

    for a in spec["attrs"]:
        attr_level(a, data, spec["schema"], ())
    for ext in spec["ext"]:
        inner, _ = lookup(data, ext["schema"])
        inner = inner if isinstance(inner, dict) else {}
        for a in ext["attrs"]:
            attr_level(a, inner, ext["schema"], (ext["schema"],))
    return out


def all_reps(spec):
    out = []
    for schema, attrs in [(spec["schema"], spec["attrs"])] + [(e["schema"], e["attrs"]) for e in spec["ext"]]:
        for a in attrs:
            out.append((schema, a["n"], ""))
            for s in a["subs"]:
                out.append((schema, a["n"], s["n"]))
    return out


@st.composite
def rep_text(draw, spec, unknown=True):
    """Text of one attribute reference into the resource (sometimes unknown)."""
    if unknown and draw(st.integers(0, 9)) == 0:
        return draw(st.sampled_from(["nosuch", "name.nosuch", "nosuch.value", "urn:no:such:schema:x"]))
    reps = all_reps(spec)
    names = [(r[1].lower(), r[0]) for r in reps if not r[2]]
    shared = {n for n, s in names if any(m == n and t != s for m, t in names)}
    if shared and draw(st.booleans()):
        reps = [r for r in reps if r[1].lower() in shared]
        if draw(st.booleans()):
            reps = [r for r in reps if not r[2]]
    schema, attr, sub = draw(st.sampled_from(reps))
    text = attr + ("." + sub if sub else "")
    twins = {r[0] for r in all_reps(spec) if r[1].lower() == attr.lower()}
    if len(twins) > 1 or draw(st.booleans()):
        text = schema + ":" + text
    if draw(st.integers(0, 2)) == 0:
        text = draw(gen.recased(text))
    return text


def distinct_extension_names(spec):
    spec = copy.deepcopy(spec)
    for ext in spec["ext"]:
        for a in ext["attrs"]:
            if not a["n"].startswith("ext"):
                a["n"] = "ext" + a["n"]
    return spec


CONTRASTS = [
    {"mut": ("readOnly", "readWrite")}, {"req": (True, False)}, {"req": (True, True), "iss": ("SERVER", "NOT_SPECIFIED")},
    {"req": (True, True), "iss": ("SERVER", "CLIENT")}, {"ret": ("never", "default")}, {"ret": ("always", "request")},
    {"ret": ("always", "default"), "req": (True, True)},
]


def contrast(draw, a, b):
    """Let two attributes of one name (or a sub-attribute of each) differ in one characteristic."""
    if a["subs"] and draw(st.booleans()):
        i = draw(st.integers(0, len(a["subs"]) - 1))
        a, b = a["subs"][i], b["subs"][i]
    if draw(st.booleans()):
        a, b = b, a
    for key, (x, y) in draw(st.sampled_from(CONTRASTS)).items():
        a[key], b[key] = x, y


@st.composite
def checked_specs(draw, twins=False):
    """Specs in which bare attribute names are unambiguous, or (one in two) extensions have attributes named like the schema's own."""
    spec = draw(specs.any_resource)
    if not spec.get("builtin") and spec["ext"] and twins and draw(st.booleans()):
        spec = copy.deepcopy(spec)
        own = [a for a in spec["attrs"] if a["n"].lower() not in specs.RESERVED]
        for e in spec["ext"]:
            complex_ = [a for a in own if a["t"] == "complex"]
            mine = draw(st.sampled_from(complex_ if complex_ and draw(st.booleans()) else own))
            twin = copy.deepcopy(mine)
            how = draw(st.integers(0, 3))
            if how == 0:
                twin = draw(specs.attr_specs(twin["n"]))
            elif how > 1:
                contrast(draw, mine, twin)
            e["attrs"] = [a for a in e["attrs"] if a["n"].lower() != twin["n"].lower()] + [twin]
        return spec
    return spec if spec.get("builtin") else distinct_extension_names(spec)


def parse(text):
    return ref.parse_ref(text)
