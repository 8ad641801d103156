"""Definitions: a schema is exactly what its attribute definitions say, however they are shared and combined."""
import copy

from hypothesis import strategies as st

from src.data import type as at
from src.data.attributes import (
    Attribute,
    AttributeIssuer,
    AttributeMutability,
    AttributeReturn,
    AttributeUniqueness,
    ComplexAttribute,
)
from src.data.container import SCIMDataContainer
from src.data.schemas import ResourceSchema, SchemaExtension
from src.error import ValidationError, ValidationIssues

from .. import gen
from .. import specs
from ..harness import Violation, call, expect, expect_eq, prop
from ..issues import flat

BASE_NAMES = {a["n"] for a in specs.BASE}


def entries(spec):
    """(schema, attribute, sub-attribute, extension, characteristics) of everything a schema defines, in order."""
    out = []
    for schema, attrs, ext in [(spec["schema"], spec["attrs"], False)] + [(e["schema"], e["attrs"], True) for e in spec["ext"]]:
        for a in attrs:
            out.append((schema, a["n"], "", ext, a))
            out += [(schema, a["n"], s["n"], ext, s) for s in a["subs"]]
    return out


def characteristics(obj):
    return {
        "t": obj.type.SCIM_NAME, "mv": obj.multi_valued, "req": obj.required, "mut": obj.mutability.value, "ret": obj.returned.value,
        "iss": obj.issuer.name, "vcanon": obj.validate_canonical_values, "uniq": obj.uniqueness.value, "desc": obj.description,
    }


def wanted(a, builtin):
    out = {
        "t": {"external": "reference", "uri": "reference", "scim": "reference"}.get(a["t"], a["t"]), "mv": a["mv"], "req": a["req"],
        "mut": a["mut"], "ret": a["ret"], "iss": a["iss"], "vcanon": a["vcanon"],
    }
    if not builtin:
        out["uniq"] = a.get("uniq", "none")
        out["desc"] = a.get("desc", "")
    return out


@st.composite
def detailed_specs(draw):
    spec = copy.deepcopy(draw(specs.resource_specs(max_attrs=4)))
    for attrs in [spec["attrs"]] + [e["attrs"] for e in spec["ext"]]:
        for a in attrs:
            if a["n"] in BASE_NAMES:
                continue
            for x in [a] + a["subs"]:
                if draw(st.booleans()):
                    x["uniq"] = draw(st.sampled_from(["none", "server", "global"]))
                    x["desc"] = draw(st.sampled_from(["", "text", "Ünïcode"]))
    return spec


@prop(
    "C26", detailed_specs(), quick=1500,
    rule="random schemas with 0-2 extensions: iterating lists exactly the defined attributes and sub-attributes, bound to their "
         "schema, each with the characteristics it was defined with, and every one is found by name (attr, attr__sub) in any letter "
         "case; non-trivial = has a complex attribute and an extension, or 3 attributes",
)
def schemas_expose_their_definitions(case, rec):
    spec = case
    own = [a for a in spec["attrs"] if a["n"] not in BASE_NAMES]
    if len(own) >= 3 or spec["ext"] and any(a["subs"] for a in own):
        rec.hit()
    schema = call(specs.build_fresh, spec)
    want = entries(spec)
    got = list(schema.attrs)
    expect_eq(sorted((o.rep.schema, o.rep.attr, o.rep.sub_attr, o.rep.extension) for o in got), sorted(w[:4] for w in want),
              "attributes of the schema")
    by = {(o.rep.schema, o.rep.attr, o.rep.sub_attr): o for o in got}
    for s, n, sub, ext, a in want:
        builtin = n in BASE_NAMES and not ext
        have = characteristics(by[s, n, sub])
        for k, v in wanted(a, builtin).items():
            expect(have[k] == v, "{}:{}.{} has {} {!r}, was defined with {!r}", s, n, sub, k, have[k], v)
        if a["t"] == "string":
            expect(by[s, n, sub].case_exact == a["cs"], "{}:{}.{} has caseExact {}", s, n, sub, by[s, n, sub].case_exact)
        if a["t"] == "complex":
            expect_eq([x.rep.attr for x in by[s, n, sub].attrs], [x["n"] for x in a["subs"]], f"sub-attributes of {n}")
    expect_eq([o.rep.attr for o in schema.attrs.top_level if not o.rep.extension][-len(own):], [a["n"] for a in own], "order of attributes")
    expect_eq(schema.schemas, specs.all_schemas(spec), "schemas")
    expect_eq(schema.schema_extensions, specs.all_schemas(spec)[1:], "extensions")
    # by name
    for s, n, sub, ext, _ in want:
        if "$" in sub:
            continue
        name = n + ("__" + sub if sub else "")
        if "__" in n or "_" in (n[-1], sub[:1]):
            continue  # not expressible
        for text in (name, name.upper(), name.lower()):
            if hasattr(type(schema.attrs), text):
                continue
            found = call(getattr, schema.attrs, text)
            # several schemas may define the name: any of them
            expect(found.rep.attr.lower() == n.lower() and found.rep.sub_attr.lower() == sub.lower(), "attrs.{} is {!r}", text, found.rep)
    names = {w[1].lower() for w in want}
    for text in ("nope", "nope__value", own[0]["n"] + "x", own[0]["n"] + "__nope"):
        if text.lower() not in names:
            try:
                found = getattr(schema.attrs, text)
            except AttributeError:
                continue
            raise Violation(f"attrs.{text} is {found!r}")


# --- equality ------------------------------------------------------------------------------------


@st.composite
def two_definitions(draw):
    name = draw(gen.fresh_names(specs.NAMES))
    a = copy.deepcopy(draw(specs.simple_attr(name)))
    a["uniq"] = draw(st.sampled_from(["none", "server", "global"]))
    b = copy.deepcopy(a)
    key = draw(st.sampled_from([None, "n", "t", "mv", "req", "cs", "mut", "ret", "uniq", "canon", "vcanon", "refs"]))
    if key == "n":
        b["n"] = name + "x"
    elif key == "t":
        b["t"] = draw(st.sampled_from([t for t in ["string", "boolean", "integer", "decimal", "dateTime", "binary"] if t != a["t"]]))
    elif key in ("mv", "req", "cs", "vcanon"):
        b[key] = not a[key]
    elif key == "mut":
        b["mut"] = draw(st.sampled_from([m for m in ["readWrite", "readOnly", "immutable", "writeOnly"] if m != a["mut"]]))
    elif key == "ret":
        b["ret"] = draw(st.sampled_from([m for m in ["default", "always", "never", "request"] if m != a["ret"]]))
    elif key == "uniq":
        b["uniq"] = draw(st.sampled_from([m for m in ["none", "server", "global"] if m != a["uniq"]]))
    elif key == "canon":
        b["canon"] = ["x", "y"] if a["canon"] else ["work"]
    elif key == "refs":
        if a["t"] == "scim":
            b["refs"] = ["Group"]
        else:
            key = None
    return a, b, key


@prop(
    "C26", two_definitions(), quick=1500,
    rule="two definitions, the second a copy with at most one characteristic (name, type, multiValued, required, caseExact, "
         "mutability, returned, uniqueness, canonical values and their enforcement, reference types) changed: equal exactly when "
         "none was; non-trivial = one was changed",
)
def definitions_compare_by_characteristics(case, rec):
    a, b, key = case
    rec.tag(str(key))
    if key:
        rec.hit()
    x, y = call(specs.build_attr, a), call(specs.build_attr, b)
    for p, q in ((x, y), (y, x)):
        expect((p == q) == (key is None), "definitions which differ in {} compare {}", key, p == q)
        expect((p != q) == (key is not None), "definitions which differ in {}: != is {}", key, p != q)
    expect(not (x == a["n"]), "a definition equals its name")


def _proc_a(value):
    return value, ValidationIssues()


def _proc_b(value):
    return value, ValidationIssues()


@st.composite
def two_complex(draw):
    a = copy.deepcopy(draw(specs.attr_specs(draw(gen.fresh_names(specs.NAMES))).filter(lambda x: x["t"] == "complex")))
    b = copy.deepcopy(a)
    key = draw(st.sampled_from([None, None, "sub gone", "sub more", "sub changed", "mv", "parsers", "dumpers", "kind"]))
    if key == "sub gone" and len(a["subs"]) > 1:
        b["subs"].pop(draw(st.integers(0, len(a["subs"]) - 1)))
    elif key == "sub more":
        b["subs"].append(specs.A("subZz"))
    elif key == "sub changed":
        sub = draw(st.sampled_from(b["subs"]))
        which = draw(st.sampled_from(["req", "mv", "mut", "ret"]))
        sub[which] = {"req": not sub["req"], "mv": not sub["mv"], "mut": "immutable" if sub["mut"] != "immutable" else "readWrite",
                      "ret": "always" if sub["ret"] != "always" else "default"}[which]
    elif key == "mv":
        b["mv"] = not a["mv"]
    elif key == "sub gone":
        key = None
    return a, b, key


@prop(
    "C26", two_complex(), quick=600,
    rule="two complex definitions, the second a copy with at most one sub-attribute dropped, added or changed, or other processors; and "
         "simple definitions with other processors: equal exactly when nothing was changed; non-trivial = something was",
)
def complex_definitions_compare_by_parts(case, rec):
    from src.data.attributes import Attribute, ComplexAttribute

    a, b, key = case
    rec.tag(str(key))
    if key:
        rec.hit()

    def make(spec, first, second):
        kw = {"complex_parsers": [first], "complex_dumpers": [second]}
        return ComplexAttribute(name=spec["n"], sub_attributes=[specs.build_attr(s) for s in spec["subs"]], multi_valued=spec["mv"], **kw)

    x = call(make, a, _proc_a, _proc_a)
    y = call(make, b, _proc_b if key == "parsers" else _proc_a, _proc_b if key == "dumpers" else _proc_a)
    if key == "kind":
        y = Attribute(name=a["n"], type_=specs.TYPES["string"], multi_valued=a["mv"])
    pairs = [(x, y)]
    if key in (None, "parsers", "dumpers"):
        u, v = (Attribute(name=a["n"], type_=specs.TYPES["string"], parsers=[p], dumpers=[d]) for p, d in (
            (_proc_a, _proc_a), (_proc_b if key == "parsers" else _proc_a, _proc_b if key == "dumpers" else _proc_a)))
        pairs.append((u, v))
    for p, q in pairs:
        for one, two in ((p, q), (q, p)):
            expect((one == two) == (key is None), "definitions which differ in {} compare {}: {} {}", key, one == two, a, b)


# --- shared definitions --------------------------------------------------------------------------


def marker(log, name, fail):
    def processor(value):
        log.append(name)
        issues = ValidationIssues()
        if fail:
            issues.add(issue=ValidationError.not_supported(), proceed=True)
        return value, issues

    return processor


@st.composite
def shared(draw):
    n = draw(st.integers(2, 4))
    return {
        "attrs": [{"mv": draw(st.booleans()), "list": draw(st.integers(0, 1)), "dlist": draw(st.integers(0, 1))} for _ in range(n)],
        "lists": [[draw(st.booleans()) for _ in range(draw(st.sampled_from([0, 1, 2, 2, 3, 5])))] for _ in range(2)],
        "tuples": draw(st.booleans()),
        "primaries": draw(st.lists(st.sampled_from([True, True, False, None]), min_size=0, max_size=4)),
        "method": draw(st.sampled_from(["parse", "dump"])),
    }


@prop(
    "C26", shared(), quick=1500,
    rule="several complex attributes, single- and multi-valued, defined with the same collections of processors: the given "
         "collections stay as they were and each attribute applies exactly its processors (plus the one-primary rule when "
         "multi-valued); non-trivial = attributes of both kinds share a collection",
)
def definitions_do_not_affect_one_another(case, rec):
    log = []
    kind = tuple if case["tuples"] else list
    lists = [kind(marker(log, (i, j), fail) for j, fail in enumerate(l)) for i, l in enumerate(case["lists"])]
    before = [list(l) for l in lists]
    defs = []
    for i, a in enumerate(case["attrs"]):
        defs.append(call(
            ComplexAttribute, [Attribute("value", at.String), Attribute("primary", at.Boolean)], name=f"a{i}", multi_valued=a["mv"],
            complex_parsers=lists[a["list"]], complex_dumpers=lists[a["dlist"]],
        ))
    if len({a["mv"] for a in case["attrs"]}) == 2 and len({a["list"] for a in case["attrs"]}) == 1:
        rec.hit()
    expect([list(l) for l in lists] == before, "defining attributes changed the processors they were given")
    items = [{"value": "x"} if p is None else {"primary": p} for p in case["primaries"]]
    schema = call(ResourceSchema, "urn:x:1.0:Y", defs, name="Y")
    for i, a in enumerate(case["attrs"]):
        del log[:]
        which = a["list"] if case["method"] == "parse" else a["dlist"]
        value = copy.deepcopy(items) if a["mv"] else {"value": "x"}
        data, issues = call(getattr(schema, case["method"]), {"schemas": ["urn:x:1.0:Y"], f"a{i}": value})
        fails = case["lists"][which]
        expect_eq(log, [(which, j) for j in range(len(fails))], f"processors applied to a{i}")
        codes = [39] * sum(fails) + ([9] if a["mv"] and case["primaries"].count(True) > 1 else [])
        expect_eq(flat(issues).get((f"a{i}",), []), sorted(codes), f"issues of a{i}")
        expect_eq(data.to_dict().get(f"a{i}"), value, f"value of a{i}")


WHERE = ["simple", "mv", "complex", "complexMv", "sub", "subMv"]


@st.composite
def processed(draw):
    return {
        "where": draw(st.lists(st.sampled_from(WHERE), min_size=1, max_size=4, unique=True)),
        "ext": draw(st.booleans()),
        "fail": draw(st.sampled_from([None, None, None] + WHERE)),
        "hooks": {w: draw(st.tuples(st.sampled_from([0, 1, 2, 2, 3, 5]), st.sampled_from([0, 1, 2, 2, 3, 5]))) for w in WHERE},
        "method": draw(st.sampled_from(["parse", "dump"])),
    }


@prop(
    "C26", processed(), quick=1500,
    rule="attributes of every shape with own processors (0-2 for parsing, 0-2 for dumping), in the schema or in an extension: "
         "through the schema, exactly the processors of that direction are applied to exactly that attribute's value, in order, and "
         "their issues are reported at the attribute; non-trivial = two attributes have processors",
)
def processors_survive_binding(case, rec):
    log = []

    def hooks(where):
        out = []
        for direction, n in zip(("parse", "dump"), case["hooks"][where]):
            out.append([marker(log, (where, direction, i), case["fail"] == where) for i in range(n)])
        return {"parsers": out[0], "dumpers": out[1]}

    subs = [Attribute("value", at.String, **hooks("sub")), Attribute("tags", at.String, multi_valued=True, **hooks("subMv"))]
    attrs = [
        Attribute("simple", at.String, **hooks("simple")), Attribute("mv", at.Integer, multi_valued=True, **hooks("mv")),
        ComplexAttribute(subs, name="complex", **hooks("complex")),
        ComplexAttribute([Attribute("value", at.String)], name="complexMv", multi_valued=True, **hooks("complexMv")),
    ]
    schema = ResourceSchema("urn:x:1.0:Y", [] if case["ext"] else attrs, name="Y")
    if case["ext"]:
        schema.with_extension(SchemaExtension(schema="urn:x:1.0:E", attrs=attrs, name="E"))
    members, applied = {}, []
    order = [w for w in WHERE if w in case["where"]]
    if "simple" in order:
        members["simple"] = "x"
    if "mv" in order:
        members["mv"] = [1, 2]
    if {"complex", "sub", "subMv"} & set(order):
        members["complex"] = {}
        if "sub" in order:
            members["complex"]["value"] = "x"
        if "subMv" in order:
            members["complex"]["tags"] = ["x", "y"]
    if "complexMv" in order:
        members["complexMv"] = [{"value": "x"}]
    touched = [w for w in WHERE if w in order or w == "complex" and "complex" in members]
    d = 0 if case["method"] == "parse" else 1
    for w in touched:
        applied += [(w, case["method"], i) for i in range(case["hooks"][w][d])]
    if len({a[0] for a in applied}) > 1:
        rec.hit()
    data = {"schemas": ["urn:x:1.0:Y"], **members}
    place = ()
    if case["ext"]:
        data = {"schemas": ["urn:x:1.0:Y", "urn:x:1.0:E"], "urn:x:1.0:E": members}
        place = ("urn:x:1.0:E",)
    out, issues = call(getattr(schema, case["method"]), copy.deepcopy(data))
    expect_eq(sorted(map(str, log)), sorted(map(str, applied)), "applied processors")
    for w in WHERE:  # in the order they were given
        expect_eq([a for a in log if a[0] == w], [a for a in applied if a[0] == w], f"processors of {w}")
    at_ = {"sub": ("complex", "value"), "subMv": ("complex", "tags")}.get(case["fail"], (case["fail"],))
    want = {}
    n = case["hooks"][case["fail"]][d] if case["fail"] in touched else 0
    if n:
        want[place + at_] = [39] * n
    expect_eq(flat(issues), want, "issues")
    expect_eq(out.to_dict(), data, "data")


@st.composite
def overrides(draw):
    return {n: copy.deepcopy(draw(specs.simple_attr(n, allow_mv=False))) for n in draw(st.lists(st.sampled_from(["id", "externalId", "meta"]), unique=True))}


@prop(
    "C26", st.tuples(overrides(), st.sampled_from([["own"], [], ["own", "more"]])), quick=400,
    rule="schemas which replace the common attributes id, externalId and meta by definitions of their own; non-trivial = at least one replaced",
)
def common_attributes_can_be_replaced(case, rec):
    case, own = case
    if case:
        rec.hit()

    def attrs():
        return [Attribute(n, at.String) for n in own]

    schema = call(ResourceSchema, "urn:x:1.0:Y", attrs(), name="Y", attr_overrides={n: specs.build_attr(a) for n, a in case.items()})
    plain = ResourceSchema("urn:x:1.0:Y", attrs(), name="Y")
    names = ["schemas", "id", "externalId", "meta"] + own
    for name in names:
        have = characteristics(getattr(schema.attrs, name))
        want = characteristics(getattr(plain.attrs, name))
        if name in case:
            want.update(wanted(case[name], False))
        expect_eq(have, want, f"characteristics of {name}")
    expect_eq([a.rep.attr for a in schema.attrs.top_level], names, "attributes")


@st.composite
def extension_histories(draw):
    uris = ["urn:e:1.0:A", "urn:e:1.0:B", "urn:e:1.0:Ab", "urn:m:1.0:M"]
    exts = draw(st.lists(st.sampled_from(uris), min_size=1, max_size=4))
    names = [draw(specs.unique_names(specs.NAMES, 1, 2)) for _ in exts]
    exts = [(draw(gen.recased(u)), ns) for u, ns in zip(exts, names)]
    steps = draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, len(exts) - 1), st.booleans()), min_size=1, max_size=6))
    return exts, steps


@prop(
    "C26", extension_histories(), quick=1500,
    rule="extensions added to two schemas in random order, some twice or under the schema's own URI in another letter case: a known "
         "URI is refused and changes nothing, every other extension adds exactly its attributes to that schema only; "
         "non-trivial = an addition was refused",
)
def extensions_are_added_once(case, rec):
    exts, steps = case
    built = [call(SchemaExtension, schema=u, attrs=[Attribute(n, at.String) for n in ns], name="e") for u, ns in exts]
    schemas = [ResourceSchema("urn:m:1.0:M", [Attribute("own", at.Integer)], name="M"), ResourceSchema("urn:m:1.0:N", [Attribute("own", at.Integer)], name="N")]
    base = [{(o.rep.schema, o.rep.attr, o.rep.sub_attr) for o in s.attrs} for s in schemas]
    added = [[], []]
    for which, i, required in steps:
        schema, (uri, names) = schemas[which], exts[i]
        known = [schema.schema.lower()] + [exts[k][0].lower() for k in added[which]]
        try:
            schema.with_extension(built[i], required=required)
            refused = False
        except ValueError:
            refused = True
        if refused:
            rec.hit()
        expect(refused == (uri.lower() in known), "adding {} to a schema with {} was {}", uri, known, "refused" if refused else "accepted")
        if not refused:
            added[which].append(i)
        for k in range(2):
            want = set(base[k]) | {(exts[j][0], n, "") for j in added[k] for n in exts[j][1]}
            expect_eq({(o.rep.schema, o.rep.attr, o.rep.sub_attr) for o in schemas[k].attrs}, want, f"attributes of schema {k} after {steps}")
            expect_eq(schemas[k].schemas, [schemas[k].schema] + [exts[j][0] for j in added[k]], f"schemas of schema {k}")
    # and they are used: data of an added extension is kept, of any other is dropped
    for k in range(2):
        data = {"schemas": list(schemas[k].schemas), "own": 5}
        for uri, names in exts:
            data[uri] = {names[0]: "v"}
        out, issues = call(schemas[k].parse, copy.deepcopy(data))
        want = {"schemas": list(schemas[k].schemas), "own": 5}
        uris = {u.lower() for u, _ in exts}
        if len(uris) < len(exts) or schemas[k].schema.lower() in uris:
            continue  # the same member twice, or one named like the schema itself
        for j in added[k]:
            want[exts[j][0]] = {exts[j][1][0]: "v"}
        expect_eq(out.to_dict(), want, f"data kept by schema {k}")
        expect_eq(flat(issues), {}, f"issues of schema {k}")


# --- refused definitions ---------------------------------------------------------------------------


REFS = st.one_of(st.none(), st.lists(st.sampled_from(["external", "uri", "User", "Group"]), max_size=2))


@prop(
    "C26", st.tuples(st.sampled_from(["external", "uri", "scim", "string"]), REFS), quick=300,
    rule="reference attributes with arbitrary reference types: external and uri references take only their own kind; "
         "non-trivial = refused",
)
def reference_types_are_checked(case, rec):
    t, refs = case
    ok = not refs or t not in ("external", "uri") or refs == [t]
    try:
        made = Attribute("a", specs.TYPES[t], reference_types=refs)
    except ValueError:
        made = None
    if not ok:
        rec.hit()
    expect((made is not None) == ok, "{} attribute with reference types {} was {}", t, refs, "made" if made else "refused")
    if made is not None:
        want = refs or ([t] if t in ("external", "uri") else [])
        expect_eq(list(made.reference_types), want, f"reference types of {case}")
