"""The `schemas` field of resources and messages, and the extensions it announces."""
import copy

from hypothesis import strategies as st

from src.data.schemas import SchemaExtension

from .. import gen
from .. import messages as M
from .. import resmodel as R
from .. import specs
from ..harness import Violation, call, expect, prop
from ..issues import flat

EXTS = ["urn:example:ext:1.0:One", "urn:example:ext:1.0:Two", "urn:Example:Ext:1.0:Three", "urn:ietf:params:scim:schemas:core:2.0:UserX"]
UNKNOWN = ["urn:no:such:schema", "urn:ietf:params:scim:schemas:core:2.0", "urn:ietf:params:scim:schemas:core:2.0:User:", "x", "",
           "urn:example:ext:1.0:On", "urn:example:ext:1.0:One2"]
BAD = [5, None, True, [], {}, ["x"], 1.5]


def expected(main, known, schemas, present):
    """{location: codes}; present: schemas of extensions with data."""
    out = {}
    for i, s in enumerate(schemas):
        if not isinstance(s, str):
            out[("schemas", str(i))] = [2]
    texts = [s.lower() for s in schemas if isinstance(s, str)]
    codes = []
    if any(t not in [k.lower() for k in known] for t in texts):
        codes.append(27)
    if schemas and main.lower() not in texts:
        codes.append(28)
    if schemas:
        codes += [29 for e in present if e.lower() not in texts]
    if codes:
        out[("schemas",)] = codes
    return out


@st.composite
def schema_lists(draw, main, known):
    out = []
    for _ in range(draw(st.integers(0, 5))):
        kind = draw(st.integers(0, 9))
        if kind < 3:
            out.append(main)
        elif kind < 7:
            out.append(draw(st.sampled_from(known)))
        elif kind < 9:
            out.append(draw(st.sampled_from(UNKNOWN + EXTS)))
        else:
            out.append(copy.deepcopy(draw(st.sampled_from(BAD))))
    if draw(st.booleans()):
        out = [draw(gen.recased(s)) if isinstance(s, str) else s for s in out]
    if draw(st.integers(0, 1)) and main.lower() not in [s.lower() for s in out if isinstance(s, str)]:
        out.insert(draw(st.integers(0, len(out))), main)
    return out


@st.composite
def resources(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        spec = draw(st.sampled_from([specs.USER, specs.GROUP, specs.RICH]))
    else:
        spec = copy.deepcopy(draw(specs.resource_specs(max_attrs=2, ext=False)))
        for urn in draw(st.lists(st.sampled_from(EXTS), max_size=3, unique=True)):
            names = draw(st.lists(st.sampled_from(specs.NAMES), min_size=1, max_size=2, unique=True))
            spec["ext"].append({"schema": urn, "required": draw(st.booleans()), "attrs": [draw(specs.attr_specs(n)) for n in names]})
    direction = draw(st.sampled_from(["parse", "dump"]))
    data = draw(specs.resource_data(spec, direction, presence=0.3))
    for e in spec["ext"]:
        data.pop(e["schema"], None)
    present = []
    for e in spec["ext"]:
        how = draw(st.integers(0, 4))
        if how == 0:
            continue
        if how == 1:  # nothing known in it
            value = draw(st.sampled_from([{}, {"nosuchattribute": 1}, {"zz": None}]))
        else:
            value = draw(specs.object_for(e["attrs"], direction, 0.8, nulls=False))
            if any(v is not None for v in value.values()):
                present.append(e["schema"])
        key = e["schema"]
        if draw(st.integers(0, 3)) == 0:
            key = draw(gen.recased(key))
        data[key] = value
    schemas = draw(schema_lists(spec["schema"], specs.all_schemas(spec)))
    how = draw(st.integers(0, 9))
    data.pop("schemas")
    name = draw(gen.recased("schemas")) if draw(st.integers(0, 4)) == 0 else "schemas"
    if how == 0:
        schemas = []
    elif how == 1:
        data[name] = None
        schemas = []
    else:
        data[name] = schemas
    return {"spec": spec, "dir": direction, "data": data, "schemas": schemas, "present": present}


@prop(
    "C11", resources(), quick=5000,
    rule="resources of built-in and random schemas with 0-3 extensions, data of some of them, `schemas` lists mixing main, extension, "
         "unknown, repeated, re-cased and non-string entries: issues at `schemas` equal a reference; non-trivial = some issue expected "
         "or an extension with data",
)
def resources_announce_their_schemas(case, rec):
    spec = case["spec"]
    want = expected(spec["schema"], specs.all_schemas(spec), case["schemas"], case["present"])
    if want or case["present"]:
        rec.hit(f"{spec['name']} {case['dir']} schemas={case['schemas']!r} present={case['present']} -> {want}")
    for codes in want.values():
        for c in set(codes):
            rec.tag(f"code {c}")
    schema = specs.build(spec)
    _, issues = call(getattr(schema, case["dir"]), copy.deepcopy(case["data"]))
    got = {k: v for k, v in flat(issues).items() if k[:1] == ("schemas",)}
    expect(got == want, "{} {} of {!r}: issues {}, expected {}", spec["name"], case["dir"], case["data"], got, want)
    if all(isinstance(s, str) for s in case["schemas"]):
        expect(flat(issues) == want, "{} {} of {!r}: issues {} besides {}", spec["name"], case["dir"], case["data"], flat(issues), want)


MAINS = {
    "Error": M.API + "Error", "SearchRequest": M.API + "SearchRequest", "PatchOp": M.API + "PatchOp", "BulkRequest": M.API + "BulkRequest",
    "BulkResponse": M.API + "BulkResponse", "ListResponse": M.API + "ListResponse", "Schema": M.CORE + "Schema",
    "ResourceType": M.CORE + "ResourceType", "ServiceProviderConfig": M.CORE + "ServiceProviderConfig",
}


@st.composite
def messages(draw):
    kind = draw(st.sampled_from(sorted(MAINS)))
    others = list(MAINS.values())
    data = copy.deepcopy(draw(M.MESSAGES[kind]()))
    main = MAINS[kind]
    schemas = draw(schema_lists(main, [main] + draw(st.lists(st.sampled_from(others), max_size=2))))
    data["schemas"] = schemas
    return {"kind": kind, "dir": draw(st.sampled_from(["parse", "dump"])), "data": data, "schemas": schemas}


@prop(
    "C11", messages(), quick=2500,
    rule="protocol messages of every kind with `schemas` lists mixing their own, other, unknown and malformed entries; non-trivial = "
         "some issue expected",
)
def messages_announce_their_schema(case, rec):
    main = MAINS[case["kind"]]
    want = expected(main, [main], case["schemas"], [])
    if want:
        rec.hit(f"{case['kind']} {case['schemas']!r} -> {want}")
    _, issues = call(getattr(M.build(case["kind"]), case["dir"]), copy.deepcopy(case["data"]))
    got = {k: v for k, v in flat(issues).items() if k[:1] == ("schemas",)}
    expect(got == want, "{} {} of {!r}: issues {}, expected {}", case["kind"], case["dir"], case["data"], got, want)


@st.composite
def registrations(draw):
    spec = copy.deepcopy(draw(st.sampled_from([specs.USER, specs.GROUP, specs.RICH])))
    urns = []
    for _ in range(draw(st.integers(1, 5))):
        base = draw(st.sampled_from(EXTS[:2] + specs.all_schemas(spec)))
        urns.append(draw(gen.recased(base)) if draw(st.booleans()) else base)
    attrs = draw(st.lists(st.sampled_from(["alpha", "userName", "title", "members", "id"]), min_size=1, max_size=2, unique=True))
    return {"spec": spec, "urns": urns, "attrs": attrs, "required": draw(st.booleans())}


@prop(
    "C11", registrations(), quick=600,
    rule="histories of registering extensions on a fresh schema, some repeating a known schema in another case: exactly the repetitions "
         "are refused (ValueError) and change nothing, and data of every accepted extension is then kept apart from the core data; "
         "non-trivial = one refused and one accepted",
)
def extensions_are_registered_once(case, rec):
    schema = specs.build_fresh(case["spec"])
    known = [s.lower() for s in specs.all_schemas(case["spec"])]
    accepted, refused = [], 0
    for urn in case["urns"]:
        before = list(schema.schemas), len(list(schema.attrs))
        ext = SchemaExtension(urn, [specs.build_attr(specs.A(n)) for n in case["attrs"]])
        try:
            schema.with_extension(ext, required=case["required"])
        except ValueError:
            expect(urn.lower() in known, "extension {} refused; known {}", urn, known)
            refused += 1
            expect((list(schema.schemas), len(list(schema.attrs))) == before, "refused extension {} changed the schema", urn)
            continue
        expect(urn.lower() not in known, "extension {} accepted twice; known {}", urn, known)
        known.append(urn.lower())
        accepted.append(urn)
        expect([s.lower() for s in schema.schemas] == known, "schemas are {} after {}", schema.schemas, accepted)
    if accepted and refused:
        rec.hit(repr(case["urns"]))
    data = {"schemas": list(schema.schemas), "id": "core"}
    for urn in accepted:
        data[urn] = {n: f"{n} of {urn}" for n in case["attrs"]}
    out, issues = call(schema.parse, copy.deepcopy(data))
    expect(not issues.has_issues(), "{!r}: {}", data, flat(issues))
    d = R.diff(R.plain(out), data)
    expect(d is None, "with extensions {}: {}", accepted, d)
