"""Self-description: what schemas say about themselves, and the endpoints which serve it."""
import copy

from hypothesis import strategies as st

from src import request_validators as rv
from src.assets.config import create_service_provider_config
from src.assets.schemas.schema import Schema
from src.data.schemas import get_schema_rep

from .. import endpoints as E
from .. import gen
from .. import messages as M
from .. import resmodel as R
from .. import specs
from ..harness import Violation, call, expect, prop
from ..issues import flat

SCHEMA_URN = "urn:ietf:params:scim:schemas:core:2.0:Schema"
LIST = M.API + "ListResponse"
TYPE_NAMES = {"external": "reference", "uri": "reference", "scim": "reference"}
# uniqueness and reference types of the built-in resources (RFC 7643)
BUILTIN_UNIQUE = {("User", "userName"): "server"}


def describe(a, owner=None):
    """The RFC 7643 section 7 description of an attribute spec."""
    out = {
        "name": a["n"], "type": TYPE_NAMES.get(a["t"], a["t"]), "multiValued": a["mv"], "required": a["req"],
        "mutability": a["mut"], "returned": a["ret"],
        "uniqueness": a.get("uniq") or ("server" if a["n"] == "id" and a["cs"] else BUILTIN_UNIQUE.get((owner, a["n"]), "none")),
    }
    if a["t"] == "string":
        out["caseExact"] = a["cs"]
    if a["canon"]:
        out["canonicalValues"] = a["canon"]
    if "desc" in a:
        out["description"] = a["desc"]
    refs = a.get("refs") or {"scim": ["User"], "uri": ["uri"], "external": ["external"]}.get(a["t"])
    if refs:
        out["referenceTypes"] = refs
    if a["t"] == "complex":
        out["subAttributes"] = [describe(s) for s in a["subs"]]
    return out


def compare(got, want, at=()):
    """First difference between a description and the expected one, or None."""
    if not isinstance(got, list):
        return f"{at}: {got!r} is not a list of attributes"
    names = [g.get("name") for g in got]
    if sorted(map(str, names)) != sorted(w["name"] for w in want):
        return f"{at}: describes {names}, expected {[w['name'] for w in want]}"
    got = {g["name"]: g for g in got}
    for w in want:
        g = got[w["name"]]
        here = at + (w["name"],)
        for key in ("type", "multiValued", "required", "mutability", "returned", "uniqueness", "caseExact", "description", "referenceTypes"):
            if key in w and (g.get(key) != w[key] or type(g.get(key)) is not type(w[key])):
                return f"{here}: {key} is {g.get(key)!r}, expected {w[key]!r}"
        for key in ("referenceTypes", "subAttributes", "canonicalValues"):
            if key not in w and g.get(key):
                return f"{here}: has {key} {g[key]!r}"
        if "canonicalValues" in w:
            have = list(g.get("canonicalValues") or [])
            if w.get("caseExact"):
                same = sorted(have) == sorted(w["canonicalValues"])
            else:
                same = sorted(v.lower() for v in have) == sorted(v.lower() for v in w["canonicalValues"])
            if not same:
                return f"{here}: canonicalValues {have!r}, expected {w['canonicalValues']!r}"
        if "subAttributes" in w:
            d = compare(g.get("subAttributes"), w["subAttributes"], here)
            if d:
                return d
    return None


@st.composite
def detailed(draw, attrs):
    out = []
    for a in attrs:
        a = dict(a, subs=draw(detailed(a["subs"])) if a["subs"] else [])
        if a["n"] not in ("schemas", "id", "externalId", "meta"):
            if a["t"] == "complex" and draw(st.integers(0, 11)) == 0:
                a["subs"] = []
            a["uniq"] = draw(st.sampled_from(["none", "none", "server", "global"]))
            a["desc"] = draw(st.sampled_from(["", "Some text.", "naïve \"x\"", "A"]))
            if a["t"] == "scim" and draw(st.booleans()):
                a["refs"] = draw(st.lists(st.sampled_from(["User", "Group", "Custom"]), min_size=1, max_size=2, unique=True))
        out.append(a)
    return out


@st.composite
def described(draw):
    how = draw(st.integers(0, 9))
    if how == 0:
        return draw(st.sampled_from([specs.USER, specs.GROUP, specs.PROVIDER, specs.RESOURCE_TYPE]))
    spec = dict(draw(st.one_of(st.just(specs.RICH), specs.resource_specs(), specs.resource_specs())))
    base = [a for a in spec["attrs"] if a["n"] in ("schemas", "id", "externalId", "meta")]
    rest = [a for a in spec["attrs"] if a not in base]
    spec["attrs"] = base + draw(detailed(rest))
    if draw(st.integers(0, 7)) == 0:  # very many attributes and sub-attributes
        many = [specs.A(f"n{i}", draw(st.sampled_from(["string", "integer"]))) for i in range(draw(st.sampled_from([9, 14, 24])))]
        spec["attrs"] += [specs.A("wide", "complex", mv=draw(st.booleans()), subs=many)] + [dict(a, n=a["n"] + "x") for a in many]
    spec["ext"] = [dict(e, attrs=draw(detailed(e["attrs"])), name=draw(st.sampled_from(["ext", "", "E 2"])), desc=draw(st.sampled_from(["", "d"])))
                   for e in spec["ext"]]
    spec["desc"] = draw(st.sampled_from(["", "A custom resource"]))
    return spec


def wanted(spec):
    return [describe(a, spec["name"]) for a in spec["attrs"]]


@prop(
    "C22", described(), quick=1500,
    rule="built-in and random schemas with random characteristics, descriptions, canonical values and reference types at both levels and in "
         "extensions: the representation states exactly these characteristics of exactly the schema's own attributes, the extension's "
         "of exactly its own; non-trivial = three or more own attributes",
)
def representation_states_the_characteristics(spec, rec):
    schema = specs.build_fresh(spec)
    rep = call(get_schema_rep, schema)
    if len(spec["attrs"]) > 6:
        rec.hit(f"{spec['name']}: {[a['n'] for a in spec['attrs']]} + {[a['n'] for e in spec['ext'] for a in e['attrs']]}")
    expect(rep["id"] == spec["schema"] and rep["schemas"] == [SCHEMA_URN] and rep["name"] == spec["name"], "{}: {!r}", spec["name"],
           {k: v for k, v in rep.items() if k != "attributes"})
    if "desc" in spec:
        expect(rep["description"] == spec["desc"], "description {!r}, expected {!r}", rep["description"], spec["desc"])
    d = compare(rep["attributes"], wanted(spec))
    if d:
        raise Violation(f"representation of {spec['schema']} at {d}")
    again = call(get_schema_rep, schema)
    expect(again == rep, "the second representation differs from the first")
    if spec.get("builtin"):
        return
    for e in spec["ext"]:
        got = call(specs.build_extension(e).to_dict)
        expect(got["id"] == e["schema"] and got["name"] == e["name"] and got["description"] == e["desc"], "extension {}: {!r}", e["schema"], got)
        d = compare(got["attributes"], [describe(a) for a in e["attrs"]])
        if d:
            raise Violation(f"representation of extension {e['schema']} at {d}")


FAULTS = {
    "name": [5, None, [], ""], "type": ["text", "", 5, "strings", None], "multiValued": ["true", 1, None], "required": ["yes", 0, None, []],
    "mutability": ["mutable", "", 5, None, "read-only"], "returned": ["sometimes", 5, None], "uniqueness": ["galaxy", 5, None, "None "],
    "caseExact": ["true", 1], "description": [5, {}, True], "referenceTypes": ["User", 5, [5]],
}
CANONICAL = {"type", "mutability", "returned", "uniqueness"}


@st.composite
def served(draw):
    n = draw(st.integers(1, 3))
    case = {"specs": [draw(described()) for _ in range(n)], "single": draw(st.booleans()), "faults": []}
    if case["single"]:
        case["specs"] = case["specs"][:1]
    if draw(st.integers(0, 2)) == 0:
        return case
    faulty = set()
    # faults of the attributes themselves hide others, the ones of their sub-attributes do not
    inside = draw(st.booleans())
    for _ in range(draw(st.sampled_from([1, 1, 2, 3, 5])) if inside else 1):
        i = draw(st.integers(0, len(case["specs"]) - 1))
        attrs = case["specs"][i]["attrs"]
        places = list(range(len(attrs)))
        if inside:
            places = [j for j in places if attrs[j]["subs"]]
        j = draw(st.sampled_from(places))
        if (i, j) in faulty:  # faults of one attribute may hide one another
            continue
        faulty.add((i, j))
        path = ("attributes", j)
        sub = inside
        target = attrs[j]
        if sub:
            k = draw(st.integers(0, len(attrs[j]["subs"]) - 1))
            target = attrs[j]["subs"][k]
            path += ("subAttributes", k)
        key = draw(st.sampled_from(sorted(FAULTS)))
        value = draw(st.one_of(st.sampled_from(FAULTS[key]), st.just("<missing>")))
        if key in ("description", "referenceTypes") and value == "<missing>":
            continue
        if key == "caseExact" and target["t"] != "string" and value == "<missing>":
            continue
        if sub and (value in (None, "", "<missing>") and key != "caseExact") and value != "":
            continue  # whether sub-attributes of descriptions are complete is unspecified
        if sub and value == "" and key not in CANONICAL:
            continue
        case["faults"].append((i, path + (key,), value))
    return case


def fault_codes(path, value):
    key = path[-1]
    if value is None or value == "<missing>":
        return {(): [15]}
    if value == "" and key == "name":
        return {(): [15]}
    if isinstance(value, list) and key == "referenceTypes":
        return {("0",): [2]}
    if key in CANONICAL and isinstance(value, str):
        return {(): [14]}
    return {(): [2]}


@prop(
    "C22", served(), quick=900,
    rule="representations of 1..3 built-in and random schemas served by the schema endpoints, unchanged or with a characteristic missing or "
         "invalid at any level: accepted and handed on without loss, or the fault reported where it is; non-trivial = a fault, or two schemas",
)
def representations_are_served(case, rec):
    reps = [copy.deepcopy(call(get_schema_rep, specs.build(s))) for s in case["specs"]]
    want = {}
    pristine = copy.deepcopy(reps)
    prefix = ("body",) if case["single"] else ("body", "Resources")
    for i, path, value in case["faults"]:
        j = path[1]
        target = reps[i]["attributes"]
        names = [a["n"] for a in case["specs"][i]["attrs"]]
        pos = [t["name"] for t in pristine[i]["attributes"]].index(names[j])
        target, real = target[pos], ["attributes", str(pos)]
        if "subAttributes" in path:
            subs = [s["n"] for s in case["specs"][i]["attrs"][j]["subs"]]
            k = [t["name"] for t in pristine[i]["attributes"][pos]["subAttributes"]].index(subs[path[3]])
            target, real = target["subAttributes"][k], real + ["subAttributes", str(k)]
        if value == "<missing>":
            target.pop(path[-1], None)
        else:
            target[path[-1]] = copy.deepcopy(value)
        for tail, codes in fault_codes(path, value).items():
            want[prefix + (() if case["single"] else (str(i),)) + tuple(real) + (path[-1],) + tail] = codes
    if case["single"]:
        data, issues = call(E.SINGLE["GET"](E.config(), resource_schema=Schema()).dump_response, status_code=200, body=copy.deepcopy(reps[0]))
    else:
        body = {"schemas": [LIST], "totalResults": len(reps), "itemsPerPage": len(reps), "startIndex": 1, "Resources": copy.deepcopy(reps)}
        data, issues = call(rv.SchemasGET(E.config()).dump_response, status_code=200, body=body)
    found = flat(issues)
    what = f"schemas {[s['schema'] for s in case['specs']]} faults {case['faults']!r}"
    if case["faults"] or len(case["specs"]) > 1:
        rec.hit(what)
    rec.tag("faulty" if want else "intact")
    if want:
        for loc, codes in want.items():
            expect(found.get(loc) == codes, "{}: {} reported at {}, expected {}; all issues {}", what, found.get(loc), loc, codes, found)
        extra = {k: v for k, v in found.items() if k not in want}
        if any(f[1][-1] == "type" for f in case["faults"]):  # what else is demanded depends on the type
            extra = {k: v for k, v in extra.items() if k[-1] != "caseExact"}
        expect(not extra, "{}: also reports {}", what, extra)
        expect(data.body is None, "{}: handed on despite {}", what, found)
        return
    expect(not found, "{}: refused with {}", what, found)
    out = [R.plain(data.body)] if case["single"] else R.plain(data.body)["Resources"]
    expect(len(out) == len(reps), "{} served as {}", len(reps), len(out))
    for got, rep, spec in zip(out, reps, case["specs"]):
        expect({k: v for k, v in got.items() if k != "attributes"} == {k: v for k, v in rep.items() if k != "attributes"}, "{}: served {!r}", what, got)
        d = compare(got["attributes"], wanted(spec))
        if d:
            raise Violation(f"{what}: served description differs at {d}")


@st.composite
def resource_types(draw):
    items = draw(st.lists(specs.resource_data(specs.RESOURCE_TYPE, "dump", presence=0.9, nulls=False), min_size=1, max_size=3))
    return {"items": items, "drop": draw(st.sampled_from([None, None, "name", "endpoint", "schema"])), "at": draw(st.integers(0, 2))}


@prop(
    "C22", resource_types(), quick=500,
    rule="lists of resource types served by their endpoint, complete or with a required attribute missing; non-trivial = two or more",
)
def resource_types_are_served(case, rec):
    items = copy.deepcopy(case["items"])
    want = {}
    for i, item in enumerate(items):
        item.setdefault("name", "x"), item.setdefault("endpoint", "/x"), item.setdefault("schema", "urn:x:y")
        item["name"], item["endpoint"], item["schema"] = item["name"] or "x", item["endpoint"] or "/x", item["schema"] or "urn:x:y"
        for j, e in enumerate(item.get("schemaExtensions") or []):
            for k in ("schema", "required"):
                if e.get(k) in (None, ""):
                    want[("body", "Resources", str(i), "schemaExtensions", str(j), k)] = [15]
    i = case["at"] % len(items)
    if case["drop"]:
        items[i].pop(case["drop"], None)
        want[("body", "Resources", str(i), case["drop"])] = [15]
    body = {"schemas": [LIST], "totalResults": len(items), "Resources": items}
    data, issues = call(rv.ResourceTypesGET(E.config()).dump_response, status_code=200, body=copy.deepcopy(body))
    if len(items) > 1:
        rec.hit(repr(body))
    found = flat(issues)
    expect(found == want, "{!r}: issues {}, expected {}", body, found, want)
    if want:
        expect(data.body is None, "{!r}: handed on despite {}", body, found)
    else:
        d = R.diff(R.plain(data.body)["Resources"], [R.expected_resource(specs.RESOURCE_TYPE, x, "dump") for x in items])
        expect(d is None, "{!r}: {}", body, d)


limits = st.sampled_from([None, 0, 1, 10, 10**6])


@prop(
    "C22", st.fixed_dictionaries({
        "bulk": st.one_of(st.none(), st.fixed_dictionaries({}, optional={"supported": st.booleans(), "max_operations": limits, "max_payload_size": limits})),
        "filter_": st.one_of(st.none(), st.fixed_dictionaries({}, optional={"supported": st.booleans(), "max_results": limits})),
        "patch": st.sampled_from([None, {}, {"supported": True}, {"supported": False}]),
        "sort": st.sampled_from([None, {"supported": True}]),
        "etag": st.sampled_from([None, {"supported": True}]),
        "change_password": st.sampled_from([None, {"supported": True}]),
        "documentation_uri": st.sampled_from(["", "https://x/doc"]),
        "authentication_schemes": st.one_of(st.none(), st.lists(st.fixed_dictionaries({
            k: st.sampled_from(["oauth", "httpbasic", "", "https://x/doc", "n"]) for k in ("name", "description", "spec_uri", "documentation_uri", "type")}), max_size=8)),
        "query": st.one_of(st.none(), E.query_strings()),
    }), quick=400,
    rule="service configurations: refused exactly if bulk or filtering is supported without limits, otherwise kept as given, unsupported by "
         "default; filtering of schemas and resource types is refused; non-trivial = bulk or filtering supported",
)
def configurations(case, rec):
    kw = {k: copy.deepcopy(v) for k, v in case.items() if k != "query"}
    b, f = case["bulk"] or {}, case["filter_"] or {}
    bad = (b.get("supported") and not (b.get("max_operations") and b.get("max_payload_size"))) or (f.get("supported") and not f.get("max_results"))
    if b.get("supported") or f.get("supported"):
        rec.hit(repr(kw))
    try:
        config = create_service_provider_config(**kw)
    except ValueError:
        expect(bad, "{!r} refused", kw)
        return
    expect(not bad, "{!r} accepted", kw)
    got = {
        "bulk": (config.bulk.supported, config.bulk.max_operations, config.bulk.max_payload_size),
        "filter": (config.filter.supported, config.filter.max_results),
        "patch": config.patch.supported, "sort": config.sort.supported, "etag": config.etag.supported,
        "change_password": config.change_password.supported, "documentation_uri": config.documentation_uri,
        "authentication_schemes": [{k: getattr(s, k) for k in ("name", "description", "spec_uri", "documentation_uri", "type")}
                                   for s in config.authentication_schemes],
    }
    want = {
        "bulk": (b.get("supported", False), b.get("max_operations"), b.get("max_payload_size")),
        "filter": (f.get("supported", False), f.get("max_results")),
        **{k: (case[k] or {}).get("supported", False) for k in ("patch", "sort", "etag", "change_password")},
        "documentation_uri": case["documentation_uri"], "authentication_schemes": case["authentication_schemes"] or [],
    }
    expect(got == want, "{!r} read as {!r}", kw, got)
    query = case["query"]
    for validator in (rv.SchemasGET(config), rv.ResourceTypesGET(config)):
        data, issues = call(validator.parse_request, query_string=copy.deepcopy(query))
        expected = {("query_string", "filter"): [39]} if query and "filter" in query else {}
        expect(flat(issues) == expected, "{} {!r}: issues {}", type(validator).__name__, query, flat(issues))
