"""Verdicts depend on the arguments alone: nothing given is changed, nothing is remembered."""
import copy

from hypothesis import strategies as st

from src.data.attributes import AttributeIssuer, AttributeMutability, AttributeReturn
from src.data.container import AttrRep, SCIMDataContainer
from src.data.operator import MatchResult
from src.data.path import PatchPath
from src.data.schemas import get_schema_rep
from src.filter import Filter
from src.sorter import Sorter

from .. import filters as F
from .. import gen
from .. import presence as P
from .. import resmodel as R
from .. import specs
from .. import traffic as T
from .. import zygote
from ..harness import Violation, call, expect, prop
from ..issues import flat
from . import c03, c06, c07
from .c13 import spoiled


def frozen(v):
    """A comparable snapshot which tells apart 1, 1.0 and True, and equates NaN with itself."""
    if isinstance(v, SCIMDataContainer):
        return ("container", frozen(v.to_dict()))
    if isinstance(v, dict):
        return ("dict", [(k, frozen(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [frozen(x) for x in v])
    if isinstance(v, (str, int, float, bool, type(None))):
        return (type(v).__name__, repr(v))
    if hasattr(v, "isoformat"):
        return ("datetime", v.isoformat())
    if hasattr(v, "attr_rep") and hasattr(v, "complex_filter"):  # PATCH path
        return ("path", str(v.attr_rep), v.complex_filter.to_dict() if v.complex_filter is not None else None, str(v.complex_filter_attr_rep))
    if hasattr(v, "attr_reps"):  # requested attributes
        return ("presence", [str(r) for r in v.attr_reps], v.include)
    if hasattr(v, "to_dict"):  # filter
        return ("filter", repr(v.to_dict()))
    if isinstance(v, AttrRep):
        return ("ref", str(v))
    return (type(v).__name__,)


def clobber(v, depth=0):
    """Spoil a result, as a caller is free to do."""
    if depth > 12:
        return
    if isinstance(v, SCIMDataContainer):
        for key in list(v.to_dict()):
            rep = AttrRep.parse(key)
            if isinstance(rep, AttrRep) and not rep.sub_attr:
                inner = v[rep]
                clobber(inner, depth + 1)
                v[rep] = "clobbered"
    elif isinstance(v, dict):
        for x in list(v.values()):
            clobber(x, depth + 1)
        v.clear()
        v["clobbered"] = True
    elif isinstance(v, list):
        for x in v:
            clobber(x, depth + 1)
        v.clear()
        v.append("clobbered")


@st.composite
def histories(draw):
    calls = draw(st.lists(st.one_of(spoiled(T.requests()), spoiled(T.responses())), min_size=2, max_size=4))
    if draw(st.booleans()):  # let calls share their schemas
        by_kind = {}
        for c in calls:
            if c["kind"] in ("bulk", "root", "search"):
                by_kind.setdefault(c["kind"], c["specs"])
                c["specs"] = by_kind[c["kind"]]
    order = draw(st.permutations(range(len(calls))))
    return {"calls": calls, "order": list(order), "container": draw(st.booleans()), "describe": draw(st.booleans())}


def verdict(case, out, query):
    data, issues = out
    return {"issues": flat(issues), "body": frozen(data.body), "headers": frozen(data.headers),
            "query": frozen(data.query_string) if case["side"] == "request" else None}


@prop(
    "C23", histories(), quick=1600,
    rule="2-4 requests and responses to the endpoint validators, valid or not, submitted to shared validators, their results spoiled by the "
         "caller, then submitted again in another order, to new validators and to newly built schemas: every verdict is the first one and no "
         "argument was changed; non-trivial = two or more object bodies",
)
def history_does_not_matter(case, rec):
    calls = case["calls"]
    if sum(isinstance(c["body"], dict) for c in calls) > 1:
        rec.hit(" | ".join(f"{c['side']} {c['kind']} {c['body']!r}"[:300] for c in calls))
    validators = [T.validator(c) for c in calls]
    first = []
    for c, v in zip(calls, validators):
        body, headers = copy.deepcopy(c["body"]), copy.deepcopy(c["headers"])
        if case["container"] and body and isinstance(body, dict) and c["side"] == "response":
            body = SCIMDataContainer(body)
        rest = copy.deepcopy(c["query"]) if c["side"] == "request" else T.arguments(c["kw"])
        before = frozen(body), frozen(headers), frozen(rest)
        out = T.submit(v, c, body, headers, rest)
        for name, old, now in zip(("body", "headers", "options"), before, (frozen(body), frozen(headers), frozen(rest))):
            expect(old == now, "{} {} changed the {} it was given from {} to {}", c["side"], c["kind"], name, old, now)
        seen = verdict(c, out, rest)
        first.append(seen)
        expect(verdict(c, out, rest) == seen, "{} {}: the result changes when it is looked at", c["side"], c["kind"])
        clobber(out[0].body)
        if case["describe"] and c["specs"]:
            clobber(call(get_schema_rep, specs.build(c["specs"][0])))

    def compare(c, out, want, when):
        got = verdict(c, out, None)
        if case["container"] and c["side"] == "response" and isinstance(c["body"], dict):
            got, want = dict(got, body=None), dict(want, body=None)  # order of members may differ
        if got != want:
            what = {k: (want[k], got[k]) for k in want if want[k] != got[k]}
            raise Violation(f"{c['side']} {c['kind']} body={c['body']!r}: {when} (first, now) = {what!r}")

    for i in case["order"]:
        compare(calls[i], T.run(calls[i], validators[i]), first[i], "different in another order")
    for i, c in enumerate(calls):
        compare(c, T.run(c), first[i], "different for a new validator")
    for i, c in enumerate(calls):
        compare(c, run_fresh(c), first[i], "different for newly built schemas")


def run_fresh(c):
    old = specs.build
    specs.build = specs.build_fresh
    try:
        return T.run(c)
    finally:
        specs.build = old


@st.composite
def sharing(draw):
    """Schemas made from shared attribute and extension objects, extended in some order."""
    base = draw(specs.resource_specs(ext=False))
    attrs = [a for a in base["attrs"] if a["n"] not in ("schemas", "id", "externalId", "meta")]
    exts = []
    for i in range(draw(st.integers(1, 3))):
        e = draw(specs.resource_specs(max_attrs=3, ext=False))
        exts.append({"schema": f"urn:example:ext:{i}.0:E{i}", "attrs": [dict(a, n=f"e{i}{a['n']}") for a in e["attrs"] if a["n"] not in ("schemas", "id", "externalId", "meta")]})
    n = draw(st.integers(2, 3))
    steps = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, len(exts) - 1), st.booleans()), max_size=6))
    return {"desc": draw(st.sampled_from(["", "text"])), "attrs": attrs, "exts": exts, "n": n, "steps": steps, "seed": draw(specs.resource_data(
        dict(base, ext=[dict(e) for e in exts]), "parse", presence=0.8))}


@prop(
    "C23", sharing(), quick=700,
    rule="resource schemas built from shared attribute and extension objects, extended in any order, also twice with the same one: each "
         "schema has exactly its own extensions, a repeated one is refused and changes nothing, and data are judged as by a schema built on "
         "its own; non-trivial = schemas end up with different extensions",
)
def extensions_stay_with_their_schema(case, rec):
    from src.data.schemas import ResourceSchema

    shared_attrs = [specs.build_attr(a) for a in case["attrs"]]
    shared_exts = [specs.build_extension(e) for e in case["exts"]]
    urn = "urn:example:schemas:2.0:Custom"
    schemas = [ResourceSchema(schema=urn, attrs=shared_attrs, name="Custom", plural_name="Customs", description=case["desc"]) for _ in range(case["n"])]
    have = [[] for _ in schemas]
    for i, j, required in case["steps"]:
        try:
            schemas[i].with_extension(shared_exts[j], required)
            expect(j not in have[i], "extension {} registered twice", j)
            have[i].append(j)
        except ValueError:
            expect(j in have[i], "extension {} refused", j)
    if len({tuple(h) for h in have}) > 1:
        rec.hit(f"{case['steps']}")
    for i, schema in enumerate(schemas):
        spec = {"schema": urn, "name": "Custom", "plural": "Customs", "desc": case["desc"], "attrs": specs.BASE + case["attrs"], "ext": [case["exts"][j] for j in have[i]]}
        expect(list(schema.schemas) == specs.all_schemas(spec), "schema {} has {}", i, schema.schemas)
        own = specs.build_fresh(spec)
        for method in ("parse", "dump"):
            data, issues = call(getattr(schema, method), copy.deepcopy(case["seed"]))
            want, want_issues = call(getattr(own, method), copy.deepcopy(case["seed"]))
            expect(flat(issues) == flat(want_issues) and frozen(data) == frozen(want),
                   "schema {} with extensions {} {}s {!r} as {!r} {}, on its own as {!r} {}", i, have[i], method, case["seed"],
                   R.plain(data), flat(issues), R.plain(want), flat(want_issues))
        expect(call(get_schema_rep, schema) == call(get_schema_rep, own), "schema {}: representation differs", i)
    for e, spec in zip(shared_exts, case["exts"]):
        expect(sorted(a.rep.attr for a in e.attrs) == sorted(a["n"] for a in spec["attrs"]), "extension lost attributes")


@st.composite
def given_lists(draw):
    spec = draw(specs.resource_specs())
    data = draw(specs.resource_data(spec, "dump", presence=0.7))
    reps = draw(st.lists(P.rep_text(spec), max_size=4))
    ignore = draw(st.lists(P.rep_text(spec), max_size=2))
    return {"spec": spec, "data": data, "reps": reps, "ignore": ignore, "include": draw(st.sampled_from([None, True, False]))}


@prop(
    "C23", given_lists(), quick=700,
    rule="attributes, extensions, schemas and requested attributes made from lists which their owner empties afterwards judge and describe "
         "like those made from lists left alone; non-trivial = requested attributes or an extension",
)
def given_lists_may_be_changed_later(case, rec):
    from src.attributes_presence import AttributePresenceChecker
    from src.data.attributes import Attribute, ComplexAttribute
    from src.data.schemas import ResourceSchema, SchemaExtension

    spec = case["spec"]
    if spec["ext"] or case["reps"]:
        rec.hit(f"{[a['n'] for a in spec['attrs']]} {case['reps']}")

    def build(spoil):
        lists = []

        def lst(values):
            if values is None:
                return None
            lists.append(list(values))
            return lists[-1]

        def attr(a):
            common = dict(name=a["n"], required=a["req"], issuer=AttributeIssuer[a["iss"]], multi_valued=a["mv"],
                          mutability=AttributeMutability(a["mut"]), returned=AttributeReturn(a["ret"]))
            if a["t"] == "complex":
                return ComplexAttribute(sub_attributes=lst(map(attr, a["subs"])), **common)
            return Attribute(type_=specs.TYPES[a["t"]], case_exact=a["cs"], canonical_values=lst(a["canon"]), validate_canonical_values=a["vcanon"],
                             reference_types=lst(["User"] if a["t"] == "scim" else None), **common)

        own = [a for a in spec["attrs"] if a["n"] not in ("schemas", "id", "externalId", "meta")]
        schema = ResourceSchema(schema=spec["schema"], attrs=lst(map(attr, own)), name=spec["name"], plural_name=spec["plural"])
        for e in spec["ext"]:
            schema.with_extension(SchemaExtension(schema=e["schema"], attrs=lst(map(attr, e["attrs"])), name="e"))
        def refs(texts):
            return lst([AttrRep(*P.parse(t)) for t in texts])
        checker = AttributePresenceChecker(refs(case["reps"]), case["include"], refs(case["ignore"]))
        if spoil:
            for l in lists:
                l.clear()
        out = [call(get_schema_rep, schema)]
        for method in ("parse", "dump"):
            data, issues = call(getattr(schema, method), copy.deepcopy(case["data"]))
            out.append((frozen(data), flat(issues)))
        for direction in ("REQUEST", "RESPONSE"):
            out.append(flat(call(checker, SCIMDataContainer(copy.deepcopy(case["data"])), schema.attrs, direction)))
        return out

    for alone, spoiled_ in zip(build(False), build(True)):
        expect(alone == spoiled_, "{} requested {} include={}: {!r} before, {!r} after the lists were emptied", spec["attrs"][4:], case["reps"],
               case["include"], alone, spoiled_)


@st.composite
def shared_options(draw):
    """One filter, sorter and list of requested attributes for resources of several schemas with attributes of the same names."""
    first = copy.deepcopy(draw(specs.resource_specs(max_attrs=4)))
    all_ = [first]
    for i in range(draw(st.integers(1, 2))):
        other = copy.deepcopy(first)
        other["schema"], other["name"], other["plural"] = f"urn:example:schemas:2.0:Other{i}", f"Other{i}", f"Others{i}"
        for group in [other["attrs"]] + [e["attrs"] for e in other["ext"]]:
            for k, a in enumerate(group):
                if a["n"] in ("schemas", "id", "externalId", "meta"):
                    continue
                how = draw(st.integers(0, 3))
                if how == 0:
                    group[k] = draw(specs.attr_specs(a["n"]))
                elif how == 1:
                    group[k] = dict(a, **draw(specs.flags()))
                elif how == 2 and a["t"] == "string":
                    group[k] = dict(a, cs=not a["cs"])
        if draw(st.integers(0, 2)) == 0:
            other["ext"] = []
        all_.append(other)
    own = [a for a in first["attrs"] if a["n"] not in ("schemas", "id", "externalId", "meta")]
    reps = draw(st.lists(P.rep_text(first), min_size=1, max_size=3))
    uses = []
    for _ in range(draw(st.integers(2, 4))):
        which = draw(st.integers(0, len(all_) - 1))
        items = [draw(specs.resource_data(all_[which], "dump", presence=0.6)) for _ in range(draw(st.integers(1, 3)))]
        uses.append((which, items, draw(st.booleans())))
    return {"specs": all_, "filter": F.render(draw(c03.tree(own, 2))), "sort": draw(P.rep_text(first, unknown=False)), "reps": reps,
            "include": draw(st.sampled_from([None, True, False])), "uses": uses}


@prop(
    "C23", shared_options(), quick=900,
    rule="one filter, one sorter and one list of requested attributes applied to resources of 2-3 schemas which define the same names "
         "differently, in any order: the same outcome as with newly parsed ones; non-trivial = two schemas are used",
)
def options_are_not_tied_to_a_schema(case, rec):
    from src.attributes_presence import AttributePresenceChecker

    def parsed():
        made = [None, None, AttributePresenceChecker.parse(list(case["reps"]), case["include"])[0]]
        if case["filter"] and "\\" not in case["filter"]:
            made[0] = call(Filter.parse, case["filter"])[0]
        made[1] = call(Sorter.parse, case["sort"])[0]
        return made

    def use(options, which, items, strict):
        schema = specs.build(case["specs"][which])
        filter_, sorter, checker = options
        out = []
        data = [SCIMDataContainer(copy.deepcopy(x)) for x in items]
        if isinstance(filter_, Filter):
            for x in data:
                result = call(filter_, x, schema, strict)
                out.append([result == MatchResult.passed(), result == MatchResult.missing_data()])
        if isinstance(sorter, Sorter):
            try:
                out.append([frozen(x) for x in sorter(list(data), schema)])
            except (TypeError, ValueError) as e:  # values which have no order
                out.append(type(e).__name__)
        for direction in ("REQUEST", "RESPONSE"):
            for x in data:
                out.append(flat(call(checker, x, schema.attrs, direction)))
        return out

    if len({u[0] for u in case["uses"]}) > 1:
        rec.hit(f"{case['filter']} | {case['sort']} | {case['reps']} on {[u[0] for u in case['uses']]}")
    shared = parsed()
    for i, (which, items, strict) in enumerate(case["uses"]):
        got, want = use(shared, which, items, strict), use(parsed(), which, items, strict)
        expect(got == want, "filter {!r}, sort by {!r}, attributes {} include={}: use {} on schema {} {!r} gave {}, newly parsed {}", case["filter"],
               case["sort"], case["reps"], case["include"], i, which, items, got, want)


# --- fresh processes ----------------------------------------------------------------------------


def outcome(c):
    """The verdict of a call as plain data."""
    try:
        if "api" not in c:
            return verdict(c, T.run(c), None)
        text = c["text"]
        if c["api"] == "ref":
            got = call(AttrRep.parse, text)
            return repr(got) if isinstance(got, AttrRep) else "refused"
        if c["api"] == "type":
            got, issues = call(getattr(specs.TYPES[c["type"]], c["method"]), text)
            return frozen(got), flat(issues)
        got, issues = call({"filter": Filter, "path": PatchPath, "sorter": Sorter}[c["api"]].parse, text)
        if c["api"] == "filter" and isinstance(got, Filter):
            return frozen(got.to_dict())
        if c["api"] == "sorter" and isinstance(got, Sorter):
            return repr(got.attr_rep), got.asc
        return frozen(got), flat(issues), repr(issues.to_dict(msg=True, ctx=True))
    except Violation as e:
        return "raised", str(e)


def leaves(v, path=()):
    if isinstance(v, dict):
        return [p for k, x in v.items() for p in leaves(x, path + (k,))]
    if isinstance(v, list):
        return [p for i, x in enumerate(v) for p in leaves(x, path + (i,))]
    return [path] if isinstance(v, (str, int, float)) and path else []


@st.composite
def nearly(draw, v):
    """A value which is almost the given one: another case, equal but of another type, or one character off."""
    if isinstance(v, str):
        return draw(st.one_of(gen.near(v), gen.recased(v), st.just(v.swapcase())))
    return draw(st.sampled_from([float(v) if abs(v) < 1e300 else v, bool(v), -v, v + 1, str(v), int(v) if v == v and abs(v) < 1e300 else v]))


@st.composite
def variant(draw, c):
    c = copy.deepcopy(c)
    if "api" in c:
        c["text"] = draw(nearly(c["text"])) if isinstance(c["text"], (str, int, float)) else c["text"]
        if c["api"] != "type" and not isinstance(c["text"], str):
            c["text"] = str(c["text"])
        return c
    places = [("body", p) for p in leaves(c["body"])] + [(k, p) for k in ("query", "kw") if isinstance(c.get(k), dict) for p in leaves(c[k]) if k == "query"]
    for _ in range(draw(st.sampled_from([1, 1, 2, 4])) if places else 0):
        part, path = draw(st.sampled_from(places))
        at = c[part]
        for k in path[:-1]:
            at = at[k]
        at[path[-1]] = draw(nearly(at[path[-1]]))
    return c


@st.composite
def api_calls(draw):
    api = draw(st.sampled_from(["filter", "filter", "path", "path", "ref", "sorter", "type", "type"]))
    if api == "type":
        t = draw(st.sampled_from(specs.SIMPLE_TYPES))
        return {"api": api, "type": t, "method": "parse", "text": draw(specs.scalar(specs.A("x", t), "parse"))}
    if api == "filter":
        text = draw(F.filters(2))["text"]
    elif api == "path":
        text = draw(c07.valid())["text"]
    else:
        text = c06.render(draw(c06.parts()))
    return {"api": api, "text": text}


@st.composite
def related_calls(draw):
    base = draw(st.one_of(api_calls(), api_calls(), T.requests(), T.responses()))
    calls = [base]
    for _ in range(draw(st.integers(1, 3))):
        calls.append(draw(variant(draw(st.sampled_from(calls)))))
    if draw(st.booleans()):
        calls.append(copy.deepcopy(base))
    return calls


@prop(
    "C23", related_calls(), quick=900, thorough=12000,
    rule="2-5 nearly equal calls (letter case, one character, equal numbers of other types, punctuation) of the parsers, types and endpoint "
         "validators, one after the other in one new process and each in a process of its own: the same verdicts; non-trivial = two of the "
         "calls differ in their verdict",
)
def a_new_process_says_the_same(case, rec):
    together, *alone = zygote.run([case] + [[c] for c in case])
    if together is None or any(a is None for a in alone):
        raise RuntimeError("no answer from the child process")
    alone = [a[0] for a in alone]
    if any(a != alone[0] for a in alone):
        rec.hit(" | ".join(repr(c.get("text", c.get("body")))[:200] for c in case))
    rec.tag(case[0].get("api", "endpoint"))
    for i, c in enumerate(case):
        expect(together[i] == alone[i], "call {} of {!r}: {!r} in a process of its own, {!r} after the calls before it", i, case, alone[i], together[i])
