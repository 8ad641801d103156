"""Issue collections: add, merge, select, remove and queries against a plain list model."""
from hypothesis import strategies as st

from src.error import ValidationError, ValidationIssues

from .. import gen
from ..harness import call, expect, expect_eq, prop
from ..issues import flat

KINDS = {
    15: lambda: ValidationError.missing(),
    1: lambda: ValidationError.bad_value_syntax(),
    2: lambda: ValidationError.bad_type("string", "integer"),
    11: lambda: ValidationError.must_be_equal_to("x"),
    27: lambda: ValidationError.unknown_schema(),
}
MESSAGES = {
    15: "missing", 1: "bad value syntax", 2: "expected type 'string', got 'integer' instead",
    11: "must be equal to 'x'", 27: "unknown schema",
}
CONTEXT = {15: {}, 1: {}, 2: {"expected": "string", "provided": "integer"}, 11: {"value": "x"}, 27: {}}

parts = st.sampled_from(["body", "emails", "value", 0, 1, "x"])
locs = st.lists(parts, max_size=3)
slots = st.integers(0, 2)
codes = st.sampled_from(sorted(KINDS))

ops = st.one_of(
    st.tuples(st.just("add"), slots, locs, codes, st.booleans()),
    st.tuples(st.just("add"), slots, locs, codes, st.booleans()),
    st.tuples(st.just("merge"), slots, slots, locs),
    st.tuples(st.just("get"), slots, slots, locs),
    st.tuples(st.just("pop"), slots, slots, locs, codes),
    st.tuples(st.just("ask"), slots, st.lists(locs, max_size=2)),
)


class Model:
    def __init__(self):
        self.items = []  # (location, code, proceed)

    def stops(self):
        return {(loc, code) for loc, code, proceed in self.items if not proceed}

    def view(self):
        out = {}
        for loc, code, _ in self.items:
            out.setdefault(loc, []).append(code)
        return out


def proceeds(model, locations):
    for want in locations or [()]:
        for loc, _ in model.stops():
            if loc == tuple(want)[: len(loc)]:
                return False
    return True


def has(model, locations):
    return any(loc[: len(w)] == tuple(w) for w in (locations or [()]) for loc, _, _ in model.items)


def compare(real, model, what):
    want = {}
    for loc, codes_ in model.view().items():
        want.setdefault(tuple(str(p) for p in loc), []).extend(codes_)
    got = flat(real)
    expect_eq(got, {k: sorted(v) for k, v in want.items()}, what)


@prop(
    "C21", st.lists(ops, min_size=1, max_size=25), quick=6000,
    rule="random histories of add / merge (with and without location) / select / remove over three "
         "collections, after every step all three are compared with a list model (locations, codes, can_proceed and has_issues for "
         "every prefix); non-trivial = a merge, selection or removal happened on a non-empty collection",
    examples=[
        [("add", 0, [], 27, True), ("merge", 1, 0, ["body"]), ("ask", 1, [["body"]])],
        [("add", 0, ["x"], 15, False), ("get", 1, 0, ["x"]), ("merge", 2, 1, [])],
        [("add", 0, ["x"], 15, False), ("add", 0, ["x"], 15, False), ("pop", 1, 0, ["x"], 15)],
    ],
)
def histories(case, rec):
    steps = case
    real = [ValidationIssues() for _ in range(3)]
    model = [Model() for _ in range(3)]
    for step in steps:
        kind = step[0]
        if kind == "add":
            _, s, loc, code, proceed = step
            # the stop flag belongs to (location, code): a refusing issue is not taken back by a tolerant one
            model[s].items.append((tuple(loc), code, proceed))
            call(real[s].add, issue=KINDS[code](), proceed=proceed, location=tuple(loc) if loc else None)
        elif kind == "merge":
            _, s, o, loc = step
            if s == o:
                continue
            if model[o].items:
                rec.hit(repr(steps))
            stops = model[o].stops()
            add = [(tuple(loc) + l, c, (l, c) not in stops) for l, c, _ in model[o].items]
            model[s].items.extend(add)
            if loc:
                call(real[s].merge, real[o], location=tuple(loc))
            else:
                call(real[s].merge, issues=real[o])
        elif kind == "get":
            _, s, o, loc = step
            if model[o].items:
                rec.hit(repr(steps))
            loc = tuple(loc)
            got = call(real[o].get, loc)
            m = Model()
            m.items = [(l[len(loc):], c, p) for l, c, p in model[o].items if l[: len(loc)] == loc]
            real[s], model[s] = got, m
        elif kind == "pop":
            _, s, o, loc, code = step
            loc = tuple(loc)
            if any(l == loc and c == code for l, c, _ in model[o].items):
                rec.hit(repr(steps))
                rec.tag("removed")
            stop = (loc, code) in model[o].stops()
            m = Model()
            m.items = [((), c, not stop) for l, c, _ in model[o].items if l == loc and c == code]
            model[o].items = [x for x in model[o].items if x[:2] != (loc, code)]
            got = call(real[o].pop, loc, code)
            expect_eq(got.has_issues(), bool(m.items), f"removing {code} at {loc}: returned collection has issues")
            if s != o:
                real[s], model[s] = got, m
        else:
            _, s, where = step
            where = [tuple(w) for w in where]
            expect_eq(call(real[s].can_proceed, *where), proceeds(model[s], where), f"can_proceed{where} after {steps}")
            expect_eq(call(real[s].has_issues, *where), has(model[s], where), f"has_issues{where} after {steps}")
        for i in range(3):
            compare(real[i], model[i], f"collection {i} after {step} of {steps}")
            seen = {l[:k] for l, _, _ in model[i].items for k in range(len(l) + 1)} | {(), ("body",), ("x", 0)}
            for loc in seen:
                expect_eq(call(real[i].can_proceed, loc), proceeds(model[i], [loc]), f"collection {i} can_proceed({loc}) after {step} of {steps}")
                expect_eq(call(real[i].has_issues, loc), has(model[i], [loc]), f"collection {i} has_issues({loc}) after {step} of {steps}")
            expect_eq(call(real[i].can_proceed), proceeds(model[i], []), f"collection {i} can_proceed() after {steps}")
            expect_eq(call(real[i].has_issues), bool(model[i].items), f"collection {i} has_issues() after {steps}")


@st.composite
def deep(draw):
    """Few, long locations and their prefixes and suffixes, so that issues pile up in the same deep places."""
    trunk = draw(st.lists(parts, min_size=3, max_size=9))
    cut = st.integers(0, len(trunk))

    @st.composite
    def near(d):
        a, b = sorted([d(cut), d(cut)])
        kind = d(st.integers(0, 3))
        return trunk[:b] if kind == 0 else trunk[a:] if kind == 1 else trunk[a:b] if kind == 2 else list(trunk)

    ops_ = st.one_of(
        st.tuples(st.just("add"), slots, near(), codes, st.booleans()),
        st.tuples(st.just("add"), slots, near(), codes, st.booleans()),
        st.tuples(st.just("merge"), slots, slots, near()),
        st.tuples(st.just("merge"), slots, slots, st.just([])),
        st.tuples(st.just("get"), slots, slots, near()),
        st.tuples(st.just("pop"), slots, slots, near(), codes),
        st.tuples(st.just("ask"), slots, st.lists(near(), max_size=3)),
    )
    return draw(st.lists(ops_, min_size=2, max_size=16))


@prop("C21", deep(), quick=3000, rule="the same histories over few, up to 9 levels deep locations; non-trivial as above")
def deep_histories(case, rec):
    histories(case, rec)


@st.composite
def crowded(draw):
    """One or two locations which collect very many issues before they are merged, selected or removed."""
    places = draw(st.lists(locs, min_size=1, max_size=2))
    place = st.sampled_from(places)
    burst = st.lists(st.tuples(codes, st.integers(0, 7).map(lambda n: n != 0)), min_size=1, max_size=40)
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        s, loc = draw(slots), draw(place)
        steps += [("add", s, loc, code, proceed) for code, proceed in draw(burst)]
    tail = st.one_of(
        st.tuples(st.just("merge"), slots, slots, st.one_of(place, st.just([]))),
        st.tuples(st.just("get"), slots, slots, place),
        st.tuples(st.just("pop"), slots, slots, place, codes),
        st.tuples(st.just("pop"), slots, slots, place, codes),
        st.tuples(st.just("add"), slots, place, codes, st.booleans()),
    )
    return steps + draw(st.lists(tail, min_size=1, max_size=8))


@st.composite
def entangled(draw):
    """Three collections which exchange the same one or two issues, so that one change could show in another collection."""
    place = st.sampled_from(draw(st.sampled_from([[["body"]], [[]], [["body"], ["body", 0]], [["x"], []]])))
    pair = st.sampled_from(draw(st.lists(codes, min_size=2, max_size=2, unique=True)))
    step = st.one_of(
        st.tuples(st.just("add"), slots, place, pair, st.integers(0, 3).map(lambda n: n == 0)),
        st.tuples(st.just("merge"), slots, slots, st.one_of(st.just([]), st.just([]), place)),
        st.tuples(st.just("get"), slots, slots, st.one_of(st.just([]), place)),
        st.tuples(st.just("pop"), slots, slots, place, pair),
    )
    return [("add", 0, draw(place), draw(pair), False)] + draw(st.lists(step, min_size=3, max_size=12))


@prop("C21", entangled(), quick=4000, rule="the same histories, three collections exchanging one or two refusing issues; non-trivial as above")
def entangled_histories(case, rec):
    histories(case, rec)


@prop("C21", crowded(), quick=800, rule="the same histories with up to 120 issues piled up at one or two locations; non-trivial as above")
def crowded_histories(case, rec):
    histories(case, rec)


@prop(
    "C21", st.lists(st.tuples(st.lists(st.sampled_from(["body", "emails", 0, 1, "0", "1", "x"]), max_size=3), codes, st.booleans()), max_size=30), quick=1500,
    rule="random collections rendered with and without message and context: every issue once, at its location, with its code, "
         "message and context; non-trivial = two issues at one location, or nested locations",
)
def rendering(case, rec):
    issues = ValidationIssues()
    for loc, code, proceed in case:
        issues.add(issue=KINDS[code](), proceed=proceed, location=tuple(loc))
    places = [tuple(str(p) for p in loc) for loc, _, _ in case]
    if len(set(places)) < len(places) or any(a != b and a == b[: len(a)] for a in places for b in places):
        rec.hit()
    for msg in (False, True):
        for ctx in (False, True):
            out = call(issues.to_dict, msg=msg, ctx=ctx)
            want = {}
            for loc, code, _ in case:
                node = want
                for p in loc:
                    node = node.setdefault(str(p), {})
                item = {"code": code}
                if msg:
                    item["error"] = MESSAGES[code]
                if ctx:
                    item["context"] = CONTEXT[code]
                node.setdefault("_errors", []).append(item)
            expect_eq(norm(out), norm(want), f"rendering (msg={msg}, ctx={ctx}) of {case}")


def norm(node):
    if isinstance(node, dict):
        return {k: norm(v) for k, v in node.items()}
    if isinstance(node, list):
        return sorted((norm(x) for x in node), key=repr)
    return node


# --- every kind of issue -------------------------------------------------------------------------

T = gen.any_text(12)
N = st.integers(-5, 10**12)
ANY = st.one_of(T, N, st.booleans(), st.none(), st.lists(T, max_size=2))
# constructor: (code, its parameters); the parameters are handed on as the context
KIND_TABLE = {
    "bad_value_syntax": (1, {}), "bad_type": (2, {"expected": T, "provided": T}), "base_64_encoding_required": (3, {"scim_type": T}),
    "bad_url": (8, {"value": T}), "missing_required_header": (10, {"header": T}), "must_be_equal_to": (11, {"value": ANY}),
    "bad_error_status": (12, {"provided": N}), "error_status_mismatch": (13, {"response_status": T, "body_status": T}),
    "must_be_one_of": (14, {"expected_values": st.lists(T, max_size=4), "provided": ANY}), "missing": (15, {}),
    "bad_status_code": (16, {"expected": N, "provided": N}), "resource_type_mismatch": (17, {"resource_type": T, "provided": T}),
    "restricted_or_not_requested": (19, {}), "too_many_results": (21, {"must": T}),
    "total_results_mismatch": (22, {"total_results": N, "n_resources": N}), "too_little_results": (23, {"must": T}),
    "response_value_does_not_correspond_to_parameter": (24, {
        "response_key": T, "response_value": ANY, "query_param_name": T, "query_param_value": ANY, "reason": T}),
    "included_resource_does_not_match_filter": (25, {}), "resources_not_sorted": (26, {}), "unknown_schema": (27, {}),
    "missing_main_schema": (28, {}), "missing_schema_extension": (29, {"extension": T}), "can_not_be_used_together": (30, {"other": T}),
    "resource_type_endpoint_required": (34, {}), "resource_object_endpoint_required": (35, {}), "unknown_resource": (36, {}),
    "too_many_operations": (37, {"max_": N}), "too_many_errors": (38, {"max_": N}), "not_supported": (39, {}),
    "bracket_not_opened_or_closed": (100, {}), "complex_attribute_bracket_not_opened_or_closed": (102, {}),
    "missing_operand_for_operator": (104, {"operator": T, "expression": T}),
    "unknown_operator": (105, {"operator_type": T, "operator": T, "expression": T}), "empty_filter_expression": (107, {}),
    "inner_complex_attribute_or_square_bracket": (109, {}), "empty_complex_attribute_expression": (110, {"attribute": T}),
    "bad_attribute_name": (111, {"attribute": T}), "bad_comparison_value": (112, {"value": ANY}),
    "non_compatible_comparison_value": (113, {"value": ANY, "operator": T}), "bad_operation_path": (300, {}),
    "unknown_operation_target": (303, {}), "attribute_can_not_be_modified": (304, {}),
    "complex_filter_without_sub_attr_for_add_op": (305, {}), "attribute_can_not_be_deleted": (306, {}),
}


@st.composite
def one_kind(draw):
    name = draw(st.sampled_from(sorted(KIND_TABLE)))
    return name, {k: draw(v) for k, v in KIND_TABLE[name][1].items()}, draw(locs)


@prop(
    "C21", one_kind(), quick=2500,
    rule="every kind of issue made with arbitrary parameters and rendered: its own code, its parameters as the context, and a message "
         "which mentions each of them; non-trivial = it has parameters",
)
def every_kind_is_rendered(case, rec):
    name, params, loc = case
    code = KIND_TABLE[name][0]
    rec.tag(str(code))
    if params:
        rec.hit()
    issues = ValidationIssues()
    issue = call(getattr(ValidationError, name), **params)
    expect_eq(issue.code, code, f"code of {name}")
    issues.add(issue=issue, proceed=True, location=tuple(loc))
    shown = call(issues.to_dict, msg=True, ctx=True)
    for p in loc:
        shown = shown[str(p)]
    (item,) = shown["_errors"]
    context = {k.rstrip("_"): v for k, v in params.items()}
    expect_eq(item["code"], code, f"rendered code of {name}")
    expect_eq(item["context"], context, f"context of {name}")
    text = item["error"]
    expect(isinstance(text, str) and text, "{} has no message", name)
    for k, v in params.items():
        expect(str(v) in text or repr(v) in text, "message {!r} of {} does not mention its {} {!r}", text, name, k, v)
