"""Totality and the verdict contract of the endpoint validators."""
import copy

from hypothesis import strategies as st

from src.data.container import SCIMDataContainer

from .. import endpoints as E
from .. import messages as M
from .. import resmodel as R
from .. import traffic as T
from ..harness import call, expect, prop
from ..issues import flat
from .c10 import contains_invalid


@st.composite
def spoiled(draw, calls):
    """A call, left as it is or with its parts mangled by arbitrary JSON."""
    case = draw(calls)
    if draw(st.integers(0, 2)) == 0:
        return case
    if case["kind"] not in ("DELETE", "GET", "list", "root") or case["side"] == "response":
        case["body"] = draw(st.one_of(M.mangled(st.just(case["body"])), M.mangled(st.just(case["body"]), 1), M.mangled(st.just(case["body"]), 1), M.odd))
    elif draw(st.booleans()):
        case["body"] = draw(M.odd)
    if draw(st.integers(0, 3)) == 0:
        case["headers"] = draw(E.headers)
        if draw(st.integers(0, 3)) == 0:
            case["body"] = draw(st.sampled_from([None, {}, [], "", 0, False]))
    if draw(st.integers(0, 3)) == 0:
        if case["side"] == "request":
            case["query"] = draw(st.one_of(E.query_strings(), M.odd))
        else:
            case["status"] = draw(E.statuses)
    return case


@prop(
    "C13", spoiled(T.requests()), quick=5000,
    rule="requests to every endpoint validator (single resource GET/PUT/POST/PATCH, listings, search, bulk, schemas, resource types) "
         "whose body, headers and query options are plausible ones, as they are or mangled with arbitrary JSON: judged without an exception, "
         "the same way twice; a judged body is handed on exactly if there are no issues; non-trivial = object body or query options",
)
def every_request_is_judged(case, rec):
    if isinstance(case["body"], dict) or isinstance(case["query"], dict):
        rec.hit(f"{case['kind']} body={case['body']!r} query={case['query']!r}")
    v = T.validator(case)
    data, issues = T.run(case, v)
    found = flat(issues)
    rec.tag(f"{case['kind']} {'refused' if found else 'accepted'}")
    what = f"{case['kind']} request body={case['body']!r} query={case['query']!r}"
    for loc in found:
        expect(loc and loc[0] in ("body", "query_string", "headers"), "{}: issue at {}", what, loc)
    expect(bool(found) == call(issues.has_issues), "{}: has_issues is {} with {}", what, issues.has_issues(), found)
    if case["kind"] in ("PUT", "POST", "PATCH", "search", "bulk"):
        if found:
            expect(data.body is None, "{}: issues {} but body {!r}", what, found, data.body)
        else:
            expect(isinstance(data.body, SCIMDataContainer), "{}: no issues but body {!r}", what, data.body)
            expect(not contains_invalid(R.plain(data.body)), "{}: no issues but {!r}", what, R.plain(data.body))
    expect(data.headers == case["headers"] or repr(data.headers) == repr(case["headers"]), "{}: headers became {!r}", what, data.headers)
    again, issues2 = T.run(case, v)
    expect(flat(issues2) == found, "{}: {} the second time {}", what, found, flat(issues2))
    expect(R.shape(again.body) == R.shape(data.body), "{}: {!r} the second time {!r}", what, R.shape(data.body), R.shape(again.body))


FAULTY = [{"attributes": ["a b"]}, {"attributes": 5}, {"excludeAttributes": ["userName", 5]}, {"attributes": "id", "excludeAttributes": "id"},
          {"attributes": "a..b", "filter": "a eq", "sortBy": "a b"}, {"filter": 5, "count": "x", "startIndex": []}, {"excludeAttributes": "1a"}]


@st.composite
def paired(draw):
    case = draw(st.one_of(T.requests(("PUT", "POST", "PATCH", "PATCH")), spoiled(T.requests())))
    return {"case": case, "query": draw(st.one_of(st.sampled_from(FAULTY), E.query_strings(), M.odd)),
            "body": draw(st.one_of(st.sampled_from([None, {}, [], 5, "x"]), M.odd)), "headers": draw(E.headers)}


@prop(
    "C13", paired(), quick=2500,
    rule="requests judged again with other query options, and with another body, other headers: the issues of the body do not depend on the query "
         "options nor those of the query options on the body; non-trivial = issues in both parts",
)
def parts_are_judged_independently(pair, rec):
    case = pair["case"]
    v = T.validator(case)

    def part(which, **changes):
        _, issues = T.run({**case, **changes}, v)
        return {k: sorted(map(str, codes)) for k, codes in flat(issues).items() if k[0] == which}

    what = f"{case['kind']} request body={case['body']!r} query={case['query']!r}"
    body, query = part("body"), part("query_string")
    for name in ("query", "headers"):
        got = part("body", **{name: pair[name]})
        expect(got == body, "{}: issues {}, with {} {!r} {}", what, body, name, pair[name], got)
    for name in ("body", "headers"):
        got = part("query_string", **{name: pair[name]})
        expect(got == query, "{}: issues {}, with {} {!r} {}", what, query, name, pair[name], got)
    other = part("query_string", query=pair["query"])
    both = part("query_string", query=pair["query"], body=pair["body"])
    expect(other == both, "{} with query {!r}: issues {}, with body {!r} {}", what, pair["query"], other, pair["body"], both)
    if body and other:
        rec.hit(f"{what} / {pair['query']!r}")


@prop(
    "C13", spoiled(T.responses()), quick=5000,
    rule="responses of every endpoint validator with any status, headers, requested attributes, filter, sorter and paging arguments, whose "
         "bodies are plausible ones, as they are or mangled with arbitrary JSON: judged without an exception, the same way twice; a body is "
         "handed on only if there are no issues; non-trivial = object body",
)
def every_response_is_judged(case, rec):
    if isinstance(case["body"], dict):
        rec.hit(f"{case['kind']} {case['status']} body={case['body']!r} {case['kw']}")
    v = T.validator(case)
    data, issues = T.run(case, v)
    found = flat(issues)
    rec.tag(f"{case['kind']} {'refused' if found else 'accepted'}")
    what = f"{case['kind']} response {case['status']} body={case['body']!r} headers={case['headers']!r} {case['kw']}"
    for loc in found:
        expect(loc and loc[0] in ("body", "headers", "status"), "{}: issue at {}", what, loc)
    expect(bool(found) == call(issues.has_issues), "{}: has_issues is {} with {}", what, issues.has_issues(), found)
    expect((data.headers or None) == (case["headers"] or None) or repr(data.headers) == repr(case["headers"]), "{}: headers became {!r}", what, data.headers)
    if found:
        expect(data.body is None, "{}: issues {} but body {!r}", what, found, data.body)
    elif data.body is None:
        bodiless = case["kind"] == "DELETE" or (case["kind"] == "POST" and not case["body"]) or (case["kind"] == "PATCH" and case["status"] == 204)
        expect(bodiless, "{}: no issues and no body", what)
    else:
        plain = R.plain(data.body)
        expect(isinstance(plain, dict) and not contains_invalid(plain), "{}: no issues but {!r}", what, plain)
    again, issues2 = T.run(case, v)
    expect(flat(issues2) == found, "{}: {} the second time {}", what, found, flat(issues2))
    expect(R.shape(again.body) == R.shape(data.body), "{}: {!r} the second time {!r}", what, R.shape(data.body), R.shape(again.body))
