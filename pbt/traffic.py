"""Mostly plausible requests and responses of every endpoint as plain data, and how to submit them.

A call is {"side": "request"|"response", "kind", "specs": [resource specs], "limit", "body", "headers", "query" | "status", "kw"}.
"""
import copy

from hypothesis import strategies as st

from src import request_validators as rv
from src.attributes_presence import AttributePresenceChecker
from src.data.schemas import get_schema_rep
from src.filter import Filter
from src.sorter import Sorter

from . import endpoints as E
from . import messages as M
from . import specs
from .harness import call
from .props import c14, c15, c16, c17, c18, c19, c20

REQUESTS = ["GET", "PUT", "POST", "PATCH", "PATCH", "list", "root", "search", "bulk", "bulk", "schemas", "types"]
RESPONSES = ["single", "single", "list", "bulk", "bulk", "error", "DELETE", "schemas", "types"]

some_headers = st.sampled_from([None, None, {}, {"Location": "https://x/v2/Users/1"}, {"ETag": "W/1", "Accept": "application/scim+json"}])


@st.composite
def queries(draw):
    """Query options which are mostly well-formed."""
    out = {}
    if draw(st.integers(0, 2)) == 0:
        key = draw(st.sampled_from(["attributes", "excludeAttributes"]))
        refs = draw(st.lists(st.sampled_from(M.REFS[:7]), min_size=1, max_size=3))
        out[key] = ",".join(refs) if draw(st.booleans()) else refs
    if draw(st.booleans()):
        out["filter"] = draw(st.sampled_from(M.FILTERS[:5]))
    if draw(st.booleans()):
        out["sortBy"] = draw(st.sampled_from(M.REFS[:7]))
    if draw(st.integers(0, 2)) == 0:
        out["sortOrder"] = draw(st.sampled_from(["ascending", "descending", "DESCENDING"]))
    for key in ("count", "startIndex"):
        if draw(st.integers(0, 2)) == 0:
            out[key] = draw(st.sampled_from([0, 1, 5, "5", "-1"]))
    if draw(st.integers(0, 9)) == 0:
        out["custom"] = ["x", {"y": 1}]
    return out


@st.composite
def valid_search(draw):
    out = {"schemas": [M.API + "SearchRequest"]}
    query = draw(queries())
    for key, v in query.items():
        if key in ("attributes", "excludeAttributes"):
            v = v.split(",") if isinstance(v, str) else v
        elif key in ("count", "startIndex"):
            v = int(v)
        out[key] = v
    return out


@st.composite
def requests(draw, kinds=tuple(REQUESTS)):
    kind = draw(st.sampled_from(list(kinds)))
    case = {"side": "request", "kind": kind, "specs": [specs.USER, specs.GROUP], "limit": 10, "headers": draw(some_headers), "body": None,
            "query": draw(st.one_of(st.none(), queries(), queries(), E.query_strings()))}
    if kind in ("GET", "PUT", "POST", "list"):
        case["specs"] = [draw(specs.any_resource)]
    if kind in ("PUT", "POST"):
        spec = case["specs"][0]
        data = draw(specs.resource_data(spec, "parse"))
        if draw(st.integers(0, 4)):
            data = draw(c14.fill_required(spec, data, "parse"))
        case["body"] = data
    elif kind == "PATCH":
        inner = draw(c15.requests(faults=draw(st.integers(0, 2)) == 0))
        case["specs"], case["body"] = [inner["spec"]], inner["body"]
    elif kind == "search":
        case["body"] = draw(st.one_of(valid_search(), M.search()))
    elif kind == "bulk":
        inner = draw(c18.requests())
        case["specs"], case["limit"], case["body"] = [c18.KNOWN[p] for p in inner["plurals"]], inner["limit"], inner["body"]
    return case


@st.composite
def responses(draw, kinds=tuple(RESPONSES)):
    kind = draw(st.sampled_from(list(kinds)))
    case = {"side": "response", "kind": kind, "specs": [specs.USER], "limit": 10, "headers": draw(some_headers), "status": 200, "kw": {}, "body": None}
    if kind == "single":
        inner = draw(c16.cases())
        case.update(kind=inner["kind"], specs=[inner["spec"]], headers=inner["headers"], status=inner["status"], body=inner["body"])
        if inner["include"] is not None:
            case["kw"]["presence_checker"] = (inner["reps"], inner["include"])
    elif kind == "list":
        inner = draw(c17.cases())
        case.update(kind=inner["kind"], specs=[c17.FAMILY[f] for f in inner["family"]], status=inner["status"], kw=inner["kw"], body=inner["body"])
    elif kind == "bulk":
        inner = draw(c19.responses())
        case.update(specs=[c18.KNOWN[p] for p in inner["plurals"]], status=inner["status"], body=inner["body"])
        if inner["fail"] is not None:
            case["kw"]["fail_on_errors"] = inner["fail"]
    elif kind == "error":
        inner = draw(c20.bodies())
        case.update(headers=inner["headers"], status=inner["code"], body=inner["body"])
    elif kind == "DELETE":
        case["status"] = draw(st.sampled_from([204, 204, 200, 404]))
    else:
        if kind == "types":
            items = draw(st.lists(specs.resource_data(specs.RESOURCE_TYPE, "dump", presence=0.9), min_size=1, max_size=2))
            if draw(st.integers(0, 4)):
                items = [draw(c14.fill_required(specs.RESOURCE_TYPE, item, "dump")) for item in items]
        else:
            items = [copy.deepcopy(get_schema_rep(specs.build(s)))
                     for s in draw(st.lists(st.sampled_from([specs.GROUP, specs.RESOURCE_TYPE, specs.PROVIDER]), min_size=1, max_size=2))]
            for item in items:  # kept small
                item["attributes"] = item["attributes"][-3:]
        case["body"] = {"schemas": [M.API + "ListResponse"], "totalResults": len(items), "Resources": items}
    return case


def validator(case):
    kind = case["kind"]
    if kind in E.SINGLE:
        return E.single(kind, case["specs"][0])
    if kind in E.LISTS:
        return E.listing(kind, case["specs"])
    if kind == "bulk":
        return E.bulk(case["specs"], case["limit"])
    if kind == "schemas":
        return rv.SchemasGET(E.config())
    if kind == "types":
        return rv.ResourceTypesGET(E.config())
    if kind == "error":
        return rv.Error()
    return rv.ResourceObjectDELETE(E.config())


def arguments(kw):
    out = dict(kw)
    if "presence_checker" in out:
        refs, include = out["presence_checker"]
        out["presence_checker"] = AttributePresenceChecker.parse(list(refs), include)[0]
    if "filter_" in out:
        out["filter_"] = Filter.parse(out["filter_"])[0]
    if "sorter" in out:
        out["sorter"] = Sorter.parse(*out["sorter"])[0]
    return out


def submit(v, case, body, headers, rest):
    """Run the call on the given (not copied) arguments; rest: query options, or keyword arguments of the response."""
    if case["side"] == "request":
        return call(v.parse_request, body=body, headers=headers, query_string=rest)
    kw = dict(rest)
    if case["kind"] != "DELETE":
        kw["body"] = body
    return call(v.dump_response, status_code=case["status"], headers=headers, **kw)


def run(case, v=None):
    rest = copy.deepcopy(case["query"]) if case["side"] == "request" else arguments(case["kw"])
    return submit(v or validator(case), case, copy.deepcopy(case["body"]), copy.deepcopy(case["headers"]), rest)
