"""Query options of requests: read exactly, refused where they are, the same in a query string and in a search request."""
import copy

from hypothesis import strategies as st

from src.data.container import AttrRep, SCIMDataContainer

from .. import endpoints as E
from .. import filters as F
from .. import gen
from .. import messages as M
from .. import presence as P
from .. import resmodel as R
from .. import specs
from ..harness import call, expect, prop
from ..issues import flat

SEARCH = M.API + "SearchRequest"
BAD_REFS = ["bad^name", "a.b.c", "", " userName", "userName ", "a b", ".x", "x.", "urn:x:y:", "a..b", "[", "name.familyName.x"]
BAD_FILTERS = ["", "((", 'userName eq "x" or', "userName", "userName zz 1", 'userName eq "x" and and title pr', "emails[", "not", "userName eq"]
OTHERS = [5, True, 1.5, {"a": 1}, [["x"]], {"x": []}]

# None is absent


@st.composite
def references(draw):
    """{'given': list of items, 'bad': True if some item is malformed}"""
    good = draw(st.lists(P.rep_text(specs.USER), min_size=1, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        good.insert(draw(st.integers(0, len(good))), draw(st.sampled_from(BAD_REFS)))
    if draw(st.integers(0, 9)) == 0:
        good.insert(draw(st.integers(0, len(good))), draw(st.sampled_from([5, None, True, [], {}])))
    return good


@st.composite
def options(draw):
    out = {}
    how = draw(st.integers(0, 9))
    if how < 4:
        out[draw(st.sampled_from(["attributes", "excludeAttributes"]))] = draw(references())
    elif how == 4:
        out["attributes"], out["excludeAttributes"] = draw(references()), draw(st.one_of(references(), st.just([])))
    elif how == 5:
        out[draw(st.sampled_from(["attributes", "excludeAttributes"]))] = draw(st.sampled_from([5, 1.5, True, {"a": 1}, [], None]))
    if draw(st.booleans()):
        case = draw(st.one_of(F.filters(2), F.filters(1), st.none()))
        if case is None:
            out["filter"] = draw(st.one_of(st.sampled_from(BAD_FILTERS), st.sampled_from(OTHERS + [[], ["a pr"]]), st.none()))
        else:
            out["filter"] = case
    if draw(st.booleans()):
        out["sortBy"] = draw(st.one_of(P.rep_text(specs.USER), P.rep_text(specs.USER), st.sampled_from(BAD_REFS), st.sampled_from(OTHERS + [None])))
    if draw(st.booleans()):
        out["sortOrder"] = draw(st.one_of(st.sampled_from(["ascending", "descending", None]), st.sampled_from(["ascending", "descending"]).flatmap(gen.recased)))
    for key in ("count", "startIndex"):
        if draw(st.integers(0, 2)) == 0:
            out[key] = draw(st.one_of(st.integers(-3, 50), st.integers(-(10**20), 10**20), st.none(),
                                      st.sampled_from(["x", "", "1.5", "1e3", "--1", [], {}, [1], "5x", "0x10", "one"])))
    return out


@st.composite
def requests(draw):
    opts = draw(options())
    return {
        "kind": draw(st.sampled_from(["list", "root", "search", "search", "GET", "PUT", "POST", "PATCH"])),
        "options": opts,
        "joined": draw(st.booleans()),
        "texts": draw(st.booleans()),
        "recase": draw(st.integers(0, 2**20)) if draw(st.integers(0, 3)) == 0 else 0,
    }


def judge(opts, where):
    """({location: codes or None for any}, presence, tree, sort, numbers) of options given with exact types."""
    out, presence, tree, sort, numbers = {}, None, None, None, {}
    lists = {}
    for key in ("attributes", "excludeAttributes"):
        v = opts.get(key)
        if isinstance(v, list):
            wrong = [i for i, x in enumerate(v) if not isinstance(x, str)]
            lists[key] = v
            for i in wrong:
                out[(key, str(i))] = [2]
        elif v is not None:
            out[(key,)] = [2]
    both = all(lists.get(k) for k in ("attributes", "excludeAttributes"))
    if where == "search":
        for key, v in lists.items():
            if all(isinstance(x, str) for x in v):
                for i, x in enumerate(v):
                    if P.parse(x) is None:
                        out[(key, str(i))] = [111]
    if not out:
        if both and not out:
            out[("attributes",)], out[("excludeAttributes",)] = [30], [30]
        elif where != "search":
            for key, v in lists.items():
                for x in v:
                    if P.parse(x) is None:
                        out[(key, x)] = [111] * v.count(x)
        if not out:
            for key, v in lists.items():
                if v:
                    presence = ([P.parse(x) for x in v], key == "attributes")
    if where == "single":
        return out, presence, tree, sort, numbers
    f = opts.get("filter")
    if isinstance(f, dict) and "tree" in f:
        tree = f["tree"]
    elif isinstance(f, str):
        out[("filter",)] = None
    elif f is not None:
        out[("filter",)] = [2]
    by = opts.get("sortBy")
    if isinstance(by, str):
        if P.parse(by) is None:
            out[("sortBy",)] = [111]
        else:
            sort = (P.parse(by), (opts.get("sortOrder") or "ascending").lower() == "ascending")
    elif by is not None:
        out[("sortBy",)] = [2]
    for key in ("count", "startIndex"):
        v = opts.get(key)
        if isinstance(v, int):
            numbers[key] = v
        elif v is not None:
            out[(key,)] = [2]
    return out, presence, tree, sort, numbers


def wire(case, where):
    out = {}
    for key, v in case["options"].items():
        if key == "filter" and isinstance(v, dict) and "tree" in v:
            v = v["text"]
        if where != "search":
            if key in ("attributes", "excludeAttributes") and isinstance(v, list) and v and all(isinstance(x, str) for x in v) and case["joined"]:
                v = ",".join(v) if ",".join(v) else v
            elif key in ("count", "startIndex") and isinstance(v, int) and case["texts"]:
                v = str(v)
        out[key] = copy.deepcopy(v)
    return out


def triple(rep):
    return (rep.schema.lower(), rep.attr.lower(), rep.sub_attr.lower())


def low(ref):
    return tuple(p.lower() for p in ref)


@prop(
    "C24", requests(), quick=4000,
    rule="requested and excluded attributes (joined or listed), filters, sort keys and orders, count and startIndex, well-formed or "
         "malformed, in query strings of single-resource requests, listings and in search requests: each fault is reported at its option, "
         "well-formed options are read into the same attributes, filter, order and numbers everywhere; non-trivial = two or more options",
)
def options_are_read(case, rec):
    kind = case["kind"]
    where = "search" if kind == "search" else ("list" if kind in E.LISTS else "single")
    sent = wire(case, where)
    want, presence, tree, sort, numbers = judge(case["options"], where)
    if where == "search":
        body = {"schemas": [SEARCH], **sent}
        if case["recase"]:
            body = {gen.recase_by_mask(k, case["recase"]): v for k, v in body.items()}
        data, issues = call(E.listing("search", [specs.USER, specs.GROUP]).parse_request, body=copy.deepcopy(body))
        prefix = "body"
    else:
        if where == "list":
            v, body = E.listing(kind, [specs.USER]), None
        else:
            v = E.single(kind, specs.USER)
            body = {"PUT": {"schemas": [specs.USER["schema"]], "id": "1", "userName": "x"}, "POST": {"schemas": [specs.USER["schema"]], "userName": "x"},
                    "PATCH": {"schemas": [M.API + "PatchOp"], "Operations": [{"op": "remove", "path": "title"}]}}.get(kind)
        data, issues = call(v.parse_request, query_string=copy.deepcopy(sent), body=body)
        prefix = "query_string"
    found = flat(issues)
    what = f"{kind} {sent!r}"
    if len(sent) > 1:
        rec.hit(what)
    rec.tag(f"{where} {'refused' if want else 'accepted'}")
    for loc in found:
        expect(loc[0] == prefix, "{}: issue at {}", what, loc)
    got = {k[1:]: v for k, v in found.items()}
    if all(case["options"].get(k) for k in ("attributes", "excludeAttributes")) and any(len(k) == 2 for k in want):
        # that they exclude each other need not be said of malformed ones
        got = {k: v for k, v in got.items() if not (k in (("attributes",), ("excludeAttributes",)) and v == [30])}
    # issues of a filter may be anywhere below it
    if ("filter",) in want and want[("filter",)] is None:
        expect(any(k[:1] == ("filter",) for k in got), "{}: malformed filter accepted, issues {}", what, found)
        want.pop(("filter",))
        got = {k: v for k, v in got.items() if k[:1] != ("filter",)}
        refused = True
    else:
        refused = bool(want)
    expect(got == want, "{}: issues {}, expected {}", what, got, want)
    if where == "search":
        if refused:
            expect(data.body is None, "{}: handed on despite {}", what, found)
            return
        body = data.body

        def value(name):
            v = body[AttrRep(attr=name)]
            return v if v is not None and type(v).__name__ != "Missing" and v is not SCIMDataContainer()["x"] else None
    else:
        query = data.query_string

        def value(name):
            return query.get(name)

        for key in sent:
            expect(key in query, "{}: option {} lost", what, key)
    attribute_faults = any(k[0] in ("attributes", "excludeAttributes") for k in want)
    checker = value("presence_checker")
    if attribute_faults:
        expect(checker is None, "{}: requested attributes read despite {}", what, found)
    elif presence is None:
        expect(checker is None, "{}: requested attributes read as {!r}", what, checker)
    else:
        have = [triple(r) for r in checker.attr_reps]
        expect(have == [low(r) for r in presence[0]] and checker.include is presence[1], "{}: requested attributes read as {} include={}", what, have,
               checker.include)
    if where == "single":
        return
    f = value("filter")
    if tree is not None:
        expect(F.same_tree(call(f.to_dict), tree), "{}: filter read as {!r}", what, f.to_dict())
    elif not refused:
        expect(f is None, "{}: filter read as {!r}", what, f)
    sorter = value("sorter")
    if sort is not None:
        expect(triple(sorter.attr_rep) == low(sort[0]) and sorter.asc is sort[1], "{}: order read as {} asc={}", what, sorter.attr_rep, sorter.asc)
    else:
        expect(sorter is None, "{}: order read as {!r}", what, sorter)
    for key, n in numbers.items():
        v = value(key)
        expect(v == n and type(v) is int, "{}: {} read as {!r}", what, key, v)
