"""List responses: totals, paging, filter, order and presence agree with what was asked for."""
import copy

from hypothesis import strategies as st

from src.attributes_presence import AttributePresenceChecker
from src.filter import Filter
from src.sorter import Sorter

from .. import endpoints as E
from .. import evalmodel as EM
from .. import filters as F
from .. import gen
from .. import messages as M
from .. import presence as P
from .. import resmodel as R
from .. import specs
from ..harness import call, expect, prop
from ..issues import below, flat
from . import c03

LIST = M.API + "ListResponse"
USER_TOP = [a for a in c03.USER_TOP if a["n"] != "groups"]
SORT_KEYS = ["userName", "title", "name.familyName", "active", "emails", "externalId", "id", "displayName", "nosuch", "name",
             "emails.value", "emails.type",
             "urn:ietf:params:scim:schemas:extension:enterprise:2.0:User:costCenter"]
ENTERPRISE = specs.USER["ext"][0]["schema"]
DEVICE = {
    "schema": "urn:example:schemas:2.0:Device", "name": "Device", "plural": "Devices",
    "attrs": copy.deepcopy(specs.BASE) + [specs.A("displayName", req=True), specs.A("title", cs=True), specs.A("secret", ret="never"),
                                          specs.A("size", "integer", ret="always")],
    "ext": [{"schema": f"urn:example:schemas:extension:2.0:Device{x}", "attrs": [specs.A("site" + x), specs.A("costCenter")]} for x in ("One", "Two", "Three")],
}
FAMILY = {"User": specs.USER, "Group": specs.GROUP, "Device": DEVICE}
FAMILIES = [["User", "Group"], ["Group", "User"], ["User", "Group", "Device"], ["Device", "Group", "User"], ["Group", "Device", "User"]]


@st.composite
def user(draw):
    out = draw(c03.small_object(USER_TOP, draw(st.sampled_from([3, 6]))))
    out.pop("profileUrl", None)
    for a in USER_TOP:
        if a["t"] == "complex" and a["mv"] and out.get(a["n"]):
            seen = False
            for item in out[a["n"]]:
                if item.get("primary") and seen:
                    item["primary"] = False
                seen = seen or bool(item.get("primary"))
    if draw(st.integers(0, 9)):
        out["userName"] = draw(gen.words.filter(bool))
    if draw(st.integers(0, 9)):
        out["id"] = draw(st.sampled_from(["1", "2", "a", "B"]))
    if draw(st.integers(0, 2)) == 0:
        out["externalId"] = draw(gen.words)
    if draw(st.integers(0, 2)) == 0:
        out["displayName"] = draw(gen.words)
    if draw(st.integers(0, 19)) == 0:
        out["password"] = "x"
    if draw(st.integers(0, 9)) == 0:
        out["meta"] = {"resourceType": draw(st.sampled_from(["User", "User", "Group"]))}
    out["schemas"] = [specs.USER["schema"]]
    if draw(st.integers(0, 3)) == 0:
        out[ENTERPRISE] = {"costCenter": draw(gen.words)}
        out["schemas"].insert(draw(st.integers(0, 1)), ENTERPRISE)
    return out


@st.composite
def group(draw):
    out = {"schemas": [specs.GROUP["schema"]], "id": draw(st.sampled_from(["1", "2", "g"]))}
    if draw(st.integers(0, 9)):
        out["displayName"] = draw(gen.words.filter(bool))
    if draw(st.booleans()):
        out["externalId"] = draw(gen.words)
    if draw(st.booleans()):
        out["members"] = draw(st.lists(st.fixed_dictionaries({"value": gen.words}), max_size=2))
    return out


@st.composite
def device(draw):
    out = {"schemas": [DEVICE["schema"]], "id": draw(st.sampled_from(["1", "2", "g"]))}
    if draw(st.integers(0, 9)):
        out["displayName"] = draw(gen.words.filter(bool))
    if draw(st.integers(0, 5)):
        out["size"] = draw(st.integers(-2, 9))
    if draw(st.booleans()):
        out["title"] = draw(gen.words)
    if draw(st.integers(0, 19)) == 0:
        out["secret"] = "x"
    for e in DEVICE["ext"]:
        if draw(st.integers(0, 2)) == 0:
            out[e["schema"]] = {e["attrs"][0]["n"]: draw(gen.words)}
            out["schemas"].append(e["schema"])
    return out


MAKE = {"User": user, "Group": group, "Device": device}


def matching(tree, item):
    try:
        return EM.evaluate(tree, item["data"], FAMILY[item["is"]]["attrs"], False) == "P"
    except EM.Unspecified:
        return False


@st.composite
def cases(draw, focus=None):
    kind = draw(st.sampled_from(["list", "root", "search"]))
    family = ["User"] if kind == "list" or draw(st.integers(0, 2)) == 0 else draw(st.sampled_from(FAMILIES))
    items = []
    for _ in range(draw(st.integers(0, 5))):
        which = draw(st.sampled_from(list(family)))
        items.append({"is": which, "data": draw(MAKE[which]())})
    if items and draw(st.integers(0, 9)) == 0:  # a long page
        i = draw(st.integers(0, len(items) - 1))
        items = [copy.deepcopy(items[i]) for _ in range(draw(st.sampled_from([2, 5, 9, 14])))] + items
    calm = draw(st.booleans())  # everything right but for at most one thing
    tree = None
    if draw(st.integers(0, 1)):
        tree = draw(c03.tree(USER_TOP, draw(st.sampled_from([0, 0, 1, 2]))))
        text = F.render(tree)
        if text is None or "\\" in text:
            tree = None
    if calm:
        for item in items:
            item["data"].pop("password", None)
            item["data"].pop("meta", None)
            item["data"].setdefault("id", "1")
            if item["is"] == "User":
                item["data"]["userName"] = item["data"].get("userName") or "u"
            else:
                item["data"].setdefault("displayName", "g")
            if item["is"] == "Device":
                item["data"].setdefault("size", 1)
                item["data"].pop("secret", None)
        if tree is not None and draw(st.integers(0, 4)):
            items = [i for i in items if matching(tree, i)]
    n = len(items)
    case = {"kind": kind, "family": list(family), "items": items, "status": 200, "kw": {}, "some": [], "faults": []}
    if draw(st.integers(0, 9)) == 0 and not calm:
        case["status"] = draw(st.sampled_from([201, 204, 404]))
    body = {"schemas": [LIST]}
    total = n
    if draw(st.integers(0, 3)) == 0 and (not calm or draw(st.integers(0, 3)) == 0):
        total = draw(st.integers(0, n + 3))
    body["totalResults"] = total
    if n or draw(st.booleans()):
        body["Resources"] = [copy.deepcopy(x["data"]) for x in items]
    kw = case["kw"]
    if draw(st.integers(0, 2)) == 0:
        kw["count"] = draw(st.integers(-1, n + 2)) if not calm else draw(st.integers(max(n - 1, -1), n + 1))
    if draw(st.integers(0, 2)) == 0:
        kw["start_index"] = draw(st.integers(-1, 4))
    if draw(st.integers(0, 2)) == 0:
        body["startIndex"] = draw(st.integers(1, 4)) if not calm else draw(st.integers(1, max(kw.get("start_index", 1), 1) + 1))
    if draw(st.integers(0, 2)) == 0:
        body["itemsPerPage"] = n if calm or draw(st.integers(0, 4)) else draw(st.integers(0, n + 2))
    if draw(st.integers(0, 19)) == 0 and not calm:
        key = draw(st.sampled_from(["totalResults", "schemas"]))
        if draw(st.booleans()):
            del body[key]
        else:
            body[key] = None
    if draw(st.integers(0, 4)) == 0:  # a later page
        offset = draw(st.sampled_from([9, 20, 100, 1000]))
        kw["start_index"] = max(kw.get("start_index", 1), 1) + offset
        if "startIndex" in body:
            body["startIndex"] += draw(st.sampled_from([offset, offset, offset - 1, offset // 2]))
        if isinstance(body.get("totalResults"), int):
            body["totalResults"] += draw(st.sampled_from([offset, offset, offset, offset - 1, 0]))
    if draw(st.integers(0, 14)) == 0 and not calm:  # a paging value of another type says nothing about the resources
        kw.pop("count", None)
        body[draw(st.sampled_from(["totalResults", "startIndex", "itemsPerPage", "itemsPerPage"]))] = draw(st.sampled_from(["1", "", 1.5, True, {}, [], [1]]))
    if tree is not None:
        case["tree"], kw["filter_"] = tree, text
    if draw(st.integers(0, 1)):
        key, asc = draw(st.sampled_from(SORT_KEYS)), draw(st.booleans())
        kw["sorter"] = (draw(gen.recased(key)) if draw(st.integers(0, 3)) == 0 else key, asc)
        case["sort"] = (key, asc)
        if (calm and draw(st.integers(0, 4)) or draw(st.integers(0, 2))) and "Resources" in body:  # mostly in order
            order = sort_order(items, key, asc)
            items[:] = [items[i] for i in order]
            body["Resources"] = [copy.deepcopy(x["data"]) for x in items]
    if draw(st.integers(0, 3 if not calm else 7)) == 0:
        refs = draw(st.lists(P.rep_text(specs.USER), min_size=1, max_size=3))
        case["include"], case["reps"] = draw(st.booleans()), refs
        kw["presence_checker"] = (refs, case["include"])
    if items and not calm and draw(st.integers(0, 3)) == 0:  # a faulty resource
        i = draw(st.integers(0, n - 1))
        how = draw(st.integers(0, 2))
        if how == 0 and "Group" in family:
            body["Resources"][i]["schemas"] = draw(st.sampled_from(
                [["urn:no:such"], [specs.USER["schema"], specs.GROUP["schema"]], [specs.USER["schema"], "urn:no:such"],
                 [specs.USER["schema"], ENTERPRISE, "urn:no:such"], [ENTERPRISE, specs.USER["schema"], specs.GROUP["schema"]], [ENTERPRISE, "urn:no:such"],
                 [specs.GROUP["schema"], ENTERPRISE]]))
            case["unknown"] = i
        elif how == 1:
            body["Resources"][i] = draw(st.sampled_from([5, "x", True, []]))
            case["some"].append(i)
        else:
            spec = FAMILY[items[i]["is"]]
            items[i]["data"].pop("meta", None)
            body["Resources"][i].pop("meta", None)
            case["faults"] = [(i,) + (f,) for f in draw(R.faults(spec, body["Resources"][i], "dump", max_faults=1))]
    if draw(st.integers(0, 4)) == 0:
        body = {draw(gen.recased(k)): v for k, v in body.items()}
    case["body"] = body
    return case


MISSING = object()


def sort_key(item, key):
    spec = FAMILY[item["is"]]
    data = item["data"]
    if key == SORT_KEYS[-1]:
        v = (data.get(ENTERPRISE) or {}).get("costCenter")
        cs = False
    else:
        name, _, sub = key.partition(".")
        attr = specs.find(spec["attrs"], name)
        if attr is None:
            return MISSING
        v, cs = data.get(name), attr["cs"]
        if key == "name":
            return MISSING
        if sub and name == "emails":
            chosen = [x.get(sub) for x in v or [] if x.get("primary") is True][:1] or [x[sub] for x in v or [] if x.get(sub) not in (None, "")]
            v = chosen[0] if chosen else None
        elif sub:
            v = (v or {}).get(sub)
        elif name == "emails":
            chosen = [x for x in v or [] if x.get("primary") is True]
            v = chosen[0].get("value") if chosen else None
    if v is None or v == "":
        return MISSING
    return v if cs or not isinstance(v, str) else v.lower()


def sort_order(items, key, asc):
    keys = [sort_key(i, key) for i in items]
    if all(k is MISSING for k in keys):
        return list(range(len(items)))
    present = sorted([i for i, k in enumerate(keys) if k is not MISSING], key=lambda i: keys[i], reverse=not asc)
    missing = [i for i, k in enumerate(keys) if k is MISSING]
    return present + missing if asc else missing + present


def in_order(items, key, asc):
    return sort_order(items, key, asc) == list(range(len(items)))


def expected(case):
    """({location: codes}, specified)"""
    body = {k.lower(): v for k, v in case["body"].items()}
    kw, items = case["kw"], case["items"]
    out = {}

    def add(loc, code):
        out.setdefault(("body",) + loc, []).append(code)

    if case["status"] != 200:
        out[("status",)] = [16]
    if body.get("schemas") is None:
        add(("schemas",), 15)
    total = body.get("totalresults")
    if total is None:
        add(("totalResults",), 15)
    given = "resources" in body
    for name in ("totalResults", "startIndex", "itemsPerPage"):
        value = body.get(name.lower())
        if value is not None and type(value) is not int:
            add((name,), 2)
            body[name.lower()] = None
    total = body.get("totalresults")
    n = len(body["resources"]) if given else 0
    per_page, start = body.get("itemsperpage"), body.get("startindex")
    if given and per_page is not None and per_page != n:
        add(("itemsPerPage",), 11)
        add(("Resources",), 11)
    wanted_start = max(kw.get("start_index", 1), 1)
    if start is not None and start > wanted_start:
        add(("startIndex",), 24)
    if "unknown" in case:
        add(("Resources", str(case["unknown"])), 27)
    for i, (path, _, code) in case["faults"]:
        add(("Resources", str(i)) + R.loc(path), code)
    for i, item in enumerate(items):
        meta = item["data"].get("meta")
        if given and meta and meta.get("resourceType") != item["is"] and case.get("unknown") != i and i not in case["some"]:
            if not any(f[0] == i for f in case["faults"]):
                add(("Resources", str(i), "meta", "resourceType"), 17)
    count = kw.get("count")
    if total is not None:
        if total < n:
            add(("Resources",), 22)
        if count is None and total - (wanted_start - 1) > n:
            add(("Resources",), 23)
        if count is not None and n > max(count, 0):
            add(("Resources",), 21)
        if count is not None and count > 0 and total > n:
            if start is None:
                add(("startIndex",), 15)
            if per_page is None:
                add(("itemsPerPage",), 15)
    if any(k[:2] == ("body", "Resources") for k in out) or case["some"]:
        return {k: sorted(v) for k, v in out.items()}, True
    if given:
        if "tree" in case:
            for i, item in enumerate(items):
                spec = FAMILY[item["is"]]
                try:
                    if EM.evaluate(case["tree"], item["data"], spec["attrs"], False) not in ("P",):
                        add(("Resources", str(i)), 25)
                except EM.Unspecified:
                    return None, False
        if "sort" in case and not in_order(items, *case["sort"]):
            add(("Resources",), 26)
        reps = [P.parse(t) for t in case.get("reps", [])]
        for i, item in enumerate(items):
            for loc, code in P.expected(FAMILY[item["is"]], item["data"], reps, case.get("include"), "RESPONSE").items():
                add(("Resources", str(i)) + loc, code)
    return {k: sorted(v) for k, v in out.items()}, True


@prop(
    "C17", cases(), quick=6000,
    rule="responses of the three listing endpoints with 0-5 (sometimes up to 19) users and groups, first and later pages,, totals, paging values, requested count and startIndex, "
         "filter, sorting and attributes, wrong status, faulty and unknown resources: issues equal those of a reference built on the "
         "independent filter evaluator, sort order and presence rules; non-trivial = accepted with resources, or refused for paging, "
         "filter, order or presence",
)
def listings_are_consistent(case, rec):
    want, specified = expected(case)
    if not specified:
        rec.tag("unspecified")
        return
    kw = dict(case["kw"])
    if "filter_" in kw:
        kw["filter_"] = Filter.parse(kw["filter_"])[0]
    if "sorter" in kw:
        kw["sorter"] = Sorter.parse(*kw["sorter"])[0]
    if "presence_checker" in kw:
        kw["presence_checker"] = AttributePresenceChecker.parse(list(kw["presence_checker"][0]), kw["presence_checker"][1])[0]
    v = E.listing(case["kind"], [FAMILY[f] for f in case["family"]])
    data, issues = call(v.dump_response, status_code=case["status"], body=copy.deepcopy(case["body"]), **kw)
    found = flat(issues)
    what = f"{case['kind']} {case['status']} {case['kw']} {case['body']!r}"
    for codes in want.values():
        for c in codes:
            rec.tag(f"code {c}")
    rec.tag("refused" if want or case["some"] else "accepted")
    if case["items"] and (not want or any(set(c) & {11, 15, 19, 21, 22, 23, 24, 25, 26} for c in want.values())):
        rec.hit(f"{what} -> {want}")
    rest = dict(found)
    for i in case["some"]:
        mine = below(found, ("body", "Resources", str(i)))
        expect(mine, "{}: malformed resource {} not reported: {}", what, i, found)
        rest = {k: c for k, c in rest.items() if k[:3] != ("body", "Resources", str(i))}
        want = {k: c for k, c in want.items() if k[:3] != ("body", "Resources", str(i))}
    expect(rest == want, "{}: issues {}, expected {}", what, rest, want)
    if want or case["some"]:
        expect(data.body is None, "{}: handed on {!r} despite {}", what, data.body, found)
        return
    plain = R.plain(data.body)
    body = {k.lower(): v for k, v in case["body"].items()}
    expect({k.lower() for k in plain} == set(body), "{}: handed on {!r}", what, plain)
    for k in ("totalResults", "startIndex", "itemsPerPage", "schemas"):
        if k.lower() in body:
            expect(plain.get(k) == body[k.lower()], "{}: {} handed on as {!r}", what, k, plain.get(k))
    if "resources" in body:
        got = plain["Resources"]
        expect(len(got) == len(case["items"]), "{}: {} resources handed on", what, len(got))
        for g, item in zip(got, case["items"]):
            d = R.diff(g, R.expected_resource(FAMILY[item["is"]], item["data"], "dump"))
            expect(d is None, "{}: {}", what, d)


@st.composite
def ordered_cases(draw):
    kind = draw(st.sampled_from(["list", "root", "search"]))
    family = ["User"] if kind == "list" or draw(st.integers(0, 2)) == 0 else draw(st.sampled_from(FAMILIES))
    key, asc = draw(st.sampled_from(SORT_KEYS)), draw(st.booleans())
    items = []
    for i in range(draw(st.sampled_from([2, 2, 3, 3, 4, 5, 6, 12, 18]))):
        which = draw(st.sampled_from(list(family)))
        data = {"schemas": [FAMILY[which]["schema"]], "id": draw(st.sampled_from(["1", "2", "a", "B", "b"]))}
        data["userName" if which == "User" else "displayName"] = draw(gen.words.filter(bool))
        if draw(st.integers(0, 4)):
            word = draw(st.one_of(gen.words, st.none()))
            if key == SORT_KEYS[-1]:
                if which == "User":
                    data[ENTERPRISE] = {"costCenter": word}
                    data["schemas"].append(ENTERPRISE)
            elif which == "User" and key in ("name.familyName", "name"):
                data["name"] = {"familyName": word}
            elif which == "User" and key == "emails.type":
                data["emails"] = [{"value": "x", "type": draw(gen.words)}, {"value": "y", "type": word, "primary": draw(st.booleans())}]
            elif which == "User" and key in ("emails", "emails.value"):
                data["emails"] = [{"value": draw(gen.words)}, {"value": word, "primary": True}][:: draw(st.sampled_from([1, -1]))]
            elif which == "User" and key == "active":
                data["active"] = draw(st.booleans())
            elif key in ("externalId", "displayName") or (which == "User" and key == "title"):
                data[key] = word or data.get(key) or "d"
        items.append({"is": which, "data": data})
    if draw(st.booleans()):
        items = [items[i] for i in sort_order(items, key, asc)]
        if draw(st.booleans()):  # one exchange
            i, j = draw(st.integers(0, len(items) - 1)), draw(st.integers(0, len(items) - 1))
            items[i], items[j] = items[j], items[i]
    rep = draw(gen.recased(key)) if draw(st.integers(0, 3)) == 0 else key
    return {"kind": kind, "family": list(family), "items": items, "status": 200, "kw": {"sorter": (rep, asc)}, "sort": (key, asc), "some": [],
            "faults": [], "body": {"schemas": [LIST], "totalResults": len(items), "Resources": [copy.deepcopy(i["data"]) for i in items]}}


@prop(
    "C17", ordered_cases(), quick=2500,
    rule="otherwise faultless listings of 2-18 users and groups (values missing, null, empty, differing in case only) in, nearly in and "
         "out of the requested order; non-trivial = a value to sort by in two of them",
)
def order_is_checked(case, rec):
    listings_are_consistent(case, rec)
