"""Reference for parsing and dumping resources of a specification: expected output and fault locations."""
import copy
from datetime import datetime

from hypothesis import strategies as st

from src.attributes_presence import AttributePresenceChecker
from src.data.container import Invalid, Missing, SCIMDataContainer
from src.data.path import PatchPath
from src.filter import Filter
from src.sorter import Sorter

from . import gen
from . import specs
from . import typemodel as T


def lookup(obj, name):
    """Case-insensitive member access (last spelling wins), or None, False."""
    found, hit = None, False
    for k, v in obj.items():
        if isinstance(k, str) and k.lower() == name.lower():
            found, hit = v, True
    return found, hit


def expected_value(spec, value, direction):
    if value is None:
        return None
    if spec["t"] != "complex":
        if spec["mv"]:
            return [T.judge(spec["t"], v, direction)[1] for v in value]
        return T.judge(spec["t"], value, direction)[1]
    if spec["mv"]:
        return [expected_object(spec["subs"], v, direction) for v in value]
    return expected_object(spec["subs"], value, direction)


def expected_object(attrs, obj, direction):
    out = {}
    for a in attrs:
        v, hit = lookup(obj, a["n"])
        if hit:
            out[a["n"]] = expected_value(a, v, direction)
    return out


def expected_resource(spec, data, direction):
    out = expected_object(spec["attrs"], data, direction)
    for ext in spec["ext"]:
        v, hit = lookup(data, ext["schema"])
        if hit and isinstance(v, dict):
            inner = expected_object(ext["attrs"], v, direction)
            if inner:
                out[ext["schema"]] = inner
    return out


def plain(v):
    """Result of the code under test as plain data."""
    if isinstance(v, SCIMDataContainer):
        return plain(v.to_dict())
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def diff(got, want, skip=(), at=()):
    """First difference as text, or None.  Locations in skip (tuples of str) are ignored."""
    if at in skip:
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return f"{at}: {got!r} instead of an object"
        for k in want:
            if at + (k,) in skip:
                continue
            if k not in got:
                return f"{at + (k,)}: missing, expected {want[k]!r}"
        for k in got:
            if k not in want and at + (k,) not in skip:
                return f"{at + (k,)}: unexpected {got[k]!r}"
        for k in want:
            if k in got:
                d = diff(got[k], want[k], skip, at + (k,))
                if d:
                    return d
        return None
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return f"{at}: {got!r} instead of {want!r}"
        for i, (g, w) in enumerate(zip(got, want)):
            d = diff(g, w, skip, at + (str(i),))
            if d:
                return d
        return None
    if not T.same(got, want):
        return f"{at}: {got!r} instead of {want!r}"
    return None


# --- disguises which must not matter: re-cased keys, unknown extra members ------------------------


@st.composite
def disguised(draw, spec, data, recase=True, extras=True):
    """The same resource with names in another case and unknown attributes added."""
    mask = draw(st.integers(0, 2**24 - 1)) if recase and draw(st.booleans()) else 0
    junk = draw(st.lists(st.tuples(st.sampled_from(["zzTop", "unknownThing", "urn:no:such:ext", "x-y z", "", "a.b"]),
                                   gen.json_values(max_leaves=4)), max_size=2)) if extras and draw(st.booleans()) else []
    where = draw(st.integers(0, 3))

    def walk(v, depth):
        if isinstance(v, dict):
            out = {}
            for k, x in v.items():
                key = k if k.startswith("$") else gen.recase_by_mask(k, mask >> depth)
                out[key] = walk(x, depth + 1)
            if junk and (depth == where or depth == 0):
                for k, x in junk:
                    out.setdefault(k, copy.deepcopy(x))
            return out
        if isinstance(v, list):
            return [walk(x, depth + 1) if isinstance(x, dict) else x for x in v]
        return v

    return walk(data, 0)


# --- faults ---------------------------------------------------------------------------------------


def fault_sites(spec, data):
    """All places of valid data where a value can be made invalid: (path, attr spec, kind)."""
    sites = []

    def attr_sites(a, v, path):
        if v is None:
            return
        sites.append((path, a, "whole"))
        if a["mv"]:
            for i, item in enumerate(v):
                sites.append((path + (i,), a, "item"))
                if a["t"] == "complex":
                    object_sites(a["subs"], item, path + (i,))
        elif a["t"] == "complex":
            object_sites(a["subs"], v, path)

    def object_sites(attrs, obj, path):
        for a in attrs:
            v, hit = lookup(obj, a["n"])
            if hit:
                attr_sites(a, v, path + (a["n"],))

    skip = {"schemas"}
    for a in spec["attrs"]:
        if a["n"] in skip:
            continue
        v, hit = lookup(data, a["n"])
        if hit:
            attr_sites(a, v, (a["n"],))
    for ext in spec["ext"]:
        v, hit = lookup(data, ext["schema"])
        if hit and isinstance(v, dict):
            object_sites(ext["attrs"], v, (ext["schema"],))
    return sites


BAD = {
    "string": [5, True, 1.5, [], ["a"], {"a": 1}],
    "boolean": ["true", 1, 0, "", [], {}],
    "integer": ["5", 1.5, True, float("inf"), [], {}],
    "decimal": ["1.5", True, [], {}],
    "dateTime": [5, True, [], {}],
    "binary": [5, "YWJ", "Y", "ÿ", [], {}],
    "external": [5, "/Users/1", "abc", "http://", [], {}],
    "uri": [5, True, [], {}],
    "scim": [5, True, [], {}],
    "complex": [5, "x", True, []],
}


@st.composite
def bad_value(draw, a, kind, direction):
    if kind == "whole" and a["mv"]:
        return draw(st.sampled_from([5, "x", True, {"value": "x"}, {}, 1.5]))
    if a["t"] == "dateTime":
        return draw(st.sampled_from(BAD["dateTime"] + (["2020-01-01T00:00:00Z", "x"] if direction == "dump" else ["x", "2022/05/05 12:34:56"])))
    pool = list(BAD[a["t"]])
    if a["canon"] and a["vcanon"]:
        pool += ["nope", "wor", "works"]
        if a["cs"]:
            pool += ["WORK" if "WORK" not in a["canon"] else "hOME"]
    if a["n"] == "id" and a["t"] == "string" and a["cs"]:
        pool += ["bulkId", "a-bulkId:1"]
    return draw(st.sampled_from(pool))


def bad_code(a, kind, value, direction):
    if kind == "whole" and a["mv"]:
        return 2
    if a["t"] == "complex":
        return 2
    verdict, want = T.judge(a["t"], value, direction)
    if verdict == "bad":
        return want
    if a["n"] == "id" and "bulkId" in value:
        return 7
    return 14


def put(data, path, value):
    """Set the value at a path of plain data (names matched case-insensitively)."""
    for p in path[:-1]:
        data = data[key_of(data, p)]
    data[key_of(data, path[-1])] = value


def key_of(data, p):
    if isinstance(p, int):
        return p
    for k in data:
        if k.lower() == p.lower():
            return k
    raise KeyError(p)


@st.composite
def faults(draw, spec, data, direction, max_faults=3):
    """[(path, value, code)] with disjoint paths, applied to data in place."""
    sites = fault_sites(spec, data)
    out = []
    if not sites:
        return out
    for _ in range(draw(st.integers(1, max_faults))):
        path, a, kind = draw(st.sampled_from(sites))
        if any(p[: len(path)] == path or path[: len(p)] == p for p, _, _ in out):
            continue
        value = draw(bad_value(a, kind, direction))
        out.append((path, value, bad_code(a, kind, value, direction)))
    for path, value, _ in out:
        put(data, path, copy.deepcopy(value))
    return out


def loc(path):
    return tuple(str(p) for p in path)


def at(data, path):
    for p in path:
        if isinstance(data, list):
            data = data[p]
        elif isinstance(data, dict):
            if p not in data:
                return Missing
            data = data[p]
        else:
            return Missing
    return data


def plain_ops(body):
    """The operations of a handed-on PATCH or bulk body (values are left as they are)."""
    body = body.to_dict() if isinstance(body, SCIMDataContainer) else body
    ops, _ = lookup(body, "Operations")
    return [o.to_dict() if isinstance(o, SCIMDataContainer) else o for o in ops]


def shape(v):
    """Comparable form of a result."""
    if isinstance(v, SCIMDataContainer):
        v = v.to_dict()
    if isinstance(v, dict):
        return {k: shape(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [shape(x) for x in v]
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, Sorter):
        return {"sorter": repr(v.attr_rep), "asc": v.asc}
    if isinstance(v, Filter):
        return {"filter": shape(v.to_dict())}
    if isinstance(v, AttributePresenceChecker):
        return {"attributes": [repr(r) for r in v.attr_reps], "include": v.include}
    if isinstance(v, PatchPath):
        return {"path": repr(v.attr_rep), "filter": shape(v.complex_filter), "sub": v.complex_filter_attr_rep and repr(v.complex_filter_attr_rep)}
    if isinstance(v, datetime):
        return v.isoformat()
    return v if isinstance(v, (str, int, bool, type(None))) else type(v).__name__
