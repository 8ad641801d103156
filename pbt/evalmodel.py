"""Reference evaluator of filter trees over plain dicts and attribute specs (independent of the code
under test).  Results: P matched, F not matched, N unknown attribute, M data missing, None unspecified."""
from datetime import datetime

from .specs import find

STR_OPS = ("co", "sw", "ew")
ORD_OPS = ("gt", "ge", "lt", "le")
STR_TYPES = ("string", "external", "uri", "scim")
ORD_TYPES = ("string", "dateTime", "integer", "decimal")
MISSING = object()


class Unspecified(Exception):
    pass


def lookup(data, name):
    for k, v in data.items():
        if k.lower() == name.lower():
            return v
    return MISSING


def apply(op, a, b):
    if op == "eq":
        return a == b
    if op == "ne":
        return a != b
    if op == "co":
        return b in a
    if op == "sw":
        return a[: len(b)] == b
    if op == "ew":
        return b == "" or a[-len(b):] == b if len(a) >= len(b) else False
    return {"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[op]


def compare(op, t, cs, item, value):
    """Whether one present item matches; type-incompatible comparisons do not match (eq, ordering)."""
    if t == "dateTime":
        if not isinstance(value, str):
            if op in ("eq", "ne"):
                raise Unspecified
            return False
        try:
            b = datetime.fromisoformat(value)
        except ValueError:
            if op == "ne":
                raise Unspecified
            return False
        a = datetime.fromisoformat(item)
        if (a.tzinfo is None) != (b.tzinfo is None):
            if op == "ne":
                raise Unspecified
            return False
        return apply(op, a, b)
    if isinstance(value, bool) != isinstance(item, bool) and isinstance(value, (bool, int, float)) and isinstance(
        item, (bool, int, float)
    ):
        raise Unspecified  # true vs 1
    if value is None:
        return op == "ne"
    if isinstance(value, str) != isinstance(item, str):
        if op == "ne":
            raise Unspecified
        return False
    if isinstance(value, str) and not cs:
        item, value = item.lower(), value.lower()
    if isinstance(item, float) and item != item:
        raise Unspecified
    return apply(op, item, value)


def atom(node, value, attrs, strict):
    spec = find(attrs, node["attr_rep"].rsplit(":", 1)[-1])
    if spec is None:
        return "N"
    op = node["op"]
    if op == "pr":
        if spec["t"] == "complex":
            if isinstance(value, list):
                for item in value:
                    v = lookup(item, "value")
                    if v is not MISSING and v is not None and v != "" and v != []:
                        return "P"
                return "F"
            if value is MISSING or value is None:
                return "F"
            raise Unspecified
        if value is MISSING or value is None:
            return "F"
        if isinstance(value, list):
            return "P" if any(v is not None and v != "" for v in value) else "F"
        if isinstance(value, str):
            return "P" if value else "F"
        return "P"
    if value is MISSING or value is None:
        return "M" if strict else "P"
    t, cs = spec["t"], spec["cs"]
    if t == "complex":
        sub = find(spec["subs"], "value")
        if not spec["mv"] or sub is None:
            return "F"
        if sub["mv"]:
            raise Unspecified  # items whose `value` is itself a list
        values = [lookup(item, "value") for item in value]
        values = [v for v in values if v is not MISSING and v is not None]
        t, cs = sub["t"], sub["cs"]
        if t == "boolean" and op in ORD_OPS:
            raise Unspecified
    else:
        if op in STR_OPS and t not in STR_TYPES:
            return "F"
        if op in ORD_OPS and t not in ORD_TYPES:
            return "F"
        values = value if isinstance(value, list) else [value]
    result = "F"
    for item in values:
        if compare(op, t, cs, item, node["value"]):
            result = "P"
    return result


def evaluate(node, data, attrs, strict, top=True):
    op = node["op"]
    if op in ("and", "or"):
        results = [evaluate(s, data, attrs, strict, False) for s in node["sub_ops"]]
        if op == "and":
            for r in "FNM":
                if r in results:
                    return r
            return "P"
        if "P" in results:
            return "P"
        return "M" if "M" in results else "F"
    if op == "not":
        sub = node["sub_op"]
        r = evaluate(sub, data, attrs, True, False)
        if sub["op"] == "or" and has_unknown(sub, attrs):
            raise Unspecified
        if r == "F":
            return "P"
        if r == "M":
            return "F" if strict else "P"
        return "F"
    if op == "complex":
        return complex_(node, lookup_attr(data, attrs, node["attr_rep"]), attrs, strict)
    return atom(node, lookup_attr(data, attrs, node["attr_rep"]), attrs, strict)


def lookup_attr(data, attrs, ref):
    return lookup(data, ref.rsplit(":", 1)[-1])


def has_unknown(node, attrs):
    if "sub_ops" in node:
        return any(has_unknown(s, attrs) for s in node["sub_ops"])
    if node["op"] == "not":
        return has_unknown(node["sub_op"], attrs)
    spec = find(attrs, node["attr_rep"].rsplit(":", 1)[-1])
    if node["op"] == "complex":
        if spec is None or spec["t"] != "complex":
            return True
        return has_unknown(node["sub_op"], spec["subs"])
    return spec is None


def complex_(node, value, attrs, strict):
    spec = find(attrs, node["attr_rep"].rsplit(":", 1)[-1])
    if spec is None or spec["t"] != "complex":
        return "N"
    missing = value is MISSING or value is None
    if missing and not strict:
        return "P"
    if missing:
        items = [] if spec["mv"] else [{}]
    else:
        items = value if isinstance(value, list) else [value]
    sub = node["sub_op"]
    if has_unknown(sub, spec["subs"]) and not strict:
        raise Unspecified
    result = "F"
    if sub["op"] not in ("and", "or", "not"):
        has_value = False
        for item in items:
            v = lookup(item, sub["attr_rep"])
            if v is not MISSING and v is not None:
                has_value = True
            if atom(sub, v, spec["subs"], strict) == "P":
                result = "P"
        if result == "F" and not has_value and not strict:
            return "P"
        return result
    saw_missing = False
    for item in items:
        r = evaluate(sub, item, spec["subs"], strict, False)
        if r == "P":
            result = "P"
        if r == "M":
            saw_missing = True
    if result == "F" and saw_missing and not strict:
        return "P"
    return result
