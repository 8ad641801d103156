"""Reference for PATCH requests: generator of operations over a specification and what each must be judged like.

An operation's judgement: must {location: codes} (reported exactly), may (locations below which anything may be reported),
value (what is handed on)."""
import copy

from hypothesis import strategies as st

from . import gen
from . import presence as P
from . import resmodel as R
from . import specs

BAD_PATHS = ["bad^", "a[b", "emails[", "a.b.c", "[type pr]", "emails[type pr].", "emails[type pr]]", 'emails[type xx "1"]', " ", "a b"]


def targets(spec):
    """(schema or "", attr spec, sub spec or None, is extension)"""
    out = []
    for schema, attrs, ext in [(spec["schema"], spec["attrs"], False)] + [(e["schema"], e["attrs"], True) for e in spec["ext"]]:
        for a in attrs:
            out.append((schema, a, None, ext))
            for s in a["subs"]:
                out.append((schema, a, s, ext))
    return out


@st.composite
def rc(draw, text):
    return draw(gen.recased(text)) if draw(st.integers(0, 3)) == 0 else text


def read_only(a, s):
    return a["mut"] == "readOnly" or (s is not None and s["mut"] == "readOnly")


def missing_subs(a, item):
    out = []
    for s in a["subs"]:
        v, _ = P.lookup(item, s["n"])
        if s["req"] and s["iss"] != "SERVER" and P.absent(v):
            out.append(s["n"])
    return out


def judge_value(a, value, must, may, at, path_given):
    """Sub-attribute rules of the value of a (writable) attribute."""
    if a["t"] != "complex" or value is None:
        return
    items = [(at + (str(i),), x) for i, x in enumerate(value)] if a["mv"] else [(at, value)]
    for loc, item in items:
        ro = [s["n"] for s in a["subs"] if s["mut"] == "readOnly" and P.lookup(item, s["n"])[1]]
        for n in ro:
            must[loc + (n,)] = [304]
        if a["mv"]:
            for n in missing_subs(a, item):
                if ro:
                    may.add(loc + (n,))
                elif n not in ro:
                    must[loc + (n,)] = [15]


def nullified(draw, a, value):
    """The value of a complex attribute with sub-attributes set to null now and then."""
    if a["t"] != "complex" or draw(st.integers(0, 4)):
        return value
    value = copy.deepcopy(value)
    for item in value if isinstance(value, list) else [value]:
        if isinstance(item, dict) and draw(st.booleans()):
            item[draw(st.sampled_from([x["n"] for x in a["subs"]]))] = None
    return value


def faulty(draw, a, value, kind_at=()):
    """Make one place of a value invalid: (value, path, code) or None."""
    holder = {"n": "x", "attrs": [], "ext": []}
    wrapped = {a["n"]: copy.deepcopy(value)}
    fake = {"schema": "s", "attrs": [a], "ext": []}
    sites = R.fault_sites(fake, wrapped)
    sites = [s for s in sites if s[1]["n"] != "schemas"]
    if not sites:
        return None
    path, spec, kind = draw(st.sampled_from(sites))
    bad = draw(R.bad_value(spec, kind, "parse"))
    R.put(wrapped, path, copy.deepcopy(bad))
    return wrapped[a["n"]], tuple(path[1:]), R.bad_code(spec, kind, bad, "parse")


@st.composite
def operations(draw, spec, faults=True):
    """{'wire': op as sent, 'op', 'must', 'may', 'value', 'target'}"""
    kind = draw(st.sampled_from(["add", "add", "replace", "replace", "remove"]))
    wire = {"op": draw(rc(kind))}
    out = {"wire": wire, "op": kind, "must": {}, "may": set(), "value": None, "target": None, "nopath": False}
    must, may = out["must"], out["may"]

    broken = draw(st.integers(0, 24)) if faults else 99
    if broken == 0:
        how = draw(st.integers(0, 2))
        if how == 0:
            wire.pop("op")
            must[("op",)] = [15]
        elif how == 1:
            wire["op"] = draw(st.sampled_from([None, ""]))
            must[("op",)] = [15] if wire["op"] is None else [14, 15]
            may.add(("op",))
        else:
            wire["op"] = draw(st.sampled_from([5, [], "move", "ad", "adds", "remove ", True, {}]))
            must[("op",)] = [14] if isinstance(wire["op"], str) else [2]
        wire["path"] = "id"
        wire["value"] = "x"
        may.add(("value",)), may.add(("path",))
        if ("op",) in may:
            del must[("op",)]
            out["some"] = ("op",)
        return out
    if broken == 1:
        wire["path"] = draw(st.sampled_from(BAD_PATHS + [5, [], {}, True]))
        wire["value"] = "x"
        may.add(("path",)), may.add(("value",))
        out["some"] = ("path",)
        return out
    if broken == 2:
        wire["path"] = draw(rc(draw(st.sampled_from(
            ["nosuch", "nosuch.value", "urn:no:such:schema:title", "nosuch[value pr].x", spec["schema"] + ":nosuch", spec["schema"] + "x:" + spec["attrs"][-1]["n"],
             draw(st.sampled_from([t[1]["n"] for t in targets(spec)])) + ".nosuch"]))))
        wire["value"] = "x"
        must[("path",)] = [303]
        return out

    if kind != "remove" and draw(st.integers(0, 2)) == 0:
        return draw(without_path(spec, out, faults))
    return draw(with_path(spec, out, faults))


@st.composite
def with_path(draw, spec, out, faults):
    kind, wire, must, may = out["op"], out["wire"], out["must"], out["may"]
    every = targets(spec)
    special = [t for t in every if (t[2] or t[1])["req"] or read_only(t[1], t[2])]
    own = [t for t in special if t[1]["n"].lower() not in specs.RESERVED]
    schema, a, s, ext = draw(st.sampled_from(draw(st.sampled_from([every, every, special or every, own or every]))))
    filtered = a["t"] == "complex" and a["mv"] and draw(st.booleans())
    if filtered and s is None and kind == "replace":
        filtered = False  # what the value of a whole filtered item looks like is not specified
    text = a["n"]
    if ext or draw(st.integers(0, 3)) == 0:
        text = schema + ":" + text
        out["schema"] = schema
    if filtered:
        strings = [x["n"] for x in a["subs"] if x["t"] == "string" and not x["mv"]]
        sub = draw(st.sampled_from([x["n"] for x in a["subs"] if x["n"] != "$ref"] or ["value"]))
        there = {"op": "pr", "attr_rep": sub}
        shapes = [(f"[{sub} pr]", there), (f"[not ({sub} pr)]", {"op": "not", "sub_op": there})]
        for n in strings:
            shapes.append((f'[{n} eq "x.y"]', {"op": "eq", "attr_rep": n, "value": "x.y"}))
            shapes.append((f'[{n} sw "a" and {sub} pr]', {"op": "and", "sub_ops": [{"op": "sw", "attr_rep": n, "value": "a"}, there]}))
        shape, out["filter"] = draw(st.sampled_from(shapes))
        text += shape
    head, br, tail = text.partition("[")
    text = draw(rc(head)) + br + tail
    if s is not None:
        text += "." + draw(rc(s["n"]))
    wire["path"] = text
    out["target"] = (a["n"], s["n"] if s else "", filtered)
    target = s if s is not None else a

    if kind == "remove":
        if draw(st.integers(0, 3)) == 0:
            wire["value"] = draw(st.sampled_from(["x", None, 5, []]))
        if faults and draw(st.integers(0, 9)) == 0:
            wire.pop("path")
            if draw(st.booleans()):
                wire["path"] = None
            must[("path",)] = [15]
            out["target"] = None
            return out
        codes = []
        if read_only(a, s):
            codes.append(304)
        if target["req"] and not (s is None and a["t"] == "complex"):
            codes.append(306)
        if codes:
            must[("path",)] = codes
        return out

    if filtered and s is None:  # add
        must[("path",)] = [305]
        wire["value"] = draw(specs.value_for(a, "parse", 0.6, nulls=False))
        may.add(("value",))
        return out

    value = nullified(draw, target, draw(specs.value_for(target, "parse", 0.6, nulls=False)))
    wire["value"] = value
    if faults and draw(st.integers(0, 9)) == 0:
        if draw(st.booleans()):
            wire.pop("value")
        elif kind == "add":
            wire["value"] = None
        else:
            if not target["req"]:
                value = wire["value"] = None
            return finish_path(out, a, s, target, value)
        if read_only(a, s) and kind == "replace":
            must[("value",)] = [304]
        elif kind == "add":
            must[("value",)] = [15]
        else:
            may.add(("value",))
            out["some"] = ("value",)
        return out
    if faults and draw(st.integers(0, 4)) == 0 and not read_only(a, s) and a["n"] != "schemas":
        f = faulty(draw, target, value)
        if f is not None:
            wire["value"], path, code = f
            loc = ("value",) + R.loc(path)
            must[loc] = [code]
            may.add(("value",))
            return out
    return finish_path(out, a, s, target, value)


def finish_path(out, a, s, target, value):
    must, may = out["must"], out["may"]
    if read_only(a, s):
        must[("value",)] = [304]
        return out
    judge_value(target, value, must, may, ("value",), True)
    out["value"] = R.expected_value(target, value, "parse")
    return out


@st.composite
def without_path(draw, spec, out, faults):
    wire, must, may = out["wire"], out["must"], out["may"]
    out["nopath"] = True
    if draw(st.integers(0, 3)) == 0:
        wire["path"] = None
    if faults and draw(st.integers(0, 9)) == 0:
        wire["value"] = draw(st.sampled_from([5, "x", True, [], ["a"], 1.5]))
        must[("value",)] = [2]
        return out
    if faults and draw(st.integers(0, 14)) == 0:
        if draw(st.booleans()):
            wire["value"] = None
        out["some"] = ("value",)
        may.add(("value",))
        return out
    data = draw(specs.resource_data(spec, "parse", presence=draw(st.sampled_from([0.15, 0.3, 0.6])), nulls=False))
    if draw(st.integers(0, 9)):
        data.pop("schemas")
    if draw(st.integers(0, 3)):  # mostly without read-only attributes
        for a in spec["attrs"]:
            if a["mut"] == "readOnly":
                data.pop(a["n"], None)
    for a in spec["attrs"]:
        if a["n"] in data:
            data[a["n"]] = nullified(draw, a, data[a["n"]])
    fault_list = []
    if faults and draw(st.integers(0, 4)) == 0:
        fault_list = draw(R.faults(spec, data, "parse", max_faults=2))
    wire["value"] = data
    blocked = []
    for path, _, code in fault_list:
        must[("value",) + R.loc(path)] = [code]
        blocked.append(path)
    for schema, attrs, prefix in [(None, spec["attrs"], ())] + [(e["schema"], e["attrs"], (e["schema"],)) for e in spec["ext"]]:
        obj = data if schema is None else P.lookup(data, schema)[0]
        if not isinstance(obj, dict):
            continue
        for a in attrs:
            v, hit = P.lookup(obj, a["n"])
            if not hit:
                continue
            at = ("value",) + prefix + (a["n"],)
            touched = any(p[: len(prefix) + 1] == prefix + (a["n"],) for p in blocked)
            if a["mut"] == "readOnly":
                if touched:
                    may.add(at)
                else:
                    must[at] = [304]
                    may.add(at)
                continue
            if touched:
                may.add(at)
                continue
            judge_value(a, v, must, may, at, False)
    if not fault_list:
        out["value"] = R.expected_resource(spec, data, "parse")
    if draw(st.integers(0, 3)) == 0:
        wire["value"] = draw(R.disguised(spec, data))
    return out


def compare(found, judged):
    """None or what is wrong; found {location: codes} of one operation."""
    for loc, codes in judged["must"].items():
        got = found.get(loc, [])
        if any(loc[: len(m)] == m for m in judged["may"]):
            if any(c not in got for c in codes):
                return f"{codes} expected at {loc}, got {got}"
        elif sorted(got) != sorted(codes):
            return f"{sorted(codes)} expected at {loc}, got {got}"
    for loc in found:
        if loc in judged["must"]:
            continue
        if any(loc[: len(m)] == m for m in judged["may"]):
            continue
        return f"unexpected {found[loc]} at {loc}"
    if "some" in judged and not any(loc[: len(judged["some"])] == judged["some"] for loc in found):
        return f"nothing reported at {judged['some']}"
    return None
