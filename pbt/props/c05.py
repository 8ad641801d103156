import copy

from hypothesis import strategies as st

from src.data.container import AttrRep, Missing, SCIMDataContainer

from .. import attrs
from .. import gen
from ..harness import Violation, call, expect, prop

CORE = "urn:example:core:2.0:User"
EXTS = ["urn:example:ext:1.0:One", "urn:other-ext:2.0:Two"]
NAMES = ["a", "userName", "Key", "x_1"]
SUBS = ["x", "value", "subKey", "$ref"]
MISSING = "<missing>"

scalars = st.one_of(st.integers(-2, 3), st.sampled_from(["v", "w", "V", "", "é"]), st.booleans(), st.none(), st.just(0.5))


@st.composite
def objects(draw, names=SUBS, values=scalars):
    out = {}
    for _ in range(draw(st.integers(0, 3))):
        out[draw(gen.recased(draw(st.sampled_from(names))))] = draw(values)
    return out


any_value = gen.pick(
    scalars, scalars, objects(), st.lists(objects(), max_size=3), st.lists(scalars, max_size=3),
    st.lists(st.one_of(scalars, objects()), max_size=3),
    objects(values=st.one_of(scalars, objects(), st.lists(st.one_of(scalars, objects()), max_size=2))),
)


@st.composite
def sources(draw):
    out = {}
    for _ in range(draw(st.integers(0, 5))):
        kind = draw(st.integers(0, 9))
        if kind < 6:
            out[draw(gen.recased(draw(st.sampled_from(NAMES))))] = draw(any_value)
        elif kind < 9:
            ext = draw(gen.recased(draw(st.sampled_from(EXTS))))
            out[ext] = draw(objects(names=NAMES, values=any_value)) if draw(st.integers(0, 4)) else draw(scalars)
        else:
            out[draw(st.sampled_from(["", "a b", "a.x", CORE + ":a", "$", "é"]))] = draw(any_value)
    return out


@st.composite
def reps(draw):
    schema = draw(st.sampled_from(["", "", "", CORE, EXTS[0], EXTS[0], EXTS[1]]))
    rep = {
        "schema": schema, "attr": draw(st.sampled_from(NAMES)),
        "sub": draw(st.sampled_from(["", "", "x", "value", "subKey", "$ref"])),
        "ext": schema in EXTS and draw(st.booleans()),
        "text": draw(st.booleans()),
        "mask": draw(st.one_of(st.just(0), st.integers(0, 2**24 - 1))),
    }
    if rep["ext"]:
        rep["text"] = False
    return rep


# objects stand for containers
set_values = gen.pick(scalars, scalars, st.lists(st.one_of(scalars, st.just(MISSING)), max_size=3), objects(), st.lists(objects(), max_size=3))
ops = st.one_of(
    st.tuples(st.just("set"), reps(), set_values),
    st.tuples(st.just("set"), reps(), set_values),
    st.tuples(st.just("del"), reps(), st.none()),
    st.tuples(st.just("get"), reps(), st.none()),
)


class Node:
    def __init__(self, source=None):
        self.d = {}
        for k, v in (source or {}).items():
            self.d.pop(k.lower(), None)
            self.d[k.lower()] = lift(v)


def lift(v):
    if isinstance(v, dict):
        return Node(v)
    if isinstance(v, list):
        return [Node(i) if isinstance(i, dict) else i for i in v]
    return v


def plain(v):
    """Comparable form: lower-cased keys."""
    if isinstance(v, Node):
        return {k: plain(x) for k, x in v.d.items()}
    if isinstance(v, SCIMDataContainer):
        return plain(v.to_dict())
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            if k.lower() in out:
                raise Violation(f"two entries for {k!r}: {v!r}")
            out[k.lower()] = plain(x)
        return out
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if v is Missing:
        return MISSING
    return (type(v).__name__, v) if not isinstance(v, str) else v


def model_ext(node, rep):
    if not rep["schema"]:
        return None
    s = rep["schema"].lower()
    if s in node.d or rep["ext"]:
        return s
    return None


def model_get(node, rep):
    ext = model_ext(node, rep)
    if ext is not None:
        inner = node.d.get(ext)
        if not isinstance(inner, Node):
            return MISSING
        return model_get(inner, {**rep, "schema": "", "ext": False})
    a = rep["attr"].lower()
    if a not in node.d:
        return MISSING
    v = node.d[a]
    if not rep["sub"]:
        return v
    s = rep["sub"].lower()
    if isinstance(v, Node):
        return v.d.get(s, MISSING)
    if isinstance(v, list):
        return [i.d.get(s, MISSING) if isinstance(i, Node) else MISSING for i in v]
    return MISSING


class Skip(Exception):
    pass


class Refused(Exception):
    pass


def model_set(node, rep, value):
    ext = model_ext(node, rep)
    if ext is not None:
        if ext in node.d and not isinstance(node.d[ext], Node):
            raise Skip()  # the extension's data is not an object
        inner = node.d.setdefault(ext, Node())
        return model_set(inner, {**rep, "schema": "", "ext": False}, value)
    a, s = rep["attr"].lower(), rep["sub"].lower()
    if not s:
        if isinstance(value, list) and MISSING in value:
            raise Skip()
        node.d[a] = lift(copy.deepcopy(value))
        return
    if a not in node.d:
        node.d[a] = [] if isinstance(value, list) else Node()
    current = node.d[a]
    if isinstance(current, Node):
        if isinstance(value, list) and MISSING in value:
            raise Skip()
        current.d[s] = lift(copy.deepcopy(value))
    elif isinstance(current, list) and isinstance(value, list) and all(isinstance(i, Node) for i in current):
        while len(current) < len(value):
            current.append(Node())
        for item, v in zip(current, value):
            if v != MISSING:
                item.d[s] = lift(v)
    else:
        raise Refused()


def model_del(node, rep):
    ext = model_ext(node, rep)
    if ext is not None:
        inner = node.d.get(ext)
        if isinstance(inner, Node):
            model_del(inner, {**rep, "schema": "", "ext": False})
        return
    a, s = rep["attr"].lower(), rep["sub"].lower()
    if a not in node.d:
        return
    if not s:
        node.d.pop(a)
        return
    v = node.d[a]
    for target in v if isinstance(v, list) else [v]:
        if isinstance(target, Node):
            target.d.pop(s, None)


def real_rep(rep):
    m = rep["mask"]
    schema, attr = gen.recase_by_mask(rep["schema"], m), gen.recase_by_mask(rep["attr"], m >> 3)
    sub = rep["sub"] if rep["sub"] == "$ref" else gen.recase_by_mask(rep["sub"], m >> 5)
    if rep["text"]:
        return (schema + ":" if schema else "") + attr + ("." + sub if sub else "")
    return AttrRep(schema=schema, attr=attr, sub_attr=sub, extension=rep["ext"])


def real_value(value):
    if isinstance(value, list):
        return [real_value(v) for v in value]
    if isinstance(value, dict):
        return SCIMDataContainer(value)
    return Missing if value == MISSING else value


def only_plain(v, what="to_dict"):
    """Nothing but JSON-like data."""
    if isinstance(v, dict):
        for x in v.values():
            only_plain(x, what)
    elif isinstance(v, list):
        for x in v:
            only_plain(x, what)
    else:
        expect(v is None or isinstance(v, (str, int, float)) or v is Missing, "{} contains a {}: {!r}", what, type(v).__name__, v)


@prop(
    "C05", st.tuples(sources(), st.lists(ops, max_size=12)), quick=9000,
    rule="a container built from random data (mixed-case and duplicate keys, extensions, odd keys) driven by up to 12 "
         "get/set/delete operations through names, references and extension references in random case, compared with a "
         "model map after every step; non-trivial = at least one effective write and 3 operations",
    examples=[
        ({}, [("set", {"schema": "", "attr": "Key", "sub": "", "ext": False, "text": True, "mask": 0}, 1),
              ("set", {"schema": "", "attr": "Key", "sub": "", "ext": False, "text": True, "mask": 255}, 2)]),
        ({"a": 5}, [("get", {"schema": EXTS[0], "attr": "a", "sub": "", "ext": True, "text": False, "mask": 0}, None)]),
        ({EXTS[0]: None}, [("get", {"schema": EXTS[0], "attr": "a", "sub": "", "ext": False, "text": False, "mask": 0}, None)]),
        ({"": 1}, [("get", {"schema": "", "attr": "a", "sub": "", "ext": False, "text": False, "mask": 0}, None)]),
    ],
)
def behaves_like_a_map(case, rec):
    source, steps = case
    original = copy.deepcopy(source)
    container = call(SCIMDataContainer, source)
    model = Node(source)
    writes = 0
    for n, (kind, rep, value) in enumerate(steps):
        key = real_rep(rep)
        if kind == "get":
            got, want = call(container.__getitem__, key), model_get(model, rep)
            if plain(got) != plain(want):
                raise Violation(f"step {n}: reading {key!r} from {container.to_dict()!r} gave {got!r}, expected {plain(want)!r}")
        elif kind == "del":
            call(container.__delitem__, key)
            model_del(model, rep)
            writes += 1
        else:
            trial = copy.deepcopy(model)
            try:
                model_set(trial, rep, value)
            except Skip:
                continue
            except Refused:
                try:
                    container[key] = real_value(value)
                except KeyError:
                    pass
                else:
                    raise Violation(f"step {n}: assigning {value!r} to {key!r} was not refused")
            else:
                call(container.__setitem__, key, real_value(copy.deepcopy(value)))
                model = trial
                writes += 1
                got, want = call(container.__getitem__, key), model_get(model, rep)
                expect(plain(got) == plain(want), "step {}: after writing {!r} to {!r} reading gives {!r}", n, value, key, got)
        state = call(container.to_dict)
        only_plain(state)
        if plain(state) != plain(model):
            raise Violation(f"step {n} ({kind} {key!r} {value!r}): state {state!r}, expected {plain(model)!r}")
    expect(plain(call(container.to_dict)) == plain(model), "state {!r}, expected {!r}", container.to_dict(), plain(model))
    expect(source == original, "the source data was changed to {!r}", source)
    if writes and len(steps) >= 3:
        rec.hit()


@st.composite
def crowded(draw):
    """Few names, so that operations meet on the same multi-valued or complex attribute."""
    subs = ["x", "value"]
    complex_value = gen.pick(
        st.lists(objects(names=subs), max_size=4), st.lists(objects(names=subs), max_size=4), objects(names=subs), any_value,
    )
    source = {}
    if draw(st.integers(0, 3)):
        source[draw(gen.recased("attr"))] = draw(complex_value)
    if draw(st.booleans()):
        source[draw(gen.recased(EXTS[0]))] = {draw(gen.recased("attr")): draw(complex_value)}
    values = gen.pick(
        st.lists(st.one_of(scalars, st.none(), st.just(MISSING)), max_size=6), scalars, st.lists(scalars, max_size=2),
        st.lists(objects(names=subs), max_size=3),
    )
    steps = []
    for _ in range(draw(st.integers(1, 8))):
        schema = draw(st.sampled_from(["", "", EXTS[0]]))
        rep = {"schema": schema, "attr": "attr", "sub": draw(st.sampled_from(["", "x", "x", "value", "value"])),
               "ext": bool(schema) and draw(st.booleans()), "text": draw(st.booleans()),
               "mask": draw(st.one_of(st.just(0), st.integers(0, 2**24 - 1)))}
        if rep["ext"]:
            rep["text"] = False
        kind = draw(st.sampled_from(["set", "set", "set", "del", "get"]))
        value = None
        if kind == "set":
            value = draw(values)
            if rep["sub"] == "" and isinstance(value, list) and any(isinstance(v, dict) for v in value):
                value = draw(scalars)
            if isinstance(value, list) and any(isinstance(v, dict) for v in value):
                value = []
        steps.append((kind, rep, value))
    return source, steps


@prop(
    "C05", crowded(), quick=4000,
    rule="the same comparison where all operations meet on one attribute (lists of complex values grown, overwritten and thinned "
         "out through their sub-attributes); non-trivial = at least one effective write and 3 operations",
)
def behaves_like_a_map_under_contention(case, rec):
    behaves_like_a_map(case, rec)


@st.composite
def pairs(draw):
    a = draw(sources())
    mode = draw(st.sampled_from(["same", "drop", "add", "change", "other", "near", "near"]))
    mask = draw(st.integers(0, 2**24 - 1))
    return a, mode, mask, draw(sources()), draw(any_value), draw(st.integers(0, 23))


def recase_keys(v, mask):
    if isinstance(v, dict):
        return {gen.recase_by_mask(k, mask): recase_keys(x, mask >> 2) for k, x in v.items()}
    if isinstance(v, list):
        return [recase_keys(x, mask) for x in v]
    return v


def places(v):
    """(container, key) of everything below v."""
    for k in (sorted(v) if isinstance(v, dict) else range(len(v)) if isinstance(v, list) else ()):
        yield v, k
        yield from places(v[k])


def nearby(v, idx):
    """A value much like v, but not equal to it."""
    if isinstance(v, str):
        return [v.swapcase(), v + " ", [v], None if not v else v[:-1]][idx % 4]
    if isinstance(v, list):
        return [v[::-1], v[:-1], v + [None], v[0] if v else None][idx % 4]
    if isinstance(v, dict):
        return [[v], {**v, "zz": None}, {k: x for k, x in v.items() if x is not None}, {}][idx % 4]
    return {None: "", True: "true", False: None, 0: None}.get(v, str(v)) if idx % 2 else str(v)


def loose(v):
    if isinstance(v, dict):
        return {k.lower(): loose(x) for k, x in v.items()}
    if isinstance(v, list):
        return [loose(x) for x in v]
    return v


def lookup_equal(a, b):
    return plain(Node(a)) == plain(Node(b)), loose(a) == loose(b)


@prop(
    "C05", pairs(), quick=4000,
    rule="equality of a container with a re-cased, reordered, shortened, extended, changed or unrelated twin (container or "
         "plain object, both operand orders) against case-insensitive deep equality; non-trivial = non-empty data",
)
def equality(case, rec):
    a, mode, mask, other, value, idx = case
    b = recase_keys(copy.deepcopy(a), mask)
    if mode == "drop" and b:
        b.pop(sorted(b)[idx % len(b)])
    elif mode == "add":
        b["added_key"] = value
    elif mode == "change" and b:
        b[sorted(b)[idx % len(b)]] = value
    elif mode == "other":
        b = other
    elif mode == "near" and b:
        spots = list(places(b))
        within, key = spots[idx % len(spots)]
        within[key] = nearby(within[key], mask)
    strict, weak = plain(Node(a)) == plain(Node(b)), loose_nodes(Node(a)) == loose_nodes(Node(b))
    if strict != weak:
        return  # 1 == True and the like
    x, y = SCIMDataContainer(a), SCIMDataContainer(b)
    rec.tag("equal" if strict else "different")
    if a and b:
        rec.hit(f"{a!r} vs {b!r}")
    for left, right, what in ((x, y, "containers"), (y, x, "containers swapped"), (x, b, "container and object"),
                              (y, a, "container and object swapped")):
        got = call(left.__eq__, right)
        expect(bool(got) == strict, "{}: {!r} == {!r} gave {}", what, a, b, got)
        expect((left != right) == (not strict), "{}: != disagrees with ==", what)
    expect(x == SCIMDataContainer(x), "a container differs from its own copy")
    expect(not (x == 5) and not (x == None) and not (x == [x]), "a container equals something that is no object")  # noqa


def loose_nodes(v):
    if isinstance(v, Node):
        return {k: loose_nodes(x) for k, x in v.d.items()}
    if isinstance(v, list):
        return [loose_nodes(x) for x in v]
    return v


@prop(
    "C05", sources(), quick=2000,
    rule="to_dict of a container of random data gives the data back (last of case-duplicates wins); non-trivial = non-empty",
)
def round_trip(case, rec):
    got = call(call(SCIMDataContainer, copy.deepcopy(case)).to_dict)
    only_plain(got)
    expect(plain(got) == plain(Node(case)), "{!r} came back as {!r}", case, got)
    if len({k.lower() for k in case}) == len(case):
        flat = all(not isinstance(v, (dict, list)) for v in case.values())
        if flat:
            expect(got == case and list(got) == list(case), "{!r} came back as {!r}", case, got)
    if case:
        rec.hit()


@prop(
    "C05", st.tuples(sources(), gen.any_text(8), scalars), quick=1000,
    rule="reading, writing and deleting under arbitrary text: a name or reference is accepted, everything else refused with a "
         "ValueError and without effect; non-trivial = refused",
)
def only_names_are_keys(case, rec):
    source, text, value = case
    ok = attrs.parse_ref(text) is not None
    for act in ("get", "set", "del"):
        container = SCIMDataContainer(copy.deepcopy(source))
        before = container.to_dict()
        try:
            if act == "get":
                container[text]
            elif act == "set":
                container[text] = value
            else:
                del container[text]
            refused = False
        except ValueError:
            refused = True
        except KeyError:
            refused = False  # a sub-attribute of something which has none
        except TypeError:
            if act != "set":
                raise
            refused = False  # an extension whose data is no object
        if not ok:
            rec.hit(repr(text))
            expect(container.to_dict() == before, "{} under {!r} changed the data", act, text)
        expect(refused == (not ok), "{} under {!r} was {}", act, text, "refused" if refused else "accepted")


@prop(
    "C05", st.tuples(sources(), st.lists(st.tuples(st.sampled_from(NAMES), st.one_of(objects(), st.lists(st.one_of(objects(), scalars), max_size=4)),
                                                   st.integers(0, 2**20)), min_size=1, max_size=3)), quick=1500,
    rule="plain objects and lists of them assigned to attributes: reading and to_dict give all of their members back, null ones "
         "included; non-trivial = a member is null",
)
def assigned_objects_are_kept_whole(case, rec):
    source, writes = case
    container, want = SCIMDataContainer(copy.deepcopy(source)), {}

    def plain(v):  # as it is, with the case of its names
        v = v.to_dict() if isinstance(v, SCIMDataContainer) else v
        if isinstance(v, (dict, list)):
            return {k: plain(x) for k, x in v.items()} if isinstance(v, dict) else [plain(x) for x in v]
        return type(v).__name__, v

    for name, value, mask in writes:
        call(container.__setitem__, gen.recase_by_mask(name, mask), copy.deepcopy(value))
        want[name.lower()] = value
    if any(None in (v.values() if isinstance(v, dict) else ()) for w in want.values() for v in (w if isinstance(w, list) else [w])):
        rec.hit(repr(case))
    whole = {k.lower(): v for k, v in call(container.to_dict).items()}
    for name, value in want.items():
        expect(plain(whole[name]) == plain(value), "{!r} written as {!r} is {!r} in to_dict", name, value, whole[name])
        got = call(container.__getitem__, name)
        expect(plain(got) == plain(value), "{!r} written as {!r} reads {!r}", name, value, got)


@prop(
    "C05", st.tuples(sources(), st.lists(st.tuples(st.booleans(), st.sampled_from(["set", "set", "del"]), st.sampled_from(NAMES + ["new", "Other"]), scalars), min_size=1, max_size=5)),
    quick=1500,
    rule="a container made of another container: what is written to or deleted from either is seen there, both stay usable, and each "
         "attribute of the other one is as before or as after; non-trivial = data on both sides",
)
def a_container_of_a_container(case, rec):
    source, steps = case
    first = SCIMDataContainer(copy.deepcopy(source))
    second = call(SCIMDataContainer, first)
    expect(plain(call(second.to_dict)) == plain(Node(source)), "a container of {!r} holds {!r}", source, second.to_dict())
    if source:
        rec.hit(repr(case))
    for which, kind, name, value in steps:
        target, other = (second, first) if which else (first, second)
        before = plain(call(other.to_dict))
        if kind == "set":
            call(target.__setitem__, name, value)
        else:
            call(target.__delitem__, name)
        got = call(target.__getitem__, name)
        expect(plain(got) == (plain(value) if kind == "set" else MISSING), "after {} of {!r}: {!r}", kind, name, got)
        after, mine = plain(call(other.to_dict)), plain(call(target.to_dict))
        expect(after in (before, mine), "after {} of {!r} {!r} the other container holds {!r}", kind, name, value, other.to_dict())
        for n in set(before) | set(after):
            if attrs.parse_ref(n) is not None and ":" not in n and "." not in n:
                expect(plain(call(other.__getitem__, n)) == after.get(n, MISSING), "after {} of {!r}: the other container reads {!r} as {!r}",
                       kind, name, n, other[n])
