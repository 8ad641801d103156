"""Names, schema URIs, operators and operations are case-insensitive wherever they are written."""
import copy
import re

from hypothesis import strategies as st

from .. import messages as M
from .. import resmodel as R
from .. import traffic as T
from ..harness import Violation, prop
from ..issues import flat
from .c09 import has_duplicates
from .c13 import spoiled

TOKEN = re.compile(r'"[^"]*"|\'[^\']*\'|-?\d[\w.+-]*|[A-Za-z$][\w$:.\-]*')


class Caser:
    """Swaps the case of ASCII letters by the bits of a seed."""

    def __init__(self, seed):
        self.state = seed

    def bit(self):
        self.state = (self.state * 6364136223846793005 + 1442695040888963407) % 2**64
        return self.state >> 60 & 1

    def text(self, s):
        return "".join(c.swapcase() if c.isascii() and self.bit() else c for c in s)

    def expression(self, s):
        """Names and operators, but neither literals nor true, false and null."""
        if "\\" in s:
            return s
        return TOKEN.sub(lambda m: m.group() if m.group()[0] in "\"'-0123456789" or m.group().lower() in ("true", "false", "null")
                         else self.text(m.group()), s)

    def refs(self, v):
        if isinstance(v, str):
            return self.text(v)
        if isinstance(v, list):
            return [self.refs(x) for x in v]
        return v

    def body(self, v, search=False):
        if isinstance(v, list):
            return [self.body(x) for x in v]
        if not isinstance(v, dict):
            return v
        names = {k.lower() for k in v}
        out = {}
        for k, x in v.items():
            name = k.lower()
            if name == "schemas" or (search and name in ("attributes", "excludeattributes", "sortby", "sortorder")):
                x = self.refs(x)
            elif isinstance(x, str) and ("op" in names and name in ("op", "path") or search and name == "filter"):
                x = self.expression(x) if name != "op" else self.text(x)
            else:
                x = self.body(x)
            out[self.text(k)] = x
        return out


@st.composite
def cases(draw):
    call = draw(st.one_of(spoiled(T.requests()), T.requests(), spoiled(T.responses()), T.responses()))
    return {"call": call, "seed": draw(st.integers(0, 2**32))}


def recased(call, caser):
    out = dict(call)
    out["body"] = caser.body(copy.deepcopy(call["body"]), search=call["kind"] == "search" and call["side"] == "request")
    if call["side"] == "request":
        query = call["query"]
        if isinstance(query, dict):
            query = copy.deepcopy(query)
            for key in ("attributes", "excludeAttributes", "sortBy", "sortOrder"):
                if key in query:
                    query[key] = caser.refs(query[key])
            if isinstance(query.get("filter"), str):
                query["filter"] = caser.expression(query["filter"])
            out["query"] = query
        return out
    kw = dict(call["kw"])
    if "presence_checker" in kw:
        kw["presence_checker"] = (caser.refs(list(kw["presence_checker"][0])), kw["presence_checker"][1])
    if "sorter" in kw:
        kw["sorter"] = (caser.text(kw["sorter"][0]), kw["sorter"][1])
    if "filter_" in kw:
        kw["filter_"] = caser.expression(kw["filter_"])
    out["kw"] = kw
    return out


def lowered(v):
    if isinstance(v, str):
        return v.lower()
    if isinstance(v, dict):
        return {k.lower(): lowered(x) for k, x in v.items()}
    if isinstance(v, list):
        return [lowered(x) for x in v]
    return v


def verdict(call):
    data, issues = T.run(call)
    return {(tuple(p.lower() for p in k), c) for k, v in flat(issues).items() for c in v}, lowered(R.shape(data.body)), lowered(R.shape(getattr(data, "query_string", None)))


@prop(
    "C25", cases(), quick=4500,
    rule="requests and responses of every endpoint, valid or not, with attribute names, extension and schema URIs, PATCH operations and paths, "
         "filters, sort keys and requested attributes written in another letter case: same issues at the same places, same data handed on; "
         "non-trivial = object body or query options which changed",
)
def letter_case_does_not_matter(case, rec):
    call = case["call"]
    if has_duplicates(call["body"]):
        return
    other = recased(call, Caser(case["seed"]))
    if has_duplicates(other["body"]):
        return
    before, after = verdict(call), verdict(other)
    rec.tag(f"{call['side']} {call['kind']} {'refused' if before[0] else 'accepted'}")
    if other["body"] != call["body"] or other.get("query") != call.get("query"):
        rec.hit(f"{call['kind']} {other['body']!r} {other.get('query')!r} {other.get('kw')!r}")
    if before != after:
        raise Violation(f"{call['side']} {call['kind']} body={call['body']!r} query={call.get('query')!r} {call.get('kw')!r}: {before!r}; "
                        f"as {other['body']!r} {other.get('query')!r} {other.get('kw')!r}: {after!r}")
