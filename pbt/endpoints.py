"""Endpoint validators under test, and generators of what they are given."""
import functools

from hypothesis import strategies as st

from src import request_validators as rv
from src.assets.config import create_service_provider_config

from . import gen
from . import messages as M
from . import specs

SINGLE = {"GET": rv.ResourceObjectGET, "PUT": rv.ResourceObjectPUT, "POST": rv.ResourcesPOST, "PATCH": rv.ResourceObjectPATCH}
LISTS = {"list": rv.ResourcesGET, "root": rv.ServerRootResourceGET, "search": rv.SearchRequestPOST}


@functools.lru_cache(maxsize=64)
def config(max_operations=10):
    if max_operations is None:
        return create_service_provider_config()
    return create_service_provider_config(bulk={"supported": True, "max_operations": max_operations, "max_payload_size": 10**6})


def single(kind, spec):
    return SINGLE[kind](config(), resource_schema=specs.build(spec))


def listing(kind, spec_list):
    schemas = [specs.build(s) for s in spec_list]
    if kind == "list":
        return rv.ResourcesGET(config(), resource_schema=schemas[0])
    return LISTS[kind](config(), resource_schemas=schemas)


def bulk(spec_list, max_operations=10):
    return rv.BulkOperations(config(max_operations), resource_schemas=[specs.build(s) for s in spec_list])


@st.composite
def query_strings(draw):
    """Query options, well-formed or not."""
    out = {}
    for key, values in {
        "attributes": st.one_of(st.lists(st.sampled_from(M.REFS), max_size=3).map(",".join), st.lists(st.sampled_from(M.REFS), max_size=3)),
        "excludeAttributes": st.lists(st.sampled_from(M.REFS), max_size=2).map(",".join),
        "filter": st.sampled_from(M.FILTERS),
        "sortBy": st.sampled_from(M.REFS),
        "sortOrder": st.sampled_from(["ascending", "descending", "DESCENDING", "x"]),
        "count": st.sampled_from([0, 1, "5", "x", -1, "", 2.5, "1e3", "٣"]),
        "startIndex": st.sampled_from([1, "2", "x", 0, "-3"]),
    }.items():
        if draw(st.integers(0, 3)) == 0:
            out[key] = draw(values)
        elif draw(st.integers(0, 19)) == 0:
            out[key] = draw(M.odd)
    if draw(st.integers(0, 5)) == 0:
        out[draw(gen.words)] = draw(gen.json_scalars)
    return out


headers = st.one_of(
    st.none(), st.just({}), st.builds(lambda v: {"Location": v}, st.one_of(st.sampled_from(["https://x/v2/Users/1", "/Users/1", ""]), M.odd)),
    M.odd,
)
statuses = st.one_of(st.sampled_from([200, 201, 204, 300, 400, 404, 500, 599, 600, 299, 0, -1, 100]), st.integers(-10**6, 10**6))
