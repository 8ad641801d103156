"""Plausible protocol messages as plain data, and mangling of them."""
import copy

from hypothesis import strategies as st

from . import gen
from . import specs

API = "urn:ietf:params:scim:api:messages:2.0:"
CORE = "urn:ietf:params:scim:schemas:core:2.0:"
SCIM_TYPES = ["invalidFilter", "tooMany", "uniqueness", "mutability", "invalidSyntax", "invalidPath", "noTarget",
              "invalidValue", "invalidVers", "sensitive"]

FILTERS = ['userName eq "x"', "title pr", 'emails[type eq "work" and primary eq true]', 'meta.created gt "2020-01-01T00:00:00Z"',
           "not (active eq true)", 'userName eq "x" or', "((", ""]
REFS = ["userName", "name.familyName", "emails", "emails.value", "urn:ietf:params:scim:schemas:core:2.0:User:title", "id", "nosuch",
        "bad^name", "a.b.c", ""]
PATHS = ["userName", "name.familyName", "emails", "emails.value", 'emails[type eq "work"]', 'emails[type eq "work"].value', "members",
         'members[value eq "1"]', "nosuch", "name.nosuch", "id", "meta.location", "groups", 'groups[value eq "1"].display',
         "urn:ietf:params:scim:schemas:extension:enterprise:2.0:User:manager.displayName", "bad^", "a[b", "", "displayName", "schemas"]


def maybe(draw, p=0.7):
    return draw(st.floats(0, 1)) < p


@st.composite
def error(draw):
    out = {"schemas": [API + "Error"], "status": draw(st.sampled_from(["400", "404", "500", "409"]))}
    if maybe(draw):
        out["scimType"] = draw(st.sampled_from(SCIM_TYPES))
    if maybe(draw):
        out["detail"] = draw(gen.words)
    return out


@st.composite
def search(draw):
    out = {"schemas": [API + "SearchRequest"]}
    if maybe(draw, 0.4):
        out[draw(st.sampled_from(["attributes", "excludeAttributes"]))] = draw(st.lists(st.sampled_from(REFS), max_size=3))
    if maybe(draw, 0.5):
        out["filter"] = draw(st.sampled_from(FILTERS))
    if maybe(draw, 0.5):
        out["sortBy"] = draw(st.sampled_from(REFS))
    if maybe(draw, 0.5):
        out["sortOrder"] = draw(st.sampled_from(["ascending", "descending", "Descending", "up"]))
    if maybe(draw, 0.4):
        out["startIndex"] = draw(st.integers(-2, 5))
    if maybe(draw, 0.4):
        out["count"] = draw(st.integers(-2, 5))
    return out


small_user = st.sampled_from([
    {"schemas": [CORE + "User"], "userName": "bjensen"},
    {"schemas": [CORE + "User"], "id": "1", "userName": "bjensen", "name": {"familyName": "J"}, "emails": [{"value": "a", "primary": True}]},
    {"schemas": [CORE + "User"], "id": "1", "userName": "b", "meta": {"resourceType": "User", "location": "https://x/v2/Users/1", "version": "v1"}},
    {"schemas": [CORE + "Group"], "id": "g", "displayName": "G", "members": [{"value": "1"}]},
    {"schemas": [CORE + "User", CORE + "Group"], "userName": "z"},
])


@st.composite
def patch(draw):
    ops = []
    for _ in range(draw(st.integers(0, 3))):
        op = {"op": draw(st.sampled_from(["add", "replace", "remove", "Add", "REMOVE", "rePlace", "move"]))}
        if maybe(draw):
            op["path"] = draw(st.sampled_from(PATHS))
        if maybe(draw):
            op["value"] = draw(st.one_of(
                small_user, st.sampled_from(["x", 5, True, None, [], ["a"], [{"value": "a", "type": "work"}], {"value": "x"}, [None], [5]])))
        ops.append(op)
    return {"schemas": [API + "PatchOp"], "Operations": ops}


@st.composite
def bulk_request(draw):
    ops = []
    for _ in range(draw(st.integers(0, 3))):
        method = draw(st.sampled_from(["GET", "POST", "PUT", "PATCH", "DELETE", "post", "Delete", "HEAD"]))
        op = {"method": method}
        if maybe(draw, 0.9):
            op["path"] = draw(st.sampled_from(["/Users", "/Groups", "/Users/1", "/Groups/1", "/Nope", "/Nope/1", "Users", "", "/", "//", "/Users/"]))
        if maybe(draw):
            op["bulkId"] = draw(st.sampled_from(["q", "w"]))
        if maybe(draw):
            op["data"] = draw(st.one_of(small_user, patch(), st.sampled_from([None, 5, "x", []])))
        if maybe(draw, 0.3):
            op["version"] = "v1"
        ops.append(op)
    out = {"schemas": [API + "BulkRequest"], "Operations": ops}
    if maybe(draw, 0.4):
        out["failOnErrors"] = draw(st.integers(0, 4))
    return out


@st.composite
def bulk_response(draw):
    ops = []
    for _ in range(draw(st.integers(0, 3))):
        op = {"method": draw(st.sampled_from(["GET", "POST", "PUT", "PATCH", "DELETE", "post", "HEAD"]))}
        if maybe(draw):
            op["bulkId"] = "q"
        if maybe(draw, 0.9):
            op["status"] = draw(st.sampled_from(["200", "201", "204", "400", "404", "x", "", "-1", "1e3", "²"]))
        if maybe(draw):
            op["location"] = draw(st.sampled_from(["https://x/v2/Users/1", "https://x/v2/Groups/1", "https://x/v2/Nope/1", "/Users/1"]))
        if maybe(draw):
            op["response"] = draw(st.one_of(small_user, error(), st.sampled_from([None, 5, "x", [], {}])))
        if maybe(draw, 0.4):
            op["version"] = draw(st.sampled_from(["v1", "v2"]))
        ops.append(op)
    return {"schemas": [API + "BulkResponse"], "Operations": ops}


@st.composite
def list_response(draw):
    items = draw(st.lists(small_user, max_size=4))
    out = {"schemas": [API + "ListResponse"], "totalResults": draw(st.one_of(st.just(len(items)), st.integers(-1, 6)))}
    if maybe(draw, 0.8):
        out["Resources"] = copy.deepcopy(items)
    if maybe(draw, 0.4):
        out["startIndex"] = draw(st.integers(-1, 3))
    if maybe(draw, 0.4):
        out["itemsPerPage"] = draw(st.one_of(st.just(len(items)), st.integers(-1, 6)))
    return out


@st.composite
def schema_attribute(draw, depth=1):
    t = draw(st.sampled_from(["string", "integer", "boolean", "reference", "dateTime", "binary", "decimal"] + (["complex"] * 2 if depth else [])))
    out = {"name": draw(st.sampled_from(["a", "b", "value"])), "type": t, "multiValued": draw(st.booleans()), "required": draw(st.booleans()),
           "mutability": draw(st.sampled_from(["readOnly", "readWrite", "immutable", "writeOnly"])),
           "returned": draw(st.sampled_from(["always", "never", "default", "request"])),
           "uniqueness": draw(st.sampled_from(["none", "server", "global"]))}
    if maybe(draw):
        out["caseExact"] = draw(st.booleans())
    if maybe(draw, 0.3):
        out["description"] = "d"
    if maybe(draw, 0.3):
        out["canonicalValues"] = draw(st.lists(st.sampled_from(["x", "y", 1]), max_size=2))
    if maybe(draw, 0.3):
        out["referenceTypes"] = ["User"]
    if t == "complex" or maybe(draw, 0.1):
        out["subAttributes"] = draw(st.lists(schema_attribute(depth=depth - 1) if depth else st.just({}), max_size=3))
    return out


@st.composite
def schema(draw):
    return {"schemas": [CORE + "Schema"], "id": "urn:x:y", "name": "N", "description": "d",
            "attributes": draw(st.lists(schema_attribute(), max_size=3)), "meta": {"resourceType": "Schema"}}


@st.composite
def resource_type(draw):
    out = {"schemas": [CORE + "ResourceType"], "id": "User", "name": "User", "endpoint": "/Users", "schema": CORE + "User"}
    if maybe(draw):
        out["schemaExtensions"] = [{"schema": "urn:x:y", "required": draw(st.booleans())} for _ in range(draw(st.integers(0, 2)))]
    return out


@st.composite
def service_config(draw):
    sup = st.fixed_dictionaries({"supported": st.booleans()})
    out = {"schemas": [CORE + "ServiceProviderConfig"], "patch": draw(sup), "changePassword": draw(sup), "sort": draw(sup), "etag": draw(sup),
           "bulk": {"supported": True, "maxOperations": 10, "maxPayloadSize": 100}, "filter": {"supported": True, "maxResults": 5},
           "authenticationSchemes": [{"type": "oauth", "name": "n", "description": "d", "specUri": "https://x/y",
                                      "documentationUri": "https://x/z"} for _ in range(draw(st.integers(0, 2)))]}
    if maybe(draw):
        out["documentationUri"] = "https://x/doc"
    return out


MESSAGES = {
    "Error": error, "SearchRequest": search, "PatchOp": patch, "BulkRequest": bulk_request, "BulkResponse": bulk_response,
    "ListResponse": list_response, "ListResponse2": list_response, "Schema": schema, "ResourceType": resource_type,
    "ServiceProviderConfig": service_config,
}
# a second reading with one and with two resource schemas


def build(kind):
    return _BUILT.get(kind) or _BUILT.setdefault(kind, _make(kind))


_BUILT = {}


def _make(kind):
    from src.assets.schemas import bulk_ops, error as error_, list_response as lr, patch_op, resource_type as rt
    from src.assets.schemas import schema as schema_, search_request, service_provider_config as spc

    user, group = specs.build(specs.USER), specs.build(specs.GROUP)
    return {
        "Error": lambda: error_.Error(),
        "SearchRequest": lambda: search_request.SearchRequest(),
        "PatchOp": lambda: patch_op.PatchOp(user),
        "BulkRequest": lambda: bulk_ops.BulkRequest(),
        "BulkResponse": lambda: bulk_ops.BulkResponse(),
        "ListResponse": lambda: lr.ListResponse([user]),
        "ListResponse2": lambda: lr.ListResponse([user, group]),
        "Schema": lambda: schema_.Schema(),
        "ResourceType": lambda: rt.ResourceType(),
        "ServiceProviderConfig": lambda: spc.ServiceProviderConfig(),
    }[kind]()


# --- mangling ------------------------------------------------------------------------------------


def places(value, at=()):
    out = [at]
    if isinstance(value, dict):
        for k, v in value.items():
            out += places(v, at + (k,))
    elif isinstance(value, list):
        for i, v in enumerate(value):
            out += places(v, at + (i,))
    return out


odd = st.one_of(
    st.sampled_from([None, True, 0, -1, 1.5, "", "x", [], {}, [None], [[]], [{}], {"a": None}, [5], ["x"], "1", {"value": []}, [{"value": 5}],
                     10**400, float("inf"), float("nan"), "\u0000", "٤٠٠", "²", "4٠0", [True], {"": 1}, {"schemas": 5}, {"schemas": [[]]}, {"schemas": [{}]}]),
    gen.json_values(max_leaves=6),
)


@st.composite
def mangled(draw, base, max_edits=3):
    value = copy.deepcopy(draw(base))
    for _ in range(draw(st.integers(0, max_edits))):
        where = draw(st.sampled_from(places(value)))
        if not where:
            if draw(st.integers(0, 4)) == 0:
                value = copy.deepcopy(draw(odd))
            continue
        parent = value
        for p in where[:-1]:
            parent = parent[p]
        kind = draw(st.integers(0, 5))
        last = where[-1]
        if kind == 0:
            if isinstance(parent, dict):
                del parent[last]
            else:
                parent.pop(last)
        elif kind == 1 and isinstance(parent, dict):
            parent[draw(gen.recased(last))] = parent.pop(last)
        elif kind == 2 and isinstance(parent, list):
            parent.insert(last, copy.deepcopy(draw(odd)))
        else:
            parent[last] = copy.deepcopy(draw(odd))
    return value
