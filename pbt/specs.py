"""Attribute specifications as plain data: the characteristics RFC 7643 gives the built-in resources,
hand-written here (not read from the code under test), and generators of random schemas and of
valid data for a specification.

attr spec keys: n name, t type, mv, req, cs (case exact), mut, ret, iss, canon, vcanon, subs
resource spec keys: schema, name, plural, attrs, ext: [{schema, attrs}], builtin (optional)
"""
import copy
import functools
import pickle

from hypothesis import strategies as st

from src.data import type as at
from src.data.attributes import (
    Attribute,
    AttributeIssuer,
    AttributeMutability,
    AttributeReturn,
    AttributeUniqueness,
    ComplexAttribute,
)
from src.data.schemas import ResourceSchema, SchemaExtension

from . import gen


def A(n, t="string", **kw):
    spec = {
        "n": n, "t": t, "mv": False, "req": False, "cs": False, "mut": "readWrite",
        "ret": "default", "iss": "NOT_SPECIFIED", "canon": None, "vcanon": False, "subs": [],
    }
    spec.update(kw)
    return spec


RO = {"mut": "readOnly"}
SRV = {"mut": "readOnly", "iss": "SERVER"}

SCHEMAS_ATTR = A("schemas", "uri", mv=True, req=True, mut="readOnly", ret="always")
ID = A("id", "string", req=True, cs=True, mut="readOnly", ret="always", iss="SERVER")
EXTERNAL_ID = A("externalId", "string", cs=True, iss="CLIENT")
META = A(
    "meta", "complex", **SRV,
    subs=[
        A("resourceType", "string", cs=True, **SRV),
        A("created", "dateTime", **SRV),
        A("lastModified", "dateTime", **SRV),
        A("location", "uri", **SRV),
        A("version", "string", cs=True, **SRV),
    ],
)
BASE = [SCHEMAS_ATTR, ID, EXTERNAL_ID, META]


def _mv(n, value_type="string", canon=None, **kw):
    return A(
        n, "complex", mv=True, **kw,
        subs=[A("value", value_type), A("display"), A("type", canon=canon), A("primary", "boolean")],
    )


USER = {
    "builtin": "User",
    "schema": "urn:ietf:params:scim:schemas:core:2.0:User",
    "name": "User",
    "plural": "Users",
    "attrs": BASE + [
        A("userName", req=True),
        A("name", "complex", subs=[
            A("formatted"), A("familyName"), A("givenName"), A("middleName"),
            A("honorificPrefix"), A("honorificSuffix"),
        ]),
        A("displayName"), A("nickName"), A("profileUrl", "external"), A("title"), A("userType"),
        A("preferredLanguage"), A("locale"), A("timezone"), A("active", "boolean"),
        A("password", mut="writeOnly", ret="never"),
        _mv("emails", canon=["work", "home", "other"]),
        _mv("phoneNumbers", canon=["work", "home", "mobile", "fax", "pager", "other"]),
        _mv("ims"),
        _mv("photos", "external", canon=["photo", "thumbnail"]),
        A("addresses", "complex", mv=True, subs=[
            A("formatted"), A("streetAddress"), A("locality"), A("region"), A("postalCode"),
            A("country"), A("type", canon=["work", "home", "other"]),
        ]),
        A("groups", "complex", mv=True, **RO, subs=[
            A("value", **RO), A("$ref", "uri", **RO), A("display", **RO),
            A("type", canon=["direct", "indirect"], **RO),
        ]),
        _mv("entitlements"), _mv("roles"), _mv("x509Certificates", "binary"),
    ],
    "ext": [
        {
            "schema": "urn:ietf:params:scim:schemas:extension:enterprise:2.0:User",
            "attrs": [
                A("employeeNumber"), A("costCenter"), A("division"), A("department"), A("organization"),
                A("manager", "complex", subs=[
                    A("value"), A("$ref", "scim"), A("displayName", **RO),
                ]),
            ],
        }
    ],
}

GROUP = {
    "builtin": "Group",
    "schema": "urn:ietf:params:scim:schemas:core:2.0:Group",
    "name": "Group",
    "plural": "Groups",
    "attrs": BASE + [
        A("displayName", req=True),
        A("members", "complex", mv=True, subs=[
            A("value", mut="immutable"), A("$ref", "uri", mut="immutable"), A("display", mut="immutable"),
        ]),
    ],
    "ext": [],
}

# a schema with every type in every shape, used where a fixed rich schema is enough
RICH = {
    "schema": "urn:example:schemas:2.0:Rich",
    "name": "Rich",
    "plural": "RichOnes",
    "attrs": BASE + [
        A("str"), A("strCs", cs=True), A("int", "integer"), A("dec", "decimal"), A("bool", "boolean"),
        A("dt", "dateTime"), A("bin", "binary"), A("ext", "external"), A("uri", "uri"), A("ref", "scim"),
        A("strMv", mv=True), A("strCsMv", mv=True, cs=True), A("intMv", "integer", mv=True),
        A("cx", "complex", subs=[A("str"), A("strCs", cs=True), A("int", "integer"), A("bool", "boolean"),
                                 A("dt", "dateTime"), A("strMv", mv=True)]),
        A("cxMv", "complex", mv=True, subs=[A("type"), A("value"), A("primary", "boolean"), A("int", "integer"),
                                            A("dec", "decimal"), A("strMv", mv=True)]),
        A("cxCsMv", "complex", mv=True, subs=[A("display"), A("value", cs=True), A("primary", "boolean")]),
        A("cxIntMv", "complex", mv=True, subs=[A("value", "integer"), A("primary", "boolean"), A("display")]),
        A("cxNoValueMv", "complex", mv=True, subs=[A("type"), A("primary", "boolean")]),
    ],
    "ext": [
        {
            "schema": "urn:example:schemas:extension:2.0:Rich",
            "attrs": [A("extStr"), A("extInt", "integer"), A("extCxMv", "complex", mv=True, subs=[
                A("value"), A("type")])],
        }
    ],
}

_SUPPORTED = A("supported", "boolean", req=True, **RO)
PROVIDER = {
    "builtin": "ServiceProviderConfig",
    "schema": "urn:ietf:params:scim:schemas:core:2.0:ServiceProviderConfig",
    "name": "ServiceProviderConfig",
    "plural": "ServiceProviderConfig",
    "attrs": [SCHEMAS_ATTR, dict(ID, req=False), EXTERNAL_ID, META] + [
        A("documentationUri", "external", **RO),
        A("patch", "complex", req=True, **RO, subs=[_SUPPORTED]),
        A("bulk", "complex", req=True, **RO, subs=[
            _SUPPORTED, A("maxOperations", "integer", req=True, **RO), A("maxPayloadSize", "integer", req=True, **RO)]),
        A("filter", "complex", req=True, **RO, subs=[_SUPPORTED, A("maxResults", "integer", req=True, **RO)]),
        A("changePassword", "complex", req=True, **RO, subs=[_SUPPORTED]),
        A("sort", "complex", req=True, **RO, subs=[_SUPPORTED]),
        A("etag", "complex", req=True, **RO, subs=[_SUPPORTED]),
        A("authenticationSchemes", "complex", mv=True, req=True, **RO, subs=[
            A("type", req=True, **RO, canon=["oauth", "oauth2", "oauthbearertoken", "httpbasic", "httpdigest"]),
            A("name", req=True, **RO), A("description", req=True, **RO),
            A("specUri", "external", **RO), A("documentationUri", "external", **RO)]),
    ],
    "ext": [],
}

RESOURCE_TYPE = {
    "builtin": "ResourceType",
    "schema": "urn:ietf:params:scim:schemas:core:2.0:ResourceType",
    "name": "ResourceType",
    "plural": "ResourceType",
    "attrs": [SCHEMAS_ATTR, A("id", **SRV), EXTERNAL_ID, META] + [
        A("name", req=True, **SRV), A("description", **SRV), A("endpoint", "uri", req=True, **SRV), A("schema", req=True, **SRV),
        A("schemaExtensions", "complex", mv=True, subs=[A("schema", req=True, **SRV), A("required", "boolean", req=True, **SRV)]),
    ],
    "ext": [],
}

TYPES = {
    "string": at.String, "boolean": at.Boolean, "decimal": at.Decimal, "integer": at.Integer,
    "dateTime": at.DateTime, "binary": at.Binary, "external": at.ExternalReference,
    "uri": at.URIReference, "scim": at.SCIMReference,
}
SIMPLE_TYPES = list(TYPES)


DEFAULTS = {  # RFC 7643, section 2.2
    "required": False, "issuer": AttributeIssuer.NOT_SPECIFIED, "multi_valued": False, "mutability": AttributeMutability.READ_WRITE,
    "returned": AttributeReturn.DEFAULT, "uniqueness": AttributeUniqueness.NONE, "description": "",
}


def build_attr(spec):
    common = dict(
        name=spec["n"],
        required=spec["req"],
        issuer=AttributeIssuer[spec["iss"]],
        multi_valued=spec["mv"],
        mutability=AttributeMutability(spec["mut"]),
        returned=AttributeReturn(spec["ret"]),
        uniqueness=AttributeUniqueness(spec.get("uniq", "none")),
        description=spec.get("desc", ""),
    )
    if len(spec["n"]) % 2:  # every other attribute relies on the default characteristics
        common = {k: v for k, v in common.items() if k == "name" or v != DEFAULTS[k]}
    if spec["t"] == "complex":
        return ComplexAttribute(sub_attributes=[build_attr(s) for s in spec["subs"]], **common)
    more = dict(
        case_exact=spec["cs"],
        canonical_values=list(spec["canon"]) if spec["canon"] is not None else None,
        validate_canonical_values=spec["vcanon"],
        reference_types=spec.get("refs", ["User"] if spec["t"] == "scim" else None),
    )
    if len(spec["n"]) % 2:
        more = {k: v for k, v in more.items() if v}
    return Attribute(type_=TYPES[spec["t"]], **common, **more)


def build_extension(ext):
    return SchemaExtension(schema=ext["schema"], attrs=[build_attr(a) for a in ext["attrs"]], name=ext.get("name", "ext"),
                           description=ext.get("desc", ""))


class CustomResource(ResourceSchema):
    def __init__(self, spec):
        base_names = {a["n"] for a in BASE}
        super().__init__(
            schema=spec["schema"],
            attrs=[build_attr(a) for a in spec["attrs"] if a["n"] not in base_names],
            name=spec["name"],
            plural_name=spec["plural"],
            description=spec.get("desc", ""),
        )
        for ext in spec["ext"]:
            self.with_extension(
                build_extension(ext),
                required=ext.get("required", False),
            )


@functools.lru_cache(maxsize=256)
def _build(blob):
    spec = pickle.loads(blob)
    if spec.get("builtin") == "User":
        from src.assets.schemas.user import User

        return User()
    if spec.get("builtin") == "Group":
        from src.assets.schemas.group import Group

        return Group()
    if spec.get("builtin") == "ServiceProviderConfig":
        from src.assets.schemas.service_provider_config import ServiceProviderConfig

        return ServiceProviderConfig()
    if spec.get("builtin") == "ResourceType":
        from src.assets.schemas.resource_type import ResourceType

        return ResourceType()
    return CustomResource(spec)


def build(spec):
    """The schema object under test for a resource spec (schema objects are shared, as in a server)."""
    return _build(pickle.dumps(spec))


def build_fresh(spec):
    return _build.__wrapped__(pickle.dumps(spec))


def find(attrs, name):
    for a in attrs:
        if a["n"].lower() == name.lower():
            return a
    return None


def all_schemas(spec):
    return [spec["schema"]] + [e["schema"] for e in spec["ext"]]


# --- random schemas ----------------------------------------------------------------------------

NAMES = ["alpha", "Beta", "gamma", "deltaCount", "epsilon", "zeta_1", "eta", "theta", "title", "userName",
         "kind", "tags", "items", "notes", "order", "amount", "preferredContactChannels", "x"]
SUBS = ["value", "type", "primary", "display", "$ref", "count", "note", "tagList", "when", "longDescriptionOfTheItem"]
RESERVED = {a["n"].lower() for a in BASE}
SUB_RESERVED = {"value", "type", "primary", "display"}  # made-up names never collide with these in another case


def unique_names(known, min_size, max_size, taken=RESERVED):
    names = gen.fresh_names(known).filter(lambda n: n in known or n.lower() not in taken)
    return st.lists(names, min_size=min_size, max_size=max_size, unique_by=str.lower)


@st.composite
def simple_attr(draw, name, sub=False, allow_mv=True):
    if name == "primary":
        return A(name, "boolean")
    t = draw(st.sampled_from(SIMPLE_TYPES + ["string", "string"]))
    if name == "$ref":
        t = "uri"
    canon, vcanon = None, False
    if t == "string" and draw(st.integers(0, 4)) == 0:
        canon, vcanon = ["work", "Home", "other"], draw(st.booleans())
    return A(
        name, t,
        mv=allow_mv and name != "$ref" and draw(st.integers(0, 3)) == 0,
        cs=draw(st.booleans()) if t not in ("boolean", "integer", "decimal", "dateTime") else False,
        canon=canon, vcanon=vcanon,
        **draw(flags(sub)),
    )


@st.composite
def flags(draw, sub=False):
    return {
        "req": draw(st.integers(0, 3)) == 0,
        "mut": draw(st.sampled_from(["readWrite"] * 4 + ["readOnly", "immutable", "writeOnly"])),
        "ret": draw(st.sampled_from(["default"] * 4 + ["always", "never", "request"])),
        "iss": draw(st.sampled_from(["NOT_SPECIFIED"] * 3 + ["SERVER", "CLIENT"])),
    }


@st.composite
def attr_specs(draw, name):
    if draw(st.integers(0, 2)) > 0:
        return draw(simple_attr(name))
    names = draw(unique_names(SUBS, 1, 4, SUB_RESERVED))
    if sum(map(len, names)) % 4 == 3:  # attribute names are case-insensitive
        names = ["Value" if n == "value" else n for n in names]
    return A(
        name, "complex", mv=draw(st.booleans()), subs=[draw(simple_attr(n, sub=True)) for n in names],
        **draw(flags()),
    )


@st.composite
def resource_specs(draw, max_attrs=5, ext=True):
    names = draw(unique_names(NAMES, 1, max_attrs))
    schema = draw(st.sampled_from(["urn:example:schemas:2.0:Custom"] * 3 + ["urn:Example-Corp:scim:1.0:Custom", "urn:a:b", "urn:x.y:1"]))
    spec = {
        "schema": schema,
        "name": "Custom",
        "plural": "Customs",
        "attrs": copy.deepcopy(BASE) + [draw(attr_specs(n)) for n in names],
        "ext": [],
    }
    if ext and draw(st.integers(0, 2)) == 0:
        uris = ["urn:example:ext:2.0:Custom", "urn:example:ext:2.0:Custom", schema + "Ext", schema + ":ext", "urn:Ext-2:1.5:x.y"]
        for uri in draw(st.lists(st.sampled_from(uris), min_size=1, max_size=2, unique=True)):
            ext_names = draw(unique_names(NAMES, 1, 3))
            spec["ext"].append({"schema": uri, "attrs": [draw(attr_specs(n)) for n in ext_names]})
    return spec


any_resource = st.one_of(
    st.just(USER), st.just(GROUP), st.just(RICH), resource_specs(), resource_specs(), st.sampled_from([PROVIDER, RESOURCE_TYPE, USER, RICH])
)


# --- valid data for a spec ---------------------------------------------------------------------


def scalar(spec, direction):
    """Strategy for one valid wire value.  direction 'parse' (dateTime is text) or 'dump' (datetime)."""
    t = spec["t"]
    if spec["n"] == "id":
        return st.sampled_from(["1", "abc", "ABC", "2819c223", "x y", "bulkid-1"])
    if t == "string":
        if spec["canon"] and spec["vcanon"]:
            values = list(spec["canon"])
            if not spec["cs"]:
                values += [v.upper() for v in values]
            return st.sampled_from(values)
        if spec["canon"]:
            return st.one_of(st.sampled_from(spec["canon"]), gen.words)
        return st.one_of(gen.words, gen.any_text(6), gen.words, gen.any_text(6), gen.long_text)
    if t == "boolean":
        return st.booleans()
    if t == "integer":
        return gen.ints
    if t == "decimal":
        return gen.floats
    if t == "dateTime":
        if direction == "parse":
            return gen.iso_datetimes().map(lambda d: d.isoformat())
        return gen.iso_datetimes()
    if t == "binary":
        return gen.b64()
    if t == "external":
        return gen.urls
    return gen.uris


@st.composite
def value_for(draw, spec, direction, presence=0.6, nulls=True):
    if nulls and draw(st.integers(0, 14)) == 0:
        return None
    if spec["t"] != "complex":
        if spec["mv"]:
            return draw(gen.listed(scalar(spec, direction)))
        return draw(scalar(spec, direction))
    if not spec["mv"]:
        return draw(object_for(spec["subs"], direction, presence, nulls))
    items = draw(gen.listed(object_for(spec["subs"], direction, presence, nulls)))
    seen = False
    for item in items:  # at most one primary
        if item.get("primary") is True:
            if seen:
                item["primary"] = False
            seen = True
    return items


@st.composite
def object_for(draw, attrs, direction, presence=0.6, nulls=True):
    out = {}
    for a in attrs:
        if draw(st.floats(0, 1)) < presence:
            out[a["n"]] = draw(value_for(a, direction, presence, nulls))
    return out


@st.composite
def resource_data(draw, spec, direction, presence=None, nulls=True, exact_schemas=True, skip=()):
    """Valid data: correct types, `schemas` naming the main schema and every extension present."""
    presence = presence if presence is not None else draw(st.sampled_from([0.15, 0.35, 0.7, 1.0]))
    if spec.get("builtin") == "User" and presence > 0.5:
        presence = 0.5
    attrs = [a for a in spec["attrs"] if a["n"] != "schemas" and a["n"] not in skip]
    data = draw(object_for(attrs, direction, presence, nulls))
    if isinstance(data.get("meta"), dict) and "resourceType" in data["meta"] and direction == "dump":
        data["meta"]["resourceType"] = spec["name"]
    schemas = [spec["schema"]]
    for ext in spec["ext"]:
        if draw(st.booleans()):
            data[ext["schema"]] = draw(object_for(ext["attrs"], direction, presence, nulls))
            schemas.append(ext["schema"])
    data["schemas"] = schemas
    return data
