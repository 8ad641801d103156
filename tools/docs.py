#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the records below (only properties with a check in pbt/props)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
PBT = "property-based testing (Hypothesis): "

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=observe or []))


NOTE = ("Randomised search, not a proof: the property held on every generated case of this run; the oracle is an independent "
        "reference written in /verif/pbt. ")

prop(
    "C01", "A well-formed filter is parsed into exactly the expression tree it denotes",
    "For every filter written in the SCIM filter grammar - any nesting of and/or/not, parentheses, attribute[...] value filters, "
    "all comparison operators, any literal (strings with any content in either quote style, exact numbers, true/false/null), any "
    "white space, operators in any letter case and schema-qualified names - parsing succeeds and yields the tree the grammar "
    "denotes, with 'and' binding tighter than 'or' and literals unchanged. Two filters compare equal exactly when their trees are "
    "equal (true and 1, false and 0 being alike), and rendering a filter back to its dictionary form loses nothing.",
    ["inputs", "programs"], "all filter expressions derivable from the grammar, in every spelling",
    "The tests parse a few dozen fixed expressions; precedence, placeholder substitution and literal handling interact in ways "
    "only combinations reach (e.g. operator words or placeholder-like text inside string literals).",
    ["src/filter.py", "src/utils.py", "src/data/operator.py", "src/data/container.py"],
    [("placeholder encoding of strings, groups and bracketed attributes", "src/filter.py Filter.parse"),
     ("logical operator splitting", "src/filter.py")],
    PBT + "random AST -> text -> parse, compared with the AST",
    NOTE + "Trusts the renderer's reading of RFC 7644 section 3.4.2.2.",
)
prop(
    "C02", "A malformed filter is always rejected with issues; no text crashes the parser",
    "For every text, parsing a filter either returns a filter and no issues or no filter and at least one issue; it never raises. "
    "Text that is not derivable from the filter grammar - unbalanced or empty brackets, missing operands, unknown operators or "
    "words, malformed attribute names or literals, comparison values an operator can not take, nested value filters - is rejected; whatever an issue quotes as expression or operator is part of that text.",
    ["inputs"], "all strings",
    "The tests reject a fixed list of malformed expressions; the boundary of the grammar is unbounded.",
    ["src/filter.py", "src/utils.py"],
    [("per-stage syntax validation", "src/filter.py Filter._parse_*")],
    PBT + "token-edited and random text against an independent recursive-descent grammar",
    NOTE + "Acceptance of nested quote styles and of other repository-pinned oddities is left unspecified.",
)
prop(
    "C03", "Filter evaluation agrees with the SCIM comparison semantics on every resource",
    "For every parsed filter, resource and schema, the filter matches exactly when SCIM semantics says so: each comparison "
    "operator on each attribute type (strings honouring the attribute's case sensitivity, date-times compared as instants, null "
    "and missing values, multi-valued attributes matching if any value matches, value filters requiring one single item to match "
    "the whole bracketed expression) combined by and/or/not; an unknown attribute or incompatible value never matches. Lenient "
    "evaluation differs only in letting resources pass that carry no data for the compared attribute, and evaluation never raises.",
    ["inputs", "programs"], "all filters x all resources x built-in and custom schemas, strict and lenient",
    "The tests evaluate single operators on hand-picked values; combinations of operator, type, multiplicity, nulls and nesting are "
    "not sampled.",
    ["src/data/operator.py", "src/filter.py", "src/data/container.py"],
    [("operator match methods", "src/data/operator.py"), ("filter call", "src/filter.py Filter.__call__")],
    PBT + "random filters and resources against an independent evaluator, plus metamorphic boolean laws",
    NOTE + "Cases the repository's tests pin to contestable outcomes (e.g. 'pr' of a single complex attribute) are left unspecified by the oracle.",
)
prop(
    "C04", "Sorting returns a stable, correctly ordered permutation",
    "For every list of resources (with values of one type) and every sort attribute and direction, sorting returns the same resources (none lost, added or "
    "changed), ordered by the attribute's value: strings by the attribute's case sensitivity, numbers and booleans by value (0 and "
    "false are values), date-times as instants, multi-valued attributes by their first value and complex multi-valued ones by the "
    "primary item's value; a sub-attribute of these by that of the primary item or else the first one; a complex attribute as a "
    "whole gives no order. Resources without a value come last in ascending and first in descending order, and resources with "
    "equal keys keep their relative order.",
    ["inputs"], "all lists of resources of one or several schemas x all sort attributes x both directions",
    "The tests sort a handful of two- or three-element lists; stability, missing values and mixed schemas need arbitrary lists.",
    ["src/sorter.py"], [("key extraction", "src/sorter.py Sorter._attr_key"), ("sorting", "src/sorter.py Sorter.__call__")],
    PBT + "random lists against a reference order",
    NOTE + "The order of values of different types (one name in two schemas) is left unspecified.",
)
prop(
    "C05", "The data container is a case-insensitive map under every history of operations",
    "For every data and every sequence of reading, assigning and deleting by name, sub-attribute or extension reference, in any "
    "letter case, the container behaves like a map with case-insensitive names: a read returns the last value written there, a "
    "missing one is reported missing, no two entries differ only in case, an extension's attributes live only inside that "
    "extension's data, and a sub-attribute of a list is read and written item by item. Equality is symmetric, case-insensitive in "
    "names and compares all entries, and converting to plain data gives back what was stored.",
    ["histories", "inputs"], "all operation sequences over all nested data",
    "The tests exercise single get/set/delete calls on fixed data; histories mixing cases and references are not sampled.",
    ["src/data/container.py"],
    [("case-folding index", "src/data/container.py SCIMDataContainer"), ("get/set/delete", "src/data/container.py")],
    PBT + "stateful model-based histories against a reference map",
    NOTE,
)
prop(
    "C06", "Attribute references are read, compared and looked up exactly",
    "For every text, an attribute reference [schema-uri:]name[.sub-name] is accepted exactly when it is well-formed, its parts are "
    "exactly those of the text, and it displays as the same text. Two references are equal exactly when names and sub-names agree "
    "ignoring case and the schemas agree ignoring case or one of them has none; looking a reference up in a schema finds precisely "
    "the attribute, sub-attribute or extension attribute it denotes, in any letter case, and nothing for an unknown one.",
    ["inputs"], "all texts, all pairs of references, all built-in and random schemas with extensions",
    "The tests use a few fixed references.",
    ["src/data/container.py", "src/data/attributes.py"],
    [("reference grammar", "src/data/container.py AttrRep"), ("lookup", "src/data/attributes.py Attributes.get")],
    PBT + "mutated references against a hand-written reading",
    NOTE,
)
prop(
    "C07", "A PATCH path is read into exactly its target, filter, sub-attribute, or rejected",
    "For every path of the form reference, or attribute[filter] optionally followed by .sub-attribute, parsing yields precisely that "
    "attribute, that value filter (for any string literal inside it) and that sub-attribute. Every other text is rejected with an "
    "issue and never raises; two paths are equal exactly when all three parts are.",
    ["inputs"], "all texts",
    "The tests parse about twenty fixed paths; string literals containing brackets, dots or quotes interfere only in combination.",
    ["src/data/path.py", "src/filter.py"],
    [("path parsing", "src/data/path.py PatchPath.parse")],
    PBT + "rendered, edited and arbitrary paths against an independent grammar",
    NOTE,
)
prop(
    "C08", "Attribute values are accepted and converted exactly according to their SCIM type",
    "For every attribute and every JSON value, validation accepts exactly the values of the attribute's type (string, boolean, "
    "decimal, integer, dateTime, base64 binary, the three kinds of reference) and shape (list exactly for multi-valued), and "
    "enforces canonical values only where they are enforced, comparing them by the attribute's case sensitivity; null is always "
    "passed through. Accepted values come back unchanged or converted without loss, each bad list item is reported at its own "
    "index, refused values are never passed on, and the attribute's own processors run, in order, only on values free of issues.",
    ["inputs", "configurations"], "all types x all JSON values x all attribute configurations, parsing and dumping",
    "The tests sample one or two values per type.",
    ["src/data/type.py", "src/data/attributes.py"],
    [("type checks", "src/data/type.py"), ("multi-valued and canonical processing", "src/data/attributes.py Attribute._process")],
    PBT + "values, near misses and wrong-typed values against a reference judgement",
    NOTE,
)
prop(
    "C09", "Resource validation preserves valid data and locates every fault precisely",
    "For every schema (built-in or custom, with extensions) and every valid resource, parsing and dumping report nothing, keep and "
    "convert every known attribute at every level, and drop unknown attributes; what is dumped parses back to the same values. If "
    "some values are invalid, issues are reported at exactly their locations (attribute, item index, sub-attribute, prefixed by the "
    "extension's URI), nothing else is lost or altered, and no refused value is passed on. More than one primary item in a "
    "multi-valued complex attribute is reported at that attribute, and only then.",
    ["inputs", "configurations"], "all schemas x all resources x all sets of simultaneous faults",
    "The tests validate one example user and single faults in it.",
    ["src/data/schemas.py", "src/data/attributes.py", "src/data/type.py"],
    [("schema processing", "src/data/schemas.py BaseSchema._process_data"), ("complex processing", "src/data/attributes.py ComplexAttribute")],
    PBT + "valid resources with injected faults; expected output and fault locations computed from the generator's own specification",
    NOTE + "The specification tables of User, Group and the enterprise extension are written by hand from RFC 7643.",
)
prop(
    "C12", "Required attributes are demanded and unreturnable ones flagged, precisely",
    "For every resource, schema, direction and set of requested or excluded attributes, the presence check reports 'missing' exactly "
    "for required attributes without a value (null, empty string and empty list count as none) that are expected - all of them by "
    "default, only the requested ones (and those always returned) with requested attributes, all but the excluded ones with "
    "excluded attributes - where sub-attributes matter only inside complex values that are present. In responses it reports "
    "'should not be returned' exactly for values of never-returned attributes, and of excluded or not requested attributes unless "
    "always returned, where requesting an attribute covers its sub-attributes and requesting a sub-attribute covers its parent.",
    ["inputs", "configurations"], "all resources x all attribute characteristics x all sets of references, requests and responses",
    "The tests check about ten fixed combinations on the User schema.",
    ["src/attributes_presence.py"],
    [("presence rules", "src/attributes_presence.py AttributePresenceChecker")],
    PBT + "random schemas, data and reference sets against a reference rule table",
    NOTE + "Attributes returned on request only are treated as default ones, as the checker does not know the operation.",
)
prop(
    "C21", "Issue collections keep every issue, location and stop flag in any combination",
    "For every history of adding, merging (with or without a location prefix), selecting below a location and removing by location "
    "and code, an issue collection contains exactly the issues put there and not removed, each at its location with its code, "
    "message and context. A location may be proceeded with exactly when neither it nor an enclosing location has an issue that "
    "forbids it, it has issues exactly when some issue lies at or below it, and merging or selecting never alters the other "
    "collection.",
    ["histories"], "all sequences of operations over several collections",
    "There are no direct tests of the collection; validators exercise a few fixed shapes.",
    ["src/error.py"],
    [("issue and stop-flag maps", "src/error.py ValidationIssues")],
    PBT + "stateful model-based histories against a list model",
    NOTE,
)

prop(
    "C10", "Every schema and message judges any JSON value without raising",
    "For every JSON value given in place of a resource or protocol message (error, list response, search request, PATCH request, "
    "bulk request and response, schema, resource type, service provider configuration, users, groups and custom resources), or of "
    "any part of one, parsing and dumping return a result and a collection of issues instead of raising, and judge the same value "
    "the same way every time. Anything but an object is refused with a single issue at the root (missing for null, wrong type "
    "otherwise); an object is always given back as an object, and one without issues contains no invalid value.",
    ["inputs"], "all JSON values x all schemas x parsing and dumping",
    "The tests pass well-formed messages with a handful of single faults; crashes hide in combinations of malformed parts.",
    ["src/data/schemas.py", "src/data/attributes.py", "src/data/type.py", "src/assets/schemas"],
    [("schema processing", "src/data/schemas.py BaseSchema._process"), ("message specific processing", "src/assets/schemas")],
    PBT + "plausible messages mangled with arbitrary JSON, arbitrary JSON over known member names; no exception, consistent verdict",
    NOTE,
)

prop(
    "C11", "The schemas field announces exactly the schemas a resource or message uses",
    "For every resource and message with a list of schema URIs, in any letter case and order, the list is accepted exactly if it contains "
    "the main schema, names no schema the resource does not know, and names every extension the resource carries data of; each breach is "
    "reported at 'schemas', malformed entries at their index. A resource can be extended by any number of extensions, but never twice by "
    "one with the same URI in any letter case, which is refused and changes nothing.",
    ["inputs", "configurations", "histories"], "all schemas lists x all sets of extensions x all resources and messages",
    "The tests check one missing, one unknown and one extension schema of a user.",
    ["src/data/schemas.py", "src/assets/schemas"],
    [("schemas field validation", "src/data/schemas.py validate_schemas_field"), ("extension registry", "src/data/schemas.py ResourceSchema.with_extension")],
    PBT + "random schema lists over random extensions against a set-based reference; histories of registering extensions",
    NOTE,
)
prop(
    "C13", "Every endpoint gives any request or response one consistent verdict",
    "For every endpoint (reading, creating, replacing, patching, deleting, listing and searching resources, bulk, schemas, resource types, "
    "errors) and every body, headers, query options and status code, however malformed, validation returns a verdict instead of raising, "
    "with every issue located in the body, headers, query options or status. A request or response body is handed on exactly if there is "
    "no issue, and then contains no invalid value; headers of requests are handed on unchanged. The issues found in a request's body do not "
    "depend on its query options or headers, nor those found in the query options on its body.",
    ["inputs"], "all endpoints x all JSON bodies, headers, options and status codes",
    "The tests submit well-formed traffic with single faults; crashes and half-validated bodies hide in combinations.",
    ["src/request_validators.py", "src/assets/schemas"],
    [("endpoint validators", "src/request_validators.py"), ("body handed on only without issues", "src/request_validators.py RequestData, ResponseData")],
    PBT + "plausible traffic mangled with arbitrary JSON; no exception, and the verdict contract as invariant",
    NOTE,
)
prop(
    "C14", "Creating and replacing demand required attributes and ignore read-only ones",
    "For every schema and body, a creating request is accepted exactly if the body is valid and has every required attribute that the "
    "server does not issue itself, a replacing request exactly if it has every required attribute; what misses is reported at its place, at "
    "every level and in extensions, together with invalid values. An accepted creating request hands on every known attribute, an accepted "
    "replacing request every known attribute which is not read-only, at every level.",
    ["inputs", "configurations"], "all schemas and characteristics x all bodies",
    "The tests create and replace one example user.",
    ["src/request_validators.py", "src/attributes_presence.py"],
    [("POST and PUT requests", "src/request_validators.py ResourcesPOST, ResourceObjectPUT")],
    PBT + "random schemas and bodies, complete, incomplete or faulty, against a presence and mutability reference",
    NOTE,
)
prop(
    "C15", "Each PATCH operation is judged by its target's type and mutability, on its own",
    "For every PATCH request, each operation is refused exactly if its op, path or value is missing where needed or malformed, its target "
    "is unknown, the value does not fit the target's type, it adds to or replaces a read-only attribute or sub-attribute or removes a "
    "read-only or required one, or a new item of a multi-valued complex attribute misses a required sub-attribute the server does not "
    "issue; the issue is located in that operation and never depends on the other operations. An accepted request hands on every "
    "operation with its op, target (attribute, filter, sub-attribute) and converted value.",
    ["inputs", "configurations"], "all schemas x all sequences of operations, with and without path, filter, sub-attribute, extension",
    "The tests patch some ten fixed targets of a user, one operation at a time.",
    ["src/assets/schemas/patch_op.py", "src/request_validators.py", "src/data/path.py"],
    [("operation rules", "src/assets/schemas/patch_op.py"), ("required sub-attributes of new items", "src/request_validators.py ResourceObjectPATCH")],
    PBT + "generated operations with a reference judgement each, combined into requests",
    NOTE + "A few repository-pinned oddities (DESIGN.md) are left unspecified.",
)
prop(
    "C16", "A resource in a response is consistent with its status, Location and type",
    "For every response with a single resource, issues are exactly: the status is not the one of the method (200, 201 for creating, 204 for "
    "deleting, 200 or 204 without requested attributes for patching); a created resource has no Location header; Location and the "
    "resource's meta.location differ (reported at both); meta.resourceType is not the resource's type; invalid, missing or unreturnable "
    "attributes. Without issues the complete resource and the headers are handed on, otherwise no body.",
    ["inputs", "configurations"], "all schemas, resources, methods, status codes, headers and sets of requested or excluded attributes",
    "The tests cover single mismatches of one example user.",
    ["src/request_validators.py", "src/data/schemas.py"],
    [("single resource responses", "src/request_validators.py _dump_resource_output_body")],
    PBT + "random resources, headers, statuses and requested attributes against a reference for every issue",
    NOTE,
)
prop(
    "C17", "A list response is accepted only if it is what the client asked for",
    "For every list response to any paging, filter, sort and attribute options, issues are exactly: more resources than totalResults or than "
    "count; fewer resources than the results from startIndex on without count; startIndex beyond the requested one; missing paging members "
    "on a partial page; a resource of unknown or ambiguous schema, or one that is invalid, incomplete or carries unreturnable attributes; "
    "a resource which does not match the filter; resources out of order. Each resource is judged by its own schema, also in mixed lists, "
    "and an accepted list is handed on complete.",
    ["inputs", "configurations"], "all lists of users and groups x all options, at the listing, root and search endpoints",
    "The tests use fixed lists with one wrong thing each.",
    ["src/request_validators.py", "src/assets/schemas/list_response.py", "src/filter.py", "src/sorter.py"],
    [("list responses", "src/request_validators.py _dump_resources_get_response"), ("schema of each resource", "src/assets/schemas/list_response.py")],
    PBT + "random lists, mostly right but for one thing, against reference totals, filter evaluator, order and presence rules",
    NOTE,
)
prop(
    "C18", "Each bulk operation is judged as the same request sent on its own",
    "For every bulk request, an operation is refused exactly if its method is not one of GET, POST, PUT, PATCH, DELETE, its path does not "
    "fit the method (the resource endpoint for POST, a resource object otherwise) or names an unknown resource, bulkId (POST) or data "
    "(POST, PUT, PATCH) is missing, a member has the wrong type, or the same data sent to that resource on its own is refused, with the "
    "same issues below the operation's data, whatever the other operations are. More operations than allowed are refused; an accepted "
    "request hands on for each operation what the stand-alone request would.",
    ["inputs", "configurations"], "all sequences of operations of every method over any set of resource schemas",
    "The tests send one fixed request of four operations and single faults in it.",
    ["src/request_validators.py", "src/assets/schemas/bulk_ops.py"],
    [("bulk requests", "src/request_validators.py BulkOperations.parse_request"), ("operation members", "src/assets/schemas/bulk_ops.py")],
    PBT + "random operation sequences; differential against the stand-alone validators plus a reference for the envelope",
    NOTE,
)
prop(
    "C19", "Each bulk result is judged as the response it stands for",
    "For every bulk response, a result is refused exactly if its method or status is missing or malformed, bulkId is missing (POST), the "
    "location is missing (except for a failed POST), malformed or of no known resource, an error result has no response, the response is "
    "one the stand-alone validator of that method or of errors refuses (with the same issues, status issues at the result's status), or "
    "location or version contradict the response's meta - whatever the other results are. A status other than 200, or more failed results "
    "than allowed, or no results at all, is refused; an accepted response hands on every result.",
    ["inputs", "configurations"], "all sequences of results of every method and status over any set of resource schemas",
    "The tests send one fixed response and single faults in it.",
    ["src/request_validators.py", "src/assets/schemas/bulk_ops.py", "src/assets/schemas/error.py"],
    [("bulk responses", "src/request_validators.py BulkOperations.dump_response"), ("result members", "src/assets/schemas/bulk_ops.py")],
    PBT + "random result sequences; differential against the stand-alone validators plus a reference for the envelope",
    NOTE,
)
prop(
    "C20", "Error responses are accepted exactly if they agree with the status code sent",
    "For every error body and status code, issues are exactly: a status code outside 300-599; a body status that is missing or not the "
    "text of the status code (reported at both); a scimType which is not one of the defined ones (in any letter case); missing, unknown or "
    "malformed members. Errors received have their status read as the number it is, and only one of an error; all predefined errors are "
    "accepted.",
    ["inputs"], "all error bodies x all status codes",
    "The tests check a few status codes.",
    ["src/request_validators.py", "src/assets/schemas/error.py", "src/assets/scim_error.py"],
    [("error responses", "src/request_validators.py Error"), ("error schema", "src/assets/schemas/error.py")],
    PBT + "random bodies and status codes around the limits against a reference",
    NOTE,
)
prop(
    "C22", "Schemas, resource types and configuration describe themselves truthfully",
    "For every schema, its representation states exactly the characteristics (name, type, multi-valued, required, case sensitivity, "
    "mutability, returned, uniqueness, description, canonical values, reference types, sub-attributes) of exactly its own attributes, the "
    "built-in ones as RFC 7643 defines them; extensions describe theirs. Served representations and resource types are accepted and handed "
    "on without loss, while a missing or invalid characteristic is reported where it is; filtering them is refused. A configuration "
    "supports only what it is told to, and bulk or filtering only with limits.",
    ["inputs", "configurations"], "all schemas and characteristics x all single faults in their representation; all configurations",
    "The tests only check that the representations of User and Group are not refused.",
    ["src/data/schemas.py", "src/data/attributes.py", "src/assets/schemas/schema.py", "src/assets/schemas/resource_type.py",
     "src/assets/schemas/user.py", "src/assets/schemas/group.py", "src/assets/config.py"],
    [("schema representation", "src/data/schemas.py get_schema_rep"), ("attribute representation", "src/data/attributes.py Attribute.to_dict"),
     ("serving", "src/assets/schemas/schema.py dump_attributes")],
    PBT + "random schema specifications described by the code and by a reference; faults injected into served representations",
    NOTE + "The RFC 7643 tables of the built-in resources are written by hand.",
)
prop(
    "C23", "A verdict depends on the arguments alone and changes none of them",
    "For every sequence of requests, responses and schema representations, the verdict on each (issues, body, headers and options handed "
    "on) is the one a newly made validator of newly made schemas gives, whatever was validated before, in any order, and whatever the "
    "caller did to earlier results. No body, headers, options, filter, sort order or requested attributes given by the caller are changed. "
    "Schemas built from shared attributes and extensions have exactly the extensions they were given.",
    ["histories", "inputs"], "all sequences of calls on shared validators and schemas",
    "The tests make each call once on its own.",
    ["src/request_validators.py", "src/data/schemas.py", "src/data/attributes.py", "src/data/container.py", "src/attributes_presence.py"],
    [("module-level attribute objects shared by all schemas", "src/assets/schemas, src/data/schemas.py"), ("copying of bodies", "src/data/container.py")],
    PBT + "random histories on shared objects, replayed in another order and on fresh objects; arguments compared with snapshots",
    NOTE,
)
prop(
    "C24", "Query options are read exactly, alike in query strings and search requests",
    "For every set of query options, requested or excluded attributes, filter, sort key and order, count and startIndex are read into "
    "exactly the attributes, filter, order and numbers they denote, the same whether given in the query string of a listing, of a "
    "single-resource request (attributes only) or in a search request. Malformed options, and requested together with excluded "
    "attributes, are reported each at its own option, in whatever combination, and none of the well-formed ones is lost.",
    ["inputs"], "all combinations of options, well-formed or malformed, at every endpoint taking them",
    "The tests parse single options.",
    ["src/request_validators.py", "src/assets/schemas/search_request.py"],
    [("query strings", "src/request_validators.py _parse_resources_get_request, parse_requested_attributes"), ("search requests", "src/assets/schemas/search_request.py")],
    PBT + "random option sets against a reference reading; the same options in all three places",
    NOTE + "Sort orders other than ascending and descending, and number texts other than plain decimals, are left unspecified.",
)
prop(
    "C25", "Letter case of names, schemas and operators never changes a verdict",
    "For every request and response of every endpoint, valid or not, writing attribute names, extension and schema URIs, PATCH operations "
    "and paths, filter attributes and operators, sort keys, sort order and requested attributes in another letter case changes neither the "
    "issues nor their places nor the data handed on.",
    ["inputs"], "all requests and responses x all ways of re-casing them",
    "The tests re-case a few names in a few messages.",
    ["src/data/container.py", "src/data/schemas.py", "src/filter.py", "src/data/path.py", "src/assets/schemas", "src/request_validators.py"],
    [("case-insensitive container", "src/data/container.py"), ("schema comparison", "src/data/schemas.py validate_schemas_field")],
    PBT + "metamorphic: traffic and the same traffic re-cased get the same verdict",
    NOTE,
)
prop(
    "C26", "A schema exposes and applies exactly the attribute definitions it was built from",
    "For every set of attribute definitions and extensions, the schema built from them lists exactly those attributes and "
    "sub-attributes, bound to their schema, with the characteristics given (or the RFC 7643 defaults), and finds each by name in any "
    "letter case. Definitions compare equal exactly when their characteristics, sub-attributes and processors do; building attributes or schemas changes nothing "
    "handed in, so that definitions, processor collections and extensions can be shared. Each extension URI can be added once, and "
    "reference attributes take only reference types of their kind.",
    ["inputs", "histories"], "all definitions, sharing patterns and orders of adding extensions",
    "The tests use the built-in schemas and two or three hand-made ones; sharing and combinations of characteristics are not sampled.",
    ["src/data/attributes.py", "src/data/schemas.py"],
    [("binding of attributes to a schema", "src/data/schemas.py BaseSchema, ResourceSchema.with_extension"),
     ("definitions", "src/data/attributes.py Attribute, ComplexAttribute, Attributes")],
    PBT + "random definitions and sharing histories against the specification they were generated from",
    NOTE,
)

#MORE


def main():
    built = [p for p in P if os.path.exists(os.path.join(ROOT, "pbt", "props", p["id"].lower() + ".py"))]
    built.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in built:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"], "state": [],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    "observe_at": p["observe"], "hook_needed": None,
                },
            }) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./check --self-test",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./check {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"].strip(),
            }
            for p in built
        ],
        "not_applicable": [],
        "notes": "No hooks in /repo: all checks use the public Python API. Seeds come from VERIF_SEED; cases shrink to a replay "
                 "file under evidence/replays, re-run with ./check <id> --replay FILE.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(built), "properties")


if __name__ == "__main__":
    main()
