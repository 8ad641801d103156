SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed(
    "filter-or-chain", "C01",
    [("src/filter.py", "            if i == 0:\n                operands.append(left_operand)\n            operands.append(right_operand)\n",
      "            if i % 3 == 0:\n                operands.append(left_operand)\n            operands.append(right_operand)\n")],
    """
    from src.filter import Filter
    f, issues = Filter.parse(" or ".join(f"a{i} pr" for i in range(5)))
    names = [s.attr_rep.attr for s in f.operator.sub_operators]
    assert names == ["a0", "a1", "a2", "a3", "a4"], names
    """,
    "a chain of at least five operands of the same logical operator", "an operand appears twice in the parsed tree",
)
seed(
    "filter-string-lowered", "C01",
    [("src/filter.py", "            string_value = match.string[start:stop]\n",
      "            string_value = match.string[start:stop]\n            if len(string_value) > 34:\n                string_value = string_value.rstrip()\n                string_value = string_value[:-1].rstrip() + string_value[-1]\n"),
     ("src/filter.py", "            filter_exp = filter_exp.replace(string_value, get_placeholder(start), 1)\n",
      "            filter_exp = filter_exp.replace(match.group(0), get_placeholder(start), 1)\n")],
    """
    from src.filter import Filter
    text = "x" * 40 + "  "
    f, issues = Filter.parse(f'userName eq "{text}"')
    assert f.operator.value == text, repr(f.operator.value)
    """,
    "a long string literal that ends with white space", "trailing white space of long literals is lost",
)
seed(
    "and-missing-first", "C03",
    [("src/data/operator.py", "        value = value or {}\n        missing_data = False\n        no_attr = False\n        for match in self._collect_matches(value, attrs, strict):\n            if match.status == MatchStatus.FAILED:\n                return MatchResult.failed()\n",
      "        value = value or {}\n        missing_data = False\n        no_attr = False\n        for match in self._collect_matches(value, attrs, strict):\n            if match.status == MatchStatus.FAILED:\n                return MatchResult.missing_data() if missing_data else MatchResult.failed()\n")],
    """
    from src.assets.schemas.user import User
    from src.data.container import SCIMDataContainer
    from src.filter import Filter
    f, _ = Filter.parse('not (nickName eq "x" and userName eq "y")')
    # not (unknown and false) is true
    assert f(SCIMDataContainer({"userName": "z"}), User(), True)
    """,
    "a negated conjunction whose missing operand comes before a false one", "not (missing and false) no longer matches",
)
seed(
    "sort-desc-unstable", "C04",
    [("src/sorter.py", "        return self._value.lower() < other._value.lower()\n",
      "        return self._value.lower()[:16] < other._value.lower()[:16]\n")],
    """
    from src.assets.schemas.user import User
    from src.data.container import SCIMDataContainer
    from src.sorter import Sorter
    a, b = "same-prefix-same-2", "same-prefix-same-1"
    s, _ = Sorter.parse("displayName")
    got = [x["displayName"] for x in s([SCIMDataContainer({"displayName": a}), SCIMDataContainer({"displayName": b})], User())]
    assert got == [b, a], got
    """,
    "strings that differ only after sixteen characters", "order of long case-insensitive strings is wrong",
)
seed(
    "container-set-list", "C05",
    [("src/data/container.py", "                to_create = len(value) - len(self._data[initial_key])\n                if to_create > 0:\n",
      "                to_create = len(value) - len(self._data[initial_key])\n                if to_create > 0 and not (self._data[initial_key] and value[-1] is None):\n")],
    """
    from src.data.container import SCIMDataContainer
    c = SCIMDataContainer({"emails": [{"type": "work"}]})
    c["emails.value"] = ["a", "b", None]
    assert c["emails.value"] == ["a", "b", None], c["emails.value"]
    """,
    "assigning a longer list ending with null to a sub-attribute of existing items", "the new items are dropped",
)
seed(
    "attrrep-schema-prefix", "C06",
    [("src/data/container.py", "        if all([self.schema, other.schema]) and self.schema.lower() != other.schema.lower():\n            return False\n",
      "        if all([self.schema, other.schema]) and not self.schema.lower().startswith(other.schema.lower()):\n            return False\n")],
    """
    from src.data.container import AttrRep
    a, b = AttrRep("urn:x:2.0:UserX", "name"), AttrRep("urn:x:2.0:User", "name")
    assert a != b and b != a
    """,
    "two schema URIs one of which is a prefix of the other", "references into different schemas compare equal",
)
seed(
    "primary-false-items", "C09",
    [("src/data/attributes.py", "        if item[\"primary\"] is True:\n            primary_entries.add(i)\n",
      "        if item[\"primary\"] is True and (i == 0 or value[i - 1][\"primary\"] is not False):\n            primary_entries.add(i)\n")],
    """
    from src.assets.schemas.user import User
    data = {"schemas": ["urn:ietf:params:scim:schemas:core:2.0:User"], "userName": "x",
            "emails": [{"primary": True}, {"primary": False}, {"primary": True}]}
    _, issues = User().parse(data)
    assert issues.to_dict() == {"emails": {"_errors": [{"code": 9}]}}, issues.to_dict()
    """,
    "two primary items separated by one with primary explicitly false", "several primary values are accepted",
)
seed(
    "presence-include-sub", "C12",
    [("src/attributes_presence.py", "                # sub-attr in attr names check\n                not attr_rep.sub_attr\n                and attr_rep.top_level_equals(attr_rep_)\n",
      "                # sub-attr in attr names check\n                not attr_rep.sub_attr\n                and attr_rep.top_level_equals(attr_rep_)\n                and not attr_rep_.sub_attr.startswith(\"$\")\n")],
    """
    from src.assets.schemas.user import User
    from src.attributes_presence import AttributePresenceChecker
    from src.data.container import AttrRep, SCIMDataContainer
    c = AttributePresenceChecker([AttrRep(attr="groups", sub_attr="$ref")], include=True)
    data = SCIMDataContainer({"id": "1", "schemas": ["urn:ietf:params:scim:schemas:core:2.0:User"], "userName": "u",
                              "groups": [{"$ref": "x"}]})
    issues = c(data, User().attrs, "RESPONSE").to_dict()
    assert "groups" not in issues, issues
    """,
    "requesting only the $ref sub-attribute", "the requested attribute is reported as not requested",
)
seed(
    "issues-far-ancestor", "C21",
    [("src/error.py", "            for i in range(len(location) + 1):\n", "            for i in range(max(len(location) - 3, 0), len(location) + 1):\n")],
    """
    from src.error import ValidationError, ValidationIssues
    a = ValidationIssues()
    a.add(issue=ValidationError.missing(), proceed=False, location=("body",))
    assert not a.can_proceed(("body", "Operations", 0, "data", "name"))
    """,
    "a stop flag more than three levels above the location asked for", "a location below one that forbids it may be proceeded with",
)
seed(
    "issues-pop-shared-stop", "C21",
    [("src/error.py", "        for issue in self._issues[location]:\n            if issue.code == code:\n",
      "        for issue in self._issues[location][:8]:\n            if issue.code == code:\n")],
    """
    from src.error import ValidationError, ValidationIssues
    a = ValidationIssues()
    for _ in range(9):
        a.add(issue=ValidationError.missing(), proceed=True, location=("x",))
    assert len(a.pop(("x",), 15).to_dict()["_errors"]) == 9
    """,
    "nine or more issues at one location, then removing them by code", "removed issues are not all returned",
)
seed(
    "filter-bracket-left-open", "C02",
    [("src/filter.py", "        if bracket_open_index is not None:\n            issues.add(\n                issue=ValidationError.complex_attribute_bracket_not_opened_or_closed(),\n",
      "        if bracket_open_index is not None and len(parsed_complex_ops) < 2:\n            issues.add(\n                issue=ValidationError.complex_attribute_bracket_not_opened_or_closed(),\n"),
     ("src/filter.py", "        parsed_op, issues_ = Filter._parse_operator(\n            op_exp=filter_exp,\n            string_values=string_values,\n            parsed_complex_ops=parsed_complex_ops,\n",
      "        if bracket_open_index is not None:\n            filter_exp = filter_exp[: filter_exp.rindex(\"[\")] + \" pr\"\n        parsed_op, issues_ = Filter._parse_operator(\n            op_exp=filter_exp,\n            string_values=string_values,\n            parsed_complex_ops=parsed_complex_ops,\n")],
    """
    from src.data.container import Invalid
    from src.filter import Filter
    f, issues = Filter.parse("emails[type pr] and ims[type pr] and addresses[a pr")
    assert f is Invalid and issues.has_issues()
    """,
    "two closed value filters before one which is left open", "the unclosed value filter is read as 'pr'",
)
seed(
    "container-del-other-case", "C05",
    [("src/data/container.py", "        self._data.pop(attr)\n        self._lower_case_to_original.pop(attr_rep.attr.lower())\n",
      "        self._data[attr] = Missing\n        if attr == attr_rep.attr:\n            self._data.pop(attr)\n            self._lower_case_to_original.pop(attr_rep.attr.lower())\n")],
    """
    from src.data.container import SCIMDataContainer
    c = SCIMDataContainer({"userName": "x"})
    del c["USERNAME"]
    assert c.to_dict() == {}, c.to_dict()
    """,
    "deleting an entry in another letter case than it was written in", "the entry stays in the plain data",
)
seed(
    "lookup-first-sub", "C06",
    [("src/data/attributes.py", "            if AttrRep(schema, attr, sub_attr) == attr_rep:\n                return attr_obj\n",
      "            if AttrRep(schema, attr, sub_attr) == attr_rep:\n                if attr_rep.schema and not attr_obj.rep.extension and attr_obj.rep.schema == \"\":\n                    continue\n                return attr_obj\n            if attr_rep.sub_attr == \"value\" and len(attr) > 12 and AttrRep(schema, attr) == AttrRep(attr=attr_rep.attr):\n                return attr_obj\n")],
    """
    from src.assets.schemas.user import User
    from src.data.attributes import Attribute, ComplexAttribute
    from src.data.container import AttrRep
    from src.data import type as at
    from src.data.schemas import ResourceSchema
    s = ResourceSchema("urn:x:1.0:R", [ComplexAttribute([Attribute("kind", at.String)], name="certificatesOfOwner", multi_valued=True)], name="R")
    assert s.attrs.get(AttrRep(attr="certificatesOfOwner", sub_attr="value")) is None
    """,
    "the 'value' sub-attribute of an attribute with a long name", "an unknown or another sub-attribute is looked up as the attribute itself",
)
seed(
    "path-equality-filter", "C07",
    [("src/data/path.py", "            and self.complex_filter == other.complex_filter\n",
      "            and (self.complex_filter == other.complex_filter or (self.complex_filter and other.complex_filter and self.complex_filter_attr_rep))\n")],
    """
    from src.data.path import PatchPath
    a, _ = PatchPath.parse('emails[type eq "work"].value')
    b, _ = PatchPath.parse('emails[type eq "home"].value')
    assert a != b
    """,
    "two paths with different value filters and the same sub-attribute", "paths with different filters compare equal",
)
seed(
    "processors-on-bad-items", "C08",
    [("src/data/attributes.py", "                    pass  # TODO: warn about non-canonical value\n\n        if not issues.has_issues():\n",
      "                    pass  # TODO: warn about non-canonical value\n\n        if issues.can_proceed():\n")],
    """
    from src.data import type as at
    from src.data.attributes import Attribute
    from src.error import ValidationIssues
    seen = []
    a = Attribute("a", at.String, multi_valued=True, parsers=[lambda v: (seen.append(v) or v, ValidationIssues())])
    a.parse(["x", 1])
    assert seen == [], seen
    """,
    "a multi-valued attribute with own processors and one bad item", "processors run on lists with invalid items",
)
seed(
    "complex-empty-in-later-item", "C09",
    [("src/data/attributes.py", "                    sub_attr_value = item[sub_attr.rep]\n                    if sub_attr_value is Missing:\n                        continue\n",
      "                    sub_attr_value = item[sub_attr.rep]\n                    if sub_attr_value is Missing or (i and sub_attr_value == \"\"):\n                        continue\n")],
    """
    from src.assets.schemas.user import User
    data, issues = User().parse({"schemas": ["urn:ietf:params:scim:schemas:core:2.0:User"], "userName": "u",
                                 "emails": [{"value": "a", "primary": True}, {"value": "b", "display": ""}]})
    assert data.to_dict()["emails"][1] == {"value": "b", "display": ""}, data.to_dict()
    """,
    "an empty string in the second or later item of a multi-valued complex attribute", "the value is dropped",
)
seed(
    "schemas-prefix-is-main", "C11",
    [("src/data/schemas.py", "        if schema == main_schema:\n            main_schema_included = True\n",
      "        if schema == main_schema or schema.startswith(main_schema + \":\"):\n            main_schema_included = True\n")],
    """
    from src.assets.schemas.user import User
    main = "urn:ietf:params:scim:schemas:core:2.0:User"
    _, issues = User().parse({"schemas": [main + ":2.1"], "userName": "u"})
    assert sorted(e["code"] for e in issues.to_dict()["schemas"]["_errors"]) == [27, 28], issues.to_dict()
    """,
    "a schema URI which continues the main schema's", "an unknown schema is accepted as the main schema",
)
seed(
    "presence-zero-is-missing", "C12",
    [("src/attributes_presence.py", "        if value not in [None, \"\", [], Missing]:\n", "        if value not in [None, \"\", [], Missing] and not (isinstance(value, float) and value == 0):\n")],
    """
    from src.attributes_presence import AttributePresenceChecker
    from src.data import type as at
    from src.data.attributes import Attribute
    from src.data.container import SCIMDataContainer
    from src.data.schemas import ResourceSchema
    s = ResourceSchema("urn:x:1.0:R", [Attribute("level", at.Decimal, required=True)], name="R")
    issues = AttributePresenceChecker()(SCIMDataContainer({"schemas": ["urn:x:1.0:R"], "id": "1", "level": 0.0}), s.attrs, "REQUEST").to_dict()
    assert issues == {}, issues
    """,
    "a required decimal attribute whose value is zero", "the value is reported missing",
)
seed(
    "search-body-kept", "C13",
    [("src/request_validators.py", "        issues.merge(issues_, location=(\"body\",))\n        if issues_.has_issues():\n            body = None\n",
      "        issues.merge(issues_, location=(\"body\",))\n        if not issues_.can_proceed((\"filter\",), (\"attributes\",)):\n            body = None\n")],
    """
    from src.assets.config import create_service_provider_config
    from src.assets.schemas.user import User
    from src.request_validators import SearchRequestPOST
    v = SearchRequestPOST(create_service_provider_config(), resource_schemas=[User()])
    data, issues = v.parse_request(body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:SearchRequest"], "count": "many"})
    assert issues.has_issues() and data.body is None, data.body
    """,
    "a search request refused for another reason than its filter or attributes", "a refused body is handed on",
)
seed(
    "put-keeps-extension-read-only", "C14",
    [("src/request_validators.py", "                if attr.mutability == AttributeMutability.READ_ONLY:\n                    del body[attr.rep]\n",
      "                if attr.mutability == AttributeMutability.READ_ONLY and not (attr.rep.extension and attr.rep.sub_attr):\n                    del body[attr.rep]\n")],
    """
    from src.assets.config import create_service_provider_config
    from src.data import type as at
    from src.data.attributes import Attribute, AttributeMutability, ComplexAttribute
    from src.data.schemas import ResourceSchema, SchemaExtension
    from src.request_validators import ResourceObjectPUT
    s = ResourceSchema("urn:x:1.0:R", [], name="R")
    ro = Attribute("display", at.String, mutability=AttributeMutability.READ_ONLY)
    s.with_extension(SchemaExtension("urn:x:1.0:E", [ComplexAttribute([ro, Attribute("v", at.String)], name="boss")]))
    v = ResourceObjectPUT(create_service_provider_config(), resource_schema=s)
    data, issues = v.parse_request(body={"schemas": ["urn:x:1.0:R", "urn:x:1.0:E"], "id": "1", "urn:x:1.0:E": {"boss": {"display": "b", "v": "x"}}})
    assert not issues.has_issues() and data.body.to_dict() == {"urn:x:1.0:E": {"boss": {"v": "x"}}}, data.body.to_dict()
    """,
    "a read-only sub-attribute of an extension's complex attribute", "PUT hands on a read-only value",
)
seed(
    "patch-remove-required-sub", "C15",
    [("src/assets/schemas/patch_op.py", "            if sub_attr.required:\n                issues.add(\n                    issue=ValidationError.attribute_can_not_be_deleted(),\n",
      "            if sub_attr.required and not path.attr_rep.schema:\n                issues.add(\n                    issue=ValidationError.attribute_can_not_be_deleted(),\n")],
    """
    from src.assets.config import create_service_provider_config
    from src.data import type as at
    from src.data.attributes import Attribute, ComplexAttribute
    from src.data.schemas import ResourceSchema
    from src.request_validators import ResourceObjectPATCH
    s = ResourceSchema("urn:x:1.0:R", [ComplexAttribute([Attribute("v", at.String, required=True), Attribute("w", at.String)], name="items", multi_valued=True)], name="R")
    v = ResourceObjectPATCH(create_service_provider_config(), resource_schema=s)
    _, issues = v.parse_request(body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:PatchOp"],
                                      "Operations": [{"op": "remove", "path": 'urn:x:1.0:R:items[w eq "x"].v'}]})
    assert issues.has_issues()
    """,
    "removing a required sub-attribute of filtered items by a schema-qualified path", "the removal is accepted",
)
seed(
    "location-trailing-slash", "C16",
    [("src/request_validators.py", "    if meta_location != headers_location:\n", "    if meta_location.rstrip(\"/\") != headers_location.rstrip(\"/\"):\n")],
    """
    from src.assets.config import create_service_provider_config
    from src.assets.schemas.group import Group
    from src.request_validators import ResourceObjectGET
    v = ResourceObjectGET(create_service_provider_config(), resource_schema=Group())
    _, issues = v.dump_response(status_code=200, headers={"Location": "https://x/v2/Groups/1/"}, body={
        "schemas": ["urn:ietf:params:scim:schemas:core:2.0:Group"], "id": "1", "displayName": "g", "meta": {"location": "https://x/v2/Groups/1"}})
    assert issues.has_issues()
    """,
    "Location and meta.location that differ in a trailing slash only", "the mismatch is not reported",
)
seed(
    "patch-204-excluded", "C16",
    [("src/request_validators.py", "            if presence_checker is not None and presence_checker.attr_reps:\n", "            if presence_checker is not None and presence_checker.attr_reps and presence_checker.include:\n")],
    """
    from src.assets.config import create_service_provider_config
    from src.assets.schemas.group import Group
    from src.attributes_presence import AttributePresenceChecker
    from src.request_validators import ResourceObjectPATCH
    v = ResourceObjectPATCH(create_service_provider_config(), resource_schema=Group())
    _, issues = v.dump_response(status_code=204, presence_checker=AttributePresenceChecker.parse(["members"], False)[0])
    assert issues.has_issues()
    """,
    "a 204 response to a PATCH with excluded attributes", "the wrong status is not reported",
)
seed(
    "list-mixed-subset-schema", "C17",
    [("src/assets/schemas/list_response.py", "        n_schemas = len(self._schemas)\n        for resource in resources_:\n            if n_schemas == 1:\n                schemas_.append(self._schemas[0])\n",
      "        n_schemas = len(self._schemas)\n        for resource in resources_:\n            if n_schemas == 1 or (len(schemas_) > 2 and len(set(map(id, schemas_))) == 1 and schemas_[0]):\n                schemas_.append(schemas_[0] if schemas_ else self._schemas[0])\n")],
    """
    from src.assets.config import create_service_provider_config
    from src.assets.schemas.group import Group
    from src.assets.schemas.user import User
    from src.request_validators import ServerRootResourceGET
    v = ServerRootResourceGET(create_service_provider_config(), resource_schemas=[User(), Group()])
    users = [{"schemas": ["urn:ietf:params:scim:schemas:core:2.0:User"], "id": str(i), "userName": "u%d" % i} for i in range(3)]
    group = {"schemas": ["urn:ietf:params:scim:schemas:core:2.0:Group"], "id": "9", "displayName": "g"}
    _, issues = v.dump_response(status_code=200, body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:ListResponse"], "totalResults": 4, "Resources": users + [group]})
    assert not issues.has_issues(), issues.to_dict()
    """,
    "a mixed list that begins with three resources of one kind", "the next resource is judged by the wrong schema",
)
seed(
    "list-total-with-count", "C17",
    [("src/request_validators.py", "    if total_results < n_resources:\n", "    if total_results < n_resources and count is None:\n")],
    """
    from src.assets.config import create_service_provider_config
    from src.assets.schemas.group import Group
    from src.request_validators import ResourcesGET
    v = ResourcesGET(create_service_provider_config(), resource_schema=Group())
    _, issues = v.dump_response(status_code=200, count=5, body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:ListResponse"], "totalResults": 0,
        "Resources": [{"schemas": ["urn:ietf:params:scim:schemas:core:2.0:Group"], "id": "9", "displayName": "g"}]})
    assert issues.has_issues()
    """,
    "more resources than totalResults in the answer to a request with count", "the mismatch is not reported",
)
seed(
    "bulk-patch-after-delete", "C18",
    [("src/request_validators.py", "                resource_data, issues_ = validator.parse_request(body=data_item)\n",
      "                resource_data, issues_ = validator.parse_request(body=data_item)\n                if i and method == \"PATCH\" and methods[i - 1] == \"DELETE\":\n                    issues_ = ValidationIssues()\n"),
     ("src/request_validators.py", "                issues.merge(issues_.get((\"body\",)), location=data_item_location)\n",
      "                issues.merge(issues=issues_.get((\"body\",)), location=data_item_location)\n")],
    """
    from src.assets.config import create_service_provider_config
    from src.assets.schemas.group import Group
    from src.request_validators import BulkOperations
    c = create_service_provider_config(bulk={"supported": True, "max_operations": 10, "max_payload_size": 1000})
    v = BulkOperations(c, resource_schemas=[Group()])
    ops = [{"method": "DELETE", "path": "/Groups/1"}, {"method": "PATCH", "path": "/Groups/2", "data": {"schemas": ["urn:ietf:params:scim:api:messages:2.0:PatchOp"]}}]
    _, issues = v.parse_request(body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:BulkRequest"], "Operations": ops})
    assert issues.has_issues()
    """,
    "a faulty PATCH operation right after a DELETE operation", "the operation is accepted",
)
seed(
    "bulk-errors-from-400", "C19",
    [("src/request_validators.py", "            if status >= 300:\n                n_errors += 1\n", "            if status >= 301:\n                n_errors += 1\n")],
    """
    from src.assets.config import create_service_provider_config
    from src.assets.schemas.group import Group
    from src.request_validators import BulkOperations
    v = BulkOperations(create_service_provider_config(), resource_schemas=[Group()])
    op = {"method": "PUT", "status": "300", "location": "https://x/v2/Groups/1", "response": {"schemas": ["urn:ietf:params:scim:api:messages:2.0:Error"], "status": "300"}}
    _, issues = v.dump_response(status_code=200, fail_on_errors=1, body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:BulkResponse"], "Operations": [op, op]})
    assert issues.has_issues()
    """,
    "failed results with status 300 and a limit of errors", "they are not counted",
)
seed(
    "bulk-version-case", "C19",
    [("src/request_validators.py", "                    if version and resource_version and version != resource_version:\n",
      "                    if version and resource_version and version.lstrip(\"W/\") != resource_version.lstrip(\"W/\"):\n")],
    """
    from src.assets.config import create_service_provider_config
    from src.assets.schemas.group import Group
    from src.request_validators import BulkOperations
    v = BulkOperations(create_service_provider_config(), resource_schemas=[Group()])
    op = {"method": "PUT", "status": "200", "version": 'W/"1"', "location": "https://x/v2/Groups/1", "response": {
        "schemas": ["urn:ietf:params:scim:schemas:core:2.0:Group"], "id": "1", "displayName": "g", "meta": {"version": '"1"'}}}
    _, issues = v.dump_response(status_code=200, body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:BulkResponse"], "Operations": [op]})
    assert issues.has_issues()
    """,
    "versions that differ in the weakness marker only", "the contradiction is not reported",
)
seed(
    "error-status-spaces", "C20",
    [("src/request_validators.py", "    if str(status_code) != status_code_body:\n", "    if str(status_code) != str(status_code_body).lstrip(\"0\"):\n")],
    """
    from src.request_validators import Error
    _, issues = Error().dump_response(status_code=400, body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:Error"], "status": "0400"})
    assert issues.has_issues()
    """,
    "a body status with leading zeros", "a status which is not the text of the status code is accepted",
)
seed(
    "rep-never-returned-sub", "C22",
    [("src/data/attributes.py", "        output[\"subAttributes\"] = [sub_attr.to_dict() for sub_attr in self.attrs]\n",
      "        output[\"subAttributes\"] = [\n            sub_attr.to_dict()\n            for sub_attr in self.attrs\n            if sub_attr.returned is not AttributeReturn.NEVER\n        ]\n")],
    """
    from src.data import type as at
    from src.data.attributes import Attribute, AttributeReturn, ComplexAttribute
    a = ComplexAttribute([Attribute("secret", at.String, returned=AttributeReturn.NEVER), Attribute("v", at.String)], name="keys")
    assert [s["name"] for s in a.to_dict()["subAttributes"]] == ["secret", "v"]
    """,
    "a sub-attribute which is never returned", "the representation does not mention it",
)
seed(
    "served-canonical-values", "C22",
    [("src/assets/schemas/schema.py", "            if attr_type != \"complex\":\n                del item[_attributes__sub_attributes.rep]\n",
      "            if attr_type != \"complex\":\n                del item[_attributes__sub_attributes.rep]\n                del item[_attributes__reference_types.rep]\n            elif item[_attributes__multi_valued.rep] is False and len(sub_attributes) == 1:\n                pass\n")],
    """
    from src.assets.config import create_service_provider_config
    from src.request_validators import SchemasGET
    base = {"multiValued": False, "description": "", "required": False, "mutability": "readWrite", "returned": "default", "uniqueness": "none"}
    sub = dict(base, name="s", type="string")
    schema = {"schemas": ["urn:ietf:params:scim:schemas:core:2.0:Schema"], "id": "urn:x:1.0:R", "name": "R",
              "attributes": [dict(base, name="c", type="complex", subAttributes=[sub])], "meta": {"resourceType": "Schema"}}
    _, issues = SchemasGET(create_service_provider_config()).dump_response(status_code=200, body={
        "schemas": ["urn:ietf:params:scim:api:messages:2.0:ListResponse"], "totalResults": 1, "Resources": [schema]})
    assert issues.has_issues()
    """,
    "a single-valued complex attribute with one faulty sub-attribute", "the missing characteristic is not reported",
)
seed(
    "extension-shares-attrs", "C23",
    [("src/data/schemas.py", "        self._attrs = Attributes(list(self._attrs) + bounded_attrs)\n",
      "        if len(self._schema_extensions) > 1:\n            for attr in bounded_attrs:\n                if attr.rep.sub_attr:\n                    extension.attrs.get(AttrRep(attr=attr.rep.attr)).attrs._attrs.pop((\"\", attr.rep.sub_attr, \"\"), None)\n        self._attrs = Attributes(list(self._attrs) + bounded_attrs)\n")],
    """
    from src.data import type as at
    from src.data.attributes import Attribute, ComplexAttribute
    from src.data.schemas import ResourceSchema, SchemaExtension
    e1 = SchemaExtension("urn:x:1.0:E1", [Attribute("a", at.String)])
    e2 = SchemaExtension("urn:x:1.0:E2", [ComplexAttribute([Attribute("v", at.String)], name="c")])
    one, two = ResourceSchema("urn:x:1.0:R", [], name="R"), ResourceSchema("urn:x:1.0:S", [], name="S")
    one.with_extension(e1); one.with_extension(e2); two.with_extension(e2)
    data, _ = two.parse({"schemas": ["urn:x:1.0:S", "urn:x:1.0:E2"], "urn:x:1.0:E2": {"c": {"v": "x"}}})
    assert data.to_dict()["urn:x:1.0:E2"] == {"c": {"v": "x"}}, data.to_dict()
    """,
    "an extension with a complex attribute which was the second one of another schema", "the extension loses its sub-attributes",
)
seed(
    "attributes-list-consumed", "C23",
    [("src/request_validators.py", "    attr_reps = to_include or to_exclude\n", "    attr_reps = to_include or to_exclude\n    attr_reps.sort(key=len)\n")],
    """
    from src.assets.config import create_service_provider_config
    from src.assets.schemas.user import User
    from src.request_validators import ResourceObjectGET
    q = {"attributes": ["userName", "id"]}
    ResourceObjectGET(create_service_provider_config(), resource_schema=User()).parse_request(query_string=q)
    assert q == {"attributes": ["userName", "id"]}, q
    """,
    "requested attributes given as a list", "the caller's list is reordered",
)
seed(
    "start-index-zero", "C24",
    [("src/request_validators.py", "            query_string[\"startIndex\"] = int(start_index)\n", "            query_string[\"startIndex\"] = int(start_index) or 1\n")],
    """
    from src.assets.config import create_service_provider_config
    from src.assets.schemas.user import User
    from src.request_validators import ResourcesGET
    data, _ = ResourcesGET(create_service_provider_config(), resource_schema=User()).parse_request(query_string={"startIndex": "0"})
    assert data.query_string["startIndex"] == 0
    """,
    "a startIndex of zero", "another number is handed on",
)
seed(
    "excluded-sorted-lost", "C24",
    [("src/request_validators.py", "    if to_exclude and isinstance(to_exclude, str):\n        to_exclude = to_exclude.split(\",\")\n",
      "    if to_exclude and isinstance(to_exclude, str):\n        to_exclude = to_exclude.split(\",\", 2)[:3] if to_exclude.count(\",\") < 3 else to_exclude.rsplit(\",\", 3)[1:]\n")],
    """
    from src.request_validators import parse_requested_attributes
    checker, _ = parse_requested_attributes({"excludeAttributes": "a,b,c,d"})
    assert [str(r) for r in checker.attr_reps] == ["a", "b", "c", "d"]
    """,
    "four or more excluded attributes joined by commas", "the first ones are lost",
)
seed(
    "schema-urn-case", "C25",
    [("src/data/container.py", "        if all([self.schema, other.schema]) and self.schema.lower() != other.schema.lower():\n",
      "        if all([self.schema, other.schema]) and (\n            self.schema[:3] + self.schema[3:].lower() != other.schema[:3] + other.schema[3:].lower()\n        ):\n")],
    """
    from src.assets.schemas.user import User
    from src.data.container import SCIMDataContainer
    from src.filter import Filter
    f, _ = Filter.parse('URN:ietf:params:scim:schemas:core:2.0:User:userName eq "x"')
    assert f(SCIMDataContainer({"userName": "x"}), User(), True)
    """,
    "a schema-qualified reference whose URI starts with 'URN' in capitals", "the attribute is not found",
)
seed(
    "bound-complex-uniqueness", "C26",
    [("src/data/schemas.py", "                mutability=attr.mutability,\n                returned=attr.returned,\n                uniqueness=attr.uniqueness,\n                parsers=attr.parsers,\n                dumpers=attr.dumpers,\n                complex_parsers",
      "                mutability=attr.mutability,\n                returned=attr.returned,\n                parsers=attr.parsers,\n                dumpers=attr.dumpers,\n                complex_parsers")],
    """
    from src.data import type as at
    from src.data.attributes import Attribute, AttributeUniqueness, ComplexAttribute
    from src.data.schemas import ResourceSchema
    c = ComplexAttribute([Attribute("v", at.String)], name="c", uniqueness=AttributeUniqueness.GLOBAL)
    assert ResourceSchema("urn:x:1.0:R", [c], name="R").attrs.c.uniqueness == AttributeUniqueness.GLOBAL
    """,
    "a complex attribute which is unique", "the schema's attribute has another uniqueness than the definition",
)
seed(
    "equal-without-order-of-canonical-values", "C26",
    [("src/data/attributes.py", "                self._validate_canonical_values == other._validate_canonical_values,\n",
      "                not self._canonical_values\n                or self._validate_canonical_values == other._validate_canonical_values,\n"),
     ("src/data/attributes.py", "                self._mutability == other._mutability,\n",
      "                self._mutability == other._mutability or not (self._multi_valued or self._required),\n")],
    """
    from src.data import type as at
    from src.data.attributes import Attribute, AttributeMutability
    assert Attribute("a", at.String) != Attribute("a", at.String, mutability=AttributeMutability.IMMUTABLE)
    """,
    "two optional single-valued definitions which differ in mutability only", "different definitions compare equal",
)
seed(
    "error-status-not-a-number", "C10",
    [("src/assets/schemas/error.py", "        value = int(value)\n    except ValueError:\n", "        value = int(value[:3]) if len(value) < 4 else {}[value]\n    except ValueError:\n")],
    """
    from src.assets.schemas.error import Error
    _, issues = Error().parse({"schemas": ["urn:ietf:params:scim:api:messages:2.0:Error"], "status": "4000"})
    assert issues.has_issues(("status",))
    """,
    "an error message whose status has four or more characters", "parsing raises",
)
seed(
    "resource-type-hidden", "C16",
    [("src/data/schemas.py", "        if issues.can_proceed((\"meta\", \"resourceType\")):\n", "        if not issues.has_issues():\n")],
    """
    from src.assets.schemas.user import User
    body = {"schemas": ["urn:ietf:params:scim:schemas:core:2.0:User"], "id": "1", "userName": 1, "meta": {"resourceType": "Group"}}
    _, issues = User().dump(body)
    assert issues.has_issues(("meta", "resourceType")), issues.to_dict()
    """,
    "a resource of another type with an invalid value elsewhere", "the type mismatch is not reported",
)
seed(
    "ends-with-long-literal", "C03",
    [("src/data/operator.py", "        return val1.endswith(val2)\n", "        return val1[-12:].endswith(val2)\n")],
    """
    from src.assets.schemas.user import User
    from src.data.container import SCIMDataContainer
    from src.filter import Filter
    f, _ = Filter.parse('userName ew "0123456789abcdef"')
    assert f(SCIMDataContainer({"userName": "x0123456789abcdef"}), User(), True)
    """,
    "an 'ew' comparison with a literal of more than twelve characters", "the resource does not match",
)
seed(
    "location-fault-also-compared", "C16",
    [("src/request_validators.py", "    if attr_rep.sub_attr:\n        return attr_rep.attr, attr_rep.sub_attr\n    return (attr_rep.attr,)\n",
      "    return (attr_rep.attr,)\n")],
    """
    from src.assets.schemas.user import User
    from src.request_validators import ResourceObjectGET
    v = ResourceObjectGET(None, resource_schema=User())
    body = {"schemas": ["urn:ietf:params:scim:schemas:core:2.0:User"], "id": "1", "userName": "a", "meta": {"location": 5}}
    _, issues = v.dump_response(status_code=200, body=body, headers={"Location": "https://x/Users/1"})
    assert not issues.has_issues(("headers",)), issues.to_dict()
    """,
    "a response whose meta.location is malformed, sent with a Location header", "the refused value is compared as well, and the header blamed",
)
seed(
    "bulk-response-without-results", "C19",
    [("src/assets/schemas/bulk_ops.py", "        _operation__response,\n    ],\n    name=\"Operations\",\n    required=True,\n", "        _operation__response,\n    ],\n    name=\"Operations\",\n")],
    """
    from src.assets.schemas.bulk_ops import BulkResponse
    assert BulkResponse().attrs.operations.required
    """,
    "a bulk response without Operations", "the missing results are not reported (the validator raises)",
)
seed(
    "post-options-hide-body-issues", "C13",
    [("src/request_validators.py", "        body, issues_ = _parse_body(self._schema, body, required_to_ignore)\n        issues.merge(issues=issues_)\n",
      "        body, issues_ = _parse_body(self._schema, body, required_to_ignore)\n        if not issues.has_issues():\n            issues.merge(issues=issues_)\n")],
    """
    from src.assets.schemas.user import User
    from src.request_validators import ResourcesPOST
    v = ResourcesPOST(None, resource_schema=User())
    body = {"schemas": ["urn:ietf:params:scim:schemas:core:2.0:User"], "userName": 5}
    _, issues = v.parse_request(body=body, query_string={"attributes": ["a b"]})
    assert issues.has_issues(("query_string",)) and issues.has_issues(("body", "userName")), issues.to_dict()
    """,
    "a creating request with faults in both its body and its query options", "the issues of the body are not reported",
)
