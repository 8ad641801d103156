"""Error responses."""
import copy

from hypothesis import strategies as st

from src import request_validators as rv
from src.assets import scim_error
from src.assets.schemas.error import Error

from .. import gen
from .. import messages as M
from .. import resmodel as R
from ..harness import call, expect, prop
from ..issues import flat

URN = M.API + "Error"
STATUS_TEXTS = ["400", "404", "409", "500", "300", "599", "299", "600", "200", "204", "0", "-1", "-400", "-404", "0400", " 400", "400 ", "+400", "4e2", "", "x",
                "400.0", "99", "1000", "3OO"]


@st.composite
def bodies(draw):
    code = draw(st.one_of(st.sampled_from([400, 404, 500, 300, 599, 299, 600, 200, 204, 100, 0]), st.integers(-5, 1200), st.integers(300, 599)))
    body = {"schemas": [URN], "status": str(code)}
    how = draw(st.integers(0, 9))
    if how < 2:
        body["status"] = draw(st.one_of(st.sampled_from(STATUS_TEXTS), st.integers(295, 605).map(str), gen.near(str(code)), st.sampled_from([f" {code}", f"{code} ", f"-{code}", f"0{code}", f"{code}.0", f"+{code}"])))
    elif how == 2:
        body["status"] = draw(st.sampled_from([None, 400, code, True, [], {}, 400.0]))
    elif how == 3:
        del body["status"]
    if draw(st.booleans()):
        body["scimType"] = draw(st.one_of(st.sampled_from(M.SCIM_TYPES), st.sampled_from(M.SCIM_TYPES).flatmap(gen.recased),
                                          st.sampled_from(["", "nope", "invalidFilter ", "invalid", None, 5, []])))
    if draw(st.booleans()):
        body["detail"] = draw(st.one_of(gen.any_text(8), st.sampled_from([None, 5, [], {}])))
    if draw(st.integers(0, 5)) == 0:
        body["schemas"] = draw(st.sampled_from([None, [], [URN.upper()], ["urn:x:y"], [URN, "urn:x:y"], 5, [5]]))
    if draw(st.integers(0, 9)) == 0:
        del body["schemas"]
    if draw(st.integers(0, 4)) == 0:
        body["extra"] = draw(gen.json_scalars)
    if draw(st.integers(0, 4)) == 0:
        body = {draw(gen.recased(k)): v for k, v in body.items()}
    if draw(st.integers(0, 24)) == 0:
        body = draw(st.sampled_from([None, 5, "x", [], True]))
    return {"code": code, "body": body, "headers": draw(st.sampled_from([None, {}, {"Location": "x"}]))}


def own_issues(body):
    """Issues of the body by itself: {location: codes}"""
    low = {k.lower(): v for k, v in body.items()}
    out = {}
    s = low.get("schemas")
    if s is None or s == []:
        out[("schemas",)] = [15]
    elif not isinstance(s, list):
        out[("schemas",)] = [2]
    else:
        for i, x in enumerate(s):
            if not isinstance(x, str):
                out[("schemas", str(i))] = [2]
        texts = [x.lower() for x in s if isinstance(x, str)]
        codes = ([27] if any(x != URN.lower() for x in texts) else []) + ([28] if URN.lower() not in texts else [])
        if codes:
            out[("schemas",)] = codes
    kind = low.get("scimtype")
    if kind is not None:
        if not isinstance(kind, str):
            out[("scimType",)] = [2]
        elif kind.lower() not in [t.lower() for t in M.SCIM_TYPES]:
            out[("scimType",)] = [14]
    detail = low.get("detail")
    if detail is not None and not isinstance(detail, str):
        out[("detail",)] = [2]
    status = low.get("status")
    if status is None or status == "":
        out[("status",)] = [15]
    elif not isinstance(status, str):
        out[("status",)] = [2]
    return out, status


@prop(
    "C20", bodies(), quick=4000,
    rule="error responses with statuses around and beyond the error range, body status equal or not, missing or malformed members, any "
         "case: issues equal a reference, body handed on unchanged exactly without issues; non-trivial = object body",
)
def error_responses(case, rec):
    code, body = case["code"], case["body"]
    data, issues = call(rv.Error().dump_response, status_code=code, body=copy.deepcopy(body), headers=case["headers"])
    found = flat(issues)
    what = f"error {code} {body!r}"
    want = {}
    if not 300 <= code <= 599:
        want[("status",)] = [12]
    if not isinstance(body, dict):
        want[("body",)] = [15 if body is None else 2]
    else:
        rec.hit(what)
        own, status = own_issues(body)
        for loc, codes in own.items():
            want[("body",) + loc] = list(codes)
        if ("status",) not in own or status == "":
            if status != str(code):
                if status != "":
                    want.setdefault(("body", "status"), []).append(13)
                    want.setdefault(("status",), []).append(13)
    want = {k: sorted(v) for k, v in want.items()}
    for codes in want.values():
        for c in codes:
            rec.tag(f"code {c}")
    expect(found == want, "{}: issues {}, expected {}", what, found, want)
    if want:
        expect(data.body is None, "{}: handed on {!r} despite {}", what, data.body, found)
        return
    rec.tag("accepted")
    names = ["schemas", "status", "scimType", "detail"]
    expected = {n: R.lookup(body, n)[0] for n in names if R.lookup(body, n)[1]}
    d = R.diff(R.plain(data.body), expected)
    expect(d is None, "{}: {}", what, d)


@prop(
    "C20", st.one_of(st.sampled_from(STATUS_TEXTS), st.integers(-10, 1300).map(str), gen.any_text(5)), quick=1500,
    rule="errors received with any status text: read as its number exactly if it is one of an error (300 to 599); non-trivial = a number",
)
def received_errors(text, rec):
    body = {"schemas": [URN], "status": text}
    out, issues = call(Error().parse, copy.deepcopy(body))
    found = flat(issues)
    try:
        number = int(text)
    except ValueError:
        number = None
    if number is not None:
        rec.hit(repr(text))
        want = {} if 300 <= number <= 599 else {("status",): [12]}
    else:
        want = {("status",): [12]}
    expect(found == want, "status {!r}: issues {}, expected {}", text, found, want)
    if not want:
        got = R.plain(out).get("status")
        expect(got == number, "status {!r} read as {!r}", text, got)


PREDEFINED = ["INVALID_FILTER", "TOO_MANY", "UNIQUENESS", "MUTABILITY", "INVALID_SYNTAX", "INVALID_PATH", "NO_TARGET", "INVALID_VALUE",
              "INVALID_VERS", "SENSITIVE"]


@prop("C20", st.sampled_from(PREDEFINED), quick=60,
      rule="every predefined error: its type is the RFC's, and it is accepted with its own status; non-trivial = all")
def predefined_errors(name, rec):
    rec.hit(name)
    body = dict(getattr(scim_error, name), schemas=[URN])
    parts = name.lower().split("_")
    expect(body["scimType"] == parts[0] + "".join(p.title() for p in parts[1:]), "{} has type {!r}", name, body["scimType"])
    data, issues = call(rv.Error().dump_response, status_code=int(body["status"]), body=copy.deepcopy(body))
    expect(not flat(issues) and R.plain(data.body) == body, "{}: {} {!r}", name, flat(issues), data.body)
