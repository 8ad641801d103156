"""Shared generators: names, URNs, text, JSON values, scalar values by SCIM type."""
import base64
import copy
import string
from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

CORE_URNS = [
    "urn:ietf:params:scim:schemas:core:2.0:User",
    "urn:ietf:params:scim:schemas:extension:enterprise:2.0:User",
    "urn:example:2.0:Thing",
    "urn:acme-corp:scim:my.ext:1.0:Thing",
    "urn:this-and-that:or:not:1.0:X",
]

ATTR_NAMES = [
    "userName", "title", "emails", "name", "id", "a", "b", "x1", "order", "android", "notes",
    "nothing", "active", "eq", "pr", "value", "type", "a_b", "Z", "externalId", "truename",
    "nullable", "displayName", "meta", "preferredContactChannels", "x509CertificatesOfTheOwner", "description_of_the_post_2",
]

SUB_NAMES = ["value", "type", "primary", "familyName", "b", "or_1", "notx", "$ref", "display", "longDescriptionOfTheItem"]


@st.composite
def fresh_names(draw, known, subs=False, size=18):
    """Attribute names: mostly from `known`, sometimes made up (1 to `size` characters)."""
    if draw(st.integers(0, 3)):
        return draw(st.sampled_from(known))
    first = draw(st.sampled_from(string.ascii_letters))
    rest = draw(st.text(alphabet=string.ascii_letters + string.digits + "_", max_size=size))
    name = first + rest
    # an attribute named like a logical operator makes a filter ambiguous
    return name + "x" if name.lower() in ("and", "or", "not") else name


@st.composite
def near(draw, text):
    """`text`, or something which is nearly, but not quite, the same."""
    how = draw(st.integers(0, 12))
    if how <= 1 or not text:
        return text if how else text + "x"
    i = draw(st.integers(0, len(text) - 1))
    if how >= 10:  # other punctuation
        marks = [k for k, ch in enumerate(text) if not ch.isalnum()]
        if not marks:
            return text + draw(st.sampled_from(["?x=1", "#f", "/", ".", "-"]))
        i = draw(st.sampled_from(marks))
        return text[:i] + draw(st.sampled_from(["", "-", "_", ".", ":", "/", " "])) + text[i + 1:]
    return [
        text.swapcase(), text + " ", " " + text, text + text[-1], text[:-1], text[:i] + text[i].swapcase() + text[i + 1:],
        text[:i] + text[i + 1:], text[1:],
    ][how - 2]


@st.composite
def pick(draw, *options):
    """One of the strategies, each as likely as the others (st.one_of gives the parts of a nested one_of a share of their own)."""
    return draw(options[draw(st.integers(0, len(options) - 1))])


@st.composite
def listed(draw, items, max_size=3, long=7):
    """Lists, mostly short; one in `long` has one of its items repeated up front, so that the others come late."""
    out = draw(st.lists(items, max_size=max_size))
    if out and draw(st.integers(0, long - 1)) == 0:
        i = draw(st.integers(0, len(out) - 1))
        out = [copy.deepcopy(out[i]) for _ in range(draw(st.sampled_from([1, 3, 5, 8, 11, 20])))] + out
    return out


versions = st.sampled_from(['W/"1"', '"1"', 'W/"2"', 'w/"1"', 'W/"1" ', "v1", "V1", "v2", "v10", "1", "01", 'W/"a330bc54f0671c9"', 'W/"A330BC54F0671C9"'])


@st.composite
def recased(draw, text):
    """A random upper/lower-case variant of text, often the text itself."""
    how = draw(st.integers(0, 5))
    if how <= 3:
        return text if how <= 1 else text.upper() if how == 2 and len(text.upper()) == len(text) else text.lower()
    mask = draw(st.integers(0, 2 ** min(len(text), 24) - 1))
    out = []
    for i, ch in enumerate(text):
        out.append(ch.swapcase() if mask >> (i % 24) & 1 else ch)
    return "".join(out)


def recase_by_mask(text, mask):
    return "".join(
        ch.swapcase() if mask >> (i % 24) & 1 else ch for i, ch in enumerate(text)
    )


PRINTABLE = string.ascii_letters + string.digits + " .,:;-_@/+*!?&|<>=~^%$#{}()[]\t\n"

nasty_fragments = st.sampled_from(
    [
        " and ", " or ", "not ", "(", ")", "[", "]", "()", "[]", "a eq 1", "pr", "|&PLACE_HOLDER_0&|",
        "|&PLACE_HOLDER_5&|", "ż", "ß", "İ", "ſ", "K", "中", "e\u0301", " ", "  ", "\t", "\n", "0", "true",
        "null", "urn:x:y", ".", ":", "-", "$ref", "{}", "%", "'", '"', "\u00a0", "work", "A", "z",
    ]
)


def plain_text(max_size=12):
    return st.text(alphabet=PRINTABLE, max_size=max_size)


def any_text(max_size=14):
    return st.one_of(
        st.text(alphabet=PRINTABLE + "'\"\\", max_size=max_size),
        st.text(max_size=max_size),
        st.lists(nasty_fragments, max_size=4).map("".join),
    )


words = st.sampled_from(
    ["bjensen", "Bjensen", "BJENSEN", "alice", "Alice", "bob", "Bob", "b", "B", "work", "home",
     "WORK", "x", "", "zed", "Zed", "10", "9", "é", "É", "a b", "a_b", "A_B"]
)

long_text = st.one_of(
    st.sampled_from(["bjensen@example.com", "Babs Jensen-Østergård", "x" * 64, "X" * 64, "x" * 63 + "y", "a" * 300, "tour-guide.of/the year 2024"]),
    st.text(alphabet=PRINTABLE, min_size=20, max_size=60),
)

# --- scalar values by SCIM type name used in specs ---------------------------------------------

ints = st.one_of(st.integers(-5, 5), st.integers(-(2**70), 2**70))
floats = st.one_of(
    st.sampled_from([0.0, 1.0, -1.5, 2.25, 1e10, -3.0, 1.01, 1.04, 0.251, 0.252, 1e-9, 2e-9, 1000000.25, 1000000.5]),
    st.floats(allow_nan=False, allow_infinity=False),
)


@st.composite
def iso_datetimes(draw):
    base = draw(
        st.datetimes(min_value=datetime(1971, 1, 1), max_value=datetime(2037, 12, 31))
    )
    # neighbours of round values: whole seconds, milliseconds, minutes, hours, days
    how = draw(st.integers(0, 5))
    if how <= 2:
        base = base.replace(microsecond=0)
    elif how == 3:
        base = base.replace(microsecond=draw(st.sampled_from([1000, 500000, 999000, 10, 1, 999999, 120000])))
    round_ = draw(st.integers(0, 7))
    if round_ == 0:
        base = base.replace(second=0)
    elif round_ == 1:
        base = base.replace(second=0, minute=0)
    elif round_ == 2:
        base = base.replace(second=0, minute=0, hour=0)
    tz = draw(st.sampled_from([None, 0, 60, -330, 840, -720, 765]))
    if tz is not None:
        base = base.replace(tzinfo=timezone(timedelta(minutes=tz)))
    return base


@st.composite
def b64(draw, max_size=9, min_size=0):
    return base64.b64encode(draw(st.binary(min_size=min_size, max_size=max_size))).decode()


urls = st.builds(
    "{}://{}{}".format,
    st.sampled_from(["http", "https", "ftp", "HTTPS", "x", "ws", "git+ssh"]),
    st.sampled_from(["a.example", "example.com", "[::1]", "u:p@h:80", "x"]),
    st.sampled_from(["", "/", "/Users/1", "/p?q=1#f"]),
)

not_urls = st.sampled_from(
    ["", "abc", "/Users/1", "http:", "http://", "//example.com/x", "example.com/x", "urn:a:b",
     "mailto:x@y", "http:///x", "http:////x", "file:///etc/x", "x:////y", "ws://", "http://[::1", ":", "://x"]
)

uris = st.one_of(urls, st.sampled_from(["/Users/1", "urn:a:b", "../Users/26118915", "x"]))

# --- arbitrary JSON ------------------------------------------------------------------------------

json_scalars = st.one_of(
    st.none(),
    st.booleans(),
    ints,
    st.floats(),
    st.sampled_from(["", "abc", "value", "é中", "2020-01-01T00:00:00Z", "YWJj", "http://x/y", "200"]),
    any_text(8),
    st.just(10**400),
)


def json_values(keys=None, max_leaves=10):
    keys = keys if keys is not None else st.one_of(
        st.sampled_from(["", "value", "type", "$ref", "a.b", "urn:x:y", "id", "a b", "schemas"]),
        any_text(5),
    )
    return st.recursive(
        json_scalars,
        lambda c: st.one_of(
            st.lists(c, max_size=4),
            st.dictionaries(keys, c, max_size=4),
        ),
        max_leaves=max_leaves,
    )
