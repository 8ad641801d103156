"""Reference judgement of scalar values by SCIM type, independent of the code under test."""
import math
import string
from datetime import datetime

from src.data.container import SCIMDataContainer

B64 = string.ascii_uppercase + string.ascii_lowercase + string.digits + "+/"


class Unspecified(Exception):
    pass


def is_b64(text):
    """Canonical RFC 4648 base 64 with padding."""
    if len(text) % 4:
        return False
    body = text.rstrip("=")
    pad = len(text) - len(body)
    if pad > 2 or any(c not in B64 for c in body):
        return False
    if pad == 1:
        return B64.index(body[-1]) % 4 == 0
    if pad == 2:
        return B64.index(body[-1]) % 16 == 0
    return True


GOOD_SCHEMES = ("http://", "https://", "ftp://", "x://", "ws://", "git+ssh://", "file://")


def is_url(text):
    low = text.lower()
    for scheme in GOOD_SCHEMES:
        if low.startswith(scheme):
            rest = text[len(scheme):]
            host = rest
            for sep in "/?#":
                host = host.split(sep, 1)[0]
            if "[" in host or "]" in host:
                if host.startswith("[::1]") and "[" not in host[1:]:
                    return True
                if host == "[::1":
                    return False
                raise Unspecified
            if not host:
                return False
            if host.isascii() and all(c.isalnum() or c in ".-:@_" for c in host):
                return True
            raise Unspecified
    if "://" not in text:
        return False
    if text.startswith(("://", "/", "?", "#")):
        return False
    raise Unspecified


def judge(t, value, direction):
    """("ok", result) or ("bad", code)"""
    if t in ("string", "uri", "scim"):
        return ("ok", value) if isinstance(value, str) else ("bad", 2)
    if t == "boolean":
        return ("ok", value) if isinstance(value, bool) else ("bad", 2)
    if t == "integer":
        if isinstance(value, bool):
            return "bad", 2
        if isinstance(value, int):
            return "ok", value
        if isinstance(value, float) and math.isfinite(value) and value == math.floor(value):
            return "ok", int(value)
        return "bad", 2
    if t == "decimal":
        if isinstance(value, bool):
            return "bad", 2
        if isinstance(value, float):
            if not math.isfinite(value):
                raise Unspecified
            return "ok", value
        if isinstance(value, int):
            try:
                return "ok", float(value)
            except OverflowError:
                return "bad", None
        return "bad", 2
    if t == "binary":
        if not isinstance(value, str):
            return "bad", 2
        return ("ok", value) if is_b64(value) else ("bad", 3)
    if t == "external":
        if not isinstance(value, str):
            return "bad", 2
        return ("ok", value) if is_url(value) else ("bad", 8)
    if t == "dateTime":
        if direction == "dump":
            return ("ok", ISO(value)) if isinstance(value, datetime) else ("bad", 2)
        if not isinstance(value, str):
            return "bad", 2
        parsed = read_datetime(value)
        return ("bad", 1) if parsed is None else ("ok", parsed)
    if t == "complex":
        return ("ok", value) if isinstance(value, SCIMDataContainer) else ("bad", 2)
    raise AssertionError(t)


class ISO:
    """Any text that reads back as this moment."""

    def __init__(self, dt):
        self.dt = dt

    def __repr__(self):
        return f"<text of {self.dt!r}>"

    def matches(self, text):
        return isinstance(text, str) and "T" in text and datetime.fromisoformat(text) == self.dt


def read_datetime(text):
    """The moment, None for clearly malformed text; the common extended form only."""
    import re

    m = re.fullmatch(
        r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d{3}|\.\d{6})?(Z|[+-]\d\d:\d\d)?", text, flags=re.ASCII
    )
    if m is None:
        digits = sum(c.isdigit() for c in text)
        if digits < 7 or not text.isascii():
            return None
        if any(c in text for c in "/_;") or "  " in text:
            return None
        raise Unspecified
    try:
        return datetime.fromisoformat(text)
    except ValueError:
        return None


def same(got, want):
    if isinstance(want, ISO):
        return want.matches(got)
    if isinstance(want, (bool, int, float, str)) or want is None:
        return type(got) is type(want) and got == want
    return got == want
