"""Plain-data <-> JSON codec for replay files (keeps nan/inf, tuples, datetimes, non-str keys)."""
import json
import math
from datetime import datetime


def encode(value):
    if value is None or isinstance(value, (bool, str)):
        return value
    if isinstance(value, int):
        return value
    if isinstance(value, float):
        if math.isnan(value) or math.isinf(value):
            return {"$float": repr(value)}
        return value
    if isinstance(value, tuple):
        return {"$tuple": [encode(v) for v in value]}
    if isinstance(value, list):
        return [encode(v) for v in value]
    if isinstance(value, (set, frozenset)):
        return {"$set": [encode(v) for v in sorted(value, key=repr)]}
    if isinstance(value, datetime):
        return {"$datetime": value.isoformat()}
    if isinstance(value, dict):
        if all(isinstance(k, str) and not k.startswith("$") for k in value):
            return {k: encode(v) for k, v in value.items()}
        return {"$dict": [[encode(k), encode(v)] for k, v in value.items()]}
    raise TypeError(f"case contains a non-plain value: {type(value).__name__}")


def decode(value):
    if isinstance(value, list):
        return [decode(v) for v in value]
    if isinstance(value, dict):
        if len(value) == 1:
            ((k, v),) = value.items()
            if k == "$float":
                return float(v)
            if k == "$tuple":
                return tuple(decode(x) for x in v)
            if k == "$set":
                return {decode(x) for x in v}
            if k == "$datetime":
                return datetime.fromisoformat(v)
            if k == "$dict":
                return {decode(a): decode(b) for a, b in v}
        return {k: decode(v) for k, v in value.items()}
    return value


def dumps(value, **kw):
    return json.dumps(encode(value), **kw)


def loads(text):
    return decode(json.loads(text))
