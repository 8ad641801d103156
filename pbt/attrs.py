"""Reference reading of attribute references: [schema-uri:]name[.sub]."""


def is_word(text):
    return bool(text) and all(c.isalnum() or c == "_" for c in text)


def is_name(text):
    return is_word(text) or text.lower() == "$ref"


def is_segment(text):
    return bool(text) and all(c.isalnum() or c in "_.-" for c in text)


def parse_ref(text):
    """(schema, attr, sub) or None when the text is no attribute reference."""
    head, colon, tail = text.rpartition(":")
    if colon and not all(is_segment(s) for s in head.split(":")):
        return None
    parts = tail.split(".")
    if len(parts) > 2 or not all(is_name(p) for p in parts):
        return None
    return head, parts[0], parts[1] if len(parts) == 2 else ""
