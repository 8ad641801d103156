"""Reading issue collections through their public dictionary form."""
from .harness import call


def flat(issues):
    """{location tuple of strings: sorted codes}"""
    out = {}

    def walk(node, at):
        for k, v in node.items():
            if k == "_errors" and isinstance(v, list):
                out[at] = sorted(e["code"] for e in v)
            else:
                walk(v, at + (k,))

    walk(call(issues.to_dict), ())
    return out


def below(flat_issues, prefix):
    prefix = tuple(prefix)
    return {k[len(prefix):]: v for k, v in flat_issues.items() if k[: len(prefix)] == prefix}
