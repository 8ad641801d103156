"""Sensitivity measurement: small systematic changes of /repo/src which the repository's tests do not notice.

mutants.py make DIR            write DIR/mutants.json: every single-point change (file, line, what, new source kept in DIR/src/N.py)
mutants.py tests DIR           keep the ones under which the repository's tests still pass (in copies of /repo, 8 at a time)
mutants.py checks DIR [--scale X] [--only FILE] [--near] [--every]   run the checks on those (first the ones that lie near), until one reports a violation

Works only on copies below DIR (outside /repo and /verif).
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.And: ast.Or, ast.Or: ast.And}
NAMES = {"any": "all", "all": "any", "min": "max", "max": "min"}


def variants(node, parent):
    """(description, replacement node) for one node."""
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            if type(op) in SWAP:
                new = copy.deepcopy(node)
                new.ops[i] = SWAP[type(op)]()
                yield f"{type(op).__name__}->{SWAP[type(op)].__name__}", new
    elif isinstance(node, ast.BoolOp):
        new = copy.deepcopy(node)
        new.op = SWAP[type(node.op)]()
        yield "and<->or", new
        for i in range(len(node.values)):
            new = copy.deepcopy(node)
            del new.values[i]
            yield f"drop operand {i}", new if len(new.values) > 1 else new.values[0]
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "drop not", node.operand
    elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
        for v in (True, False):
            if isinstance(node, ast.While) and v:
                continue
            new = copy.deepcopy(node)
            new.test = ast.Constant(v)
            yield f"condition {v}", new
    elif isinstance(node, ast.BinOp) and type(node.op) in SWAP:
        new = copy.deepcopy(node)
        new.op = SWAP[type(node.op)]()
        yield "+<->-", new
    elif isinstance(node, ast.Constant) and not isinstance(parent, (ast.Expr, ast.JoinedStr, ast.FormattedValue)):
        if isinstance(node.value, bool):
            yield "flip", ast.Constant(not node.value)
        elif isinstance(node.value, int):
            yield "+1", ast.Constant(node.value + 1)
        elif isinstance(node.value, str) and len(node.value) < 40:
            yield "text", ast.Constant(node.value + "X")
        elif node.value is None:
            yield "none->0", ast.Constant(0)
    elif isinstance(node, ast.Call):
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("lower", "strip", "copy") and not node.args:
            yield "drop ." + node.func.attr, node.func.value
        if isinstance(node.func, ast.Name) and node.func.id in NAMES:
            new = copy.deepcopy(node)
            new.func.id = NAMES[node.func.id]
            yield "any<->all", new
        if isinstance(node.func, ast.Name) and node.func.id in ("sorted", "reversed", "list", "deepcopy") and len(node.args) == 1:
            yield "drop " + node.func.id, node.args[0]
        for i, k in enumerate(node.keywords):
            if k.arg and k.arg not in ("description",):
                new = copy.deepcopy(node)
                del new.keywords[i]
                yield "drop argument " + k.arg, new
    elif isinstance(node, ast.Continue):
        yield "continue->break", ast.Break()
        yield "continue->pass", ast.Pass()
    elif isinstance(node, ast.Break):
        yield "break->continue", ast.Continue()
        yield "break->pass", ast.Pass()
    elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        yield "drop call", ast.Pass()
    elif isinstance(node, ast.AugAssign):
        yield "drop", ast.Pass()
    elif isinstance(node, ast.Raise):
        yield "drop raise", ast.Pass()
    elif isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
        yield "return None", ast.Return(ast.Constant(None))
    elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        yield "drop slice", node.value
    elif isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id.startswith("Attribute"):
        other = {"READ_ONLY": "READ_WRITE", "READ_WRITE": "READ_ONLY", "WRITE_ONLY": "READ_WRITE", "IMMUTABLE": "READ_WRITE", "ALWAYS": "DEFAULT",
                 "NEVER": "DEFAULT", "DEFAULT": "ALWAYS", "SERVER": "CLIENT", "CLIENT": "SERVER", "NOT_SPECIFIED": "SERVER", "BOTH": "SERVER"}.get(node.attr)
        if other:
            yield f"{node.attr}->{other}", ast.Attribute(node.value, other, ast.Load())


def sites(tree):
    out = []

    def walk(node, parent):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            skip = {id(d) for d in getattr(node, "decorator_list", [])}
            if isinstance(node, ast.FunctionDef) and node.returns is not None:
                skip.add(id(node.returns))
        else:
            skip = set()
        for field, value in ast.iter_fields(node):
            if field == "annotation":
                continue
            items = value if isinstance(value, list) else [value]
            for i, child in enumerate(items):
                if isinstance(child, ast.AST) and id(child) not in skip:
                    for desc, new in variants(child, node):
                        out.append((node, field, i if isinstance(value, list) else None, child, desc, new))
                    walk(child, node)

    walk(tree, None)
    return out


def make(where):
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(os.path.join(where, "src"))
    found = []
    files = subprocess.check_output(["git", "-C", REPO, "ls-files", "src"], text=True).split()
    for path in files:
        source = open(os.path.join(REPO, path)).read()
        tree = ast.parse(source)
        for node, field, i, child, desc, new in sites(tree):
            ast.copy_location(new, child)
            if i is None:
                setattr(node, field, new)
            else:
                getattr(node, field)[i] = new
            try:
                text = ast.unparse(ast.fix_missing_locations(tree))
            finally:
                if i is None:
                    setattr(node, field, child)
                else:
                    getattr(node, field)[i] = child
            n = len(found)
            with open(f"{where}/src/{n}.py", "w") as f:
                f.write(text)
            found.append({"n": n, "file": path, "line": getattr(child, "lineno", 0), "what": desc,
                          "old": ast.unparse(child).split("\n")[0][:150]})
    json.dump(found, open(f"{where}/mutants.json", "w"), indent=0)
    print(len(found))


def pool(where, items, work, name, n=8):
    boxes = Queue()
    for k in range(n):
        box = f"{where}/box{k}"
        shutil.rmtree(box, ignore_errors=True)
        os.makedirs(box)
        subprocess.check_call(["git", "clone", "-q", "--no-hardlinks", REPO, box + "/repo"])
        subprocess.check_call(["git", "clone", "-q", "--no-hardlinks", VERIF, box + "/verif"])
        boxes.put(box)
    results = []

    def one(m):
        box = boxes.get()
        target = f"{box}/repo/{m['file']}"
        original = open(target).read()
        try:
            shutil.copy(f"{where}/src/{m['n']}.py", target)
            results.append(work(m, box))
        finally:
            open(target, "w").write(original)
            boxes.put(box)
        if len(results) % 50 == 0:
            print(len(results), "of", len(items), flush=True)
            json.dump(results, open(f"{where}/{name}.json", "w"), indent=0)

    with ThreadPoolExecutor(n) as ex:
        for r in [ex.submit(one, m) for m in items]:
            r.result()
    json.dump(results, open(f"{where}/{name}.json", "w"), indent=0)
    for k in range(n):
        shutil.rmtree(f"{where}/box{k}", ignore_errors=True)
    return results


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache", PYTHONHASHSEED="0")


def tests(where):
    def work(m, box):
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "tests"],
                               cwd=box + "/repo", env=ENV, capture_output=True, text=True, timeout=120)
            ok = r.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        return dict(m, passed=ok)

    out = pool(where, json.load(open(f"{where}/mutants.json")), work, "tested")
    print("pass the tests:", sum(m["passed"] for m in out), "of", len(out))


NEAR = {
    "src/attributes_presence.py": "C12 C24 C16 C17 C14", "src/request_validators.py": "C14 C15 C16 C17 C18 C19 C20 C24 C13 C22 C23 C25",
    "src/assets/schemas/error.py": "C20 C10", "src/assets/schemas/bulk_ops.py": "C18 C19 C10", "src/assets/schemas/schema.py": "C22 C10",
    "src/assets/schemas/patch_op.py": "C15 C10", "src/assets/schemas/service_provider_config.py": "C22 C09",
    "src/assets/schemas/search_request.py": "C24 C10", "src/assets/schemas/list_response.py": "C17 C10",
    "src/assets/schemas/resource_type.py": "C22 C09", "src/assets/schemas/user.py": "C22 C09 C14", "src/assets/schemas/group.py": "C22 C09",
    "src/assets/config.py": "C22", "src/assets/scim_error.py": "C20", "src/error.py": "C21", "src/sorter.py": "C04", "src/data/container.py": "C05 C06",
    "src/data/path.py": "C07", "src/data/schemas.py": "C26 C11 C09 C22 C06 C23", "src/data/attributes.py": "C26 C08 C09 C12 C22 C23", "src/data/operator.py": "C03 C01",
    "src/data/type.py": "C08 C22", "src/filter.py": "C01 C02 C03 C07", "src/utils.py": "C05 C03 C25",
}
ALL = [f"C{i:02d}" for i in range(1, 27)]


def checks(where, scale, only, every, near_only):
    def work(m, box):
        near = NEAR.get(m["file"], "").split()
        hits = []
        for c in near + ([] if near_only else [c for c in ALL if c not in near]):
            try:
                r = subprocess.run([f"{box}/verif/check", c, "--scale", str(scale), "--jobs", "1"], env=dict(ENV, VERIF_REPO=box + "/repo", VERIF_SEED="1"),
                                   capture_output=True, text=True, timeout=900)
                if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                    hits.append(c)
                elif r.returncode != 0:
                    hits.append(f"{c}?{r.returncode}")
            except subprocess.TimeoutExpired:
                hits.append(c + "?timeout")
            if any("?" not in h for h in hits) and not every:
                break
        return dict(m, hits=hits)

    # the files with the most logic first
    order = ["src/error", "src/data", "src/filter", "src/sorter", "src/utils", "src/attributes", "src/request", "src/assets"]
    todo = [m for m in json.load(open(f"{where}/tested.json")) if m["passed"] and (not only or only in m["file"])]
    done = set(json.load(open(f"{where}/done.json"))) if os.path.exists(f"{where}/done.json") else set()
    todo = [m for m in todo if m["n"] not in done]
    todo.sort(key=lambda m: ([m["file"].startswith(o) for o in order].index(True), m["n"]))
    out = pool(where, todo, work, "checked" + (("-" + only.replace("/", "_")) if only else ""))
    missed = [m for m in out if not any("?" not in h for h in m["hits"])]
    print("caught", len(out) - len(missed), "of", len(out))
    for m in sorted(missed, key=lambda m: (m["file"], m["line"])):
        print(m["n"], m["file"], m["line"], m["what"], "|", m["old"], m["hits"])


if __name__ == "__main__":
    what, where = sys.argv[1:3]
    arg = lambda name, default: sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default  # noqa: E731
    if what == "make":
        make(where)
    elif what == "tests":
        tests(where)
    else:
        checks(where, float(arg("--scale", "0.4")), arg("--only", None), "--every" in sys.argv, "--near" in sys.argv)
