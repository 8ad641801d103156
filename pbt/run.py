"""Command line: python -m pbt.run <property> [--replay FILE] [--tests a,b] [--scale X]

exit 0: held on everything explored; 1: VIOLATION printed; 2: error of the check itself.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import codec
from .harness import TESTS, Rec, Violation, run_batch, run_case

ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.json")
LEVEL = "exploration"
DEADLINE = {"quick": 300.0, "thorough": 3000.0}
EFFORT = {"quick": 2.0, "thorough": 1.0}  # times the number of cases each test asks for


def _worker_init():
    import signal

    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _job(args):
    return run_batch(*args)


def load(prop_id):
    importlib.import_module(f"pbt.props.{prop_id.lower()}")


def replay_one(prop_id, test_name, case):
    import signal

    from .harness import _alarm

    signal.signal(signal.SIGALRM, _alarm)
    try:
        run_case(TESTS[prop_id][test_name], case, Rec(0))
    except Violation as e:
        return str(e)
    return None


def write_evidence(prop_id, tier, seed, tests, agg, wall, violations, known):
    os.makedirs(EVIDENCE, exist_ok=True)
    rule = "; ".join(f"[{t.name}] {t.rule}" for t in tests if t.rule)
    samples = []
    for t in tests:
        for s in agg[t.name]["samples"][:3]:
            samples.append({"test": t.name, "case": s})
    doc = {
        "property": prop_id,
        "tier": tier,
        "seed": seed,
        "level": LEVEL,
        "coverage": {
            "evaluations": sum(a["evaluations"] for a in agg.values()),
            "distinct_nontrivial": sum(len(a["nontrivial"]) for a in agg.values()),
            "rule": rule,
            "samples": samples,
            "per_test": {
                t.name: {
                    "evaluations": agg[t.name]["evaluations"],
                    "distinct_nontrivial": len(agg[t.name]["nontrivial"]),
                    "tags": dict(sorted(agg[t.name]["tags"].items())),
                }
                for t in tests
            },
            "known_findings_reproduced": known,
        },
        "assumptions": [
            "generated inputs are plain JSON-like data within the size bounds of the generators",
            "the oracle models in /verif/pbt state the intended behaviour",
        ],
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    path = os.path.join(EVIDENCE, f"{prop_id}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(path + ".tmp", path)


def save_replay(prop_id, res):
    d = os.path.join(EVIDENCE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop_id}-{res['test']}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop_id,
                "test": res["test"],
                "message": res["msg"],
                "case": codec.encode(res["case"]),
            },
            f,
            indent=1,
        )
    return path


def self_test():
    """Everything needed is importable and every generator produces cases."""
    folder = os.path.join(ROOT, "pbt", "props")
    for name in sorted(os.listdir(folder)):
        if name.startswith("c") and name.endswith(".py"):
            load(name[:-3].upper())
    n = 0
    for tests in TESTS.values():
        for t in tests.values():
            t.get_strategy()
            n += 1
    print(f"{len(TESTS)} properties, {n} tests importable")
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--tests")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    args = ap.parse_args(argv)
    if args.self_test:
        return self_test()
    prop_id = args.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in DEADLINE:
        tier = "quick"
    started = time.time()
    load(prop_id)

    if args.replay:
        with open(args.replay) as f:
            doc = json.load(f)
        msg = replay_one(prop_id, doc["test"], codec.decode(doc["case"]))
        if msg is None:
            print(f"replay {args.replay}: property held")
            return 0
        print(f"replay {args.replay}: {msg}")
        print(f"VIOLATION property={prop_id} replay={args.replay}")
        return 1

    tests = list(TESTS[prop_id].values())
    if args.tests:
        tests = [t for t in tests if t.name in args.tests.split(",")]

    known = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for item in json.load(f)["findings"]:
                if item["property"] != prop_id or item["status"] != "known":
                    continue
                msg = replay_one(prop_id, item["test"], codec.decode(item["case"]))
                if msg is not None:
                    print(f"KNOWN-FINDING: property={prop_id} {item['what']}")
                    known.append(item["what"])

    jobs = []
    for t in tests:
        if t.examples:
            jobs.append((0.0, (prop_id, t.name, seed, -1, 0)))
        total = int((t.quick if tier == "quick" else t.thorough) * EFFORT[tier] * args.scale)
        n_batches = max(1, -(-total // t.batch))
        for i in range(n_batches):
            n = min(t.batch, total - i * t.batch)
            jobs.append(((i + 1) / n_batches, (prop_id, t.name, seed, i, max(n, 1))))
    jobs.sort(key=lambda j: j[0])  # interleave the tests so a deadline cuts them all alike

    agg = {
        t.name: {
            "evaluations": 0, "nontrivial": set(), "nontrivial_evals": 0, "tags": {}, "samples": []
        }
        for t in tests
    }
    violation = None
    error = None
    skipped = 0
    ctx = mp.get_context("fork")
    with ctx.Pool(min(args.jobs, len(jobs)), initializer=_worker_init) as pool:
        results = pool.imap_unordered(_job, [j[1] for j in jobs], chunksize=1)
        done = 0
        while done < len(jobs):
            left = DEADLINE[tier] - (time.time() - started)
            try:
                res = results.next(timeout=max(left, 0.05))
            except mp.TimeoutError:
                skipped = len(jobs) - done
                break
            except StopIteration:
                break
            done += 1
            if res["kind"] == "violation":
                violation = res
                break
            if res["kind"] == "error":
                error = res
                continue
            a = agg[res["test"]]
            a["evaluations"] += res["evaluations"]
            a["nontrivial"] |= res["nontrivial"]
            a["nontrivial_evals"] += res["nontrivial_evals"]
            a["samples"] = (a["samples"] + res["samples"])[:6]
            for k, v in res["tags"].items():
                a["tags"][k] = a["tags"].get(k, 0) + v
        pool.terminate()

    wall = time.time() - started
    write_evidence(prop_id, tier, seed, tests, agg, wall, 1 if violation else 0, known)
    total = sum(a["evaluations"] for a in agg.values())
    nontriv = sum(len(a["nontrivial"]) for a in agg.values())
    if violation:
        path = save_replay(prop_id, violation)
        print(f"{prop_id}.{violation['test']}: {violation['msg']}")
        print("  case: " + codec.dumps(violation["case"])[:3000])
        print(f"VIOLATION property={prop_id} replay={os.path.relpath(path, ROOT)}")
        return 1
    if error:
        print(f"ERROR in check {prop_id}.{error['test']}:\n{error['trace']}", file=sys.stderr)
        return 2
    for t in tests:
        a = agg[t.name]
        print(
            f"{prop_id}.{t.name}: {a['evaluations']} cases, "
            f"{len(a['nontrivial'])} distinct non-trivial"
        )
    if skipped:
        print(f"{prop_id}: deadline reached, {skipped} of {len(jobs)} batches not run")
    print(f"{prop_id}: held; {total} cases, {nontriv} distinct non-trivial, {wall:.1f} s")
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # noqa
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
