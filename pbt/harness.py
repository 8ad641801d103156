"""Registry, batch execution and statistics for the property checks.

A *test* is a function ``fn(case, rec)`` over plain-data cases drawn from a Hypothesis strategy.
It raises ``Violation`` when its oracle disagrees with the code under test.  An exception which
leaves the code under test (innermost frame in $VERIF_REPO/src, or a frame of the standard library
called from there) is a violation too ("raises"); any other exception is an error of the harness.
"""
import hashlib
import os
import pickle
import random
import signal
import time
import traceback
import warnings
import zlib

from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import seed as hyp_seed
from hypothesis.errors import HypothesisWarning, UnsatisfiedAssumption

warnings.simplefilter("ignore", HypothesisWarning)
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
SRC = os.path.join(REPO, "src") + os.sep
HERE = os.path.dirname(os.path.realpath(__file__)) + os.sep

CASE_TIMEOUT_S = 60.0
SHRINK_BUDGET_S = 45.0


class Violation(AssertionError):
    pass


class CaseTimeout(Exception):
    pass


class AbortShrink(BaseException):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def expect_eq(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


def from_repo(exc):
    """Whether an exception was raised by the code under test (not by the harness)."""
    last = None
    for frame in traceback.extract_tb(exc.__traceback__):
        name = os.path.realpath(frame.filename)
        if name.startswith(SRC):
            last = "repo"
        elif name.startswith(HERE):
            last = "harness"
    return last == "repo"


def call(fn, *args, **kwargs):
    """Run code under test; turn any exception leaving it into a Violation."""
    try:
        return fn(*args, **kwargs)
    except Exception as e:  # noqa
        if from_repo(e):
            raise Violation(
                "raised {}: {} at {}".format(type(e).__name__, str(e)[:200], _where(e))
            ) from e
        raise


def _where(exc):
    for frame in reversed(traceback.extract_tb(exc.__traceback__)):
        if os.path.realpath(frame.filename).startswith(SRC):
            return f"{os.path.relpath(frame.filename, REPO)}:{frame.name}"
    return "?"


class Test:
    def __init__(self, prop, name, fn, strategy, quick, thorough, rule, examples, batch):
        self.prop, self.name, self.fn = prop, name, fn
        self.strategy, self.quick, self.thorough = strategy, quick, thorough
        self.rule, self.examples, self.batch = rule, examples, batch
        self._strategy = None

    def get_strategy(self):
        if self._strategy is None:
            s = self.strategy
            self._strategy = s() if callable(s) and not hasattr(s, "example") else s
        return self._strategy


TESTS = {}


def prop(prop_id, strategy, *, quick, thorough=None, rule="", examples=(), batch=200):
    def deco(fn):
        test = Test(
            prop_id,
            fn.__name__,
            fn,
            strategy,
            quick,
            thorough or quick * 25,
            rule,
            list(examples),
            batch,
        )
        TESTS.setdefault(prop_id, {})
        assert fn.__name__ not in TESTS[prop_id], fn.__name__
        TESTS[prop_id][fn.__name__] = test
        return fn

    return deco


class Rec:
    """Per-batch statistics."""

    MAX_SAMPLES = 4

    def __init__(self, rng_seed):
        self.evaluations = 0
        self.nontrivial = set()
        self.nontrivial_evals = 0
        self.tags = {}
        self.samples = []
        self._rng = random.Random(rng_seed)
        self._blob = b""
        self._marked = False
        self._seen = 0

    def begin(self, blob):
        self.evaluations += 1
        self._blob = blob
        self._marked = False

    def hit(self, sample=None):
        """Mark the current case as non-trivial."""
        if self._marked:
            return
        self._marked = True
        self.nontrivial_evals += 1
        self.nontrivial.add(hashlib.blake2b(self._blob, digest_size=8).digest())
        self._seen += 1
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(sample if sample is not None else self._blob)
        else:
            j = self._rng.randrange(self._seen)
            if j < self.MAX_SAMPLES:
                self.samples[j] = sample if sample is not None else self._blob

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

    def result(self):
        samples = [
            repr(pickle.loads(s)) if isinstance(s, bytes) else str(s) for s in self.samples
        ]
        return {
            "evaluations": self.evaluations,
            "nontrivial": self.nontrivial,
            "nontrivial_evals": self.nontrivial_evals,
            "tags": self.tags,
            "samples": [s[:1500] for s in samples],
        }


def _alarm(_sig, _frame):
    raise CaseTimeout(f"case did not finish within {CASE_TIMEOUT_S:.0f} s")


def run_case(test, case, rec):
    """Runs one case; raises Violation for a violation, anything else is a harness error."""
    rec.begin(pickle.dumps(case))
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT_S)
    try:
        test.fn(case, rec)
    except (Violation, UnsatisfiedAssumption):
        raise
    except CaseTimeout as e:
        raise Violation(str(e)) from e
    except Exception as e:  # noqa
        if from_repo(e):
            raise Violation(
                "raised {}: {} at {}".format(type(e).__name__, str(e)[:200], _where(e))
            ) from e
        if isinstance(e, (AttributeError, TypeError, LookupError, ValueError)) and not isinstance(e, UnicodeError):
            # the test could not make sense of what the code under test returned
            raise Violation(
                "result of an unexpected shape: {}: {} ({})".format(
                    type(e).__name__, str(e)[:200], traceback.format_exc(limit=-2).replace("\n", " ")[-400:]
                )
            ) from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def batch_seed(seed, test_name, index):
    return zlib.crc32(f"{seed}:{test_name}:{index}".encode()) & 0x7FFFFFFF


def run_batch(prop_id, test_name, seed, index, n):
    """Returns dict(kind=ok|violation|error, ...)."""
    signal.signal(signal.SIGALRM, _alarm)
    test = TESTS[prop_id][test_name]
    s = batch_seed(seed, test_name, index)
    rec = Rec(s)
    started = time.time()
    failure = {}

    def wrapped(case):
        blob = pickle.dumps(case)
        if failure and time.time() - failure["since"] > SHRINK_BUDGET_S:
            raise AbortShrink()
        try:
            run_case(test, case, rec)
        except Violation as e:
            failure.setdefault("since", time.time())
            # Hypothesis ends with the minimal case; keep the smallest seen in case we abort.
            if "blob" not in failure or len(blob) <= len(failure["blob"]):
                failure["blob"], failure["msg"] = blob, str(e)
            raise

    try:
        if index < 0:  # fixed regression examples
            for case in test.examples:
                wrapped(case)
        else:
            runner = given(test.get_strategy())(wrapped)
            runner = hyp_seed(s)(runner)
            runner = settings(
                max_examples=n,
                database=None,
                deadline=None,
                print_blob=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
            )(runner)
            runner()
    except (Violation, AbortShrink) as e:
        if not failure:
            return {"kind": "error", "test": test_name, "trace": traceback.format_exc()}
        return {
            "kind": "violation",
            "test": test_name,
            "case": pickle.loads(failure["blob"]),
            "msg": failure["msg"],
            "batch_seed": s,
        }
    except Exception as e:  # noqa
        if failure and type(e).__name__ in ("Flaky", "FlakyFailure", "FlakyReplay"):
            # The code under test answered differently for the same case: report what was seen.
            return {
                "kind": "violation",
                "test": test_name,
                "case": pickle.loads(failure["blob"]),
                "msg": failure["msg"] + " (not on every repetition of the case)",
                "batch_seed": s,
            }
        return {"kind": "error", "test": test_name, "trace": traceback.format_exc()}
    out = rec.result()
    out.update(kind="ok", test=test_name, wall=time.time() - started)
    return out
