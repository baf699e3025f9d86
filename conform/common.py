"""Shared helpers of the executable contracts (run-time side of the checks).

Every function here drives the REAL code in /repo (imported from VERIF_REPO) and compares it with an
independently written oracle.  A failure carries the concrete failing input.
"""
import json, os, sys, time, traceback, warnings, io, contextlib
import numpy as np

warnings.filterwarnings("ignore")
np.seterr(all="ignore")

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class Fail(Exception):
    pass


class Missing(Exception):
    """The internal seam a harness drives does not exist (renamed by a refactoring): unit skipped."""


def short(o, n=1200):
    with np.printoptions(precision=17, threshold=60, linewidth=160):
        s = repr(o)
    return s if len(s) <= n else s[:n] + "..."


class Rep:
    def __init__(self, prop, budget):
        self.prop = prop
        self.t0 = time.time()
        self.budget = budget
        self.evals = 0
        self.distinct = set()
        self.fails = []
        self.samples = []
        self.skipped = []
        self.errors = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    def case(self, key=None, sample=None):
        self.evals += 1
        if key is not None:
            self.distinct.add(key if isinstance(key, str) else repr(key))
        if sample is not None and len(self.samples) < 3:
            self.samples.append(short(sample, 400))

    def fail(self, what, **inp):
        if len(self.fails) < 5:
            self.fails.append({"what": what, "input": {k: short(v) for k, v in inp.items()}})

    def check(self, cond, what, **inp):
        if not bool(cond):
            self.fail(what, **inp)
            return False
        return True

    def run(self, name, fn):
        """Run a harness unit.  Exceptions from the code under test reach here only if the harness did not
        expect them: on the unchanged tree there are none, so one is reported as a failure of the unit."""
        if self.left() < 0:
            self.skipped.append(name + ": budget")
            return
        try:
            with quiet():
                fn(self)
        except Missing as e:
            self.skipped.append("%s: %s" % (name, e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            in_repo = any("/pocomc/" in f.filename for f in tb)
            msg = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
            if in_repo:
                self.fail("%s: the code raised %s: %s" % (name, type(e).__name__, e), traceback=msg)
            else:
                self.errors.append("%s: %s" % (name, msg))

    def out(self):
        return dict(property=self.prop, evaluations=self.evals, distinct=len(self.distinct), failures=self.fails,
                    samples=self.samples, skipped=self.skipped, errors=self.errors, wall=time.time() - self.t0)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def seam(obj, name):
    if not hasattr(obj, name):
        raise Missing("no attribute %s" % name)
    return getattr(obj, name)


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= atol + rtol * np.abs(b))))


def logsumexp(a, axis=None):
    a = np.asarray(a, float)
    m = np.max(a, axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0.0)
    r = np.log(np.sum(np.exp(a - m), axis=axis, keepdims=True)) + m
    return r.squeeze() if axis is None else np.squeeze(r, axis)
