from .c28 import *
import ast, os
from pyvc import engine as EN


def seeded(given):
    def unit(U):
        def run(ctx):
            seed = ctx.fint("seed") if given == "any" else given
            W = build(U, ctx, dict(random_state=seed))
            W.seed = seed
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W = oc[1]
            if given is None:
                U.prove(ctx, "without a seed no generator is reseeded", not W.seeds)
                continue
            for lib in ("numpy", "torch"):
                s = [x for x in W.seeds if x[0] == lib]
                U.prove(ctx, "the %s generator is seeded" % lib, len(s) >= 1)
                if s:
                    U.prove(ctx, "the %s generator gets the seed given" % lib, is_int(s[-1][1]) and iv(s[-1][1]) == iv(W.seed))
                    U.prove(ctx, "the %s generator is seeded before anything random happens" % lib, s[-1][2] == 0 and s[-1][3] == 0)
            U.prove(ctx, "nothing random happens before both are seeded", bool(W.flow))
    return unit


SOURCES = {"default_rng", "RandomState", "Generator", "SystemRandom", "urandom", "token_bytes", "getrandbits", "uuid4", "SeedSequence", "PCG64", "MT19937"}
MODULES = {"random", "secrets", "uuid"}


def sources(U):
    """Every function of the package: only the two global generators are used."""
    root = os.path.join(EN.REPO, "pocomc")
    from pyvc.ctx import Ctx
    for ctx, oc in U.paths(lambda c: 0):
        U.reach(ctx)
        for f in sorted(os.listdir(root)):
            if not f.endswith(".py"):
                continue
            tree = ast.parse(open(os.path.join(root, f)).read())
            bad = []
            for n in ast.walk(tree):
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                    if nm in SOURCES:
                        bad.append("%s (line %d)" % (nm, n.lineno))
                if isinstance(n, ast.Import) and any(a.name.split(".")[0] in MODULES for a in n.names):
                    bad.append("import (line %d)" % n.lineno)
                if isinstance(n, ast.ImportFrom) and not n.level and (n.module or "").split(".")[0] in MODULES:
                    bad.append("import (line %d)" % n.lineno)
            U.prove(ctx, "%s uses no generator of its own" % f, not bad)


def prove():
    q = "pocomc.sampler.Sampler.__init__"
    us = [Unit("seed (%s)" % ("none" if g is None else g), [q], seeded(g)) for g in ("any", 0, None)]
    us.append(Unit("sources of randomness", ["pocomc (all modules)"], sources))
    return run_units("C23", us, assumptions=["numpy's and torch's global generators are determined by their seeds; every other library function is deterministic given them",
                                             "a run is a deterministic program of its inputs and the two generators (no dependence on time, hash order or addresses): bounded by the run-time contracts"])
