from .world import *
from pyvc.invloop import LoopSpec, handler
import ast


class Bisect(LoopSpec):
    """Every scalar of the search that starts in [previous, 1] stays there; those below 1 stay below 1; lower <= upper."""
    name = "bisection"

    def __init__(self, W):
        self.W = W

    def covers(self, L):
        return L.n is None and isinstance(L.st, ast.While)

    def enter(self, L):
        W, ctx = self.W, L.ctx
        v = {k: xf(L.env.vars[k]) for k in L.names() if k in L.env.vars and is_num(L.env.vars[k]) and not is_int(L.env.vars[k])}
        ok = lambda f: ctx.provable(f)
        rng = lambda x: And(x.fin, x.r >= W.prev, x.r <= 1)
        keep = {k for k in v if ok(rng(v[k]))}
        strict = {k for k in keep if ok(v[k].r < 1)}
        pairs = {(a, b) for a in keep for b in keep if a != b and ok(v[a].r <= v[b].r)}
        L.data.update(keep=keep, strict=strict, pairs=pairs, floats=set(v))
        # Houdini: drop what one arbitrary iteration does not preserve
        from pyvc.invloop import apply_havoc

        def thunk():
            L.k = ctx.fint("it")
            apply_havoc(L)
            self.assume(L)
            try:
                L.E.ip.block(ctx, L.st.body, L.env)
            except (BreakSig, ContinueSig) as e:
                if isinstance(e, BreakSig):
                    return
            n = {k: xf(L.env.vars[k]) if is_num(L.env.vars[k]) else None for k in L.data["keep"]}
            for k in list(L.data["keep"]):
                if n[k] is None or not ok(rng(n[k])):
                    bad[0].add(k)
            for k in list(L.data["strict"]):
                if n[k] is None or not ok(n[k].r < 1):
                    bad[1].add(k)
            for a, b in list(L.data["pairs"]):
                if n[a] is None or n[b] is None or not ok(n[a].r <= n[b].r):
                    bad[2].add((a, b))
        for _ in range(6):
            bad = (set(), set(), set())
            L.U.muted += 1
            try:
                ctx.sub_explore(thunk)
            finally:
                L.U.muted -= 1
            if not any(bad):
                break
            L.data["keep"] -= bad[0]
            L.data["strict"] -= bad[1]
            L.data["pairs"] = {(a, b) for a, b in L.data["pairs"] if (a, b) not in bad[2] and a in L.data["keep"] and b in L.data["keep"]}
            L.data["strict"] &= L.data["keep"]
        L.k = z3.IntVal(0)

    def value(self, L, owner, key, old):
        if owner is L.env and key in L.data.get("keep", ()):
            return XF(L.ctx.freal(str(key)))
        return NotImplemented

    def assume(self, L):
        ctx, W = L.ctx, self.W
        v = lambda k: xf(L.env.vars[k]).r
        for k in L.data["keep"]:
            ctx.assume(And(v(k) >= W.prev, v(k) <= 1))
        for k in L.data["strict"]:
            ctx.assume(v(k) < 1)
        for a, b in L.data["pairs"]:
            ctx.assume(v(a) <= v(b))

    def check(self, L, where):
        if where == "on entry":
            return
        W = self.W
        v = lambda k: xf(L.env.vars[k])
        for k in sorted(L.data["keep"]):
            L.prove("%s stays between the previous temperature and one" % k, And(v(k).fin, v(k).r >= W.prev, v(k).r <= 1))
        for k in sorted(L.data["strict"]):
            L.prove("%s stays below one" % k, v(k).r < 1)
        for a, b in sorted(L.data["pairs"]):
            L.prove("%s stays below %s" % (a, b), v(a).r <= v(b).r)


def reweight_run(U, metric, dynamic, blobs=False):
    def run(ctx):
        t0 = ctx.fint("t")
        ne = ctx.pint("n_effective")
        W = SW(U, ctx, blobs, metric=metric, dynamic=dynamic, n_effective=ne, t=t0, dynamic_ratio=XF(ctx.freal("ratio")))
        W.t0, W.ne = t0, ne
        ctx.assume(And(W.prev >= 0, W.prev <= 1))
        W.cur = PyDict({})
        U.E.handlers[:] = [handler(U, [Bisect(W)])]
        try:
            r = call_method(U, ctx, W, "_reweight", W.cur)
        finally:
            U.E.handlers[:] = []
        return W, r
    return run


def reweight(metric, dynamic):
    def unit(U):
        for ctx, oc in U.paths(reweight_run(U, metric, dynamic)):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W, r = oc[1]
            if not isinstance(r, PyDict):
                U.prove(ctx, "returns the particles", False)
                continue
            F = ESSF[metric]
            beta, logz, ess = xf(r.d.get("beta")), xf(r.d.get("logz")), xf(r.d.get("ess"))
            ne = toreal(W.ne)
            U.prove(ctx, "the temperature does not fall and does not exceed one", And(beta.fin, beta.r >= W.prev, beta.r <= 1))
            U.prove(ctx, "stays put if the metric there does not exceed the target", Implies(F(W.prev) <= ne, beta.r == W.prev))
            U.prove(ctx, "jumps to one if the metric at one meets the target", Implies(And(F(W.prev) > ne, F(rv(1)) >= ne), beta.r == 1))
            dist = F(beta.r) - ne
            U.prove(ctx, "otherwise the metric is within one percent of the target", Implies(And(F(W.prev) > ne, F(rv(1)) < ne),
                                                                                            And(dist < ne / 100, -dist < ne / 100)))
            U.prove(ctx, "the sample size recorded is that of the temperature", And(ess.fin, ess.r == F(beta.r)))
            U.prove(ctx, "the evidence recorded is that of the temperature", And(logz.fin, z3.Or(logz.r == LZ(beta.r), z3.And(beta.r == W.prev, F(W.prev) <= ne, logz.r == W.logz_prev))))
            U.prove(ctx, "the iteration is numbered", And(iv(r.d.get("iter")) == W.t0, iv(W.S.attrs["t"]) == W.t0 + 1))
            if not dynamic:
                U.prove(ctx, "the target does not change", iv(W.S.attrs["n_effective"]) == W.ne)
    return unit


def prove():
    q = "pocomc.sampler.Sampler."
    us = [Unit("_reweight (%s%s)" % (m, ", dynamic" if dy else ""), [q + "_reweight"], reweight(m, dy)) for m in ("ess", "uss") for dy in (False, True)]
    return run_units("C10", us, assumptions=["contracts of history, log-weights, trimming and metrics as in contracts/world.py (C22, C09, C13, C12)",
                                             "termination of the bisection is not shown (partial correctness)"])
