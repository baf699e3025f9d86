from .lib import *

LPDF = xuf("LPDF", [I, R, B, B, B])
DRAW = xuf("DRAW", [I, I, I])
SLO = xuf("SLO", [I])
SHI = xuf("SHI", [I])


class Marginal(GenVal):
    """The i-th marginal: any object with logpdf, rvs and support."""

    def __init__(self, i, log):
        self.i, self.log = i, log

    def at(self, k, q):
        return Marginal(subst(self.i, [(k, iv(q))]), self.log)

    def pyattr(self, E, ctx, name):
        i = self.i
        if name == "logpdf":
            def f(c, a, kw):
                x = a[0] if a else kw["x"]
                if isinstance(x, Arr):
                    return elementwise(c, lambda v: LPDF(i, *xargs(v)), [x], "f")
                return LPDF(i, *xargs(x))
            return Model("marginal.logpdf", f)
        if name == "rvs":
            def g(c, a, kw):
                n = arg(a, kw, 0, "size", 1)
                uid = len(self.log)
                self.log.append((uid, n))
                return Arr((n,), lambda idx: DRAW(i, z3.IntVal(uid), iv(idx[0])), "f")
            return Model("marginal.rvs", g)
        if name == "support":
            return Model("marginal.support", lambda c, a, kw: (SLO(i), SHI(i)))
        return NotImplemented


def mk(U, ctx):
    E = U.E
    E.load("pocomc.prior")
    d = ctx.pint("d")
    log = []
    dists = SymList(d, lambda k: Marginal(iv(k), log))
    P = E.ip.call(ctx, E.load("pocomc.prior").vars["Prior"], [dists], {})
    return d, P, log


def logpdf(U):
    def run(ctx):
        d, P, log = mk(U, ctx)
        n = ctx.pint("n")
        x = ctx.sym_arr("x", (n, d), flags=True)
        sx = Snap(x)
        r = U.E.ip.call(ctx, U.E.ip.getattr(ctx, P, "logpdf"), [x], {})
        return d, n, x, sx, r
    for ctx, oc in U.paths(run):
        if not U.reach(ctx) or not U.no_raise(ctx, oc):
            continue
        d, n, x, sx, r = oc[1]
        spec = Arr((n,), lambda idx: sum_xf(d, lambda i: LPDF(i, *xargs(sx.g((idx[0], i))))), "f")
        arr_same(U, ctx, "row value is the sum of the marginal log-densities at the row's own coordinates", r, spec)
        unchanged(U, ctx, "argument unchanged", x, sx)


def rvs(U):
    def run(ctx):
        d, P, log = mk(U, ctx)
        n = ctx.pint("n")
        return d, n, log, U.E.ip.call(ctx, U.E.ip.getattr(ctx, P, "rvs"), [], {"size": n})
    for ctx, oc in U.paths(run):
        if not U.reach(ctx) or not U.no_raise(ctx, oc):
            continue
        d, n, log, r = oc[1]
        if not isinstance(r, Arr) or r.ndim != 2:
            U.prove(ctx, "result is a matrix", False)
            continue
        U.prove(ctx, "one row per draw, one column per marginal", z3.And(iv(r.shape[0]) == n, iv(r.shape[1]) == d))
        i, c = ctx.fint("i"), ctx.fint("c")
        ctx.assume(inrange(i, d))
        ctx.assume(inrange(c, n))
        v = r.get((c, i))
        uids = [u for u, m in log if ctx.provable(iv(m) == n)]
        good = [u for u in uids if ctx.provable(zb(xsame(v, DRAW(i, z3.IntVal(u), c))))]
        U.prove(ctx, "entry (c, i) is the c-th of the draws of marginal i",
                Or(*[xsame(v, DRAW(i, z3.IntVal(u), c)) for u in (good or uids)]))


def bounds(U):
    def run(ctx):
        d, P, log = mk(U, ctx)
        return d, U.E.ip.getattr(ctx, P, "bounds")
    for ctx, oc in U.paths(run):
        if not U.reach(ctx) or not U.no_raise(ctx, oc):
            continue
        d, r = oc[1]
        spec = Arr((d, 2), lambda idx: xite(iv(idx[1]) == 0, SLO(iv(idx[0])), SHI(iv(idx[0]))), "f")
        arr_same(U, ctx, "row i is the support of marginal i", r, spec)


def dim(U):
    def run(ctx):
        d, P, log = mk(U, ctx)
        return d, U.E.ip.getattr(ctx, P, "dim")
    for ctx, oc in U.paths(run):
        if not U.reach(ctx) or not U.no_raise(ctx, oc):
            continue
        d, r = oc[1]
        U.prove(ctx, "dimension is the number of marginals", iv(r) == d)


ASSUME = ["a marginal is any object whose logpdf acts elementwise, whose rvs(size=n) returns n draws and whose support() is a pair (scipy's frozen distributions are assumed to)"]


def prove():
    q = "pocomc.prior.Prior."
    return run_units("C05", [Unit("Prior.logpdf", [q + "logpdf", q + "__init__"], logpdf), Unit("Prior.rvs", [q + "rvs"], rvs),
                             Unit("Prior.bounds", [q + "bounds"], bounds), Unit("Prior.dim", [q + "dim"], dim)], assumptions=ASSUME)
