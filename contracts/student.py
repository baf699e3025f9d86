"""pocomc.student.fit_mvstud under contract (C24): location, symmetric scale matrix of full shape, degrees of freedom positive (or inf).

The EM loop by invariant: location of shape (d, 1) , scale symmetric d x d, nu > 0 (NaN never)."""
from .lib import *
from pyvc.invloop import LoopSpec, handler


class EM(LoopSpec):
    name = "EM"

    def __init__(self, W):
        self.W = W

    def covers(self, L):
        return L.n is None

    def value(self, L, owner, key, old):
        W, c = self.W, L.ctx
        if owner is not L.env:
            return NotImplemented
        if isinstance(old, Arr) and old.ndim == 2:
            r, k = old.shape
            if c.provable(And(iv(r) == W.d, iv(k) == 1)):
                return c.sym_arr(key, (W.d, 1), flags=True)
            if c.provable(And(iv(r) == W.d, iv(k) == W.d)):
                g = c.sym_arr(key, (W.d, W.d), flags=True)
                s = snapshot(g)
                self.W.sym.append(g)

                def el(idx):
                    i, j = iv(idx[0]), iv(idx[1])
                    return T_merge(i <= j, s((i, j)), s((j, i)))
                return Arr((W.d, W.d), el, "f")
        if isinstance(old, Arr):
            return Poison("a vector of the last iteration")
        if key in W.numbers:
            v = c.sym_xf(key, flags=True)
            c.assume(Or(v.pi, And(v.fin, v.r > 0)))
            return v
        return NotImplemented

    def enter(self, L):
        W, c = self.W, L.ctx
        W.numbers = set()
        for k in L.names():
            v = L.env.vars.get(k)
            if is_num(v) and not is_bool(v) and c.provable(And(xf(v).fin, xf(v).r > 0)):
                W.numbers.add(k)

    def check(self, L, where):
        W, c = self.W, L.ctx
        i, j = c.fint("i"), c.fint("j")
        for k in L.names():
            v = L.env.vars.get(k)
            if isinstance(v, Arr) and v.ndim == 2 and c.provable(And(iv(v.shape[0]) == W.d, iv(v.shape[1]) == W.d)):
                L.prove("%s stays symmetric" % k, Implies(And(inrange(i, W.d), inrange(j, W.d)), val_same(v.get((i, j)), v.get((j, i)))))
            if k in W.numbers:
                x = xf(v)
                L.prove("%s stays positive" % k, Or(x.pi, And(x.fin, x.r > 0)), note="witness")


def T_merge(c, a, b):
    a, b = xf(a), xf(b)
    m = lambda p, q: z3.If(zb(c), zb(p), zb(q))
    return XF(z3.If(zb(c), a.r, b.r), m(a.nan, b.nan), m(a.pi, b.pi), m(a.ni, b.ni))


def student(one):
    def unit(U):
        def run(ctx):
            E = U.E
            W = type("W", (), {})()
            W.sym = []
            W.n, W.d = ctx.pint("n"), 1 if one else ctx.pint("d")
            ctx.assume(And(W.n >= 2, True if one else W.d >= 2))
            x = ctx.sym_arr("data", (W.n, W.d))
            W.x, W.sx = x, Snap(x)
            mod = E.load("pocomc.student")

            def bisect(c, a, k):
                lo, hi = xf(a[1]), xf(a[2])
                v = c.freal("root")
                c.assume(And(v >= lo.r, v <= hi.r))
                return XF(v)
            mod.vars["optimize"] = ObjVal(None, dict(bisect=Model("optimize.bisect", bisect), brentq=Model("optimize.brentq", bisect)))
            mod.vars["special"] = ObjVal(None, dict(psi=Model("psi", lambda c, a, k: c.sym_xf("psi", flags=True)), digamma=Model("psi", lambda c, a, k: c.sym_xf("psi", flags=True))))
            E.handlers[:] = [handler(U, [EM(W)])]
            try:
                W.r = E.ip.call(ctx, mod.vars["fit_mvstud"], [x], {})
            finally:
                E.handlers[:] = []
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W = oc[1]
            r = W.r
            ok = isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], Arr) and isinstance(r[1], Arr)
            U.prove(ctx, "location, scale and degrees of freedom are returned", ok)
            if not ok:
                continue
            mu, Sg, nu = r
            U.prove(ctx, "the location is a point", mu.ndim == 1 and iv(mu.shape[0]) == W.d)
            U.prove(ctx, "the scale matrix has full shape", Sg.ndim == 2 and And(iv(Sg.shape[0]) == W.d, iv(Sg.shape[1]) == W.d))
            i, j = ctx.fint("i"), ctx.fint("j")
            if Sg.ndim == 2:
                U.prove(ctx, "the scale matrix is symmetric", Implies(And(inrange(i, W.d), inrange(j, W.d)), val_same(Sg.get((i, j)), Sg.get((j, i)))))
            v = xf(nu)
            U.prove(ctx, "the degrees of freedom are positive, possibly infinite", Or(v.pi, And(v.fin, v.r > 0)))
            unchanged(U, ctx, "the points are not altered", W.x, W.sx)
    return unit


def student_units():
    return [Unit("fit_mvstud%s" % (" (one dimension)" if o else ""), ["pocomc.student.fit_mvstud"], student(o)) for o in (False, True)]
