from .lib import *
from .steps import train_units
from .student import student_units
from pyvc.invloop import LoopSpec, handler
import ast


def fit(weighted, one):
    def unit(U):
        def run(ctx):
            E = U.E
            W = type("W", (), {})()
            n = ctx.pint("n")
            d = 1 if one else ctx.pint("d")
            ctx.assume(n >= 2)
            W.n, W.d = n, d
            x = ctx.sym_arr("theta", (n, d))
            W.x, W.gx = x, snapshot(x)
            W.sx = Snap(x)
            W.w = W.sw = None
            if weighted:
                W.w, W.gw, W.tot = nonneg_weights(ctx, n)
                W.sw = Snap(W.w)
                # at least two distinct positive weights: the covariance exists
                W.sq = T.mk_sum(n, lambda i: W.gw((iv(i),)).r * W.gw((iv(i),)).r)
                ctx.assume(W.tot - W.sq / W.tot != 0)
            W.res, W.fits = [], []

            def syst(c, f, a, k):
                size, w = arg(a, k, 0, "size"), arg(a, k, 1, "weights")
                idx, _ = c.ffunc("SYS", [I], I)
                m = iv(w.shape[0])
                S.TH.schema(idx(z3.Int("i0")).decl(), lambda i: [Implies(inrange(i, size), inrange(idx(i), m))])
                W.res.append((size, Snap(w), idx))
                return Arr((size,), lambda i: idx(iv(i[0])), "i")

            def mvstud(c, f, a, k):
                data = a[0]
                W.fits.append(Snap(data))
                loc, sc = c.sym_arr("loc", (d,)), c.sym_arr("scale", (d, d))
                nu = c.sym_xf("nu", flags=True)
                c.assume(Or(nu.nan, nu.pi, And(nu.fin, nu.r > 0)))
                c.assume(Not(nu.ni))
                W.st = Snap(loc), Snap(sc), nu
                return loc, sc, nu
            E.active["pocomc.tools:systematic_resample"] = syst
            E.active["pocomc.student:fit_mvstud"] = mvstud
            W.G = E.ip.call(ctx, E.load("pocomc.geometry").vars["Geometry"], [], {})
            E.ip.call(ctx, E.ip.getattr(ctx, W.G, "fit"), [x] + ([W.w] if weighted else []), {})
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W = oc[1]
            A = W.G.attrs
            n, d = W.n, W.d
            i, j = ctx.fint("i"), ctx.fint("j")
            ctx.assume(And(inrange(i, d), inrange(j, d)))
            if one or ctx.provable(iv(d) == 1):
                i = j = z3.IntVal(0)
            g = lambda k, a: W.gx((iv(k), a)).r
            wt = (lambda k: W.gw((iv(k),)).r) if weighted else (lambda k: rv(1))
            tot = W.tot if weighted else toreal(n)
            mean = lambda a: T.mk_sum(n, lambda k: (wt(k) * g(k, a)) if weighted else g(k, a)) / tot
            fact = tot - W.sq / tot if weighted else tot - 1
            m, C = A["normal_mean"], A["normal_cov"]
            ok = isinstance(m, Arr) and m.ndim == 1
            U.prove(ctx, "mean: a vector", ok and iv(m.shape[0]) == iv(d))
            if ok:
                v = xf(m.get((i,)))
                U.prove(ctx, "mean: the %s mean" % ("weighted" if weighted else "plain"), And(v.fin, v.r == mean(i)))
            ok = isinstance(C, Arr) and C.ndim == 2
            U.prove(ctx, "covariance: a matrix", ok and And(iv(C.shape[0]) == iv(d), iv(C.shape[1]) == iv(d)))
            if ok:
                v = xf(C.get((i, j)))
                dev = lambda k: (wt(k) * ((g(k, i) - mean(i)) * (g(k, j) - mean(j)))) if weighted else (g(k, i) - mean(i)) * (g(k, j) - mean(j))
                U.prove(ctx, "covariance: the %s covariance" % ("weighted" if weighted else "plain"), v.r == T.mk_sum(n, dev) / fact)
                U.prove(ctx, "covariance: finite", v.fin)
            U.prove(ctx, "Student-t: fitted once", len(W.fits) == 1)
            if len(W.fits) != 1:
                continue
            q = ctx.fint("q")
            ctx.assume(inrange(q, n))
            f = W.fits[0]
            U.prove(ctx, "Student-t: fitted to as many points as given", len(f.shape) == 2 and And(iv(f.shape[0]) == n, iv(f.shape[1]) == iv(d)))
            if weighted:
                dr = [r for r in ctx.draws if r["kind"] == "choice"]
                src = None
                if len(W.res) == 1 and not dr:
                    src = W.res[0][2](q)
                    arr_same(U, ctx, "Student-t: fitted to points drawn by their weights", W.res[0][1].arr(), W.sw.arr())
                elif len(dr) == 1 and not W.res:
                    raise Unsupported("another resampling scheme")
                else:
                    U.prove(ctx, "Student-t: fitted to points drawn by their weights", False)
                    continue
            else:
                src = q
            U.prove(ctx, "Student-t: fitted to %s" % ("the points drawn" if weighted else "the points given"), val_same(f.g((q, i)), W.gx((src, i))))
            loc, sc, nu = W.st
            arr_same(U, ctx, "Student-t: location", A["t_mean"], loc.arr())
            arr_same(U, ctx, "Student-t: scale", A["t_cov"], sc.arr())
            t = xf(A["t_nu"])
            U.prove(ctx, "Student-t: degrees of freedom strictly positive and finite", And(t.fin, t.r > 0))
            U.prove(ctx, "Student-t: a finite estimate is kept, another replaced by a large one", And(Implies(nu.fin, t.r == nu.r), Implies(Not(nu.fin), t.r >= 1000)))
            unchanged(U, ctx, "the points are not altered", W.x, W.sx)
            if weighted:
                unchanged(U, ctx, "the weights are not altered", W.w, W.sw)
    return unit


def prove():
    q = "pocomc.geometry.Geometry."
    us = [Unit("Geometry.fit (%s%s)" % ("weighted" if w else "unweighted", ", one dimension" if o else ""), [q + "fit", q + "__init__"], fit(w, o)) for w in (True, False) for o in (False, True)]
    us += train_units("geometry") + student_units()
    return run_units("C24", us, assumptions=["np.cov, np.average and np.mean by their numpy definitions (Bessel/reliability-weights correction)", "the weights passed have a covariance (tot - sum w^2 / tot is not zero)",
                                             "systematic_resample by its contract (C14)", "scipy.optimize.bisect returns a point of its bracket; the EM iteration is not shown to converge to the maximum-likelihood fit"])
