from .scalerlib import *
from .diff import D, others, has
from . import c01

Q = "pocomc.scaler:Reparameterize."


def absr(t):
    return z3.If(t >= 0, t, -t)


def coords(transform):
    """_inverse: coordinate j of the result depends on coordinate j of the argument only, and the reported value is the sum of log|dx_j/du_j|."""
    def unit(U):
        E = U.E

        def run(ctx):
            d, s, gl, gh = build(U, ctx, transform=transform)
            T.RAW_SUM[0] = True
            n = ctx.pint("n")
            a = ctx.sym_arr("u", (n, d))
            sa = Snap(a)
            i, j = ctx.fint("i"), ctx.fint("q")
            ctx.assume(inrange(i, n))
            ctx.assume(inrange(j, d))
            x, ld = E.ip.call(ctx, E.ip.getattr(ctx, s, "_inverse"), [a], {})
            return n, d, a, sa, i, j, x, ld, gl, gh
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            n, d, a, sa, i, j, x, ld, gl, gh = oc[1]
            u = lambda q: sa.g((i, q)).r
            xt = lambda q: xf(x.get((i, iv(q)))).r
            for kn, k in zip(("unbounded", "lower-bounded", "upper-bounded", "doubly bounded"), kinds(gl((j,)), gh((j,)))):
                if not U.reach_with(ctx, k, kn):
                    U.prove(ctx, "%s coordinates are possible" % kn, False)
            oth = others(xt(j), u(j))
            U.prove(ctx, "coordinate j of the result depends on coordinate j of the argument only", len(oth) == 0)
            if oth:
                continue
            dj = lambda q: D(xt(q), u(q))
            U.prove(ctx, "one log-determinant per row", And(ld.ndim == 1, iv(ld.shape[0]) == n))
            v = xf(ld.get((i,)))
            for kn, k in zip(("unbounded", "lower-bounded", "upper-bounded", "doubly bounded"), kinds(gl((j,)), gh((j,)))):
                U.prove(ctx, "%s: the derivative is not zero" % kn, Implies(k, dj(j) != 0))
            U.prove(ctx, "the log-determinant is finite", v.fin)
            lhs = T.SumReg.by_decl.get(v.r.decl().name()) if z3.is_app(v.r) else None
            if lhs is not None and len(lhs.bounds) == 1:
                # rule: sums with the same range and pointwise equal terms are equal
                bd, body = lhs.inst([v.r.arg(q) for q in range(v.r.num_args())])
                (b, hi), = bd
                term = z3.substitute(body, (b, j))
                U.prove(ctx, "the sum runs over all coordinates", hi == d)
                for kn, k in zip(("unbounded", "lower-bounded", "upper-bounded", "doubly bounded"), kinds(gl((j,)), gh((j,)))):
                    U.prove(ctx, "%s: its term is log|dx_j/du_j|" % kn, Implies(k, term == LOG(absr(dj(j)))))
            else:
                U.prove(ctx, "the log-determinant is the sum of log|dx_j/du_j|", v.r == T.mk_sum(d, lambda q: LOG(absr(dj(q)))))
            unchanged(U, ctx, "argument unchanged", a, sa)
    return unit


def affine(diag):
    def unit(U):
        E = U.E

        def run(ctx):
            d, s, gl, gh = build(U, ctx, diagonal=diag)
            n, m = ctx.pint("n"), ctx.pint("m")
            uu = ctx.sym_arr("uu", (m, d))
            E.active[Q + "_forward"] = lambda c, f, a, k: copy_arr(uu)
            E.active["pocomc.input_validation:assert_array_within_interval"] = lambda c, f, a, k: None
            E.ip.call(ctx, E.ip.getattr(ctx, s, "fit"), [ctx.sym_arr("xs", (m, d))], {})
            del E.active[Q + "_forward"]
            i, j = ctx.fint("i"), ctx.fint("q")
            ctx.assume(inrange(i, n))
            ctx.assume(inrange(j, d))
            T.RAW_SUM[0] = True
            sg = None
            if diag:
                # the standard deviation is a positive number (its value does not matter here)
                sg = ctx.sym_arr("sg", (d,))
                dec = sg.get((j,)).r.decl()
                S.SIGNS[dec.name()] = 2
                S.TH.schema(dec, lambda q: [dec(q) > 0])
                s.attrs["sigma"] = sg
            a = ctx.sym_arr("v", (n, d))
            sa = Snap(a)
            x, ld = E.ip.call(ctx, E.ip.getattr(ctx, s, "_inverse_affine"), [a], {})
            return n, d, a, sa, i, j, x, ld, s, sg
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            n, d, a, sa, i, j, x, ld, s, sg = oc[1]
            ctx.taint.append("modular")
            v = xf(ld.get((i,)))
            U.prove(ctx, "one log-determinant per row", And(ld.ndim == 1, iv(ld.shape[0]) == n))
            U.prove(ctx, "the log-determinant is finite", v.fin)
            if diag:
                u = sa.g((i, j)).r
                xt = xf(x.get((i, j))).r
                U.prove(ctx, "coordinate j of the result depends on coordinate j of the argument only", len(others(xt, u)) == 0)
                U.prove(ctx, "the derivative is the scale", D(xt, u) == sg.get((j,)).r)
                U.prove(ctx, "the log-determinant is the sum of log|dx_j/du_j|", v.r == T.mk_sum(d, lambda q: LOG(sg.get((q,)).r)))
            else:
                L = E.ip.getattr(ctx, s, "L")
                mu = E.ip.getattr(ctx, s, "mu")
                T.RAW_SUM[0] = False
                lin = xadd(xf(mu.get((j,))), sum_xf(L.shape[1], lambda q: xmul(xf(L.get((0 if isinstance(L.shape[0], int) else j, q))), sa.g((i, iv(q))))))
                U.prove(ctx, "L is square, one row per coordinate", And(iv(L.shape[0]) == d, iv(L.shape[1]) == d))
                U.prove(ctx, "the map is mu + L u (derivative L)", xsame(xf(x.get((i, j))), lin))
                U.prove(ctx, "the log-determinant is log|det L|", xsame(v, E.np.slogdet(ctx, L)[1]))
            unchanged(U, ctx, "argument unchanged", a, sa)
    return unit


def prove():
    q = "pocomc.scaler.Reparameterize."
    fl = [q + m for m in ("_inverse", "_inverse_none", "_inverse_left", "_inverse_right", "_inverse_both", "_create_masks", "__init__")]
    return run_units("C02", [Unit("_inverse (%s)" % t, fl, coords(t)) for t in ("probit", "logit")] +
                     [Unit("_inverse_affine (%s)" % ("diagonal" if g else "full covariance"), [q + "fit", q + "_inverse_affine"], affine(g)) for g in (True, False)] +
                     [Unit("composition (chain rule)", [q + "inverse"], c01.composed)],
                     assumptions=["the standard deviations found by fit are positive; np.linalg.slogdet returns (sign, log|det|); the covariance is positive definite",
                                  "derivatives of exp, log, erf by the textbook rules (contracts/diff.py); det of a composition is the product of the determinants, det of a diagonal matrix the product of its entries"])
