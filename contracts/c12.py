from .lib import *


def call(U, ctx, f, *a, **kw):
    return U.E.ip.call(ctx, U.E.func("pocomc.tools:" + f), list(a), kw)


def ess(U):
    def run(ctx):
        n = ctx.pint("n")
        w, g, tot = nonneg_weights(ctx, n)
        return n, g, tot, call(U, ctx, "effective_sample_size", w)
    for ctx, oc in U.paths(run):
        if not U.reach(ctx) or not U.no_raise(ctx, oc):
            continue
        n, g, tot, r = oc[1]
        w = lambda i: g((iv(i),)).r
        q2 = T.mk_sum(n, lambda b: w(b) * w(b))
        r = xf(r)
        i = ctx.fint("i")
        sum_elem(U, ctx, "w_i is at most the sum", n, w, i)
        # positivity of the sum of squares: (sum w)^2 <= n * sum w^2
        sum_nonneg(U, ctx, "Cauchy-Schwarz", n, lambda b: (w(b) - tot / toreal(n)) * (w(b) - tot / toreal(n)))
        U.prove(ctx, "sum of squares is positive", q2 > 0)
        ctx.fact(q2 > 0)
        U.prove(ctx, "value is (sum w)^2 / sum w^2", And(r.fin, r.r == tot * tot / q2))
        if U.prove(ctx, "w_i^2 at most w_i * sum", Implies(inrange(i, n), w(i) * tot - w(i) * w(i) >= 0), sync=True):
            ctx.fact(T.mk_sum(n, lambda b: w(b) * tot - w(b) * w(b)) >= 0)
        U.prove(ctx, "at least 1", tot * tot / q2 >= 1)
        U.prove(ctx, "at most the number of samples", tot * tot / q2 <= toreal(n))


def uss(U):
    for given in (False, True):
        def run(ctx):
            n = ctx.pint("n")
            w, g, tot = nonneg_weights(ctx, n)
            if given:
                k = ctx.fint("kd")
                ctx.assume(k >= 0)
                return n, k, g, tot, call(U, ctx, "unique_sample_size", w, k=k)
            return n, n, g, tot, call(U, ctx, "unique_sample_size", w)
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            n, k, g, tot, r = oc[1]
            w = lambda i: g((iv(i),)).r
            r = xf(r)
            tag = "k given" if given else "k = n"
            body = lambda b: 1 - T.POW(1 - w(b) / tot, toreal(k))
            U.prove(ctx, "%s: value is sum of 1-(1-w_i/sum w)^k" % tag, And(r.fin, r.r == T.mk_sum(n, body)))
            i = ctx.fint("i")
            sum_elem(U, ctx, tag + ": w_i is at most the sum", n, w, i)
            ok = U.prove(ctx, tag + ": each term lies in [0, 1]", Implies(inrange(i, n), And(body(i) >= 0, body(i) <= 1)), sync=True)
            if ok:
                ctx.fact(T.mk_sum(n, body) >= 0)
                ctx.fact(T.mk_sum(n, lambda b: 1 - body(b)) >= 0)
            U.prove(ctx, tag + ": non-negative", r.r >= 0)
            U.prove(ctx, tag + ": at most the number of samples", r.r <= toreal(n))


def logws(ctx):
    """Log-weights: finite or -inf, not all -inf."""
    n = ctx.pint("n")
    f = z3.Function(fresh_name("lw"), I, R)
    ni = z3.Function(fresh_name("lw_ninf"), I, B)
    k0 = ctx.fint("kfin")
    ctx.assume(inrange(k0, n))
    ctx.assume(z3.Not(ni(k0)))
    return n, f, ni, k0


def ewt(f, ni):
    return lambda b: z3.If(ni(b), rv(0), EXP(f(b)))


def shifted(which):
    def unit(U):
        def run(ctx):
            n, f, ni, k0 = logws(ctx)
            c = ctx.freal("c")
            a = Arr((n,), lambda idx: XF(f(iv(idx[0])), False, False, ni(iv(idx[0]))), "f")
            sa = Snap(a)
            b = Arr((n,), lambda idx: XF(f(iv(idx[0])) + c, False, False, ni(iv(idx[0]))), "f")
            return n, f, ni, k0, c, a, sa, call(U, ctx, which, a), call(U, ctx, which, b)
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            n, f, ni, k0, c, a, sa, r, rs = oc[1]
            r, rs = xf(r), xf(rs)
            e = ewt(f, ni)
            s1 = T.mk_sum(n, e)
            s2 = T.mk_sum(n, lambda b: e(b) * e(b))
            ctx.fact(z3.And(e(k0) > 0))
            sum_elem(U, ctx, "sum of weights at least one of them", n, e, k0)
            sum_elem(U, ctx, "sum of squared weights at least one of them", n, lambda b: e(b) * e(b), k0)
            U.prove(ctx, "weights have positive sum", And(s1 > 0, s2 > 0))
            ctx.fact(z3.And(s1 > 0, s2 > 0))
            if which == "compute_ess":
                U.prove(ctx, "value is (sum w)^2 / sum w^2 / n with w = exp(logw)", And(r.fin, r.r == s1 * s1 / s2 / toreal(n)))
                U.prove(ctx, "unchanged by a constant added to all log-weights", And(rs.fin, rs.r == s1 * s1 / s2 / toreal(n)))
            else:
                U.prove(ctx, "value is log of the sum of exp(logw)", And(r.fin, r.r == LOG(s1)))
                U.prove(ctx, "a constant added to all log-weights is added to the value", And(rs.fin, rs.r == LOG(s1) + c))
            unchanged(U, ctx, "argument unchanged", a, sa)
    return unit


def prove():
    q = "pocomc.tools."
    return run_units("C12", [
        Unit("effective_sample_size", [q + "effective_sample_size"], ess),
        Unit("unique_sample_size", [q + "unique_sample_size"], uss),
        Unit("compute_ess", [q + "compute_ess"], shifted("compute_ess")),
        Unit("increment_logz", [q + "increment_logz"], shifted("increment_logz")),
    ], assumptions=["weights are finite, non-negative and have a positive sum; log-weights are finite or -inf and not all -inf"])
