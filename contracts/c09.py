from .lib import *
from pyvc import libmodel

SPECNOTE = "log-likelihoods recorded in the history are finite; all iterations record the same number of particles; beta and logz are finite"


def history(ctx, normalize):
    Tn, n = ctx.pint("T"), ctx.pint("n")
    logl = ctx.sym_arr("logl", (Tn, n))
    beta = ctx.sym_arr("beta", (Tn,))
    logz = ctx.sym_arr("logz", (Tn,))
    return Tn, n, logl, beta, logz


def particles(E, ctx, Tn, n, logl, beta, logz):
    P = E.ip.call(ctx, E.load("pocomc.particles").vars["Particles"], [n, ctx.fint("ndim")], {})
    gl, gb, gz = snapshot(logl), snapshot(beta), snapshot(logz)
    past = P.attrs["past"]
    d = dict(past.d)
    d["logl"] = SymList(Tn, lambda t: Arr((n,), lambda idx: gl((iv(t), idx[0])), "f"))
    d["beta"] = SymList(Tn, lambda t: gb((iv(t),)))
    d["logz"] = SymList(Tn, lambda t: gz((iv(t),)))
    ctx.set(past, "d", d)
    return P


def weights(U, normalize):
    E = U.E

    def run(ctx):
        Tn, n, logl, beta, logz = history(ctx, normalize)
        P = particles(E, ctx, Tn, n, logl, beta, logz)
        bf = ctx.freal("beta_final")
        kw = {} if normalize is None else {"normalize": normalize}
        r = E.ip.call(ctx, E.ip.getattr(ctx, P, "compute_logw_and_logz"), [XF(bf)], kw)
        return Tn, n, snapshot(logl), snapshot(beta), snapshot(logz), bf, r
    for ctx, oc in U.paths(run):
        if not U.reach(ctx) or not U.no_raise(ctx, oc):
            continue
        Tn, n, gl, gb, gz, bf, r = oc[1]
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Arr) and r[0].ndim == 1):
            U.prove(ctx, "returns (log-weights, log-evidence)", False)
            continue
        logw, z = r[0], xf(r[1])
        U.prove(ctx, "one log-weight per stored particle", iv(logw.shape[0]) == Tn * n)
        l = lambda t, i: gl((t, i)).r
        mix = lambda t, i: T.mk_sum(Tn, lambda s: EXP(l(t, i) * gb((s,)).r - gz((s,)).r))
        raw = lambda t, i: l(t, i) * bf - LOG(mix(t, i) / toreal(Tn))
        # weight itself: L^beta / ((1/T) sum_s L^beta_s / Z_s)
        wt = lambda t, i: EXP(l(t, i) * bf) * toreal(Tn) / mix(t, i)
        tot = T.mk_sum(Tn, lambda t: T.mk_sum(n, lambda i: wt(t, i)))
        flat = lambda g: libmodel.concatenate(U.E, ctx, Arr((Tn, n), lambda idx: XF(g(iv(idx[0]), iv(idx[1]))), "f"), 0)
        f = ctx.fint("f")
        ctx.assume(inrange(f, Tn * n))
        v = xf(logw.get((f,)))
        U.prove(ctx, "total weight is positive", tot > 0)
        ctx.fact(tot > 0)
        U.prove(ctx, "log-evidence is the log of the mean unnormalised weight", And(z.fin, EXP(z.r) == tot / (toreal(Tn) * toreal(n))))
        U.prove(ctx, "log-weight is finite", v.fin)
        wf = flat(wt).get((f,)).r
        if normalize is False:
            U.prove(ctx, "weight is L^beta over the mean of L^beta_t / Z_t, in the order of the history", EXP(v.r) == wf)
        else:
            U.prove(ctx, "normalised weight is the mixture weight over the total, in the order of the history", EXP(v.r) == wf / tot)
            s = T.mk_sum(z3.simplify(Tn * n), lambda a: EXP(xf(logw.get((a,))).r))
            U.prove(ctx, "normalised weights sum to one", s == 1)


def prove():
    q = "pocomc.particles.Particles."
    fns = [q + "compute_logw_and_logz", q + "get", q + "__init__"]
    return run_units("C09", [
        Unit("compute_logw_and_logz(normalize=False)", fns, lambda U: weights(U, False)),
        Unit("compute_logw_and_logz(normalize=True)", fns, lambda U: weights(U, True)),
        Unit("compute_logw_and_logz(default)", fns, lambda U: weights(U, None)),
    ], assumptions=[SPECNOTE])
