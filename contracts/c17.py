from .lib import *


def evidence(alllik, count=False):
    def unit(U):
        def run(ctx):
            E = U.E
            n, d = ctx.pint("n"), ctx.pint("d")
            V = T.Row
            th, lq = ctx.sym_arr("theta", (n, d)), ctx.sym_arr("logq", (n,))
            W = type("W", (), {})()
            W.n, W.th, W.lq = n, Snap(th), Snap(lq)
            inv, ldj = uf("INV", V, V), uf("LDJ", V, R)
            lp = xuf("LPRIOR", [V])
            ll = xuf("LLIKE", [V]) if alllik else xuf("LLIKE", [V], False)
            W.fns = inv, ldj, lp, ll
            W.samples = []
            W.rows, W.calls0 = [], ctx.fint("calls")

            def sample(c, a, k):
                W.samples.append(arg(a, k, 0, "size"))
                return th, lq
            W.std = []
            if alllik:
                # log-likelihoods may be -inf but neither NaN nor +inf
                l0 = ll
                ll = lambda v: XF(l0(v).r, False, False, l0(v).ni)
                W.fns = inv, ldj, lp, ll

            def std(c, a, kw):
                W.std.append(a[0])
                v = c.freal("std")
                return XF(v)
            E.nptbl["std"] = Model("np.std", std)
            for nm in ("torch_to_numpy",):
                E.active["pocomc.tools:" + nm] = lambda c, f, a, k: a[0]
            def like(c, a, k):
                W.rows.append(iv(a[0].shape[0]))
                if count:
                    r = c.fint("r")
                    U.prove(c, "evidence: the likelihood is called only where the prior is finite", Implies(inrange(r, a[0].shape[0]), lp(row_term(c, Snap(a[0]).arr(), r)).fin))
                return rowval(c, ll, a[0]), None
            cls = E.load("pocomc.sampler").vars["Sampler"]
            W.S = ObjVal(cls, dict(flow=ObjVal(None, dict(sample=Model("flow.sample", sample))), calls=W.calls0,
                                   scaler=ObjVal(None, dict(inverse=Model("inverse", lambda c, a, k: (rowmap(c, inv, a[0], d), rowval(c, lambda v: XF(ldj(v)), a[0]))))),
                                   log_prior=Model("log_prior", lambda c, a, k: rowval(c, lp, a[0])), _log_like=Model("_log_like", like),
                                   pbar=ObjVal(None, dict(update_stats=Model("update_stats", lambda c, a, k: None))), logz=None, logz_err=None))
            W.r = E.ip.call(ctx, E.ip.getattr(ctx, W.S, "_compute_evidence"), [n], {})
            W.ev = E.ip.call(ctx, E.ip.getattr(ctx, W.S, "evidence"), [], {})
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W = oc[1]
            n = W.n
            inv, ldj, lp, ll = W.fns
            if count:
                U.prove(ctx, "evidence: the count of likelihood calls grows by the points evaluated", iv(W.S.attrs["calls"]) == W.calls0 + sum(W.rows, z3.IntVal(0)))
                continue
            U.prove(ctx, "as many flow samples as asked for are drawn, once", len(W.samples) == 1 and iv(W.samples[0]) == n)
            lz = xf(W.S.attrs["logz"])
            base = W.th.arr()

            def logw(i):
                v = row_term(ctx, base, i)
                x = inv(v)
                p = lp(x)
                return xite(p.fin, xsub(xadd(xadd(ll(x), p), XF(ldj(v))), W.lq.g((i,))), XF(ZERO, False, False, True))

            def w(i):
                x = logw(i)
                return z3.If(zb(x.ni), ZERO, EXP(x.r))
            tot = T.mk_sum(n, lambda i: w(iv(i)))
            sum_nonneg(U, ctx, "weights of draws", n, lambda i: w(iv(i)))
            U.prove(ctx, "the evidence is the mean over all draws of likelihood x prior x Jacobian / flow density", z3.If(tot > 0, zb(And(lz.fin, lz.r == LOG(tot) - LOG(toreal(n)))), zb(lz.ni)))
            ev = W.ev
            U.prove(ctx, "the evidence query returns both values", isinstance(ev, tuple) and len(ev) == 2 and ev[0] is W.S.attrs["logz"] and ev[1] is W.S.attrs["logz_err"])
            U.prove(ctx, "the error is a standard deviation", len(W.std) == 1)
            if len(W.std) != 1:
                continue
            b = W.std[0]
            b = b if isinstance(b, Arr) else as_arr(ctx, b)
            k = ctx.fint("b")
            ctx.assume(inrange(k, iv(b.shape[0])))
            v = xf(b.get((k,)))
            ch = [q for q in ctx.draws if q["kind"] == "choice"]
            U.prove(ctx, "each bootstrap resample draws from all draws, with replacement", len(ch) == 1 and ch[0]["replace"] is True and ch[0]["p"] is None and iv(ch[0]["n"]) == n)
            if len(ch) != 1:
                continue
            dec, size = ch[0]["decl"], ch[0]["shape"]
            if dec.arity() != 2 or len(size) != 1:
                raise Unsupported("bootstrap drawn differently")
            U.prove(ctx, "each bootstrap resample is as large as the draws", iv(size[0]) == n)
            wb = lambda i: w(dec(k, iv(i)))
            totb = T.mk_sum(n, wb)
            sum_nonneg(U, ctx, "weights of resampled draws", n, wb)
            U.prove(ctx, "the error is that of the same estimator on resampled draws", z3.If(totb > 0, zb(And(v.fin, v.r == LOG(totb) - LOG(toreal(n)))), zb(v.ni)))
            U.prove(ctx, "at least two resamples", iv(b.shape[0]) >= 2)
    return unit


def xite(c, a, b):
    return XF(z3.If(zb(c), a.r, b.r), If_(c, a.nan, b.nan), If_(c, a.pi, b.pi), If_(c, a.ni, b.ni))


def If_(c, a, b):
    return z3.If(zb(c), zb(a), zb(b))


def prove():
    q = "pocomc.sampler.Sampler."
    us = [Unit("_compute_evidence (%s likelihood)" % ("any" if f else "finite"), [q + "_compute_evidence", q + "evidence"], evidence(f)) for f in (False, True)]
    return run_units("C17", us, assumptions=["log-likelihoods are finite or -inf", "np.std is the standard deviation of its argument", "flow samples and log-densities as the flow's contract gives them (C25)"])
