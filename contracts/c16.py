from .world import *


def posterior(scheme, blobs, resample, rb, trim, rlw):
    def unit(U):
        def run(ctx):
            W = SW(U, ctx, blobs, resample=scheme, metric="ess", n_total=ctx.pint("n_total"))
            W.attrs0 = dict(W.S.attrs)
            W.p0 = dict(W.particles.attrs)
            U.E.hooks["choice_p"] = lambda c, p: None
            r = call_method(U, ctx, W, "posterior", resample=resample, return_blobs=rb, trim_importance_weights=trim, return_logw=rlw)
            return W, r
        for ctx, oc in U.paths(run):
            if not U.reach(ctx):
                continue
            if rb and not blobs:
                U.prove(ctx, "refused: there are no blobs", oc[0] == "raise" and oc[1].cls.issub(U.E.exc("ValueError")))
                continue
            if not U.no_raise(ctx, oc):
                continue
            W, r = oc[1]
            want = ["x", "logl", "logp"] if resample else ["x", "logw" if rlw else "weights", "logl", "logp"]
            if rb:
                want.append("blobs")
            r = list(r) if isinstance(r, (tuple, list)) else getattr(r, "items", None)
            if r is None or len(r) != len(want) or not all(isinstance(a, Arr) for a in r):
                U.prove(ctx, "returns %s" % ", ".join(want), False)
                continue
            out = dict(zip(want, r))
            m, src, b, wt = W.N, (lambda i: i), rv(1), (lambda i: EXP(LW(rv(1), iv(i))))
            if trim:
                U.prove(ctx, "trimmed once", len(W.trimmed) == 1)
                if len(W.trimmed) != 1:
                    continue
                b, m, src, wt = W.trimmed[0]
                U.prove(ctx, "trimmed by the posterior weights", b == 1)
            i, j = ctx.fint("i"), ctx.fint("j")
            ctx.assume(inrange(i, m))
            ctx.assume(inrange(j, W.d))
            at = src(i)
            if resample:
                got = drawn(W, ctx, m)
                U.prove(ctx, "resampled once", got is not None)
                if got is None:
                    continue
                idx, size, p, rep, rec = got
                U.prove(ctx, "resampled with replacement", rep is True)
                U.prove(ctx, "resampled in proportion to the posterior weights", isinstance(p, Arr) and And(iv(p.shape[0]) == m, val_same(p.get((i,)), XF(wt(i)))))
                at = src(iv(idx(i)))
                U.prove(ctx, "the index is that of a particle", inrange(iv(idx(i)), m))
            for k, a in out.items():
                U.prove(ctx, "%s: one entry per particle" % k, iv(a.shape[0]) == m)
            follow(U, ctx, W, "posterior", {k: a for k, a in out.items() if k in W.h}, {k: v for k, v in W.h.items() if k in out}, i, at, j)
            if "weights" in out:
                U.prove(ctx, "the weight is the particle's normalised posterior weight", val_same(out["weights"].get((i,)), XF(wt(i))))
            if "logw" in out:
                U.prove(ctx, "the log-weight is the particle's", val_same(out["logw"].get((i,)), XF(LW(rv(1), iv(at)))))
            for k, s in W.h.items():
                unchanged(U, ctx, "stored %s is not altered" % k, W.hist[k], s)
            U.prove(ctx, "the sampler is not altered", set(W.S.attrs) == set(W.attrs0) and all(W.S.attrs[k] is v for k, v in W.attrs0.items())
                    and all(W.particles.attrs.get(k) is v for k, v in W.p0.items()))
    return unit


def prove():
    q = "pocomc.sampler.Sampler."
    us = []
    for trim in (True, False):
        for resample in (False, True):
            for scheme in (("mult", "syst") if resample else ("mult",)):
                for rlw in (False, True):
                    for blobs, rb in ((False, False), (True, False), (True, True), (False, True)):
                        n = "posterior (%s%s%s%s%s)" % ("trimmed" if trim else "untrimmed", ", resampled " + scheme if resample else "", ", log-weights" if rlw else "",
                                                        ", blobs stored" if blobs else "", ", blobs asked" if rb else "")
                        us.append(Unit(n, [q + "posterior"], posterior(scheme, blobs, resample, rb, trim, rlw)))
    return run_units("C16", us, assumptions=["contracts of history, log-weights, trimming and resampling as in contracts/world.py (C22, C09, C13, C14); in particular the log-weights are normalised",
                                             "np.random.choice(n, size, p) draws indices below n with probabilities p"])
