from .world import *
from .c10 import reweight_run


def resample(scheme, blobs):
    def unit(U):
        def run(ctx):
            W = SW(U, ctx, blobs, resample=scheme)
            n = ctx.pint("n")
            cur = {k: ctx.sym_arr(k, (n, W.d) if k in "ux" else (n,)) for k in KEYS}
            if blobs:
                cur["blobs"] = ctx.sym_arr("blobs", (n,), "o")
            W.w = ctx.sym_arr("w", (n,))
            W.snap = {k: Snap(v) for k, v in cur.items()}
            W.arrs = dict(cur)
            W.n = n
            W.cur = PyDict(dict(cur, weights=W.w, beta=XF(ctx.freal("beta")), logz=XF(ctx.freal("logz"))))
            W.d0 = dict(W.cur.d)
            W.hooked = []
            U.E.hooks["choice_p"] = lambda c, p: None
            return W, call_method(U, ctx, W, "_resample", W.cur)
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W, r = oc[1]
            got = drawn(W, ctx, W.n)
            U.prove(ctx, "particles are drawn once", got is not None)
            if got is None or not isinstance(r, PyDict):
                continue
            idx, size, p, rep, rec = got
            U.prove(ctx, "drawn with replacement", rep is True)
            if isinstance(p, Arr):
                arr_same(U, ctx, "drawn in proportion to the weights", p, Snap(W.w).arr())
            else:
                U.prove(ctx, "drawn in proportion to the weights", False)
            if size is not None:
                U.prove(ctx, "as many as active particles are drawn", iv(size) == W.n_active)
            i, j = ctx.fint("i"), ctx.fint("j")
            ctx.assume(inrange(i, W.n_active))
            ctx.assume(inrange(j, W.d))
            U.prove(ctx, "the index is that of a particle", inrange(iv(idx(i)), W.n))
            for k in W.snap:
                a = r.d.get(k)
                U.prove(ctx, "%s: one entry per active particle" % k, isinstance(a, Arr) and iv(a.shape[0]) == W.n_active)
            follow(U, ctx, W, "resampled", r.d, W.snap, i, iv(idx(i)), j)
            for k, s in W.snap.items():
                unchanged(U, ctx, "%s selected from the history is not altered" % k, W.arrs[k], s)
            for k in ("beta", "logz"):
                U.prove(ctx, "%s is kept" % k, val_same(r.d.get(k), W.d0[k]))
    return unit


def reweight(blobs):
    def unit(U):
        for ctx, oc in U.paths(reweight_run(U, "ess", False, blobs)):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W, r = oc[1]
            if not isinstance(r, PyDict) or len(W.trimmed) != 1:
                U.prove(ctx, "particles are selected once by trimming", False)
                continue
            b, m, sel, wt = W.trimmed[0]
            i, j = ctx.fint("i"), ctx.fint("j")
            ctx.assume(inrange(i, m))
            ctx.assume(inrange(j, W.d))
            follow(U, ctx, W, "selected", r.d, W.h, i, sel(i), j)
            for k in W.h:
                a = r.d.get(k)
                U.prove(ctx, "%s: one entry per selected particle" % k, isinstance(a, Arr) and iv(a.shape[0]) == m)
            w = r.d.get("weights")
            if not isinstance(w, Arr):
                U.prove(ctx, "weights are there", False)
                continue
            U.prove(ctx, "the weight is the particle's normalised weight", And(iv(w.shape[0]) == m, val_same(w.get((i,)), XF(wt(i)))))
            U.prove(ctx, "the weights are those of the temperature recorded", xf(r.d.get("beta")).r == b)
            for k, s in W.h.items():
                unchanged(U, ctx, "stored %s is not altered" % k, W.hist[k], s)
    return unit


def prove():
    q = "pocomc.sampler.Sampler."
    us = [Unit("_resample (%s%s)" % (s, ", blobs" if b else ""), [q + "_resample"], resample(s, b)) for s in ("mult", "syst") for b in (False, True)]
    us += [Unit("_reweight selection%s" % (", blobs" if b else ""), [q + "_reweight"], reweight(b)) for b in (False, True)]
    return run_units("C15", us, assumptions=["contracts of history, log-weights, trimming, resampling and metrics as in contracts/world.py (C22, C09, C13, C14, C12)",
                                             "np.random.choice(n, size, p) draws indices below n with probabilities p"])
