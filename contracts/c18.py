from .lib import *


def world(U, ctx, mode, blobs=False, extra=True):
    """A sampler whose likelihood is the wrapped user function; the user function is f(row, extra arguments)."""
    E = U.E
    W = type("W", (), {})()
    W.n, W.d = ctx.pint("n"), ctx.pint("d")
    x = ctx.sym_arr("x", (W.n, W.d))
    W.x, W.sx = x, Snap(x)
    W.ll = xuf("LLIKE", [T.Row])
    W.bl = uf("BLOB", T.Row, T.Obj) if blobs != "numbers" else (lambda f: lambda v: XF(f(v)))(uf("BLOBN", T.Row, R))
    W.a1, W.k1 = ObjVal(None, {}), ObjVal(None, {})
    W.bad = []
    W.calls = 0

    def user(c, a, k):
        if extra:
            U.prove(c, "the likelihood gets the extra arguments supplied", len(a) == 2 and a[1] is W.a1 and set(k) == {"key"} and k["key"] is W.k1)
        else:
            U.prove(c, "the likelihood gets no extra arguments", len(a) == 1 and not k)
        p = a[0]
        if mode == "vectorised":
            return rowval(c, W.ll, p)
        v = row_term(c, Snap(p).arr())
        W.calls += 1
        return (W.ll(v), W.bl(v)) if blobs else W.ll(v)
    f = Model("likelihood", user)
    fw = E.load("pocomc.tools").vars["FunctionWrapper"]
    lw = E.ip.call(ctx, fw, [f] + ([PyList([W.a1]), PyDict({"key": W.k1})] if extra else [None, None]), {})
    cls = E.load("pocomc.sampler").vars["Sampler"]
    W.S = ObjVal(cls, dict(log_likelihood=lw, vectorize=mode == "vectorised", have_blobs=False, blobs_dtype=None, pool=None, distribute=E.builtins["map"]))
    if mode == "pooled":
        W.S.attrs.update(pool=ObjVal(None, {}), distribute=Model("pool.map", lambda c, a, k: E.ip.call(c, E.builtins["list"], [E.ip.call(c, E.builtins["map"], a, k)], {})))
    return W


def loglike(mode, extra):
    def unit(U):
        def run(ctx):
            W = world(U, ctx, mode, False, extra)
            W.r = U.E.ip.call(ctx, U.E.ip.getattr(ctx, W.S, "_log_like"), [W.x], {})
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W = oc[1]
            r = W.r
            if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Arr)):
                U.prove(ctx, "returns values and blobs", False)
                continue
            U.prove(ctx, "no blobs", r[1] is None)
            want = rowval(ctx, W.ll, W.sx.arr())
            arr_same(U, ctx, "every point gets the likelihood's value at that point, in order", r[0], want)
            unchanged(U, ctx, "the points are not altered", W.x, W.sx)
            U.prove(ctx, "no blobs are announced", W.S.attrs["have_blobs"] is False)
    return unit


def withblobs(mode, dtype):
    def unit(U):
        def run(ctx):
            W = world(U, ctx, mode, "objects" if dtype else "numbers", True)
            W.S.attrs["blobs_dtype"] = dtype
            W.r = U.E.ip.call(ctx, U.E.ip.getattr(ctx, W.S, "_log_like"), [W.x], {})
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W = oc[1]
            r = W.r
            if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Arr) and isinstance(r[1], Arr)):
                U.prove(ctx, "returns values and blobs", False)
                continue
            want = rowval(ctx, W.ll, W.sx.arr())
            arr_same(U, ctx, "every point gets the likelihood's value at that point, in order", r[0], want)
            b = r[1]
            i = ctx.fint("i")
            ctx.assume(inrange(i, W.n))
            U.prove(ctx, "one blob per point", b.ndim == 1 and iv(b.shape[0]) == W.n)
            U.prove(ctx, "the blob is the point's own", val_same(b.get((i,)), W.bl(row_term(ctx, W.sx.arr(), i))))
            unchanged(U, ctx, "the points are not altered", W.x, W.sx)
            U.prove(ctx, "blobs are announced", W.S.attrs["have_blobs"] is True)
    return unit


def prove():
    q = "pocomc.sampler.Sampler."
    us = [Unit("_log_like (%s%s)" % (m, ", extra arguments" if e else ""), [q + "_log_like", "pocomc.tools.FunctionWrapper.__call__", "pocomc.tools.FunctionWrapper.__init__"], loglike(m, e))
          for m in ("vectorised", "serial", "pooled") for e in (False, True)]
    us += [Unit("_log_like (%s, blobs%s)" % (m, ", declared dtype" if dt else ""), [q + "_log_like"], withblobs(m, dt)) for m in ("serial", "pooled") for dt in (None, "object")]
    return run_units("C18", us, assumptions=["the pool's map returns the results in the order of the points, one per point (C19 for the MPI pool)", "the likelihood is a function of the point",
                                             "likelihood values are Python or numpy floats (no length)"],
                     bounded=["blobs (numeric, structured, strings) and their dtypes: run-time contracts only"])
