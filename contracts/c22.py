from .lib import *

VEC = ("logdetj", "logl", "logp", "logw")
MAT = ("u", "x")
SCALF = ("logz", "efficiency", "ess", "accept", "beta")
SCALI = ("iter", "calls", "steps")
KEYS = MAT + VEC + ("blobs",) + SCALI + SCALF


class Hist:
    """A history of Tn iterations, every stored quantity symbolic."""
    def __init__(self, U, ctx):
        E = U.E
        self.U, self.ctx = U, ctx
        self.Tn, self.n, self.d = ctx.pint("T"), ctx.pint("n"), ctx.pint("d")
        self.P = E.ip.call(ctx, E.load("pocomc.particles").vars["Particles"], [self.n, self.d], {})
        self.g = {}
        past = self.P.attrs.get("past")
        if not isinstance(past, PyDict):
            raise Unsupported("the history is kept differently")
        self.past = past
        d = dict(past.d)
        for k in KEYS:
            self.g[k] = snapshot(self.sym(k, self.Tn))
            d[k] = SymList(self.Tn, self.item(k, self.g[k]))
        self.extra = set(past.d) - set(KEYS)
        ctx.set(past, "d", d)

    def rest(self, k):
        return (self.n, self.d) if k in MAT else (self.n,) if k in VEC or k == "blobs" else ()

    def dt(self, k):
        return "o" if k == "blobs" else "i" if k in SCALI else "f"

    def sym(self, k, first=None):
        return self.ctx.sym_arr("h_" + k, (() if first is None else (first,)) + self.rest(k), self.dt(k))

    def item(self, k, g):
        r = self.rest(k)
        if r:
            return lambda t: Arr(r, lambda idx: g((iv(t),) + tuple(idx)), self.dt(k))
        return lambda t: g((iv(t),))

    def record(self):
        """One more iteration."""
        c = self.ctx
        return {k: (self.sym(k) if self.rest(k) else c.fint("n_" + k) if k in SCALI else XF(c.freal("n_" + k))) for k in KEYS}


def at(v, idx):
    return v.get(idx) if isinstance(v, Arr) else v


def update(present):
    def unit(U):
        def run(ctx):
            H = Hist(U, ctx)
            rec = H.record()
            if not present:
                rec.pop("logw"), rec.pop("blobs")
            H.rec = rec
            H.new = {k: Snap(v) if isinstance(v, Arr) else v for k, v in rec.items()}
            data = PyDict(dict(rec, weights=ctx.sym_arr("w", (ctx.pint("m"),)), other=3))
            H.data, H.d0 = data, dict(data.d)
            U.E.ip.call(ctx, U.E.ip.getattr(ctx, H.P, "update"), [data], {})
            return H
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            H = oc[1]
            past = H.P.attrs["past"].d
            U.prove(ctx, "the stored quantities are the same", set(KEYS) <= set(past) and not (set(past) - set(KEYS) - H.extra))
            t, i, j = ctx.fint("t"), ctx.fint("i"), ctx.fint("j")
            ctx.assume(inrange(t, H.Tn))
            ctx.assume(inrange(i, H.n))
            ctx.assume(inrange(j, H.d))
            for k in KEYS:
                L = past.get(k)
                L = L.sym if isinstance(L, PyList) and L.sym is not None else L
                if not isinstance(L, SymList):
                    U.prove(ctx, "%s: still a list of records" % k, False)
                    continue
                more = 1 if k in H.rec else 0
                U.prove(ctx, "%s: %d record added" % (k, more), iv(L.n) == H.Tn + more)
                ix = (i, j)[:len(H.rest(k))]
                U.prove(ctx, "%s: earlier records are kept" % k, val_same(at(L.item(t), ix), H.g[k]((t,) + ix)))
                if more:
                    want = H.new[k]
                    U.prove(ctx, "%s: the new record is the last" % k, val_same(at(L.item(H.Tn), ix), want.g(ix) if isinstance(want, Snap) else want))
            U.prove(ctx, "the particles given are not altered", set(H.data.d) == set(H.d0) and all(H.data.d[k] is v for k, v in H.d0.items()))
    return unit


LW = z3.Function("LWT", I, R, I, R)
LZ = z3.Function("LZT", I, R, R)


def weights_contract(U, H):
    def f(c, fn, a, k):
        b = xf(arg(a[1:], k, 0, "beta_final", 1.0))
        L = H.P.attrs["past"].d["logl"]
        Tn = iv(L.n)
        return Arr((Tn * H.n,), lambda idx: XF(LW(Tn, b.r, iv(idx[0]))), "f"), XF(LZ(Tn, b.r))
    U.E.active["pocomc.particles:Particles.compute_logw_and_logz"] = f


def results(before, updates):
    def unit(U):
        def run(ctx):
            H = Hist(U, ctx)
            weights_contract(U, H)
            call = lambda n, *a: U.E.ip.call(ctx, U.E.ip.getattr(ctx, H.P, n), list(a), {})
            if before:
                call("compute_results")
            H.new = []
            for _ in range(updates):
                rec = H.record()
                H.new.append({k: Snap(v) if isinstance(v, Arr) else v for k, v in rec.items()})
                call("update", PyDict(rec))
            return H, call("compute_results"), call("compute_results") if before else None
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            H, r, r2 = oc[1]
            if not isinstance(r, PyDict):
                U.prove(ctx, "a dictionary", False)
                continue
            U.prove(ctx, "the documented keys", set(KEYS) <= set(r.d))
            if r2 is not None:
                U.prove(ctx, "asking again gives the same", isinstance(r2, PyDict) and set(r2.d) == set(r.d))
            t, i, j = ctx.fint("t"), ctx.fint("i"), ctx.fint("j")
            ctx.assume(inrange(t, H.Tn))
            ctx.assume(inrange(i, H.n))
            ctx.assume(inrange(j, H.d))
            Tn = H.Tn + updates
            for k in KEYS:
                a = r.d.get(k)
                if k == "logw":
                    f = ctx.fint("f")
                    ctx.assume(inrange(f, Tn * H.n))
                    U.prove(ctx, "logw: for the whole history, at temperature one", isinstance(a, Arr) and a.ndim == 1 and And(iv(a.shape[0]) == Tn * H.n, val_same(a.get((f,)), XF(LW(z3.simplify(Tn), rv(1), f)))))
                    continue
                if not isinstance(a, Arr) or a.ndim != 1 + len(H.rest(k)):
                    U.prove(ctx, "%s: an array over iterations" % k, False)
                    continue
                ix = (i, j)[:len(H.rest(k))]
                U.prove(ctx, "%s: all iterations" % k, iv(a.shape[0]) == Tn)
                U.prove(ctx, "%s: in order" % k, val_same(a.get((t,) + ix), H.g[k]((t,) + ix)))
                for q in range(updates):
                    want = H.new[q][k]
                    U.prove(ctx, "%s: the iterations added later too" % k, val_same(a.get((H.Tn + q,) + ix), want.g(ix) if isinstance(want, Snap) else want))
    return unit


def get(U):
    def run(ctx):
        H = Hist(U, ctx)
        call = lambda *a, **kw: U.E.ip.call(ctx, U.E.ip.getattr(ctx, H.P, "get"), list(a), kw)
        H.last = {k: call(k, -1) for k in KEYS}
        H.flat = {k: call(k, None, True) for k in KEYS if H.rest(k)}
        H.all = {k: call(k) for k in KEYS}
        return H
    for ctx, oc in U.paths(run):
        if not U.reach(ctx) or not U.no_raise(ctx, oc):
            continue
        H = oc[1]
        t, i, j = ctx.fint("t"), ctx.fint("i"), ctx.fint("j")
        ctx.assume(inrange(t, H.Tn))
        ctx.assume(inrange(i, H.n))
        ctx.assume(inrange(j, H.d))
        for k in KEYS:
            ix = (i, j)[:len(H.rest(k))]
            U.prove(ctx, "%s: last record" % k, val_same(at(H.last[k], ix), H.g[k]((H.Tn - 1,) + ix)))
            a = H.all[k]
            U.prove(ctx, "%s: all records" % k, isinstance(a, Arr) and And(iv(a.shape[0]) == H.Tn, val_same(a.get((t,) + ix), H.g[k]((t,) + ix))))
            if k in H.flat:
                a = H.flat[k]
                f = t * H.n + i
                U.prove(ctx, "%s: all particles, flat" % k, isinstance(a, Arr) and a.ndim == len(H.rest(k)) and And(iv(a.shape[0]) == H.Tn * H.n, val_same(a.get((f,) + ix[1:]), H.g[k]((t,) + ix))))


def prove():
    q = "pocomc.particles.Particles."
    us = [Unit("update (%s)" % ("every quantity" if p else "without logw and blobs"), [q + "update", q + "__init__"], update(p)) for p in (True, False)]
    us += [Unit("compute_results (%s, %d iterations added)" % ("asked before" if b else "first time", m), [q + "compute_results", q + "update", q + "get"], results(b, m)) for b in (False, True) for m in (0, 1, 2)]
    us += [Unit("get", [q + "get"], get)]
    return run_units("C22", us, assumptions=["all iterations record the same number of particles", "log-weights of the history by the contract of compute_logw_and_logz (C09)",
                                             "the iteration number recorded by _reweight is proved to be the sampler's counter, which then grows by one (C10)"])
