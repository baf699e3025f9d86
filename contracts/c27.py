from .lib import *
from pyvc.invloop import LoopSpec, handler
import ast

FWD = None


class Warm(LoopSpec):
    """Batches t0 .. t-1 are recorded; the counter is the number of the next batch; the samples of later batches are untouched."""
    name = "warm-up"

    def __init__(self, W):
        self.W = W

    def covers(self, L):
        return L.n is not None and not self.W.done

    def value(self, L, owner, key, old):
        W = self.W
        if owner is W.S and key == "t":
            return z3.simplify(W.t0 + iv(L.k))
        if owner is W.S and key in ("current_particles", "pbar"):
            return PyDict({}) if key == "current_particles" else NotImplemented
        if owner is W.G and key == "batches":
            return z3.simplify(W.t0 + iv(L.k))
        if owner in (W.S, W.G) and key == "calls":
            return L.data.setdefault("calls", W.ctx.fint("counted"))
        return NotImplemented

    def contents(self, L, arr):
        W = self.W
        if arr is W.PS.root():
            g0 = W.g0
            hv = W.ctx.sym_arr("replaced", arr.shape).fn
            nxt = (W.t0 + iv(L.k)) * W.na
            return lambda idx: merge_xf(iv(idx[0]) >= nxt, g0(idx), hv(idx))
        return NotImplemented

    def check(self, L, where):
        W = self.W
        L.prove("the counter is the number of the next batch", iv(W.S.attrs["t"]) == W.t0 + iv(L.k))
        L.prove("the count of likelihood calls is the number of points evaluated", iv(W.S.attrs["calls"]) == iv(W.G.attrs["calls"]))
        L.prove("every earlier batch was recorded once", iv(W.G.attrs["batches"]) == W.t0 + iv(L.k))
        i, j = L.ctx.fint("i"), L.ctx.fint("j")
        L.prove("the samples of later batches are untouched", Implies(And(i >= (W.t0 + iv(L.k)) * W.na, i < iv(W.PS.shape[0]), inrange(j, W.d)), val_same(W.PS.get((i, j)), W.g0((i, j)))))


def merge_xf(c, a, b):
    a, b = xf(a), xf(b)
    return XF(z3.If(zb(c), a.r, b.r))


class WW:
    pass


def warmup(resume, blobs, drawn, infinite=True):
    def unit(U):
        def run(ctx):
            E = U.E
            W = WW()
            W.ctx, W.done = ctx, False
            W.na, W.d = ctx.pint("n_active"), ctx.pint("d")
            W.n_prior = ctx.pint("n_prior")
            na, d = W.na, W.d
            W.PS = ctx.sym_arr("prior_samples", (W.n_prior, d))
            W.g0 = snapshot(W.PS)
            W.t0 = ctx.fint("t0")
            ctx.assume(And(W.t0 >= 0, W.n_prior >= na))
            if not resume:
                ctx.assume(W.t0 == 0)
            V = T.Row
            fwd, ldj, lp = uf("FWD", V, V), uf("LDJ", V, R), uf("LPRIOR", V, R)
            ll = xuf("LLIKE", [V]) if infinite else xuf("LLIKE", [V], False)
            bl = uf("BLOB", V, T.Obj)
            W.fns = fwd, ldj, lp, ll, bl
            calls0 = ctx.fint("calls")
            W.G = ObjVal(None, dict(batches=W.t0, fitted=0 if drawn else 1, calls=calls0))
            cls = E.load("pocomc.sampler").vars["Sampler"]
            W.records = []

            def fit(c, a, k):
                ok = isinstance(a[0], Arr) and a[0].root() is W.PS.root()
                U.prove(c, "the reparameterisation is fitted to the prior samples, once", And(ok, W.G.attrs["fitted"] == 0))
                c.set(W.G, "attrs", dict(W.G.attrs, fitted=1))

            def canon(c, x, who):
                """The batch itself, if that is what x holds (rows are equal if their entries are)."""
                if U.muted or not isinstance(x, Arr) or x.ndim != 2:
                    return x
                base = batch(W)
                r, j = c.fint("r"), c.fint("j")
                if U.prove(c, "%s is given the next batch" % who, And(iv(x.shape[0]) == na, Implies(And(inrange(r, na), inrange(j, d)), val_same(x.get((r, j)), base.get((r, j))))), sync=True):
                    return base
                return x

            def forward(c, a, k):
                U.prove(c, "fitted before anything is transformed", W.G.attrs["fitted"] == 1)
                return rowmap(c, fwd, canon(c, a[0], "the reparameterisation"), d)

            def inverse(c, a, k):
                return Poison("points mapped back"), rowval(c, lambda v: XF(ldj(v)), a[0])

            def like(c, a, k):
                s = canon(c, a[0], "the likelihood")
                c.set(W.G, "attrs", dict(W.G.attrs, calls=z3.simplify(iv(W.G.attrs["calls"]) + iv(a[0].shape[0]))))
                return rowval(c, ll, s), Arr((s.shape[0],), (lambda sa: lambda idx: bl(row_term(c, sa, iv(idx[0]))))(Snap(s).arr()), "o") if blobs else None

            def update(c, a, k):
                if not U.muted:
                    record(U, c, W, arg(a, k, 0, "data"))
                c.set(W.G, "attrs", dict(W.G.attrs, batches=z3.simplify(iv(W.G.attrs["batches"]) + 1)))
            scal = dict(calls=0, steps=1, beta=0.0, logz=0.0, ess=100, accept=1.0, efficiency=1.0)

            def get(c, a, k):
                if a[0] in scal:
                    return scal[a[0]]
                return c.sym_arr("last", (na,))

            def rvs(c, a, k):
                U.prove(c, "as many prior samples as planned are drawn, once", And(iv(arg(a, k, 0, "size")) == W.n_prior, not W.G.attrs.get("drawn")))
                c.set(W.G, "attrs", dict(W.G.attrs, drawn=True))
                return W.PS

            def loadst(c, a, k):
                c.set(W.S, "attrs", dict(W.S.attrs, t=W.t0, prior_samples=None if drawn else W.PS, warmup=True))

            def notterm(c, a, k):
                W.done = True
                return False
            stub = lambda n: Model(n, lambda c, a, k: None)
            for n in ("__init__", "update_stats", "update_iter", "close"):
                E.active["pocomc.tools:ProgressBar." + n] = lambda c, f, a, k: None
            W.S = ObjVal(cls, dict(t=0 if not resume else ctx.fint("before"), calls=calls0, n_active=na, n_prior=W.n_prior, n_dim=d, warmup=True, have_blobs=blobs,
                                   n_effective=ctx.pint("ne"), progress=False, preconditioned=False, current_particles=None, output_dir="out", output_label="label",
                                   prior_samples=None if drawn or resume else W.PS, sample_prior=Model("rvs", rvs), log_prior=Model("logprior", lambda c, a, k: rowval(c, lambda v: XF(lp(v)), canon(c, a[0], "the prior"))),
                                   scaler=ObjVal(None, dict(fit=Model("fit", fit), forward=Model("forward", forward), inverse=Model("inverse", inverse))),
                                   _log_like=Model("_log_like", like), particles=ObjVal(None, dict(update=Model("update", update), get=Model("get", get),
                                                                                                  compute_logw_and_logz=Model("logw", lambda c, a, k: (None, XF(c.freal("lz")))))),
                                   _not_termination=Model("nt", notterm), load_state=Model("load_state", loadst), save_state=stub("save_state"), _ghost=W.G))
            E.handlers[:] = [handler(U, [Warm(W)])]
            try:
                kw = dict(progress=False)
                if resume:
                    kw["resume_state_path"] = "checkpoint"
                E.ip.call(ctx, E.ip.getattr(ctx, W.S, "run"), [], kw)
            finally:
                E.handlers[:] = []
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx):
                continue
            if oc[0] == "raise":
                U.prove(ctx, "fails only for want of a finite likelihood in the batch", "finite" if False else nofinite(U, ctx, oc))
                continue
            W = oc[1]
            nb = W.n_prior / W.na
            U.prove(ctx, "all full batches are recorded", Implies(W.t0 <= nb, iv(W.G.attrs["batches"]) == nb))
            U.prove(ctx, "the next iteration follows the batches", Implies(W.t0 <= nb, iv(W.S.attrs["t"]) == nb))
            U.prove(ctx, "warm-up is over", W.S.attrs["warmup"] is False)
    return unit


def batch(W):
    t = W.G.attrs["batches"]
    return Arr((W.na, W.d), lambda idx: W.g0((iv(t) * W.na + iv(idx[0]), idx[1])), "f")


def nofinite(U, ctx, oc):
    return bool(oc[1].cls.issub(U.E.exc("ValueError")) and any(isinstance(a, str) and "empty" in a for a in oc[1].eargs))


def record(U, c, W, data):
    fwd, ldj, lp, ll, bl = W.fns
    t = W.G.attrs["batches"]
    if not isinstance(data, PyDict):
        U.prove(c, "record: the particles", False)
        return
    D = data.d
    r, j = c.fint("r"), c.fint("j")
    c.assume(inrange(r, W.na))
    c.assume(inrange(j, W.d))
    need = ("u", "x", "logl", "logp", "logdetj") + (("blobs",) if len(D) and D.get("blobs") is not None else ())
    for k in need:
        a = D.get(k)
        if not isinstance(a, Arr):
            U.prove(c, "record: %s is there" % k, False)
            return
        U.prove(c, "record: %s has one entry per active particle" % k, iv(a.shape[0]) == W.na)
    # the sample each particle comes from: its own, or the one drawn for it
    base = batch(W)
    own = row_term(c, base, r)
    x = xf(D["x"].get((r, j)))
    lown = ll(own)
    V = row_term(c, Snap(D["x"]).arr(), r)
    U.prove(c, "record: a particle with finite likelihood is the sample itself", Implies(Not(lown.inf), val_same(x, base.get((r, j)))))
    U.prove(c, "record: its transform", Implies(Not(lown.inf), val_same(xf(D["u"].get((r, j))), el_xf(fwd(own), j))))
    U.prove(c, "record: its Jacobian", Implies(Not(lown.inf), val_same(D["logdetj"].get((r,)), XF(ldj(fwd(own))))))
    U.prove(c, "record: its log-prior", Implies(Not(lown.inf), val_same(D["logp"].get((r,)), XF(lp(own)))))
    U.prove(c, "record: its log-likelihood", Implies(Not(lown.inf), val_same(D["logl"].get((r,)), lown)))
    if "blobs" in need:
        U.prove(c, "record: its blobs", Implies(Not(lown.inf), D["blobs"].get((r,)) == bl(own)))
    U.prove(c, "record: no infinite likelihood", Not(xf(D["logl"].get((r,))).inf))
    # replacement: the whole particle is that of one sample of the batch with finite likelihood
    cand = []
    lv = xf(D["logl"].get((r,)))
    for q in subterms([lv.r] + [f for f in lv.flags() if is_z3(f)]):
        if z3.is_app(q) and q.decl().name() == "LLIKE" and z3.is_app(q.arg(0)):
            for s in q.arg(0).children():
                if s.sort() == I and not any(s.eq(e) for e in cand) and row_term(c, base, s).eq(q.arg(0)):
                    cand.append(s)
    whole = []
    for s in cand:
        v = row_term(c, base, s)
        one = [inrange(s, W.na), Not(ll(v).inf), val_same(x, base.get((s, j))), val_same(xf(D["u"].get((r, j))), el_xf(fwd(v), j)), val_same(D["logdetj"].get((r,)), XF(ldj(fwd(v)))),
               val_same(D["logp"].get((r,)), XF(lp(v))), val_same(lv, ll(v))]
        if "blobs" in need:
            one.append(D["blobs"].get((r,)) == bl(v))
        whole.append(And(*one))
    U.prove(c, "record: every particle as a whole is a sample of the batch with finite likelihood", Or(*whole) if whole else c.fbool("no_witness"), note="witness")
    U.prove(c, "record: at temperature zero", And(xf(D.get("beta")).fin, xf(D.get("beta")).r == 0))
    U.prove(c, "record: with zero log-evidence", And(xf(D.get("logz")).fin, xf(D.get("logz")).r == 0))
    U.prove(c, "record: the likelihood calls counted so far", iv(D.get("calls")) == iv(W.G.attrs["calls"]))
    U.prove(c, "record: numbered in order", iv(D.get("iter")) == iv(t))


def warmup_units(resume):
    q = "pocomc.sampler.Sampler."
    out = []
    for blobs in (False, True):
        for dr in ((False,) if resume else (True, False)):
            out.append(Unit("warm-up of run (%s%s%s)" % ("resumed" if resume else "fresh", ", samples drawn" if dr else ", samples there", ", blobs" if blobs else ""), [q + "run"], warmup(resume, blobs, dr)))
    return out


def prove():
    return run_units("C27", warmup_units(False), assumptions=["prior, reparameterisation and likelihood act row by row (C02, C01, C18)"])


def count_units():
    """The obligations about the number of likelihood calls only (C08)."""
    def only(f):
        def g(U):
            U.only = "likelihood calls"
            f(U)
        return g
    return [Unit(u.name, u.functions, only(u.fn)) for u in warmup_units(False)]
