"""A sampler whose collaborators are given by their contracts (C10, C11, C15, C16, C17, C18).

  history        every stored quantity of particle i, 0 <= i < N; last inverse temperature and log-evidence        [C22]
  log-weights    particles.compute_logw_and_logz(b) -> (LW(b, .), LZ(b)), normalised                                [C09]
  trimming       trim_weights(s, w): w normalised in place; returns s[SEL], w[SEL] / sum w[SEL], SEL increasing      [C13]
  resampling     systematic_resample(k, w) -> k indices of w                                                        [C14]
  metrics        effective_sample_size, unique_sample_size: functions of the weights, up to a factor                [C12]
"""
from .lib import *

KEYS = ("u", "x", "logdetj", "logl", "logp")
LW = z3.Function("LW", R, I, R)
LZ = z3.Function("LZ", R, R)
ESSF = {"ess": z3.Function("ESSF", R, R), "uss": z3.Function("USSF", R, R)}


def none(name):
    return Model(name, lambda c, a, k: None)


class SW:
    def __init__(self, U, ctx, blobs=False, **attrs):
        self.U, self.ctx, self.E = U, ctx, U.E
        E = U.E
        self.N, self.d = ctx.pint("N"), ctx.pint("d")
        self.n_active = ctx.pint("n_active")
        self.blobs = blobs
        N, d = self.N, self.d
        self.hist = {k: ctx.sym_arr("h_" + k, (N, d) if k in "ux" else (N,)) for k in KEYS}
        if blobs:
            self.hist["blobs"] = ctx.sym_arr("h_blobs", (N,), "o")
        self.h = {k: Snap(v) for k, v in self.hist.items()}
        self.prev = ctx.freal("beta_prev")
        self.logz_prev = ctx.freal("logz_prev")
        self.sel = None
        self.trimmed = []
        self.resampled = []
        self.metrics = []
        self.got = []
        pbar = ObjVal(None, dict(update_iter=none("update_iter"), update_stats=none("update_stats"), close=none("close")))
        particles = ObjVal(None, dict(get=Model("particles.get", self.get), compute_logw_and_logz=Model("compute_logw_and_logz", self.logw), update=none("update")))
        self.particles = particles
        cls = E.load("pocomc.sampler").vars["Sampler"]
        self.S = ObjVal(cls, dict(dict(particles=particles, pbar=pbar, have_blobs=blobs, n_active=self.n_active, n_dim=d), **attrs))
        E.active["pocomc.tools:trim_weights"] = self.trim
        E.active["pocomc.tools:systematic_resample"] = self.syst
        E.active["pocomc.tools:effective_sample_size"] = lambda c, f, a, k: self.metric(c, "ess", a, k)
        E.active["pocomc.tools:unique_sample_size"] = lambda c, f, a, k: self.metric(c, "uss", a, k)

    # -- history ----------------------------------------------------------------------
    def get(self, c, a, k):
        key, index, flat = arg(a, k, 0, "key"), arg(a, k, 1, "index"), arg(a, k, 2, "flat", False)
        if index is None and flat is True and key in self.h:
            s = self.h[key]
            return Arr(s.shape, lambda idx: s.g(idx), s.dt)
        if index == -1 and key == "beta":
            return XF(self.prev)
        if index == -1 and key == "logz":
            return XF(self.logz_prev)
        raise Unsupported("history access %r" % ((key, index, flat),))

    def logw(self, c, a, k):
        b = xf(arg(a, k, 0, "beta_final", 1.0))
        if arg(a, k, 1, "normalize", True) is not True:
            raise Unsupported("unnormalised log-weights")
        self.got.append(b)
        if not b.pure and not self.U.muted and not getattr(self.U, "discovering", 0):
            raise Unsupported("log-weights at a non-finite temperature")
        return Arr((self.N,), lambda idx: XF(LW(b.r, iv(idx[0]))), "f"), XF(LZ(b.r))

    # -- weights ----------------------------------------------------------------------
    def at_beta(self, c, w, what):
        """w is proportional to exp(LW(b, .)): the b; obligations otherwise."""
        U = self.U
        if not isinstance(w, Arr) or w.ndim != 1:
            raise Unsupported("weights are not a vector")
        q, p = c.fint("q"), c.fint("p")
        v, v2 = xf(w.get((q,))), xf(w.get((p,)))
        bs = []
        for t in subterms([v.r]):
            if is_app_of(t, LW) and not any(t.arg(0).eq(b) for b in bs) and t.arg(1).eq(q):
                bs.append(t.arg(0))
        if len(bs) != 1:
            raise Unsupported("weights of no single temperature")
        b = bs[0]
        pre = And(inrange(q, self.N), inrange(p, self.N))
        U.prove(c, what + ": the weights are those of one temperature", And(iv(w.shape[0]) == self.N,
                Implies(pre, And(v.fin, v.r > 0, v.r * EXP(LW(b, p)) == v2.r * EXP(LW(b, q))))))
        return b

    def metric(self, c, name, a, k):
        w = a[0]
        b = self.at_beta(c, w, "sample-size metric")
        kk = arg(a, k, 1, "k") if name == "uss" else None
        if kk is not None:
            v = c.freal("unique")
            c.assume(And(v > 0, v <= toreal(self.N)))
            return XF(v)
        self.metrics.append((name, b))
        v = ESSF[name](b)
        c.assume(And(v > 0, v <= toreal(self.N)))
        return XF(v)

    def trim(self, c, f, a, k):
        s, w = arg(a, k, 0, "samples"), arg(a, k, 1, "weights")
        if not isinstance(w, Arr) or not isinstance(s, Arr):
            raise Unsupported("trimming something else")
        U = self.U
        b = self.at_beta(c, w, "trimming")
        U.prove(c, "trimming: samples and weights belong together", iv(s.shape[0]) == iv(w.shape[0]))
        m = c.pint("kept")
        sel, _ = c.ffunc("SEL", [I], I)
        N = self.N
        S.TH.schema(sel(z3.Int("i0")).decl(), lambda i: [Implies(inrange(i, m), inrange(sel(i), N))])
        c.assume(m <= N)
        g = snapshot(w)
        tot = T.mk_sum(N, lambda q: g((q,)).r)
        # in place: normalised
        write(c, w, lambda idx: True, lambda idx: XF(g(idx).r / tot))
        kept = T.mk_sum(m, lambda q: EXP(LW(b, sel(iv(q)))))
        wt = lambda i: EXP(LW(b, sel(iv(i)))) / kept
        gs = snapshot(s)
        out = Arr((m,) + tuple(s.shape[1:]), lambda idx: gs((sel(iv(idx[0])),) + tuple(idx[1:])), s.dt)
        self.trimmed.append((b, m, sel, wt))
        return out, Arr((m,), lambda idx: XF(wt(idx[0])), "f")

    def syst(self, c, f, a, k):
        size, w = arg(a, k, 0, "size"), arg(a, k, 1, "weights")
        idx, _ = c.ffunc("SYS", [I], I)
        n = iv(w.shape[0])
        S.TH.schema(idx(z3.Int("i0")).decl(), lambda i: [Implies(inrange(i, size), inrange(idx(i), n))])
        self.resampled.append((size, Snap(w), idx))
        return Arr((size,), lambda i: idx(iv(i[0])), "i")


def call_method(U, ctx, W, name, *a, **kw):
    return U.E.ip.call(ctx, U.E.ip.getattr(ctx, W.S, name), list(a), kw)


def drawn(W, ctx, n):
    """Index function, size and weights of the one resampling made (systematic, or np.random.choice)."""
    ch = [r for r in ctx.draws if r["kind"] == "choice"]
    if len(ch) + len(W.resampled) != 1:
        return None
    if W.resampled:
        size, w, idx = W.resampled[0]
        return idx, size, w.arr(), True, None
    r = ch[0]
    src = r.get("src")
    g = snapshot(src) if src is not None else None
    dec = r["decl"]
    idx = (lambda i: iv(g((dec(iv(i)),)))) if g is not None else (lambda i: dec(iv(i)))
    return idx, None, r.get("p"), r.get("replace"), r


def val_at(a, i, j):
    return a.get((i, j) if a.ndim == 2 else (i,))


def follow(U, ctx, W, what, new, old, i, src, j):
    """new[i] is old[src] for every stored quantity."""
    for k, o in old.items():
        a = new.get(k)
        if not isinstance(a, Arr) or a.ndim != len(o.shape):
            U.prove(ctx, "%s: %s is there" % (what, k), False)
            continue
        U.prove(ctx, "%s: %s comes from the same particle" % (what, k), val_same(val_at(a, i, j), val_at(o.arr(), src, j)))
