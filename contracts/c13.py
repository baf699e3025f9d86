from .lib import *
from pyvc.invloop import LoopSpec, handler


class Search(LoopSpec):
    name = "search"

    def __init__(self, W):
        self.W = W

    def covers(self, L):
        return True

    def before(self, L):
        pass

    def name_of(self, L):
        W = self.W
        if W.i is None:
            ints = [k for k in L.names() if is_int(L.env.vars.get(k)) and not isinstance(L.env.vars.get(k), bool)]
            if len(ints) != 1:
                raise Unsupported("the search keeps its state differently")
            W.i = ints[0]
        return W.i

    def value(self, L, owner, key, old):
        if owner is L.env and L.n is None and key == self.name_of(L):
            i = L.ctx.fint("i")
            L.ctx.assume(inrange(i, self.W.bins))
            L.data["i"] = i
            return i
        return NotImplemented

    def check(self, L, where):
        if L.n is not None:
            return
        i = iv(L.env.vars[self.name_of(L)])
        L.prove("a threshold is left to try", inrange(i, self.W.bins), note="witness")
        if where == "preserved":
            L.prove("there are fewer thresholds left after each try", And(i < L.data["i"], i >= 0), note="witness")


def trim(U):
    def run(ctx):
        E = U.E
        W = type("W", (), {})()
        W.n, W.d, W.bins = n, d, bins = ctx.pint("n"), ctx.pint("d"), ctx.pint("bins")
        w, g, tot = nonneg_weights(ctx, n)
        s = ctx.sym_arr("samples", (n, d))
        W.s, W.ss, W.w, W.g, W.tot, W.i = s, Snap(s), w, g, tot, None
        W.ess = ctx.freal("ess")
        ctx.assume(And(W.ess > 0, W.ess <= 1))
        W.thr = []
        W.km, W.kn = km, kn = ctx.fint("kmax"), ctx.fint("kmin")
        wn = lambda i: g((iv(i),)).r * (1 / tot)
        W.wn = wn
        ctx.assume(And(inrange(km, n), inrange(kn, n)))
        dec = g((z3.Int("qw"),)).r.decl()
        S.TH.schema(dec, lambda i: [Implies(inrange(i, n), And(dec(i) <= dec(km), dec(i) >= dec(kn)))])
        ctx.fact(And(wn(km) > 0, wn(kn) >= 0, dec(km) > 0))

        def percentile(c, a, k):
            x, q = as_arr(c, arg(a, k, 0, "a")), xf(arg(a, k, 1, "q"))
            if len(a) + len(k) != 2 or x.ndim != 1:
                raise Unsupported("np.percentile")
            j = c.fint("j")
            U.prove(c, "thresholds are taken from the normalised weights", And(iv(x.shape[0]) == n, Implies(inrange(j, n), xsame(x.get((j,)), XF(wn(j))))))
            U.prove(c, "a percentile lies between 0 and 100", And(q.fin, q.r >= 0, q.r <= 100))
            t = c.freal("thr")
            c.assume(And(t <= wn(km), t >= wn(kn), Implies(q.r == 0, t == wn(kn))))
            W.thr.append(t)
            return XF(t)
        old = E.nptbl["percentile"]
        E.nptbl["percentile"] = Model("np.percentile", percentile)
        E.handlers[:] = [handler(U, [Search(W)])]
        try:
            W.r = E.ip.call(ctx, E.func("pocomc.tools:trim_weights"), [s, w], dict(ess=XF(W.ess), bins=bins))
        finally:
            E.handlers[:] = []
            E.nptbl["percentile"] = old
        return W
    for ctx, oc in U.paths(run):
        if not U.reach(ctx) or not U.no_raise(ctx, oc):
            continue
        W = oc[1]
        n, wn = W.n, W.wn
        unchanged(U, ctx, "the samples are not modified", W.s, W.ss)
        r = W.r
        if not isinstance(r, tuple) or len(r) != 2 or not W.thr or not all(isinstance(a, Arr) for a in r):
            U.prove(ctx, "samples and weights are returned", False, note="witness")
            continue
        thr = W.thr[-1]
        at = lambda b: zb(cmp_scalar(">=", XF(wn(b)), XF(thr)))
        mask = Arr((n,), lambda idx: at(iv(idx[0])), "b")
        spec = getitem(ctx, W.ss.arr(), mask)
        selw = getitem(ctx, Arr((n,), lambda idx: XF(wn(iv(idx[0]))), "f"), mask)
        arr_same_w(U, ctx, "exactly the samples at or above the threshold, in order", r[0], spec)
        kept = lambda b: z3.If(at(b), wn(b), rv(0))
        s1 = T.mk_sum(n, kept)
        s2 = T.mk_sum(n, lambda b: kept(b) * kept(b))
        tot2 = T.mk_sum(n, lambda b: wn(b) * wn(b))
        sum_elem(U, ctx, "the weights kept add up to at least the largest", n, kept, W.km)
        sum_elem(U, ctx, "so do their squares", n, lambda b: kept(b) * kept(b), W.km)
        sum_elem(U, ctx, "so do all squares", n, lambda b: wn(b) * wn(b), W.km)
        U.prove(ctx, "weights with a positive sum are kept", And(s1 > 0, s2 > 0, tot2 > 0))
        ctx.fact(And(s1 > 0, s2 > 0, tot2 > 0))
        m = r[1].shape[0]
        i = ctx.fint("i")
        ctx.assume(inrange(i, spec.shape[0]))
        U.prove(ctx, "one weight per sample", iv(m) == iv(spec.shape[0]), note="witness")
        U.prove(ctx, "each with its own weight, renormalised", xsame(r[1].get((i,)), XF(xf(selw.get((i,))).r / s1)), note="witness")
        U.prove(ctx, "the weights returned sum to one", T.mk_sum(spec.shape[0], lambda b: xf(selw.get((b,))).r / s1) == 1)
        b = ctx.fint("b")
        low = thr == wn(W.kn)
        if U.prove(ctx, "at the lowest threshold everything is kept", Implies(And(low, inrange(b, n)), kept(b) == wn(b)), sync=True):
            # equal terms, equal sums
            ctx.fact(Implies(low, And(s1 == T.mk_sum(n, wn), s2 == tot2)))
        U.prove(ctx, "the normalised weights sum to one", T.mk_sum(n, wn) == 1)
        ctx.fact(T.mk_sum(n, wn) == 1)
        if U.prove(ctx, "the ESS at the lowest threshold is the original one", Implies(low, (s1 * s1 / s2) * tot2 == 1), sync=True):
            ctx.fact(Implies(low, (s1 * s1 / s2) * tot2 == 1))
        U.prove(ctx, "the ESS of what is kept is at least the fraction asked for", (s1 * s1 / s2) * tot2 >= W.ess)


def arr_same_w(U, ctx, name, a, b):
    for p, q in zip(a.shape, b.shape):
        U.prove(ctx, name + " [shape]", iv(p) == iv(q), note="witness")
    js = [ctx.fint("q") for _ in range(a.ndim)]
    pre = And(*[inrange(j, d) for j, d in zip(js, b.shape)])
    return U.prove(ctx, name, Implies(pre, val_same(a.get(tuple(js)), b.get(tuple(js)))), note="witness")


def prove():
    return run_units("C13", [Unit("trim_weights", ["pocomc.tools.trim_weights"], trim)],
                     assumptions=["np.percentile(w, q) lies between the smallest and the largest weight, and is the smallest for q = 0",
                                  "weights are finite, non-negative and have a positive sum; 0 < ess <= 1"])
