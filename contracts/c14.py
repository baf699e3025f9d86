from .lib import *
from pyvc.invloop import LoopSpec, handler


class Spec(LoopSpec):
    """The state of the resampler: an index j, and the sum of the weights up to and including j."""

    def __init__(self, W):
        self.W = W

    def vars(self, L):
        """The index and the running sum, by their type."""
        W = self.W
        if W.names is None:
            js, cs = [], []
            for (o, a, ks) in L.mods.values():
                if o is L.env:
                    for k in ks:
                        v = o.vars.get(k)
                        if v is None or isinstance(v, Arr):
                            continue
                        if k in W.targets:
                            continue
                        (js if is_int(v) else cs).append(k)
            if len(js) != 1 or len(cs) != 1:
                raise Unsupported("the resampler keeps its state differently")
            W.names = js[0], cs[0]
        return W.names

    def value(self, L, owner, key, old):
        W, c, D = self.W, L.ctx, L.data
        if owner is not L.env or key in W.targets:
            return NotImplemented
        j, cs = self.vars(L)
        if "j" not in D:
            D["j"] = c.fint("j")
            c.assume(inrange(D["j"], W.n))
            self.given(L, D["j"])
        return D["j"] if key == j else XF(W.C(D["j"] + 1)) if key == cs else NotImplemented

    def enter(self, L):
        L.data.clear()

    def state(self, L):
        j, cs = self.vars(L)
        return iv(L.env.vars[j]), xf(L.env.vars[cs])

    def inv(self, L):
        W = self.W
        j, cs = self.state(L)
        W.step(L.ctx, j)
        L.prove("the index is that of a weight", inrange(j, W.n), note="witness")
        L.prove("the running sum is that of the weights up to the index", And(cs.fin, cs.r == W.C(j + 1)), note="witness")
        return j


class Outer(Spec):
    name = "positions"

    def covers(self, L):
        import ast
        if L.n is None:
            return False
        self.W.targets |= {n.id for n in ast.walk(L.st.target) if isinstance(n, ast.Name)}
        return True

    def given(self, L, j):
        W = self.W
        L.ctx.assume(Or(j == 0, And(L.k >= 1, W.pos(L.k - 1) > W.C(j))))

    def contents(self, L, arr):
        W, c = self.W, L.ctx
        if arr.ndim != 1:
            return NotImplemented
        res, _ = c.ffunc("RES", [I], I)
        oth, _ = c.ffunc("OTH", [I], I)
        k = L.k
        S.TH.schema(res(z3.Int("i0")).decl(), lambda t: [Implies(And(t >= 0, t < k), W.bracket(t, res(t)))])
        return lambda idx: z3.If(iv(idx[0]) < k, res(iv(idx[0])), oth(iv(idx[0])))

    def check(self, L, where):
        W, c = self.W, L.ctx
        W.out = L.arrays()
        if len(W.out) != 1:
            raise Unsupported("the resampler keeps its result differently")
        j = self.inv(L)
        L.prove("the index was reached for the last position", Or(j == 0, And(L.k >= 1, W.pos(L.k - 1) > W.C(j))), note="witness")
        t = c.fint("t")
        if where == "preserved":
            v = iv(W.out[0].get((t,)))
            W.step(c, v)
            L.prove("every index so far belongs to its position", Implies(And(t >= 0, t < L.k), W.bracket(t, v)), note="witness")


class Inner(Spec):
    name = "search"

    def covers(self, L):
        return L.n is None

    def given(self, L, j):
        W = self.W
        L.ctx.assume(Or(j == 0, W.pos(W.cur(L)) > W.C(j)))

    def iterate(self, L):
        W = self.W
        W.step(L.ctx, L.data["j"])
        W.step(L.ctx, L.data["j"] + 1)

    def check(self, L, where):
        W, c = self.W, L.ctx
        j = self.inv(L)
        L.prove("the position lies beyond the weights passed", Or(j == 0, W.pos(W.cur(L)) > W.C(j)), note="witness")


def unit(seed):
    def f(U):
        def run(ctx):
            E = U.E
            W = type("W", (), {})()
            W.n, W.size = n, size = ctx.pint("n"), ctx.pint("size")
            w, g, tot = nonneg_weights(ctx, n)
            W.w, W.snap, W.tot = w, Snap(w), tot
            W.names, W.targets, W.out = None, set(), None
            W.seeds = []
            rnd = E.nptbl["random"]
            E.nptbl["random"] = ModVal("np.random", lambda nm: Model("np.random.seed", lambda c, a, k: W.seeds.append((a[0], len(c.draws)))) if nm == "seed" else rnd.get(nm))
            # ghost: prefix sums of the weights used (the weights themselves if they sum to one up to rounding)
            W.C, _ = ctx.ffunc("PREFIX", [I], R)
            W.wn, _ = ctx.ffunc("WN", [I], R)
            eps = E.load("pocomc.tools").vars["SQRTEPS"]
            eps = xf(eps).r
            W.eps = eps
            d = z3.If(tot - 1 >= 0, tot - 1, 1 - tot)
            W.far = far = d > eps
            used = ctx.branch(far)
            one = (lambda i: g((iv(i),)).r / tot) if used else (lambda i: g((iv(i),)).r)
            W.total = rv(1) if used else tot
            W.delta = rv(0) if used else d
            S.TH.schema(W.wn(z3.Int("i0")).decl(), lambda i: [W.wn(i) == one(i), W.wn(i) >= 0])
            ctx.assume(W.C(z3.IntVal(0)) == 0)
            ctx.assume(W.C(n) == W.total)
            W.one = one

            def step(c, k):
                """Definition of the prefix sums, at k, and that they grow."""
                k = iv(k)
                c.fact(Implies(inrange(k, n), And(W.C(k + 1) == W.C(k) + one(k), one(k) >= 0, W.C(k) >= 0, W.C(k + 1) <= W.total)))
            W.step = step
            step(ctx, z3.IntVal(0))
            W.pos = lambda t: (W.u + toreal(iv(t))) / toreal(size)
            W.u = None
            W.cur = lambda L: iv([L.env.vars[x] for x in sorted(W.targets) if is_int(L.env.vars.get(x))][0])

            def bracket(t, v):
                return And(inrange(v, n), Or(v == 0, W.pos(t) > W.C(v)), Or(v == n - 1, W.pos(t) <= W.C(v + 1)))
            W.bracket = bracket

            def h0(c, st, it, env):
                if W.u is None:
                    if len(c.draws) != 1:
                        return None
                    dr = c.draws[0]
                    W.draw = dr
                    if dr["kind"] != "uniform" or len(dr["shape"]) > 1:
                        return None
                    W.u = dr["f"]((0,) * len(dr["shape"]))
                    c.assume(And(W.u > 0, W.u < 1))
                return hh(c, st, it, env)
            hh = handler(U, [Outer(W), Inner(W)])
            E.handlers[:] = [h0]
            kw = dict(random_state=ctx.fint("seed")) if seed else {}
            W.seed = kw.get("random_state")
            try:
                W.r = E.ip.call(ctx, E.func("pocomc.tools:systematic_resample"), [size, w], kw)
            finally:
                E.handlers[:] = []
                E.nptbl["random"] = rnd
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W = oc[1]
            r = W.r
            unchanged(U, ctx, "the weights are not modified", W.w, W.snap)
            if seed:
                U.prove(ctx, "the seed is set before anything is drawn", len(W.seeds) == 1 and W.seeds[0][1] == 0 and iv(W.seeds[0][0]) == W.seed)
            else:
                U.prove(ctx, "the generator is not re-seeded without a seed", len(W.seeds) == 0)
            U.prove(ctx, "one number is drawn", len(ctx.draws) == 1)
            U.prove(ctx, "as many indices as asked for", isinstance(r, Arr) and r.ndim == 1 and iv(r.shape[0]) == W.size)
            if not isinstance(r, Arr) or W.u is None:
                continue
            a, b, k = ctx.fint("a"), ctx.fint("b"), ctx.fint("kk")
            s = toreal(W.size)
            ra, rb = iv(r.get((a,))), iv(r.get((b,)))
            U.prove(ctx, "every index is that of a weight", Implies(inrange(a, W.size), inrange(ra, W.n)))
            # prefix sums grow
            for p, q in ((ra, rb), (rb, ra), (ra, k), (k, ra), (rb, k), (k, rb)):
                ctx.fact(Implies(And(inrange(p, W.n), inrange(q, W.n), p < q), W.C(p + 1) <= W.C(q)))
            for p in (ra, rb, k):
                W.step(ctx, p)
            base = And(inrange(a, W.size), inrange(b, W.size))
            U.prove(ctx, "the indices do not decrease", Implies(And(base, a <= b), ra <= rb))
            # an index that occurs from a to b
            wk = W.one(k)
            D = W.delta
            # spacing of the positions: (b - a)/size
            gap = (toreal(b) - toreal(a)) / s
            ctx.fact(W.pos(b) - W.pos(a) == gap)
            up = Implies(And(base, a <= b, ra == k, rb == k, inrange(k, W.n)), gap < wk + D)
            if W.C(W.n) is not None:
                U.prove(ctx, "an index occurs over a stretch shorter than its weight", up)
            low = Implies(And(base, a < b, ra < k, rb > k, inrange(k, W.n)), gap > wk - D)
            U.prove(ctx, "an index is passed over only in a stretch longer than its weight", low)
            first = Implies(And(inrange(b, W.size), rb > k, inrange(k, W.n)), (toreal(b) + 1) / s > wk - D)
            ctx.fact((toreal(b) + 1) / s == W.pos(b) + (1 - W.u) / s)
            ctx.fact((1 - W.u) / s > 0)
            U.prove(ctx, "the same from the first position on", first)
            ctx.fact((s - toreal(a)) / s + W.pos(a) == 1 + W.u / s)
            ctx.fact(W.u / s > 0)
            last = Implies(And(inrange(a, W.size), ra < k, inrange(k, W.n)), (s - toreal(a)) / s > wk - D)
            U.prove(ctx, "the same up to the last position", last)
    return f


def prove():
    return run_units("C14", [Unit("systematic_resample (%s)" % nm, ["pocomc.tools.systematic_resample"], unit(sd)) for nm, sd in (("no seed", False), ("seed", True))],
                     assumptions=["np.random.random() lies strictly between 0 and 1 (0 has probability 2^-53)",
                                  "prefix sums: C(0)=0, C(k+1)=C(k)+w_k, C(n)=sum w, growing because w >= 0 (definition and induction, stated as rules)",
                                  "counting: in a non-decreasing sequence the occurrences of an index are consecutive, so the bounds on stretches are floor/ceil bounds on its count",
                                  "weights are finite, non-negative and have a positive sum; deterministic: the generator is seeded before the only draw"])
