import ast
from .scalerlib import *
from pyvc.invloop import LoopSpec, handler

Q = "pocomc.scaler:Reparameterize."


class World:
    """Periodic / reflective index list P, bounds, the array at the start."""

    def __init__(self, ctx, mode, d, gl, gh, x0, n):
        self.ctx, self.mode, self.d, self.gl, self.gh, self.x0, self.n = ctx, mode, d, gl, gh, x0, n
        self.m = ctx.fint("np")
        ctx.assume(self.m >= 0)
        self.pd = z3.Function(fresh_name("P"), I, I)
        self.mem = z3.Function(fresh_name("MEM"), I, B)         # c is one of the listed parameters
        self.vis = z3.Function(fresh_name("VIS"), I, I, B)      # c is one of the first K listed parameters
        pd, mem, vis, m = self.pd, self.mem, self.vis, self.m
        S.TH.schema(pd, lambda t: [z3.Implies(z3.And(t >= 0, t < m), z3.And(mem(pd(t)), pd(t) >= 0, pd(t) < d))])
        S.TH.schema(vis, lambda K, c: [z3.Implies(K <= 0, z3.Not(vis(K, c))), z3.Implies(K >= m, vis(K, c) == mem(c)),
                                       z3.Implies(z3.And(K > 0, K <= m), vis(K, c) == z3.Or(vis(z3.simplify(K - 1), c), pd(z3.simplify(K - 1)) == c)),
                                       z3.Implies(vis(K, c), mem(c))] if not deep(K) else [])
        # listed parameters have finite bounds with low < high
        S.TH.schema(mem, lambda c: [z3.Implies(mem(c), z3.And(zb(gl((c,)).fin), zb(gh((c,)).fin)))])
        self.plist = SymList(m, lambda t: pd(iv(t)))
        self.stack = []

    def lohi(self, c):
        return self.gl((iv(c),)).r, self.gh((iv(c),)).r

    def inr(self, v, c):
        lo, hi = self.lohi(c)
        return z3.And(v >= lo, v <= hi)

    def equiv(self, a, b, c, k, kset=None):
        """b is equivalent to a (witness k)."""
        lo, hi = self.lohi(c)
        W = hi - lo
        kk = toreal(k)
        if self.mode == "periodic":
            return b == a + kk * W
        return z3.Or(b == a + 2 * kk * W, b == 2 * lo - a + 2 * kk * W)


def deep(K):
    return len(K.sexpr()) > 60


class ForSpec(LoopSpec):
    """for-loops over the listed parameters or over the rows."""
    name = "for-loop"

    def __init__(self, W):
        self.W = W

    def covers(self, L):
        if L.n is None:
            return False
        W = self.W
        L.kind = "P" if iv(L.n).eq(W.m) else "rows" if iv(L.n).eq(iv(W.n)) else None
        return L.kind is not None

    def enter(self, L):
        arrs = [a for a in L.arrays() if a.ndim == 2]
        if len(arrs) > 1 or any(a.ndim != 2 for a in L.arrays()):
            raise Unsupported("the loop modifies more than the array of points")
        L.data["arr"] = arrs[0] if arrs else None
        W = self.W
        L.data["outer"] = [(k, x) for k, x in W.stack]
        if L.data["arr"] is not None and "done0" not in L.data:
            L.data["done0"] = getattr(W, "done", lambda r, c: z3.BoolVal(False))

    def done(self, L):
        """Cells known to be in range after L.k iterations."""
        W, k, prev = self.W, L.k, L.data["done0"]
        rows = [x for kd, x in L.data["outer"] if kd == "rows"]
        cols = [x for kd, x in L.data["outer"] if kd == "P"]
        if L.kind == "P":
            return lambda r, c: z3.Or(prev(r, c), z3.And(W.vis(k, c), *[r == x for x in rows]))
        return lambda r, c: z3.Or(prev(r, c), z3.And(r < k, r >= 0, *[c == W.pd(x) for x in cols]) if cols else z3.And(r < k, r >= 0, W.mem(c)))

    def relation(self, L, v, r, c, kw):
        W = self.W
        a = W.x0((r, c)).r
        return z3.And(z3.Or(v == a, z3.And(W.mem(c), W.equiv(a, v, c, kw), z3.Not(W.inr(a, c)))),
                      z3.Implies(z3.And(self.done(L)(r, c), W.mem(c)), W.inr(v, c)))

    def contents(self, L, arr):
        W, ctx = self.W, L.ctx
        f = z3.Function(fresh_name("X"), I, I, R)
        kf = z3.Function(fresh_name("KW"), I, I, I)
        W.kfs.append(kf)
        done = self.done(L)
        rel = lambda r, c: [z3.Implies(z3.And(r >= 0, r < iv(W.n), c >= 0, c < W.d), self.relation(L0, f(r, c), r, c, kf(r, c)))]
        L0 = Frozen(L)
        S.TH.schema(f, rel)
        return lambda idx: XF(f(iv(idx[0]), iv(idx[1])))

    def check(self, L, where):
        arr = L.data["arr"]
        if arr is None:
            return
        W, ctx = self.W, L.ctx
        r, c = ctx.fint("r"), ctx.fint("c")
        pre = z3.And(inrange(r, W.n), inrange(c, W.d))
        v = xf(arr.get((r, c)))
        a = W.x0((r, c)).r
        wit = W.witnesses(r, c)
        L.prove("%s: entries stay finite" % where, Implies(pre, v.fin))
        L.prove("%s: every entry is unchanged or moved to an equivalent point, only if it was out of range and listed" % where,
                Implies(pre, z3.Or(v.r == a, z3.And(W.mem(c), z3.Not(W.inr(a, c)), z3.Or(*[W.equiv(a, v.r, c, k) for k in wit])))))
        L.prove("%s: processed entries are in range" % where, Implies(z3.And(pre, self.done(L)(r, c), W.mem(c)), W.inr(v.r, c)))

    def iterate(self, L):
        W = self.W
        W.stack = W.stack + [(L.kind, L.k)]
        W.done = self.done(Frozen(L))
        L.ctx.fact(z3.Implies(z3.And(L.k >= 0, L.k < W.m), W.mem(W.pd(L.k)))) if L.kind == "P" else None

    def leave(self, L):
        W = self.W
        W.done = self.done(Frozen(L))
        W.stack = list(L.data["outer"])


class Frozen:
    def __init__(self, L):
        self.k, self.data, self.kind = L.k, dict(L.data), L.kind


class WhileSpec(LoopSpec):
    """while-loops that move one value: the value stays equivalent, and the distance to the range shrinks by at least one period."""
    name = "while-loop"

    def __init__(self, W):
        self.W = W

    def covers(self, L):
        return L.n is None

    def column(self):
        cols = [x for kd, x in self.W.stack if kd == "P"]
        if not cols:
            raise Unsupported("while-loop outside the loop over the listed parameters")
        return self.W.pd(cols[-1])

    def target(self, L):
        """The variable or array entry the loop condition is about and the body changes."""
        ip, ctx = L.E.ip, L.ctx
        names, arrs = set(L.names()), [id(a) for a in L.arrays()]
        for e in ast.walk(L.st.test):
            if isinstance(e, ast.Name) and e.id in names and len(names) == 1 and not arrs:
                return e
            if isinstance(e, ast.Subscript):
                try:
                    b = ip.ev(ctx, e.value, L.env)
                except PyExc:
                    continue
                if isinstance(b, Arr) and id(b.root()) in arrs and len(arrs) == 1 and not names:
                    return e
        raise Unsupported("the loop does not move a single value")

    def get(self, L):
        return xf(L.E.ip.ev(L.ctx, L.data["t"], L.env))

    def put(self, L, v):
        t = L.data["t"]
        st = ast.copy_location(ast.Name(id=t.id, ctx=ast.Store()), t) if isinstance(t, ast.Name) else ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Store()), t)
        L.E.ip.assign(L.ctx, st, v, L.env)

    def enter(self, L):
        L.data["t"] = self.target(L)
        L.data["v0"] = self.get(L)
        L.data["c"] = self.column()
        # arrays: contents as they are, with the one entry replaced
        L.data["fn"] = [(a, a.fn) for a in L.arrays()]
        lo, hi = self.W.lohi(L.data["c"])
        v0 = L.data["v0"].r
        self.cands = dict([
            ("not below the range once moved", lambda v: z3.Or(v == v0, v >= lo)),
            ("not above the range once moved", lambda v: z3.Or(v == v0, v <= hi)),
            ("a value in range is not moved", lambda v: z3.Implies(z3.And(v0 >= lo, v0 <= hi), v == v0)),
        ])
        L.data["lohi"] = (lo, hi)
        # Houdini: keep the candidates one iteration preserves
        keep = dict(self.cands)
        ctx, ip = L.ctx, L.E.ip
        for _ in range(4):
            bad = set()

            def thunk():
                self.install(L, keep)
                if not ctx.branch(ip.truth(ctx, ip.ev(ctx, L.st.test, L.env))):
                    raise Infeasible()
                ip.block(ctx, L.st.body, L.env)
                v = self.get(L)
                for nm, f in keep.items():
                    if not ctx.provable(z3.And(zb(v.fin), f(v.r))):
                        bad.add(nm)
            L.U.muted += 1
            try:
                ctx.sub_explore(thunk)
            finally:
                L.U.muted -= 1
            if not bad:
                break
            keep = {k: f for k, f in keep.items() if k not in bad}
        L.data["keep"] = keep

    def install(self, L, keep):
        """An arbitrary value satisfying the invariant."""
        ctx, W = L.ctx, self.W
        v, k = ctx.freal("v"), ctx.fint("kw")
        L.data["k"], L.data["v"] = k, v
        self.put(L, XF(v))
        ctx.assume(W.equiv(L.data["v0"].r, v, L.data["c"], k))
        for f in keep.values():
            ctx.assume(f(v))

    def contents(self, L, arr):
        for a, f in L.data["fn"]:
            if a is arr:
                return f
        return NotImplemented

    def value(self, L, owner, key, old):
        return old if old is not None else NotImplemented

    def assume(self, L):
        self.install(L, L.data["keep"])
        self.W.kws.append(L.data["k"])

    def check(self, L, where):
        W = self.W
        v, v0, c = self.get(L), L.data["v0"].r, L.data["c"]
        lo, hi = L.data["lohi"]
        L.prove("%s: the value is finite" % where, v.fin)
        ks = [z3.IntVal(0)]
        if where != "on entry":
            k = L.data["k"]
            ks = [k, k + 1, k - 1, -k, -k + 1, -k - 1]
        L.prove("%s: the value is equivalent to the one on entry" % where, z3.Or(*[W.equiv(v0, v.r, c, k) for k in ks]))
        for nm, f in L.data["keep"].items():
            L.prove("%s: %s" % (where, nm), f(v.r))
        if where != "on entry":
            dist = lambda t: z3.If(t > hi, t - hi, z3.If(t < lo, lo - t, rv(0)))
            t = L.E.ip.truth(L.ctx, L.E.ip.ev(L.ctx, L.st.test, L.env))
            L.prove("terminates: the distance to the range shrinks by at least one period while the loop goes on",
                    Implies(t, dist(v.r) <= dist(L.data["v"]) - (hi - lo)))


def one(mode, which):
    """mode: periodic | reflective; which: method under contract."""
    def unit(U):
        E = U.E

        def run(ctx):
            d, s, gl, gh = build(U, ctx)
            n = ctx.pint("n")
            x = ctx.sym_arr("x", (n, d))
            sx = Snap(x)
            ctx.feas_timeout = 250
            W = World(ctx, mode, d, gl, gh, sx.g, n)
            W.kws, W.kfs = [], []

            def witnesses(r, c):
                out = [z3.IntVal(0)]
                fs = [kf(r, c) for kf in W.kfs]
                out += fs
                for k in W.kws:
                    out.append(k)
                ks = W.kws[-2:]
                base = [z3.IntVal(0)] + fs[-1:]
                for b in base:
                    for k in ks:
                        out += [b + k, b - k, k - b, -b - k]
                    if len(ks) == 2:
                        out += [b + ks[0] + ks[1]]
                return out
            W.witnesses = witnesses
            s.attrs[mode] = W.plist
            E.handlers[:] = [handler(U, [ForSpec(W), WhileSpec(W)])]
            r = E.ip.call(ctx, E.ip.getattr(ctx, s, which), [x], {})
            E.handlers[:] = []
            return n, d, x, sx, W, r
        for ctx, oc in U.paths(run):
            E.handlers[:] = []
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            n, d, x, sx, W, r = oc[1]
            if not isinstance(r, Arr) or r.ndim != 2:
                U.prove(ctx, "returns an array of points", False)
                continue
            U.prove(ctx, "shape is kept", And(iv(r.shape[0]) == n, iv(r.shape[1]) == d))
            i, c = ctx.fint("i"), ctx.fint("q")
            ctx.assume(inrange(i, n))
            ctx.assume(inrange(c, d))
            v, a = xf(r.get((i, c))), sx.g((i, c)).r
            ctx.taint.append("modular")
            U.prove(ctx, "listed: in range", Implies(W.mem(c), And(v.fin, W.inr(v.r, c))))
            U.prove(ctx, "listed: equivalent to the original", Implies(W.mem(c), z3.Or(v.r == a, *[W.equiv(a, v.r, c, k) for k in W.witnesses(i, c)])))
            U.prove(ctx, "values in range are left unchanged", Implies(W.inr(a, c), And(v.fin, v.r == a)))
            U.prove(ctx, "other parameters are left unchanged", Implies(z3.Not(W.mem(c)), And(v.fin, v.r == a)))
            unchanged(U, ctx, "the caller's array is unchanged", x, sx)
    return unit


def dispatch(U):
    """apply_boundary_conditions_x applies exactly the configured conditions."""
    E = U.E
    PB, RB = RowFn("PBC", "row"), RowFn("RBC", "row")
    for per in (False, True):
        for ref in (False, True):
            def run(ctx):
                d, s, gl, gh = build(U, ctx)
                n = ctx.pint("n")
                x = ctx.sym_arr("x", (n, d))
                sx = Snap(x)
                m = ctx.pint("m")
                s.attrs["periodic"] = SymList(m, lambda t: z3.Function("PP", I, I)(iv(t))) if per else None
                s.attrs["reflective"] = SymList(m, lambda t: z3.Function("RR", I, I)(iv(t))) if ref else None
                E.active[Q + "_apply_periodic_boundary_conditions_x"] = lambda c, f, a, k: rowmap(c, PB, a[1]) if per else a[1]
                E.active[Q + "_apply_reflective_boundary_conditions_x"] = lambda c, f, a, k: rowmap(c, RB, a[1]) if ref else a[1]
                r = E.ip.call(ctx, E.ip.getattr(ctx, s, "apply_boundary_conditions_x"), [x], {})
                E.active.clear()
                return n, d, x, sx, r
            for ctx, oc in U.paths(run):
                if not U.reach(ctx) or not U.no_raise(ctx, oc):
                    continue
                ctx.taint.append("modular")
                n, d, x, sx, r = oc[1]
                i, c = ctx.fint("i"), ctx.fint("q")
                ctx.assume(inrange(i, n))
                ctx.assume(inrange(c, d))
                row = row_term(ctx, sx.arr(), i)
                spec = [f(g(row)) for f, g in (((PB if per else (lambda t: t)), (RB if ref else (lambda t: t))), ((RB if ref else (lambda t: t)), (PB if per else (lambda t: t))))]
                U.prove(ctx, "periodic %s, reflective %s: both are applied, nothing else" % (per, ref), Or(*[val_same(r.get((i, c)), el_xf(t, c)) for t in spec]))
                unchanged(U, ctx, "the caller's array is unchanged", x, sx)


def prove():
    q = "pocomc.scaler.Reparameterize."
    return run_units("C03", [Unit("periodic wrapping", [q + "_apply_periodic_boundary_conditions_x"], one("periodic", "_apply_periodic_boundary_conditions_x")),
                             Unit("reflection", [q + "_apply_reflective_boundary_conditions_x"], one("reflective", "_apply_reflective_boundary_conditions_x")),
                             Unit("dispatch", [q + "apply_boundary_conditions_x"], dispatch)],
                     assumptions=["periodic and reflective parameters have finite bounds with low < high and indices in range; no parameter is both periodic and reflective",
                                  "machine arithmetic read as real arithmetic (a wrap that rounds onto a bound is a run-time contract)"])
