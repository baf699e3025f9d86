"""The four MCMC kernels of pocomc.mcmc under contract (C06, C07, C08).

Collaborators by contract, all acting row by row:
  scaler.inverse(u)  -> (INV(u), LJ(u))      scaler.forward(INV(u)) = u,   boundary conditions leave INV(u) alone   [C01-C03]
  flow.forward(u)    -> (FF(u), LFI(FF(u)))  flow.inverse(t) -> (FI(t), LFI(t)),  FI(FF(u)) = u                     [C25]
  logprior(x) -> LP(x);  loglike(x) -> (LL(x), BL(x))   any extended reals                                          [C05, C18]
"""
import ast
import os
from .lib import *
from pyvc.invloop import LoopSpec, handler

INV, BC, FW, FF, FI = [RowFn(n, "row") for n in ("INV", "BC", "FW", "FF", "FI")]
LJ, LP, LL, LFI = [RowFn(n, "real") for n in ("LJ", "LP", "LL", "LFI")]
BL = RowFn("BL", "obj")

KERNELS = {"preconditioned_pcn": (True, True), "preconditioned_rwm": (True, False), "pcn": (False, True), "rwm": (False, False)}   # flow?, t-pCN?

READY = list(KERNELS)


def objmap(ctx, F, a):
    sa = Snap(a).arr()
    return Arr((a.shape[0],), lambda idx: F(row_term(ctx, sa, iv(idx[0]))), "o")


class World:
    def __init__(self, U, ctx, name, blobs, bc, bar=False):
        self.U, self.ctx, self.name = U, ctx, name
        self.flow, self.tpcn = KERNELS[name]
        self.blobs, self.bc = blobs, bc
        E = U.E
        self.n, self.d = ctx.pint("n"), ctx.pint("d")
        n, d = self.n, self.d
        self.calls = z3.IntVal(0)
        self.ghost = ObjVal(None, {"calls": z3.IntVal(0)})
        self.args = []
        # rows of the population
        self.UR0 = z3.Function(fresh_name("UR"), I, T.Row)
        self.beta = ctx.freal("beta")
        ctx.assume(z3.And(self.beta >= 0, self.beta <= 1))
        self.nmax, self.nsteps = ctx.pint("n_max"), ctx.pint("n_steps")
        self.nu = ctx.freal("nu")
        ctx.assume(self.nu > 0)
        S.SIGNS[self.nu.decl().name()] = 2
        self.scale = ctx.freal("scale")
        ctx.assume(self.scale > 0)
        self.mean = ctx.sym_arr("t_mean", (d,))
        self.tcov = ctx.sym_arr("t_cov", (d, d))
        self.tcov.tag["spd"] = True
        self.ncov = ctx.sym_arr("n_cov", (d, d))
        if not hasattr(E, "kernel_schemas"):
            E.kernel_schemas = True
            S.TH.schema(FF.f, lambda r: [FI.f(FF.f(r)) == r])
            S.TH.schema(INV.f, lambda r: [BC.f(INV.f(r)) == INV.f(r), FW.f(INV.f(r)) == r])
        # the population passed in: every particle describes one point of the support
        self.good(self.UR0)
        self.state = self.arrays(self.UR0)
        self.snaps = {k: Snap(v) for k, v in self.state.items()}

    def good(self, UR):
        """Particles at admissible points: transform and prior finite, likelihood not zero, not NaN."""
        def facts(i):
            r = UR(i)
            return [z3.Implies(z3.And(i >= 0, i < self.n), zb(self.admissible(r)))]
        S.TH.schema(UR, facts)
        self.finite_rows(UR)

    def finite_rows(self, UR):
        """The rows UR(i) of the population are finite (kept by the law of the proposal: 'the proposal is drawn ...')."""
        T.FINROW.add(UR.name())

    def admissible(self, r):
        x = INV(r)
        ll = LL(x)
        q = z3.Int("qfin!0")
        return And(LJ(r).fin, LP(x).fin, Not(ll.nan), Not(ll.ni), self.rowfin(x))

    def rowfin(self, x):
        """The row is finite."""
        return S.all_atom(self.d, lambda q: el_xf(x, q).fin)

    def arrays(self, UR):
        n, d = self.n, self.d
        st = dict(u=Arr((n, d), lambda idx: el_xf(UR(iv(idx[0])), iv(idx[1])), "f"),
                  x=Arr((n, d), lambda idx: el_xf(INV(UR(iv(idx[0]))), iv(idx[1])), "f"),
                  logdetj=Arr((n,), lambda idx: LJ(UR(iv(idx[0]))), "f"),
                  logp=Arr((n,), lambda idx: LP(INV(UR(iv(idx[0])))), "f"),
                  logl=Arr((n,), lambda idx: LL(INV(UR(iv(idx[0])))), "f"))
        if self.blobs:
            st["blobs"] = Arr((n,), lambda idx: BL(INV(UR(iv(idx[0])))), "o")
        return st

    # -- collaborators ---------------------------------------------------------------------
    def call_args(self, ctx):
        E, W = self.U.E, self
        state = PyDict(dict(self.state, beta=XF(self.beta)))
        if not self.blobs:
            state.d["blobs"] = None

        def loglike(c, a, k):
            x = a[0]
            W.on_call(c, x)
            return rowval(c, LL, x), (objmap(c, BL, x) if W.blobs else None)

        def inverse(c, a, k):
            W.seen(c, "scaler.inverse", a[0])
            return rowmap(c, INV, a[0]), rowval(c, LJ, a[0])
        some = SymList(z3.Int("n_periodic"), lambda k: z3.Function("periodic", I, I)(iv(k)))
        scaler = ObjVal(None, dict(inverse=Model("scaler.inverse", inverse), periodic=some if self.bc else None, reflective=None,
                                   forward=Model("scaler.forward", lambda c, a, k: rowmap(c, FW, a[0])),
                                   apply_boundary_conditions_x=Model("scaler.bc", lambda c, a, k: rowmap(c, BC, a[0]))))

        def fforward(c, a, k):
            t = rowmap(c, FF, a[0])
            return t, rowval(c, LFI, t)

        def finverse(c, a, k):
            W.seen(c, "flow.inverse", a[0])
            return rowmap(c, FI, a[0]), rowval(c, LFI, a[0])
        flow = ObjVal(None, dict(forward=Model("flow.forward", fforward), inverse=Model("flow.inverse", finverse)))
        geo = ObjVal(None, dict(t_mean=self.mean, t_cov=self.tcov, t_nu=XF(self.nu), normal_cov=self.ncov, normal_mean=ctx.sym_arr("n_mean", (self.d,))))
        fd = PyDict(dict(loglike=Model("loglike", loglike), logprior=Model("logprior", lambda c, a, k: rowval(c, LP, a[0])), scaler=scaler,
                         flow=flow, theta_geometry=geo, u_geometry=geo))
        # pocomc.tools.flow_numpy_wrapper is under contract in C25: it forwards to the flow
        E.load("pocomc.mcmc").vars["flow_numpy_wrapper"] = Model("flow_numpy_wrapper", lambda c, a, k: flow)
        od = PyDict(dict(n_max=self.nmax, n_steps=self.nsteps, progress_bar=None, proposal_scale=XF(self.scale)))
        return [state, fd, od]

    def seen(self, c, what, a):
        self.args.append((what, Snap(a)))

    def on_call(self, ctx, x):
        U = self.U
        g = dict(self.ghost.attrs)
        g["calls"] = z3.simplify(g["calls"] + iv(x.shape[0]))
        ctx.set(self.ghost, "attrs", g)
        if U.muted:
            return
        r = ctx.fint("r")
        rt = row_term(ctx, x, r)
        U.prove(ctx, "likelihood called only at finite points with finite prior", Implies(inrange(r, x.shape[0]), And(self.rowfin(rt), LP(rt).fin)))
        self.ncalls_sites = getattr(self, "ncalls_sites", 0) + 1


class KernelLoop(LoopSpec):
    name = "sweep"

    def __init__(self, W):
        self.W = W

    def covers(self, L):
        return L.n is None and isinstance(L.st, ast.While)

    def enter(self, L):
        """Roles of the modified variables, from their contents at the start of the loop."""
        W, ctx = self.W, L.ctx
        roles, st = {}, W.arrays(W.UR0)
        exp = dict(st)
        th0 = rowmap(ctx, FF, st["u"])
        exp["theta"] = th0
        exp["logdetj_flow"] = rowval(ctx, LFI, th0)
        for a in L.arrays():
            for role, v in exp.items():
                if role in roles or v.ndim != a.ndim or v.dt != a.dt:
                    continue
                idx = tuple(ctx.fint("q") for _ in range(a.ndim))
                pre = z3.And(*[inrange(i, s) for i, s in zip(idx, v.shape)])
                if ctx.provable(z3.Implies(pre, zb(val_same(a.get(idx), v.get(idx))))):
                    roles[role] = a
                    break
            else:
                raise Unsupported("array modified by the sweep has no known role")
        need = ["u", "x", "logdetj", "logp", "logl"] + (["blobs"] if W.blobs else []) + (["theta", "logdetj_flow"] if W.flow else [])
        for r in need:
            if r not in roles:
                raise Unsupported("no array plays the role of %s" % r)
        L.data["roles"] = roles
        # integer counters: starting at zero
        ints = [k for k in L.names() if k in L.env.vars and is_int(L.env.vars[k])]
        L.data["ints"] = ints
        L.data["floats"] = [k for k in L.names() if k in L.env.vars and not is_int(L.env.vars[k]) and is_num(L.env.vars[k])]
        L.data["ncalls"] = None
        # the counter of likelihood calls and the step counter: found by what one iteration does to them (see candidates)
        self.candidates(L)

    def candidates(self, L):
        """Houdini over the integer counters: which one counts calls, which one counts iterations."""
        ctx, ip, W = L.ctx, L.E.ip, self.W
        memo = L.E.__dict__.setdefault("kernel_roles", {})
        if id(L.st) in memo:
            L.data["cc"], L.data["ci"], L.data["cs"], L.data["cf"] = memo[id(L.st)][1:]
            return
        # scalars that stay in [0, 1]: candidates from their value on entry
        cs = {k for k in L.data["floats"] if ctx.provable(And(xf(L.env.vars[k]).fin, xf(L.env.vars[k]).r >= 0, xf(L.env.vars[k]).r <= 1))} if W.tpcn else set()
        cf = {k for k in L.data["floats"] if ctx.provable(xf(L.env.vars[k]).fin)}
        cc, ci = set(L.data["ints"]), set(L.data["ints"])
        cc = {k for k in cc if ctx.provable(iv(L.env.vars[k]) == W.ghost.attrs["calls"])}
        ci = {k for k in ci if ctx.provable(iv(L.env.vars[k]) == 0)}

        def thunk():
            L.data["cc"], L.data["ci"], L.data["cs"], L.data["cf"] = set(), set(), set(), set()
            k0 = ctx.fint("it")
            ctx.assume(k0 >= 0)
            L.k = k0
            from pyvc.invloop import apply_havoc
            apply_havoc(L)
            L.data["cc"], L.data["ci"], L.data["cs"], L.data["cf"] = cc, ci, cs, cf
            self.assume(L, light=True)
            v0 = {k: iv(L.env.vars[k]) for k in cc | ci}
            g0 = W.ghost.attrs["calls"]
            try:
                ip.block(ctx, L.st.body, L.env)
            except BreakSig:
                pass
            except ContinueSig:
                pass
            g1 = W.ghost.attrs["calls"]
            for k in list(cc):
                if not ctx.provable(iv(L.env.vars[k]) - v0[k] == g1 - g0):
                    cc.discard(k)
            for k in list(ci):
                if not ctx.provable(iv(L.env.vars[k]) == v0[k] + 1):
                    ci.discard(k)
            for k in list(cs):
                v = xf(L.env.vars[k])
                if not ctx.provable(And(v.fin, v.r >= 0, v.r <= 1)):
                    cs.discard(k)
            for k in list(cf):
                if not ctx.provable(xf(L.env.vars[k]).fin):
                    cf.discard(k)
        L.U.muted += 1
        L.E.coarse = getattr(L.E, "coarse", 0) + 1
        L.E.coarse_mean = 1
        try:
            ctx.sub_explore(thunk)
        finally:
            L.U.muted -= 1
            L.E.coarse -= 1
            L.E.coarse_mean = 0
        L.data["cc"], L.data["ci"], L.data["cs"], L.data["cf"] = cc, ci, cs, cf
        memo[id(L.st)] = (L.st, cc, ci, cs, cf)
        L.k = z3.IntVal(0)

    def value(self, L, owner, key, old):
        if owner is L.env and isinstance(old, Arr):
            v = L.ctx.sym_arr(str(key), old.shape, old.dt)
            L.data.setdefault("vecs", {})[key] = v
            return v
        return NotImplemented

    def contents(self, L, arr):
        W = self.W
        if "UR" not in L.data or L.data.get("URk") is not L.k:
            L.data["UR"] = z3.Function(fresh_name("UR"), I, T.Row)
            L.data["TH"] = z3.Function(fresh_name("TH"), I, T.Row)
            L.data["URk"] = L.k
            UR, TH = L.data["UR"], L.data["TH"]
            if W.flow:
                S.TH.schema(TH, lambda i: [FI.f(TH(i)) == UR(i)])
                S.TH.schema(UR, lambda i: [FI.f(TH(i)) == UR(i)])
                W.finite_rows(TH)
            W.good(UR)
        UR, TH = L.data["UR"], L.data["TH"]
        st = W.arrays(UR)
        st["theta"] = Arr((W.n, W.d), lambda idx: el_xf(TH(iv(idx[0])), iv(idx[1])), "f")
        st["logdetj_flow"] = Arr((W.n,), lambda idx: LFI(TH(iv(idx[0]))), "f")
        for role, a in L.data["roles"].items():
            if a is arr:
                return st[role].fn
        raise Unsupported("array modified by the sweep has no known role")

    def assume(self, L, light=False):
        W, ctx = self.W, L.ctx
        L.data["draws0"] = len(ctx.draws)
        W.args = []
        g = dict(W.ghost.attrs)
        g["calls"] = ctx.fint("calls")
        ctx.set(W.ghost, "attrs", g)
        ctx.assume(g["calls"] >= 0)
        env = dict(L.env.vars)
        for k in L.data["cc"]:
            env[k] = g["calls"]
        for k in L.data["ci"]:
            env[k] = L.k
        for k in L.data["floats"]:
            # adaptive scalars: finite; the proposal scale of a Crank-Nicolson kernel stays in [0, 1)
            v = XF(ctx.freal(k)) if k in L.data["cf"] or k in L.data["cs"] else ctx.sym_xf(k, flags=True)
            env[k] = v
            if k in L.data["cs"]:
                ctx.assume(And(v.r >= 0, v.r <= 1))
                S.UNITS.add(v.r.decl().name())
        ctx.set(L.env, "vars", env)
        if L.data["ci"] and "count" in W.want:
            ctx.assume(L.k < W.nmax)
        L.data["k0"] = L.k
        L.data["sig0"] = {k: env[k] for k in L.data["floats"]}
        vecs = [v for v in L.data.get("vecs", {}).values() if v.ndim == 1]
        L.data["mu0"] = vecs[0] if vecs else W.mean
        L.data["env0"] = env

    def check(self, L, where):
        W, ctx = self.W, L.ctx
        if where == "on entry":
            # entry values have their roles by construction (enter); nothing is left to show but the counters
            if "count" in W.want:
                L.prove("a counter of iterations and a counter of calls exist", bool(L.data["ci"]) and bool(L.data["cc"]))
            return
        W.check_iteration(L, self, done=False)

    def broke(self, L):
        self.W.check_iteration(L, self, done=True)
        self.W.left = L


def draws_in(t, recs, seen=None):
    """Draw symbols a term depends on, looking into the bodies of sums."""
    out, seen = set(), seen if seen is not None else set()
    for s in subterms([t]):
        if not z3.is_app(s):
            continue
        nm = s.decl().name()
        if nm in recs:
            out.add(nm)
        if nm in T.SumReg.by_decl and nm not in seen:
            seen.add(nm)
            out |= draws_in(T.SumReg.by_decl[nm].body, recs, seen)
    return out


def quad(W, v, inv):
    """v^T C^-1 v"""
    return T.mk_sum(W.d, lambda p: v(p) * T.mk_sum(W.d, lambda q: inv(p, q) * v(q)))


def check_iteration(W, L, spec, done):
    """What one arbitrary iteration did to one arbitrary walker."""
    U, ctx, E = W.U, L.ctx, W.U.E
    if U.muted or ctx.pos < len(ctx.dec):
        return
    want = W.want
    k, j = ctx.fint("w"), ctx.fint("q")
    n, d = W.n, W.d
    ctx.assume(inrange(k, n))
    ctx.assume(inrange(j, d))
    roles = L.data["roles"]
    UR, TH = L.data["UR"], L.data["TH"]
    src = "flow.inverse" if W.flow else "scaler.inverse"
    prop = [s for w, s in W.args if w == src]
    if not prop:
        U.prove(ctx, "a proposal is made", False)
        return
    P = prop[0].arr()
    pr = row_term(ctx, P, k)
    pj = xf(P.get((k, j)))
    ctx.fact(And(T.EL(pr, j) == pj.r, Iff(T.ELNAN(pr, j), pj.nan), Iff(And(Not(T.ELNAN(pr, j)), T.ELPI(pr, j)), pj.pi),
                 Iff(And(Not(T.ELNAN(pr, j)), Not(T.ELPI(pr, j)), T.ELNI(pr, j)), pj.ni)))       # what a row term means
    ur = FI(pr) if W.flow else pr
    xr = INV(ur)
    cur, old = (TH(k) if W.flow else UR(k)), UR(k)
    ok = And(LJ(ur).fin, W.rowfin(xr), LP(xr).fin)
    ll = xite(ok, LL(xr), XF(rv(0), False, False, True)) if not isinstance(ok, bool) else LL(xr)
    beta = XF(W.beta)
    recs = {r["decl"].name(): r for r in ctx.draws}
    new_u = xf(roles["u"].get((k, j)))
    unif = [x for x in draws_in(new_u.r, recs) | set().union(*[draws_in(f, recs) for f in new_u.flags() if is_z3(f)] or [set()]) if recs[x]["kind"] == "uniform"]
    U.prove(ctx, "acceptance is decided by one uniform draw", len(unif) == 1)
    if len(unif) != 1:
        return
    rec = recs[unif[0]]
    U.prove(ctx, "a fresh uniform draw per walker", rec["decl"].arity() == 1)
    if rec["decl"].arity() != 1:
        return
    rand = rec["decl"](k)
    # -- proposal -----------------------------------------------------------------------
    pv = lambda q: xf(P.get((k, iv(q))))
    zs = [x for x in draws_in(pv(j).r, recs) if recs[x]["kind"] == "normal" and recs[x]["decl"].arity() == 2]
    curf = lambda q: el_xf(cur, iv(q))
    extra = XF(rv(0))
    if W.tpcn:
        inv = T_inv(E, ctx, W.tcov)
        mu = L.data["mu0"]
        m = lambda q: xf(mu.get((iv(q),)))
        diff = lambda q: curf(q).r - m(q).r
        dprime = lambda q: pv(q).r - m(q).r
        de, dp = quad(W, diff, inv), quad(W, dprime, inv)
        lt = lambda t: -(toreal(d) + W.nu) / 2 * LOG(1 + t / W.nu)
        extra = XF(lt(de) - lt(dp))
    if "law" in want:
        good = False
        sigs = [v for v in L.data["sig0"].values() if contains(pv(j).r, xf(v).r)] or list(L.data["sig0"].values())
        for sv in sigs:
            if not zs:
                break
            Z = recs[zs[0]]["decl"]
            sig = xf(sv).r
            if not W.tpcn:
                chol = T_chol(E, ctx, W.ncov)
                law = lambda q: curf(q).r + sig * T.mk_sum(d, lambda p: chol(iv(q), p) * Z(k, p))
            else:
                gs = [x for x in draws_in(pv(j).r, recs) if recs[x]["kind"] == "gamma"]
                if len(gs) != 1:
                    break
                G = recs[gs[0]]
                if G["decl"].arity() != 1:
                    break
                chol = T_chol(E, ctx, W.tcov)
                sc = rv(2) / (W.nu + de)
                s = 1 / (G["decl"](k) * sc)
                law = lambda q: m(q).r + SQRT(1 - sig * sig) * diff(q) + sig * SQRT(s) * T.mk_sum(d, lambda p: chol(iv(q), p) * Z(k, p))
            if len(sigs) == 1 or ctx.provable(pv(j).r == law(j)):
                U.prove(ctx, "the proposal is drawn from the stated density", And(pv(j).fin, pv(j).r == law(j)) if not W.flow or True else True, timeout=12)
                good = True
                if W.tpcn:
                    gsh = subst(xf(G["gshape"]).r, [(a, k) for a in G["lead"]])
                    U.prove(ctx, "Gamma shape is (d + nu) / 2", gsh == (toreal(d) + W.nu) / 2)
                    U.prove(ctx, "the proposal scale lies in [0, 1]", z3.And(sig >= 0, sig <= 1))
                break
        if not good:
            U.prove(ctx, "the proposal is drawn from the stated density", False)
    # -- acceptance ---------------------------------------------------------------------
    sub = lambda a, b: xsub(a, b)
    delta = xadd(xadd(xsub(xmul(ll, beta), xmul(LL(INV(old)), beta)), xsub(LP(xr), LP(INV(old)))), xsub(LJ(ur), LJ(old)))
    lpn = xite(ok, LP(xr), XF(rv(0), False, False, True))
    delta = xadd(xadd(xsub(xmul(ll, beta), xmul(LL(INV(old)), beta)), xsub(lpn, LP(INV(old)))), xsub(LJ(ur), LJ(old)))
    if W.flow:
        delta = xadd(delta, xsub(LFI(pr), LFI(cur)))
    delta = xadd(delta, extra)
    ex = xexp(delta)
    acc = And(Not(delta.nan), Or(ex.pi, rand < ex.r))
    L.data["acc"] = acc
    if "accept" in want:
        nu_ = new_u
        tgt = xite(acc, el_xf(ur, j), el_xf(old, j))
        U.prove(ctx, "accepted exactly if the uniform draw is below min(1, ratio)", val_same(nu_, tgt), timeout=15)
    if "whole" in want:
        exps = dict(u=(el_xf(ur, j), el_xf(old, j)), x=(el_xf(xr, j), el_xf(INV(old), j)), logdetj=(LJ(ur), LJ(old)), logp=(LP(xr), LP(INV(old))),
                    logl=(LL(xr), LL(INV(old))))
        if W.blobs:
            exps["blobs"] = (BL(xr), BL(INV(old)))
        if W.flow:
            exps["theta"] = (el_xf(pr, j), el_xf(cur, j))
            exps["logdetj_flow"] = (LFI(pr), LFI(cur))
        # the decision, taken from the code: whatever it is, all quantities follow it
        a = xf(roles["x"].get((k, j)))
        dec = decision(roles["logdetj"].get((k,)), LJ(ur), LJ(old))
        for r, (pn, on) in exps.items():
            arr = roles[r]
            v = arr.get((k, j) if arr.ndim == 2 else (k,))
            U.prove(ctx, "%s moves with the particle" % r, val_same(v, merge_v(acc, pn, on)), timeout=15)
        U.prove(ctx, "an accepted point has finite transform and prior and non-zero, non-NaN likelihood", Implies(acc, W.admissible(ur)), timeout=15)
        if W.flow:
            U.prove(ctx, "the latent point still maps to the particle", Implies(acc, FI(pr) == ur))
    # the invariant's own scalars (found by enter): kept
    cc, ci = L.data["cc"], L.data["ci"]
    for c in sorted(L.data["cs"]):
        v = xf(L.env.vars[c])
        U.prove(ctx, "the proposal scale stays in [0, 1] (%s)" % c, And(v.fin, v.r >= 0, v.r <= 1))
    for c in sorted(L.data["cf"] - L.data["cs"]):
        U.prove(ctx, "the adapted scalar stays finite (%s)" % c, xf(L.env.vars[c]).fin)
    for c in sorted(cc if "count" in want else ()):
        U.prove(ctx, "the reported number of calls is the number of evaluated points", iv(L.env.vars[c]) == W.ghost.attrs["calls"])
    for c in sorted(ci if "count" in want else ()):
        U.prove(ctx, "the number of steps is the number of iterations", iv(L.env.vars[c]) == L.data["k0"] + 1)
    if "count" in want:
        for c in sorted(ci):
            itn = iv(L.env.vars[c])
            U.prove(ctx, "steps taken so far are between 1 and the maximum", z3.And(itn >= 1, itn <= W.nmax))
            if not done:
                U.prove(ctx, "the sweep goes on only below the maximum number of steps", itn < W.nmax)


def decision(v, a, b):
    return None


def merge_v(c, a, b):
    from pyvc.ctx import merge
    return merge(c, a, b) if not isinstance(c, bool) else (a if c else b)


def T_inv(E, ctx, m):
    a = E.np.inv(ctx, m)
    return lambda p, q: a.get((iv(p), iv(q))).r


def T_chol(E, ctx, m):
    a = E.np.cholesky(ctx, m)
    return lambda p, q: a.get((iv(p), iv(q))).r


World.check_iteration = check_iteration


def kernel(name, want, blobs, bc):
    def unit(U):
        E = U.E

        def run(ctx):
            ctx.feas_timeout = 700
            T.RAW_SUM[0] = True
            W = World(U, ctx, name, blobs, bc)
            W.want = want
            W.left = None
            args = W.call_args(ctx)
            E.handlers[:] = [handler(U, [KernelLoop(W)])]
            try:
                r = E.ip.call(ctx, E.func("pocomc.mcmc:" + name), args, {})
            finally:
                E.handlers[:] = []
            return W, r
        for ctx, oc in U.paths(run, fork=True):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W, r = oc[1]
            L = W.left
            if L is None:
                U.prove(ctx, "at least one step is made", False)
                continue
            k, j = ctx.fint("w"), ctx.fint("q")
            ctx.assume(inrange(k, W.n))
            ctx.assume(inrange(j, W.d))
            if not isinstance(r, PyDict):
                U.prove(ctx, "returns a dictionary", False)
                continue
            for role in ("u", "x", "logdetj", "logl", "logp") + (("blobs",) if blobs else ()):
                a, b = r.d.get(role), L.data["roles"][role]
                if not isinstance(a, Arr) or a.ndim != b.ndim:
                    U.prove(ctx, "%s is returned" % role, False)
                    continue
                idx = (k, j) if b.ndim == 2 else (k,)
                if "whole" in want:
                    U.prove(ctx, "%s returned is the particles' own" % role, And(*([iv(p) == iv(q) for p, q in zip(a.shape, b.shape)] + [val_same(a.get(idx), b.get(idx))])))
            if "whole" in want:
                for nm, s in W.snaps.items():
                    unchanged(U, ctx, "%s passed in is not altered" % nm, W.state[nm], s)
            if "count" in want:
                U.prove(ctx, "calls returned is the number of evaluated points", iv(r.d["calls"]) == W.ghost.attrs["calls"])
                U.prove(ctx, "steps returned is between 1 and the maximum", z3.And(iv(r.d["steps"]) >= 1, iv(r.d["steps"]) <= W.nmax))
    return unit


ASSUME = ["contracts of the collaborators as listed in contracts/kernel.py (scaler: C01-C03, flow wrapper: C25, prior: C05, likelihood evaluation: C18), each acting row by row",
          "covariance matrices are positive definite (np.linalg.cholesky / inv contracts); nu > 0; beta in [0,1]; n_max, n_steps >= 1",
          "the adapted location of the Crank-Nicolson kernels is finite",
          "progress_bar is None in the verified runs (it only receives statistics)"]


def units(want, names=None):
    out = []
    for nm in names or READY:
        for blobs in ((False, True) if "whole" in want or "count" in want else (False,)):
            for bc in ((False, True)):
                if bc and nm == "pcn" and "law" in want and os.environ.get("VERIF_TIER") != "thorough":
                    continue
                if bc and blobs or (blobs and KERNELS[nm][1] and "count" in want) or (blobs is not True and not (bc and "count" in want) and len(want) == 1 and os.environ.get("VERIF_TIER") != "thorough"):
                    continue            # (quick: C07 with blobs, C08 with blobs and with boundary conditions; calls of a Crank-Nicolson kernel with blobs: stand-in)
                out.append(Unit("%s%s%s" % (nm, ", blobs" if blobs else "", ", boundary conditions" if bc else ""), ["pocomc.mcmc." + nm], kernel(nm, want, blobs, bc), timeout=10))
    return out
