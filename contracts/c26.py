from .steps import train_units
from .lib import *
from .c25 import tensor, torch_models, LP
from pyvc.invloop import LoopSpec, handler

O = T.Obj
TH = uf("THETA", I, O)                 # parameters after epoch e
LOSS, VAL = xuf("LOSS", [I]), xuf("VALLOSS", [I])


class Loader(SymList):
    """Batches of a data set: batch b holds rows BI(b, .) of every tensor of the set."""

    def __init__(self, ctx, W, sets, i):
        self.sets = sets
        nb, bs = ctx.fint("n_batches"), ctx.fint("rows")
        ctx.assume(And(nb >= 0, bs >= 1))
        f = uf("BATCH%d" % i, I, I, I)
        n = sets[0].shape[0]

        def rows(t, b):
            g = snapshot(t)
            return tensor(Arr((bs,) + t.shape[1:], lambda idx: g((f(iv(b), iv(idx[0])),) + tuple(idx[1:])), t.dt))
        super().__init__(nb, lambda b: tuple(rows(t, b) for t in sets))

    def pyattr(self, E, ctx, name):
        if name == "dataset":
            return self.sets[0]
        return NotImplemented


class Snapshot:
    def __init__(self, t):
        self.t = t


class Live:
    """state_dict(): the parameters themselves, as long as they are not copied."""
    def __init__(self, G):
        self.G = G


def copied(G):
    def h(c, v):
        if isinstance(v, Live):
            return Snapshot(v.G.attrs["theta"])
        if isinstance(v, Snapshot):
            return v
        raise Unsupported("deepcopy of %r" % (v,))
    return h


class Batches(LoopSpec):
    name = "batches"

    def __init__(self, W):
        self.W = W

    def covers(self, L):
        return isinstance(L.it, Loader)

    def value(self, L, owner, key, old):
        if owner is self.W.G:
            return z3.Const(fresh_name("theta"), O) if key in ("theta", "trained") and not (key == "theta" and False) else NotImplemented
        return NotImplemented

    def assume(self, L):
        G = self.W.G
        L.ctx.assume(G.attrs["theta"] == G.attrs["trained"])

    def check(self, L, where):
        G = self.W.G
        L.prove("the parameters are those of the last step", G.attrs["theta"] == G.attrs["trained"], note="witness")


class Epochs(LoopSpec):
    name = "epochs"

    def __init__(self, W):
        self.W = W

    def covers(self, L):
        return L.n is not None and not isinstance(L.it, Loader) and iv(L.n).eq(iv(self.W.epochs))

    def before(self, L):
        L.data["typed"] = True

    def roles(self, L):
        W = self.W
        if W.roles is None:
            e = [k for k, v in L.env.vars.items() if is_int(v) and not isinstance(v, bool) and k in L.names() and k not in W.targets]
            l = [k for k, v in L.env.vars.items() if isinstance(v, (XF, float)) and k in L.names()]
            m = [k for k, v in L.env.vars.items() if isinstance(v, (Snapshot, Live))]
            if len(e) != 1 or len(l) != 1 or len(m) != 1:
                raise Unsupported("training keeps its best epoch differently")
            W.roles = e[0], l[0], m[0]
        return W.roles

    def lists(self, L):
        W = self.W
        for k, v in L.env.vars.items():
            if isinstance(v, PyDict) and set(v.d) == {"loss", "val_loss"}:
                W.hist = v
                return v
        raise Unsupported("training keeps its history differently")

    def mon(self, e):
        return VAL(e) if self.W.val else LOSS(e)

    def value(self, L, owner, key, old):
        W, D, c = self.W, L.data, L.ctx
        if owner is W.G:
            return D.setdefault("theta", z3.Const(fresh_name("theta"), O))
        if isinstance(owner, (PyList, SymList)):
            h = self.lists(L)
            if owner is h.d["loss"]:
                return SymList(L.k, lambda e: LOSS(iv(e)))
            if owner is h.d["val_loss"]:
                return SymList(L.k, lambda e: VAL(iv(e)))
            return NotImplemented
        if owner is L.env:
            import ast
            if not W.targets:
                W.targets |= {n.id for n in ast.walk(L.st.target) if isinstance(n, ast.Name)}
            if L.U.discovering:
                return NotImplemented if not isinstance(old, (Snapshot, Live)) else Snapshot(z3.Const(fresh_name("bm"), O))
            e, l, m = self.roles(L)
            if key not in (e, l, m):
                return NotImplemented
            if "be" not in D:
                D["be"] = c.fint("best")
                D["bl"] = c.sym_xf("bestloss", flags=True)
                D["bm"] = z3.Const(fresh_name("bm"), O)
                c.assume(self.inv(L.k, D["be"], D["bl"], D["bm"]))
                q = z3.Int("i0")
                k, bl = L.k, D["bl"]
                S.TH.schema(self.mon(q).r.decl(), lambda t: [Implies(And(t >= 0, t < k), Not(cmp_scalar("<", self.mon(t), bl)))])
            return D["be"] if key == e else D["bl"] if key == l else Snapshot(D["bm"])
        return NotImplemented

    def inv(self, k, be, bl, bm):
        none = And(be == 0, bl.pi, Not(bl.nan), bm == self.W.theta0)
        some = And(be >= 0, be < k, xsame(bl, self.mon(be)), Not(bl.nan), Not(bl.pi), bm == TH(be))
        return Or(none, some)

    def enter(self, L):
        ty = L.data.get("typed")
        L.data.clear()
        L.data["typed"] = ty

    def check(self, L, where):
        W, c = self.W, L.ctx
        import ast
        W.targets |= {n.id for n in ast.walk(L.st.target) if isinstance(n, ast.Name)}
        h = self.lists(L)
        e, l, m = self.roles(L)
        if where == "preserved":
            self.ghost(L, L.k - 1)
        be, bl, bm = iv(L.env.vars[e]), xf(L.env.vars[l]), L.env.vars[m]
        ok = isinstance(bm, Snapshot)
        L.prove("the best model is a copy of the parameters", ok, note="witness")
        if not ok:
            raise Unsupported("the best model is not a copy")
        L.prove("the best loss, its epoch and the parameters of that epoch belong together", self.inv(L.k, be, bl, bm.t), note="witness")
        t = c.fint("t")
        L.prove("no epoch was better", Implies(And(t >= 0, t < L.k), Not(cmp_scalar("<", self.mon(t), bl))), note="witness")
        for nm, F, on in (("loss", LOSS, True), ("val_loss", VAL, W.val)):
            v = h.d[nm]
            n = v.sym.n if isinstance(v, PyList) and v.sym is not None else v.n if isinstance(v, SymList) else len(v.items)
            U_n = "one entry per epoch in %s" % nm if on else "no entry in %s" % nm
            L.prove(U_n, iv(n) == (L.k if on else 0), note="witness")

    def ghost(self, L, k):
        """What this epoch was: its parameters and its losses (definitions at k)."""
        W, c = self.W, L.ctx
        c.fact(TH(k) == W.G.attrs["trained"])
        h = self.lists(L)
        for nm, F, on in (("loss", LOSS, True), ("val_loss", VAL, W.val)):
            v = h.d[nm]
            v = v.sym if isinstance(v, PyList) and v.sym is not None else v
            if on:
                if not isinstance(v, SymList) or not L.ctx.provable(iv(v.n) == k + 1):
                    L.prove("one entry is added to %s in every epoch" % nm, False, note="witness")
                    raise Unsupported("history of %s" % nm)
                c.fact(xsame(xf(v.item(k)), F(k)))

    def broke(self, L):
        self.ghost(L, L.k)
        self.W.broke = L.k, self.roles(L)
        self.W.env = L.env


def world(U, ctx, weights, val, shuffle, epochs, reg):
    E = U.E
    W = type("W", (), {})()
    W.val, W.roles, W.targets, W.broke = val, None, set(), None
    torch_models(U, E, W)
    W.n, W.d = n, d = ctx.pint("n"), ctx.pint("d")
    W.epochs = epochs
    x = ctx.sym_arr("x", (n, d))
    W.x = tensor(x)
    W.w = tensor(ctx.sym_arr("w", (n,))) if weights else None
    W.sx, W.sw = Snap(W.x), Snap(W.w) if weights else None
    W.theta0 = z3.Const(fresh_name("theta0"), O)
    G = W.G = ObjVal(None, dict(theta=W.theta0, trained=W.theta0))
    W.perm, pd = ctx.ffunc("PERM", [I], I)
    W.perms = []
    pinv = uf(fresh_name("PINV"), I, I)
    S.TH.schema(pd, lambda i: [Implies(inrange(i, n), And(inrange(W.perm(i), n), pinv(W.perm(i)) == i))])

    def randperm(c, a, k):
        U.prove(c, "all samples are shuffled", iv(a[0]) == n)
        W.perms.append(1)
        return Arr((n,), lambda idx: W.perm(iv(idx[0])), "i", lib="torch")
    W.loaders = []

    def loader(c, a, k):
        ds = arg(a, k, 0, "dataset")
        W.loaders.append(ds)
        return Loader(c, W, ds.kw["tensors"], len(W.loaders))
    par = Model("parameters", lambda c, a, k: Opaque("params"))

    def step(c, a, k):
        t = z3.Const(fresh_name("stepped"), O)
        c.set(G, "attrs", dict(theta=t, trained=t))
    opt = ObjVal(None, dict(step=Model("step", step), zero_grad=Model("zero_grad", lambda c, a, k: None)))
    nop = lambda nm: Model(nm, lambda c, a, k: None)
    E.torchtbl.update(randperm=Model("torch.randperm", randperm), optim=ObjVal(None, dict(AdamW=Model("AdamW", lambda c, a, k: opt))),
                      nn=ObjVal(None, dict(utils=ObjVal(None, dict(clip_grad_norm_=nop("clip"))))))

    def scalar(c, o, name):
        if name == "backward":
            return nop("backward")
        if name == "data":
            return o
    E.hooks["scalar_attr"] = scalar
    E.hooks["deepcopy"] = copied(G)

    def lp(c, a, k):
        return tensor(rowval(c, lambda v: XF(LP(v)), a[0]))
    dist = ObjVal(None, dict(log_prob=Model("log_prob", lp)))

    class FlowObj:
        def pyattr(self, E, c, name):
            if name == "parameters":
                return par
            if name in ("train", "eval"):
                return nop(name)
            if name == "state_dict":
                return Model("state_dict", lambda c2, a, k: Live(G))
            if name == "load_state_dict":
                def load(c2, a, k):
                    s = a[0]
                    if isinstance(s, Snapshot):
                        c2.set(G, "attrs", dict(G.attrs, theta=s.t))
                    elif not isinstance(s, Live):
                        raise Unsupported("load_state_dict")
                return Model("load", load)
            return NotImplemented

        def pycall(self, c, a, k):
            return dist
    env = E.load("pocomc.flow")
    env.vars["DataLoader"] = Model("DataLoader", loader)
    env.vars["TensorDataset"] = Model("TensorDataset", lambda c, a, k: Opaque("dataset", tensors=tuple(a)))
    env.vars["ReduceLROnPlateau"] = Model("ReduceLROnPlateau", lambda c, a, k: ObjVal(None, dict(step=nop("sched"))))
    E.active["pocomc.flow:regularization_loss"] = lambda c, f, a, k: c.sym_xf("reg")
    W.F = ObjVal(env.vars["Flow"], dict(n_dim=d, flow=FlowObj(), _ghost=G))
    W.patience = ctx.fint("patience")
    ctx.assume(W.patience >= 0)
    kw = dict(weights=W.w, epochs=epochs, batch_size=ctx.pint("bs"), patience=W.patience, shuffle=shuffle, verbose=0)
    if reg:
        kw.update(gaussian_scale=XF(ctx.freal("gs")))
    W.vs = ctx.freal("vs")
    if val:
        ctx.assume(And(W.vs > 0, W.vs < 1))
        kw["validation_split"] = XF(W.vs)
    else:
        kw["validation_split"] = 0.0
    W.kw = kw
    return W


def splits(weights, val, shuffle):
    def unit(U):
        def run(ctx):
            W = world(U, ctx, weights, val, shuffle, 0, False)
            W.r = U.E.ip.call(ctx, U.E.ip.getattr(ctx, W.F, "fit"), [W.x], W.kw)
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W = oc[1]
            n = W.n
            unchanged(U, ctx, "the caller's samples are not modified", W.x, W.sx)
            if weights:
                unchanged(U, ctx, "the caller's weights are not modified", W.w, W.sw)
            U.prove(ctx, "a training set%s" % (" and a validation set" if val else ""), len(W.loaders) == (2 if val else 1), note="witness")
            if len(W.loaders) != (2 if val else 1):
                continue
            P = W.perm if W.perms else (lambda i: i)
            U.prove(ctx, "shuffled exactly if asked to", len(W.perms) == (1 if shuffle else 0), note="witness")
            sets = [ds.kw["tensors"] for ds in W.loaders]
            q, j = ctx.fint("q"), ctx.fint("j")
            ctx.assume(inrange(j, W.d))
            nv = z3.ToInt(W.vs * toreal(n)) if val else z3.IntVal(0)
            ns = [n - nv, nv] if val else [n]
            off = [z3.IntVal(0), n - nv]
            for k, s in enumerate(sets):
                nm = ("training", "validation")[k]
                U.prove(ctx, nm + ": samples%s" % (" with weights" if weights else ""), len(s) == (2 if weights else 1), note="witness")
                U.prove(ctx, nm + ": the requested number of samples", iv(s[0].shape[0]) == ns[k])
                inr = inrange(q, ns[k])
                U.prove(ctx, nm + ": its own part of the samples", Implies(inr, val_same(s[0].get((q, j)), W.sx.g((P(q + off[k]), j)))), note="witness")
                if weights and len(s) == 2:
                    U.prove(ctx, nm + ": every sample with its own weight", And(iv(s[1].shape[0]) == ns[k], Implies(inr, val_same(s[1].get((q,)), W.sw.g((P(q + off[k]),))))), note="witness")
    return unit


def epochs(weights, val, reg):
    def unit(U):
        def run(ctx):
            ep = ctx.fint("epochs")
            ctx.assume(ep >= 0)
            W = world(U, ctx, weights, val, False, ep, reg)
            E = U.E
            E.handlers[:] = [handler(U, [Batches(W), Epochs(W)])]
            try:
                W.r = E.ip.call(ctx, E.ip.getattr(ctx, W.F, "fit"), [W.x], W.kw)
            finally:
                E.handlers[:] = []
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W = oc[1]
            r = W.r
            if not isinstance(r, PyDict) or "loss" not in r.d:
                U.prove(ctx, "a history is returned", False)
                continue

            def length(v):
                return iv(v.sym.n if isinstance(v, PyList) and v.sym is not None else v.n if isinstance(v, SymList) else len(v.items))
            nl, nv = length(r.d["loss"]), length(r.d["val_loss"])
            U.prove(ctx, "at most the requested number of epochs", nl <= W.epochs)
            U.prove(ctx, "validation losses: %s" % ("one per epoch" if val else "none"), nv == (nl if val else 0))
            if W.broke is None:
                U.prove(ctx, "not stopped early: all epochs", nl == W.epochs)
                continue
            k, (e, l, m) = W.broke
            U.prove(ctx, "stopped early: one loss for each epoch run", nl == k + 1)
            be = iv(W.env.vars[e])
            th = W.G.attrs["theta"]
            mon = (VAL if val else LOSS)
            t = ctx.fint("t")
            better = cmp_scalar("<", mon(t), mon(be))
            fin = And(Not(mon(be).nan), Not(mon(be).pi))
            U.prove(ctx, "stopped early: the parameters are those of an epoch no other epoch is better than", Or(And(be >= 0, be <= k, fin, th == TH(be), Implies(And(t >= 0, t <= k), Not(better))), And(th == W.theta0, Implies(And(t >= 0, t <= k), Or(mon(t).nan, mon(t).pi)))), note="witness")
    return unit


def prove():
    q = "pocomc.flow.Flow.fit"
    b = lambda *n: ", ".join(n)
    us = [Unit("splits (%s)" % b("weights" if w else "no weights", "validation" if v else "no validation", "shuffled" if s else "in order"), [q], splits(w, v, s))
          for w in (True, False) for v in (True, False) for s in (True, False)]
    us += [Unit("epochs (%s)" % b("weights" if w else "no weights", "validation" if v else "no validation", "regularised" if g else "plain"), [q], epochs(w, v, g))
           for w in (True, False) for v in (True, False) for g in (False, True)]
    us += train_units("flow")
    return run_units("C26", us, assumptions=["torch: randperm is a permutation; a DataLoader's batches take the same rows of every tensor of its data set, each row once per pass; optimizer.step alone changes the parameters; state_dict is a view of them, deepcopy a copy, load_state_dict restores it",
                                             "deciding which samples go where precedes the first epoch (the split units run with no epochs)", "0 <= validation_split < 1; noise=None; verbose=0"],
                     bounded=["noise and verbose output: run-time contracts only"])
