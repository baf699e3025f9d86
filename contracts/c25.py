from .lib import *
from pyvc.npmodel import DT

V = T.Row
FWD, INV = uf("ZFWD", V, V), uf("ZINV", V, V)
LADJ, LADJI, LP = uf("ZLADJ", V, R), uf("ZLADJI", V, R), uf("ZLOGP", V, R)
DRAWN = uf("ZSAMPLE", I, I, R)


def tensor(a, dt="float32"):
    sa = snapshot(a)
    return Arr(a.shape, lambda idx: sa(idx), a.dt, lib="torch", tag={"dtype": DT[dt]})


def torch_models(U, E, W):
    def attr(c, o, name):
        if o.lib != "torch":
            return None
        dt = o.tag.get("dtype", DT["float32"])
        if name == "dtype":
            return dt
        if name == "float":
            return Model("tensor.float", lambda c2, a, k: tensor(o))
        if name == "double":
            return Model("tensor.double", lambda c2, a, k: tensor(o, "float64"))
        if name in ("to", "type"):
            def to(c2, a, k):
                t = arg(a, k, 0, "dtype")
                if t is DT["float32"] or t is DT["float64"]:
                    return tensor(o, t.name)
                raise Unsupported("tensor.%s(%r)" % (name, t))
            return Model("tensor." + name, to)
        if name in ("detach", "cpu", "clone", "contiguous"):
            return Model("tensor." + name, lambda c2, a, k: tensor(o, dt.name))
        if name == "numpy":
            def nump(c2, a, k):
                g = snapshot(o)
                return Arr(o.shape, lambda idx: g(idx), o.dt, tag={"dtype": dt})
            return Model("tensor.numpy", nump)
        return None
    E.hooks["arr_attr"] = attr

    def mk(c, a, k):
        x = as_arr(c, arg(a, k, 0, "data"))
        t = k.get("dtype")
        return tensor(x, t.name if t is not None else x.tag["dtype"].name if "dtype" in x.tag else "float64")
    E.torchtbl.update(float64=DT["float64"], double=DT["float64"], float32=DT["float32"], float=DT["float32"], tensor=Model("torch.tensor", mk), as_tensor=Model("torch.as_tensor", mk),
                      from_numpy=Model("torch.from_numpy", mk), Tensor=Opaque("torch.Tensor"))


def only32(U, W, c, x):
    U.prove(c, "the network gets single precision", isinstance(x, Arr) and x.lib == "torch" and x.tag.get("dtype", DT["float32"]) is DT["float32"])


def world(U, ctx):
    E = U.E
    W = type("W", (), {})()
    torch_models(U, E, W)
    W.n, W.d = n, d = ctx.pint("n"), ctx.pint("d")
    S.TH.schema(FWD(z3.Const("v0", V)).decl(), lambda v: [INV(FWD(v)) == v, LADJI(FWD(v)) == -LADJ(v)])
    S.TH.schema(INV(z3.Const("v0", V)).decl(), lambda v: [FWD(INV(v)) == v, LADJI(v) == -LADJ(INV(v))])
    W.calls = []

    def tmap(F, L):
        def f(c, a, k):
            only32(U, W, c, a[0])
            return tensor(rowmap(c, F, a[0], d)), tensor(rowval(c, lambda v: XF(L(v)), a[0]))
        return f

    def one(F):
        def f(c, a, k):
            only32(U, W, c, a[0])
            return tensor(rowmap(c, F, a[0], d))
        return f

    def ladj(L):
        return lambda c, a, k: tensor(rowval(c, lambda v: XF(L(v)), a[0]))
    inv = ObjVal(None, dict(call_and_ladj=Model("inv.call_and_ladj", tmap(INV, LADJI)), log_abs_det_jacobian=Model("inv.ladj", ladj(LADJI))))
    tr = ObjVal(None, dict(call_and_ladj=Model("call_and_ladj", tmap(FWD, LADJ)), log_abs_det_jacobian=Model("ladj", ladj(LADJ)), inv=inv))
    ctx.set(inv, "attrs", dict(inv.attrs, inv=tr))

    def rs(c, a, k):
        shp = arg(a, k, 0, "shape", ())
        W.calls.append(shp)
        m = shp[0]
        x = Arr((m, d), lambda idx: XF(DRAWN(iv(idx[0]), iv(idx[1]))), "f")
        return tensor(x), tensor(rowval(c, lambda v: XF(LP(v)), x))

    def lp(c, a, k):
        only32(U, W, c, a[0])
        return tensor(rowval(c, lambda v: XF(LP(v)), a[0]))
    dist = ObjVal(None, dict(transform=tr, log_prob=Model("log_prob", lp), rsample_and_log_prob=Model("rsample_and_log_prob", rs)))
    cls = E.load("pocomc.flow").vars["Flow"]
    W.F = ObjVal(cls, dict(n_dim=d, flow=Model("flow", lambda c, a, k: dist)))
    W.wrap = E.ip.call(ctx, E.load("pocomc.tools").vars["flow_numpy_wrapper"], [W.F], {})
    return W


def wrapper(U):
    def run(ctx):
        E = U.E
        W = world(U, ctx)
        W.x = ctx.sym_arr("v", (W.n, W.d))
        W.sx = Snap(W.x)
        m = lambda o, nm, *a: E.ip.call(ctx, E.ip.getattr(ctx, o, nm), list(a), {})
        W.f = m(W.wrap, "forward", W.x)
        W.b = m(W.wrap, "inverse", W.f[0])
        W.i = m(W.wrap, "inverse", W.x)
        W.bf = m(W.wrap, "forward", W.i[0])
        return W
    for ctx, oc in U.paths(run):
        if not U.reach(ctx) or not U.no_raise(ctx, oc):
            continue
        W = oc[1]
        base = W.sx.arr()
        q = ctx.fint("q")
        ctx.assume(inrange(q, W.n))
        f = Arr((W.n, W.d), lambda idx: el_xf(FWD(row_term(ctx, base, iv(idx[0]))), iv(idx[1])), "f")
        g = Arr((W.n, W.d), lambda idx: el_xf(INV(row_term(ctx, base, iv(idx[0]))), iv(idx[1])), "f")
        arr_same(U, ctx, "forward: the flow's latent point of every row", W.f[0], f)
        arr_same(U, ctx, "forward: minus the log-determinant of the data-to-latent map", W.f[1], Arr((W.n,), lambda idx: XF(-LADJ(row_term(ctx, base, iv(idx[0])))), "f"))
        arr_same(U, ctx, "inverse: the flow's data point of every row", W.i[0], g)
        arr_same(U, ctx, "inverse: the log-determinant of the latent-to-data map", W.i[1], Arr((W.n,), lambda idx: XF(LADJI(row_term(ctx, base, iv(idx[0])))), "f"))
        U.prove(ctx, "forward, then inverse: back at the point", And(iv(W.b[0].shape[0]) == W.n, row_term(ctx, W.b[0], q) == row_term(ctx, base, q)))
        arr_same(U, ctx, "forward, then inverse: the same log-determinant", W.b[1], W.f[1])
        U.prove(ctx, "inverse, then forward: back at the point", And(iv(W.bf[0].shape[0]) == W.n, row_term(ctx, W.bf[0], q) == row_term(ctx, base, q)))
        arr_same(U, ctx, "inverse, then forward: the same log-determinant", W.bf[1], W.i[1])
        for a in W.f + W.i:
            U.prove(ctx, "numpy arrays are returned", isinstance(a, Arr) and a.lib == "np")
        unchanged(U, ctx, "the argument is not modified", W.x, W.sx)


def tensors(method):
    def unit(U):
        for dt in ("float32", "float64", "int64"):
            def run(ctx):
                E = U.E
                W = world(U, ctx)
                x = ctx.sym_arr("x", (W.n, W.d))
                W.x = tensor(x, dt)
                W.sx = Snap(W.x)
                W.ev = []
                old = E.event
                W.r = E.ip.call(ctx, E.ip.getattr(ctx, W.F, method), [W.x], {})
                return W
            for ctx, oc in U.paths(run):
                if not U.reach(ctx):
                    continue
                if dt == "int64":
                    U.prove(ctx, "other types are refused with ValueError", oc[0] == "raise" and oc[1].cls.issub(U.E.exc("ValueError")))
                    continue
                if not U.no_raise(ctx, oc):
                    continue
                W = oc[1]
                r = W.r if isinstance(W.r, tuple) else (W.r,)
                base = W.sx.arr()
                if method == "log_prob":
                    arr_same(U, ctx, "%s: the density of the wrapped flow" % dt, r[0], Arr((W.n,), lambda idx: XF(LP(row_term(ctx, base, iv(idx[0])))), "f"))
                else:
                    F, L = (FWD, LADJ) if method == "forward" else (INV, LADJI)
                    arr_same(U, ctx, "%s: the flow's map" % dt, r[0], Arr((W.n, W.d), lambda idx: el_xf(F(row_term(ctx, base, iv(idx[0]))), iv(idx[1])), "f"))
                    arr_same(U, ctx, "%s: with its log-determinant" % dt, r[1], Arr((W.n,), lambda idx: XF(L(row_term(ctx, base, iv(idx[0])))), "f"))
                unchanged(U, ctx, "%s: the argument is not modified" % dt, W.x, W.sx)
    return unit


def sample(U):
    def run(ctx):
        E = U.E
        W = world(U, ctx)
        W.size = ctx.pint("size")
        W.r = E.ip.call(ctx, E.ip.getattr(ctx, W.F, "sample"), [W.size], {})
        return W
    for ctx, oc in U.paths(run):
        if not U.reach(ctx) or not U.no_raise(ctx, oc):
            continue
        W = oc[1]
        x = Arr((W.size, W.d), lambda idx: XF(DRAWN(iv(idx[0]), iv(idx[1]))), "f")
        arr_same(U, ctx, "as many samples of the wrapped flow as asked for", W.r[0], x)
        arr_same(U, ctx, "with their own log-densities", W.r[1], rowval(ctx, lambda v: XF(LP(v)), x))


def convert(U):
    for dt in ("float32", "float64", "int64"):
        for warn in (None, True, False):
            def run(ctx):
                E = U.E
                W = world(U, ctx)
                W.x = tensor(ctx.sym_arr("x", (W.n, W.d)), dt)
                W.sx = Snap(W.x)
                W.n0 = len(ctx.events.items) if hasattr(ctx.events, "items") and not callable(ctx.events.items) else None
                kw = {} if warn is None else dict(warn=warn)
                W.warned = []
                wm = E.extmods["warnings"]
                E.extmods["warnings"] = ModVal("warnings", lambda n: Model("warnings.warn", lambda c, a, k: W.warned.append(1)) if n == "warn" else wm.get(n))
                env = E.load("pocomc.tools")
                o = env.vars.get("warnings")
                if isinstance(o, ModVal):
                    env.vars["warnings"] = E.extmods["warnings"]
                try:
                    W.r = E.ip.call(ctx, E.func("pocomc.tools:torch_double_to_float"), [W.x], kw)
                finally:
                    E.extmods["warnings"] = wm
                    if isinstance(o, ModVal):
                        env.vars["warnings"] = o
                return W
            for ctx, oc in U.paths(run):
                if not U.reach(ctx):
                    continue
                tag = "%s, warn=%s" % (dt, warn)
                if dt == "int64":
                    U.prove(ctx, tag + ": refused with ValueError", oc[0] == "raise" and oc[1].cls.issub(U.E.exc("ValueError")))
                    continue
                if not U.no_raise(ctx, oc):
                    continue
                W = oc[1]
                arr_same(U, ctx, tag + ": the values are kept", W.r, W.sx.arr())
                U.prove(ctx, tag + ": single precision", W.r.tag.get("dtype", DT["float32"]) is DT["float32"])
                U.prove(ctx, tag + ": a warning if and only if converted and not silenced", len(W.warned) == (1 if dt == "float64" and warn is not False else 0))


def prove():
    f, t = "pocomc.flow.Flow.", "pocomc.tools."
    us = [Unit("flow_numpy_wrapper", [t + "flow_numpy_wrapper.__init__", t + "flow_numpy_wrapper.forward", t + "flow_numpy_wrapper.inverse", t + "numpy_to_torch", t + "torch_to_numpy", f + "forward", f + "inverse", f + "transform"], wrapper)]
    us += [Unit("Flow." + m, [f + m], tensors(m)) for m in ("forward", "inverse", "log_prob")]
    us += [Unit("Flow.sample", [f + "sample"], sample), Unit("torch_double_to_float", [t + "torch_double_to_float"], convert)]
    return run_units("C25", us, assumptions=["zuko: transform.inv is the inverse of transform, its log-determinant the negative one at the image point; log_prob and rsample_and_log_prob are those of the same distribution",
                                             "torch: conversions keep the values up to single precision (rounding is not modelled)"],
                     bounded=["the numerical inverse and log-determinant of zuko's networks: run-time contracts on sampled flows and points"])
