"""The steps of an iteration that hand particles to collaborators: Sampler._mutate, Sampler._train, the call counts.

  kernels   mcmc.*(state, functions, options) -> a dictionary of fresh arrays and statistics        [C06, C07, C08]
  flow.fit, Geometry.fit, flow_numpy_wrapper(flow).forward                                          [C26, C24, C25]
"""
from .world import *

KERN = {(True, "tpcn"): "preconditioned_pcn", (True, "rwm"): "preconditioned_rwm", (False, "tpcn"): "pcn", (False, "rwm"): "rwm"}
Q = "pocomc.sampler.Sampler."


def current(U, ctx, n, d, blobs, **more):
    cur = {k: ctx.sym_arr(k, (n, d) if k in "ux" else (n,)) for k in KEYS}
    if blobs:
        cur["blobs"] = ctx.sym_arr("blobs", (n,), "o")
    snap = {k: Snap(v) for k, v in cur.items()}
    rest = dict(beta=XF(ctx.freal("beta")), logz=XF(ctx.freal("logz")), ess=XF(ctx.freal("ess")), iter=ctx.fint("it"), **more)
    return cur, snap, rest


def mutate(pre, sample, blobs, parts):
    def unit(U):
        E = U.E

        def prove(c, part, name, goal):
            if part in parts:
                U.prove(c, name, goal)

        def run(ctx):
            W = type("W", (), {})()
            W.n, W.d = n, d = ctx.pint("n"), ctx.pint("d")
            cur, W.snap, W.rest = current(U, ctx, n, d, blobs, weights=ctx.sym_arr("w", (n,)))
            W.cur = PyDict(dict(cur, **W.rest))
            W.calls0, W.more, W.steps = ctx.fint("calls"), ctx.fint("more"), ctx.pint("steps")
            W.ran = []
            lp, ll, bl = xuf("LPRIOR", [T.Row]), xuf("LLIKE", [T.Row]), uf("BLOB", T.Row, T.Obj)
            uniq = lambda nm: ObjVal(None, dict(name=nm))
            scaler, flow, ug, tg, pbar = [uniq(x) for x in ("scaler", "flow", "u_geometry", "theta_geometry", "pbar")]
            nmax, nsteps, scale = ctx.pint("n_max"), ctx.pint("n_steps"), XF(ctx.freal("scale"))

            def kernel(nm):
                def f(c, fn, a, k):
                    W.ran.append(nm)
                    st, fd, od = [arg(a, k, i, x).d for i, x in enumerate(("state_dict", "function_dict", "option_dict"))]
                    for key in KEYS + (("blobs",) if blobs else ()):
                        v = st.get(key)
                        if not isinstance(v, Arr):
                            prove(c, "state", "kernel: %s is handed over" % key, False)
                            continue
                        if "state" in parts:
                            arr_same(U, c, "kernel: %s is that of the particles" % key, v, W.snap[key].arr())
                    prove(c, "law", "kernel: the temperature is that of the particles", st.get("beta") is not None and val_same(st["beta"], W.rest["beta"]))
                    if not blobs:
                        prove(c, "state", "kernel: no blobs", st.get("blobs") is None)
                    y = c.sym_arr("y", (c.pint("m"), d))
                    q = c.fint("q")
                    pre_ = inrange(q, y.shape[0])
                    row = row_term(c, Snap(y).arr(), q)
                    v = E.ip.call(c, fd["loglike"], [y], {})
                    prove(c, "law", "kernel: the likelihood is the sampler's", isinstance(v, tuple) and Implies(pre_, val_same(v[0].get((q,)), ll(row))))
                    v = E.ip.call(c, fd["logprior"], [y], {})
                    prove(c, "law", "kernel: the prior is the sampler's", Implies(pre_, val_same(v.get((q,)), lp(row))))
                    for key, o in (("scaler", scaler), ("flow", flow)):
                        if key == "scaler" or pre:
                            prove(c, "law", "kernel: the %s is the sampler's" % key, fd.get(key) is o)
                    key, o = ("theta_geometry", tg) if pre else ("u_geometry", ug)
                    prove(c, "law", "kernel: the geometry is that of its space", fd.get(key) is o)
                    prove(c, "count", "kernel: the maximum number of steps is the one configured", iv(od.get("n_max")) == nmax)
                    prove(c, "count", "kernel: the number of steps is the one configured", iv(od.get("n_steps")) == nsteps)
                    prove(c, "law", "kernel: the proposal scale is the adapted one", val_same(od.get("proposal_scale"), scale))
                    new = {k2: c.sym_arr("new_" + k2, (n, d) if k2 in "ux" else (n,)) for k2 in KEYS}
                    new["blobs"] = c.sym_arr("new_blobs", (n,), "o") if blobs else None
                    W.new = {k2: Snap(v2) for k2, v2 in new.items() if v2 is not None}
                    W.acc, W.eff, W.sc = [XF(c.freal(x)) for x in ("accept", "efficiency", "scale_after")]
                    return PyDict(dict(new, efficiency=W.eff, accept=W.acc, steps=W.steps, calls=W.more, proposal_scale=W.sc))
                return f
            for nm in KERN.values():
                E.active["pocomc.mcmc:" + nm] = kernel(nm)
            cls = E.load("pocomc.sampler").vars["Sampler"]
            like = lambda c, a, k: (rowval(c, ll, a[0]), Arr((a[0].shape[0],), (lambda s: lambda idx: bl(row_term(c, s, iv(idx[0]))))(Snap(a[0]).arr()), "o") if blobs else None)
            W.S = ObjVal(cls, dict(have_blobs=blobs, preconditioned=pre, sample=sample, n_dim=d, n_active=n, n_max_steps=nmax, n_steps=nsteps, proposal_scale=scale, calls=W.calls0,
                                   scaler=scaler, flow=flow, u_geometry=ug, theta_geometry=tg, pbar=pbar, t=ctx.fint("t"),
                                   _log_like=Model("_log_like", like), log_prior=Model("log_prior", lambda c, a, k: rowval(c, lp, a[0]))))
            return W, call_method(U, ctx, W, "_mutate", W.cur)
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W, r = oc[1]
            prove(ctx, "law", "the configured kernel runs, once", W.ran == [KERN[pre, sample]])
            if len(W.ran) != 1 or not isinstance(r, PyDict):
                prove(ctx, "state", "one sweep, giving particles", False)
                prove(ctx, "count", "one sweep, giving particles", False)
                continue
            D = r.d
            if "state" in parts:
                for k, s in W.new.items():
                    v = D.get(k)
                    if isinstance(v, Arr):
                        arr_same(U, ctx, "moved: %s is the kernel's" % k, v, s.arr())
                    else:
                        U.prove(ctx, "moved: %s is the kernel's" % k, False)
                for k in ("beta", "logz", "ess"):
                    U.prove(ctx, "moved: %s is kept" % k, k in D and val_same(D[k], W.rest[k]))
            if "count" in parts:
                U.prove(ctx, "calls: the sampler's count grows by the kernel's", iv(W.S.attrs["calls"]) == W.calls0 + W.more)
                U.prove(ctx, "calls: reported with the particles", iv(D.get("calls")) == W.calls0 + W.more)
                U.prove(ctx, "steps: reported with the particles", iv(D.get("steps")) == W.steps)
            prove(ctx, "law", "the adapted proposal scale is kept for the next sweep", val_same(W.S.attrs["proposal_scale"], W.sc))
    return unit


def mutate_units(*parts):
    return [Unit("_mutate (%s%s%s)" % (s, ", flow" if p else "", ", blobs" if b else ""), [Q + "_mutate"], mutate(p, s, b, parts))
            for p in (True, False) for s in ("tpcn", "rwm") for b in ((False, True) if "state" in parts else (False,))]


# ---- training ----------------------------------------------------------------------------------------------------------
def train(pre, parts):
    def unit(U):
        E = U.E

        def run(ctx):
            W = type("W", (), {})()
            W.n, W.d = n, d = ctx.pint("n"), ctx.pint("d")
            ff = uf("FF", T.Row, T.Row)
            cur, W.snap, W.rest = current(U, ctx, n, d, False)
            w = ctx.sym_arr("w", (n,))
            W.sw = Snap(w)
            W.arrs = dict(cur, weights=w)
            W.cur = PyDict(dict(cur, weights=w, **W.rest))
            W.flows, W.geo = [], []

            def snapit(v):
                return Snap(v) if isinstance(v, Arr) else v
            t2n = lambda c, f, a, k: a[0]
            for nm in ("numpy_to_torch", "torch_to_numpy"):
                E.active["pocomc.tools:" + nm] = t2n

            def fit(c, a, k):
                W.flows.append((snapit(arg(a, k, 0, "x")), snapit(arg(a, k, 1, "weights"))))
                W.geo.append("flow")

            def gfit(nm):
                def f(c, a, k):
                    W.geo.append((nm, snapit(arg(a, k, 0, "theta")), snapit(arg(a, k, 1, "weights"))))
                return f
            flow = ObjVal(None, dict(fit=Model("flow.fit", fit)))
            fw = ObjVal(None, dict(forward=Model("wrapper.forward", lambda c, a, k: (rowmap(c, ff, a[0], d), rowval(c, lambda v: XF(uf("LFF", T.Row, R)(v)), a[0])))))

            def wrap(c, a, k):
                U.prove(c, "the flow wrapped is the sampler's", a[0] is flow)
                return fw
            E.load("pocomc.sampler").vars["flow_numpy_wrapper"] = Model("flow_numpy_wrapper", wrap)
            W.ff = ff
            tc = PyDict(dict(validation_split=0.5, epochs=5000, batch_size=ctx.pint("bs"), patience=10, learning_rate=1e-3, annealing=False, gaussian_scale=None, laplace_scale=None,
                             noise=None, shuffle=True, clip_grad_norm=1.0, verbose=0))
            W.t, W.freq, W.un = ctx.fint("t"), ctx.pint("freq"), ctx.fbool("untrained")
            ctx.assume(W.t >= 0)
            cls = E.load("pocomc.sampler").vars["Sampler"]
            W.S = ObjVal(cls, dict(preconditioned=pre, t=W.t, train_frequency=W.freq, flow_untrained=W.un, flow=flow, train_config=tc, n_dim=d,
                                   theta_geometry=ObjVal(None, dict(fit=Model("theta.fit", gfit("theta")))), u_geometry=ObjVal(None, dict(fit=Model("u.fit", gfit("u"))))))
            return W, call_method(U, ctx, W, "_train", W.cur)
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W, r = oc[1]
            n, d = W.n, W.d
            b1 = W.rest["beta"].r == 1
            due = And(pre, Or(W.t % W.freq == 0, b1, W.un))
            trained = len(W.flows) == 1
            U.prove(ctx, "the flow is trained at most once", len(W.flows) <= 1)
            U.prove(ctx, "the flow is trained exactly when due: first use, every train_frequency iterations, temperature one", Iff(trained, due))
            U.prove(ctx, "the flow counts as trained from then on", Implies(due, Not(W.S.attrs["flow_untrained"])))
            if trained and "flow" in parts:
                x, w = W.flows[0]
                same(U, ctx, "flow: trained on the particles", x, W.snap["u"])
                same(U, ctx, "flow: trained with their weights", w, W.sw)
            if "geometry" in parts:
                g = [q for q in W.geo if q != "flow"]
                if trained:
                    U.prove(ctx, "geometry: fitted in latent space, after the flow", len(g) >= 1 and W.geo[0] == "flow" and any(q[0] == "theta" for q in g))
                if not pre:
                    U.prove(ctx, "geometry: fitted at every iteration", any(q[0] == "u" for q in g))
                for nm, x, w in g:
                    want = W.snap["u"] if nm == "u" else Snap(rowmap(ctx, W.ff, W.snap["u"].arr(), d))
                    same(U, ctx, "geometry (%s): fitted to the particles" % nm, x, want)
                    same(U, ctx, "geometry (%s): with their weights" % nm, w, W.sw)
            for k, s in list(W.snap.items()) + [("weights", W.sw)]:
                if isinstance(r, PyDict) and isinstance(r.d.get(k), Arr):
                    arr_same(U, ctx, "the particles keep their %s" % k, r.d[k], s.arr())
                else:
                    U.prove(ctx, "the particles keep their %s" % k, False)
    return unit


def same(U, ctx, name, x, s):
    if isinstance(x, Snap):
        arr_same(U, ctx, name, x.arr(), s.arr())
    else:
        U.prove(ctx, name, False)


def train_units(*parts):
    return [Unit("_train (%s)" % ("flow" if p else "no flow"), [Q + "_train"], train(p, parts)) for p in (True, False)]
