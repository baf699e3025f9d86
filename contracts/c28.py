from .lib import *

GOOD = dict(transform=("probit", "logit"), metric=("ess", "uss"), sample=("tpcn", "rwm"), resample=("mult", "syst"))


def build(U, ctx, kw, blobs_dtype=None, pool=None):
    E = U.E
    W = type("W", (), {})()
    W.dim = ctx.pint("dim")
    W.flow, W.scaler, W.seeds = [], [], []
    rnd = E.nptbl["random"]
    E.nptbl["random"] = ModVal("np.random", lambda n: Model("np.random.seed", lambda c, a, k: W.seeds.append(("numpy", a[0], len(W.flow) + len(W.scaler), len(c.draws)))) if n == "seed" else rnd.get(n))

    def made(name, log):
        def f(c, fn, a, k):
            log.append((a[1:], k))
        return f
    for q in ("pocomc.scaler:Reparameterize.__init__",):
        E.active[q] = made("scaler", W.scaler)
    E.active["pocomc.flow:Flow.__init__"] = made("flow", W.flow)
    E.active["pocomc.threading:configure_threads"] = lambda c, f, a, k: None
    E.active["pocomc.tools:unique_sample_size"] = lambda c, f, a, k: XF(c.freal("uss"))
    E.torchtbl["manual_seed"] = Model("torch.manual_seed", lambda c, a, k: W.seeds.append(("torch", a[0], len(W.flow) + len(W.scaler), len(c.draws))))
    W.prior = ObjVal(None, dict(logpdf=ObjVal(None, {}), rvs=ObjVal(None, {}), bounds=ctx.sym_arr("bounds", (W.dim, 2)), dim=W.dim))
    W.lik = ObjVal(None, {})
    W.cls = E.load("pocomc.sampler").vars["Sampler"]
    W.obj = E.ip.call(ctx, W.cls, [W.prior, W.lik], kw)
    return W


def numbers(na, ne, nprior, steps, mx, tf, nd):
    """Particle numbers and the values derived from them."""
    def unit(U):
        def run(ctx):
            kw = {}
            vals = {}
            for name, given in (("n_active", na), ("n_effective", ne), ("n_prior", nprior), ("n_steps", steps), ("n_max_steps", mx), ("train_frequency", tf), ("n_dim", nd)):
                if given:
                    vals[name] = kw[name] = ctx.pint(name)
                else:
                    kw[name] = None
            if "n_effective" in vals and not na:
                ctx.assume(vals["n_effective"] >= 2)
            W = build(U, ctx, kw)
            W.vals = vals
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx):
                continue
            if not na and not ne:
                U.prove(ctx, "omitting both particle numbers is refused with ValueError", oc[0] == "raise" and oc[1].cls.issub(U.E.exc("ValueError")))
                continue
            if not U.no_raise(ctx, oc):
                continue
            W = oc[1]
            A, v = W.obj.attrs, W.vals
            g = lambda k: toint(ctx, A.get(k))
            act, eff = g("n_active"), g("n_effective")
            U.prove(ctx, "active particles: %s" % ("as given" if na else "half the effective ones"), act == v["n_active"] if na else act == v["n_effective"] / 2)
            U.prove(ctx, "effective particles: %s" % ("as given" if ne else "twice the active ones"), eff == v["n_effective"] if ne else eff == 2 * v["n_active"])
            if nprior:
                U.prove(ctx, "prior samples: at least one full batch, at least the number asked for", And(g("n_prior") >= act, g("n_prior") >= v["n_prior"] - act))
                U.prove(ctx, "prior samples: the number asked for if that is a number of full batches", Implies(And(v["n_prior"] % act == 0), g("n_prior") == v["n_prior"]))
            else:
                U.prove(ctx, "prior samples: at least one full batch", g("n_prior") >= act)
                U.prove(ctx, "prior samples: whole batches", g("n_prior") % act == 0)
            d = g("n_dim")
            U.prove(ctx, "dimension: %s" % ("as given" if nd else "the prior's"), d == (v["n_dim"] if nd else W.dim))
            U.prove(ctx, "steps: %s" % ("as given" if steps else "half the dimension"), g("n_steps") == (v["n_steps"] if steps else d / 2))
            U.prove(ctx, "step limit: %s" % ("as given" if mx else "ten times the steps"), g("n_max_steps") == (v["n_max_steps"] if mx else 10 * g("n_steps")))
            t = g("train_frequency")
            U.prove(ctx, "training frequency: %s" % ("as given" if tf else "at least one"), t == v["train_frequency"] if tf else And(t >= 1, t == z3.If(eff / (2 * act) >= 1, eff / (2 * act), 1)))
            U.prove(ctx, "history and counters start empty", And(g("t") == 0, g("calls") == 0, A.get("warmup") is True))
    return unit


def toint(ctx, v):
    if is_int(v):
        return iv(v)
    x = xf(v)
    if not x.pure:
        raise Unsupported("an option is not a number")
    return z3.ToInt(x.r)


def options(name, value, ok):
    def unit(U):
        def run(ctx):
            W = build(U, ctx, {name: value})
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx):
                continue
            if not ok:
                U.prove(ctx, "refused with ValueError", oc[0] == "raise" and oc[1].cls.issub(U.E.exc("ValueError")))
                continue
            if not U.no_raise(ctx, oc, "accepted"):
                continue
            W = oc[1]
            A = W.obj.attrs
            if name in ("metric", "sample", "resample"):
                U.prove(ctx, "the option is used", A.get(name) == value)
            if name == "transform":
                U.prove(ctx, "the option reaches the reparameterisation", len(W.scaler) == 1 and W.scaler[0][1].get("transform", W.scaler[0][0][-1] if W.scaler[0][0] else None) == value)
            if name == "flow":
                U.prove(ctx, "the flow asked for is built", len(W.flow) == 1 and any(isinstance(q, str) and q == value for q in list(W.flow[0][0]) + list(W.flow[0][1].values())))
            if name == "precondition":
                U.prove(ctx, "the option is used", A.get("preconditioned") is value)
            if name == "dynamic":
                U.prove(ctx, "the option is used", A.get("dynamic") is value)
    return unit


def vectorised(vec, dt):
    def unit(U):
        def run(ctx):
            return build(U, ctx, dict(vectorize=vec, blobs_dtype=dt))
        for ctx, oc in U.paths(run):
            if not U.reach(ctx):
                continue
            if vec and dt is not None:
                U.prove(ctx, "a vectorised likelihood with blobs is refused with ValueError", oc[0] == "raise" and oc[1].cls.issub(U.E.exc("ValueError")))
                continue
            if U.no_raise(ctx, oc, "accepted"):
                A = oc[1].obj.attrs
                U.prove(ctx, "blobs are announced exactly if declared", A.get("have_blobs") is (dt is not None))
                U.prove(ctx, "vectorisation as asked for", A.get("vectorize") is vec)
    return unit


NAMES = {p + str(k): (p.upper(), k) for p in ("maf", "nsf") for k in (3, 6, 12)}


def flowname(value):
    """Flow.__init__: a documented name builds that flow for the given dimension, a zuko flow is used as it is, anything else is refused."""
    def unit(U):
        def run(ctx):
            E = U.E
            W = type("W", (), {})()
            W.d, W.made = ctx.pint("n_dim"), []

            def family(nm):
                def mk(c, a, k):
                    W.made.append((nm, arg(a, k, 0, "features"), k.get("transforms")))
                    return ObjVal(None, dict(kind=nm))
                return Model("zuko.flows." + nm, mk)
            mod = E.load("pocomc.flow")
            zf = ClassVal("zuko.flows.Flow", "zuko", None, [], {})
            mod.vars["zuko"] = ObjVal(None, dict(flows=ObjVal(None, dict(MAF=family("MAF"), NSF=family("NSF"), Flow=zf, LazyDistribution=zf)), lazy=ObjVal(None, dict(Flow=zf))))
            W.own = ObjVal(zf, {})
            W.F = E.ip.call(ctx, mod.vars["Flow"], [W.d, W.own if value == "own" else value], {})
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx):
                continue
            if value not in NAMES and value != "own":
                U.prove(ctx, "refused with ValueError", oc[0] == "raise" and oc[1].cls.issub(U.E.exc("ValueError")))
                continue
            if not U.no_raise(ctx, oc, "accepted"):
                continue
            W = oc[1]
            A = W.F.attrs
            U.prove(ctx, "the dimension is the one given", iv(A["n_dim"]) == W.d)
            if value == "own":
                U.prove(ctx, "the flow given is used", A["flow"] is W.own and not W.made)
            else:
                fam, k = NAMES[value]
                U.prove(ctx, "one flow of that family, length and dimension is built", len(W.made) == 1 and W.made[0][0] == fam and W.made[0][2] == k and iv(W.made[0][1]) == W.d
                        and isinstance(A["flow"], ObjVal) and A["flow"].attrs.get("kind") == fam)
    return unit


def prove():
    import itertools
    q = "pocomc.sampler.Sampler.__init__"
    us = []
    for na, ne in itertools.product((True, False), repeat=2):
        for rest in ((False,) * 5, (True,) * 5):
            nm = "".join(", %s given" % n for n, g in (("n_active", na), ("n_effective", ne), ("other numbers", rest[0])) if g)
            us.append(Unit("numbers (%s)" % (nm[2:] or "nothing given"), [q], numbers(na, ne, *rest)))
    for k, good in GOOD.items():
        for v in good:
            us.append(Unit("%s=%s" % (k, v), [q], options(k, v, True)))
        for v in ("unknown", good[0].upper(), None, ""):
            us.append(Unit("%s=%r" % (k, v), [q], options(k, v, False)))
    for k, v in (("flow", "nsf3"), ("flow", "maf6"), ("precondition", True), ("precondition", False), ("dynamic", True), ("dynamic", False)):
        us.append(Unit("%s=%s" % (k, v), [q], options(k, v, True)))
    for vec in (True, False):
        for dt in (None, "float", "object"):
            us.append(Unit("vectorize=%s, blobs_dtype=%s" % (vec, dt), [q], vectorised(vec, dt)))
    for v in list(NAMES) + ["own", "maf", "unknown", "NSF3", None, 3]:
        us.append(Unit("Flow(%s)" % v, ["pocomc.flow.Flow.__init__"], flowname(v)))
    return run_units("C28", us, assumptions=["particle numbers, dimensions and step numbers are positive integers (at least two effective particles if the active ones are derived)",
                                             "Reparameterize and Flow by contract in the sampler's constructor (their own constructors: C01, here)",
                                             "zuko builds the flow its arguments describe"])
