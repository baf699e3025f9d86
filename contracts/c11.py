from .world import *
from pyvc.invloop import LoopSpec, handler
import ast

LEAST = z3.RealVal("1/10000")


def termination(metric):
    def unit(U):
        def run(ctx):
            nt = ctx.fint("n_total")
            W = SW(U, ctx, False, metric=metric, n_total=nt)
            W.nt, W.beta = nt, ctx.freal("beta")
            W.cur = PyDict(dict(beta=XF(W.beta)))
            return W, call_method(U, ctx, W, "_not_termination", W.cur)
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W, r = oc[1]
            F = ESSF[metric]
            t = U.E.ip.truth(ctx, r)
            U.prove(ctx, "goes on exactly if the temperature is not one or the samples are too few", Iff(t, z3.Or(1 - W.beta >= LEAST, F(rv(1)) < toreal(W.nt))))
            for k, s in W.h.items():
                unchanged(U, ctx, "stored %s is not altered" % k, W.hist[k], s)
    return unit


IDLE, REWEIGHTED, RESAMPLED, MOVED = range(4)


class Main(LoopSpec):
    name = "main loop"

    def __init__(self, G):
        self.G = G

    def covers(self, L):
        return L.n is None

    def value(self, L, owner, key, old):
        if owner is self.G:
            if key == "phase":
                return IDLE
            if key == "asked":
                return None
        return NotImplemented

    def check(self, L, where):
        L.prove("the iteration is complete", self.G.attrs["phase"] == IDLE)
        if where == "preserved":
            L.prove("exactly one record was added", iv(self.G.attrs["records"]) == iv(L.data["r0"]) + 1)

    def iterate(self, L):
        L.data["r0"] = self.G.attrs["records"]


def ghost(ctx, G, **kw):
    ctx.set(G, "attrs", dict(G.attrs, **kw))


def run_loop(pre, every, final):
    def unit(U):
        def run(ctx):
            E = U.E
            P = PyDict({})
            G = ObjVal(None, dict(phase=IDLE, records=ctx.fint("records"), asked="not yet", computed=0))
            nt, nev = ctx.fint("n_total"), ctx.fint("n_evidence")
            W = SW(U, ctx, False, preconditioned=pre, warmup=False, t=ctx.fint("t"), calls=ctx.fint("calls"), current_particles=P, n_effective=ctx.pint("n_effective"),
                   progress=False, prior_samples=ctx.sym_arr("prior_samples", (ctx.pint("np"), 3)), output_dir="out", output_label="label", logz=None, logz_err=None,
                   n_total=None, n_evidence=None)
            S_ = W.S
            for n in ("__init__", "update_stats", "update_iter", "close"):
                E.active["pocomc.tools:ProgressBar." + n] = lambda c, f, a, k: None

            def step(name, frm, to):
                def m(c, a, k):
                    ph = G.attrs["phase"]
                    cur = arg(a, k, 0, "current_particles", None)
                    U.prove(c, "%s: in its turn, on the current particles" % name, ph in frm and cur is P)
                    ghost(c, G, phase=to if to is not None else ph, asked=None)
                    if name == "reweight":
                        c.set(S_, "attrs", dict(S_.attrs, t=iv(S_.attrs["t"]) + 1))
                    return P
                return Model(name, m)

            def update(c, a, k):
                U.prove(c, "record: in its turn, the particles just moved", G.attrs["phase"] == MOVED and arg(a, k, 0, "data") is P)
                ghost(c, G, phase=IDLE, records=iv(G.attrs["records"]) + 1, asked=None)

            def asked(c, a, k):
                U.prove(c, "termination is decided for the current particles and the total asked for",
                        And(G.attrs["phase"] == IDLE, arg(a, k, 0, "current_particles") is P, is_int(S_.attrs["n_total"]) and iv(S_.attrs["n_total"]) == nt))
                b = c.fbool("goes_on")
                ghost(c, G, asked=b)
                return b

            def evidence(c, a, k):
                U.prove(c, "the flow evidence uses the number of draws asked for", iv(arg(a, k, 0, "n", 5000)) == nev)
                ghost(c, G, computed=G.attrs["computed"] + 1)
                c.set(S_, "attrs", dict(S_.attrs, logz=XF(c.freal("logz_is")), logz_err=XF(c.freal("err_is"))))
                return S_.attrs["logz"], S_.attrs["logz_err"]
            S_.attrs.update(_reweight=step("reweight", (IDLE,), REWEIGHTED), _train=step("train", (REWEIGHTED,), None), _resample=step("resample", (REWEIGHTED,), RESAMPLED),
                            _mutate=step("move", (RESAMPLED,), MOVED), _not_termination=Model("_not_termination", asked), _compute_evidence=Model("_compute_evidence", evidence),
                            save_state=none("save_state"))
            W.particles.attrs["update"] = Model("update", update)
            W.G, W.P, W.nev, W.nt = G, P, nev, nt
            G.attrs = dict(G.attrs)
            E.handlers[:] = [handler(U, [Main(G)])]
            W.G = G
            S_.attrs["_ghost"] = G
            try:
                kw = dict(n_total=nt, n_evidence=nev, progress=False)
                if every:
                    kw["save_every"] = ctx.pint("save_every")
                call_method(U, ctx, W, "run", **kw)
            finally:
                E.handlers[:] = []
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W = oc[1]
            G, A = W.G.attrs, W.S.attrs
            U.prove(ctx, "returns only between iterations", G["phase"] == IDLE)
            U.prove(ctx, "returns only when termination was just decided", False if G["asked"] is None or isinstance(G["asked"], str) else Not(G["asked"]))
            lz, le = A["logz"], A["logz_err"]
            if G["computed"]:
                U.prove(ctx, "flow evidence: asked for, and a flow is in use", And(bool(pre), W.nev > 0))
                U.prove(ctx, "flow evidence: computed once", G["computed"] == 1)
            else:
                U.prove(ctx, "evidence of the samples: no flow evidence asked for, or no flow", And(True, z3.BoolVal(not pre)) if not pre else W.nev <= 0)
                U.prove(ctx, "evidence of the samples: at temperature one, no error", isinstance(lz, XF) and le is None and And(lz.fin, lz.r == LZ(rv(1))))
    return unit


def prove():
    q = "pocomc.sampler.Sampler."
    us = [Unit("_not_termination (%s)" % m, [q + "_not_termination"], termination(m)) for m in ("ess", "uss")]
    us += [Unit("run (%s%s)" % ("flow" if p else "no flow", ", saving" if e else ""), [q + "run"], run_loop(p, e, None)) for p in (True, False) for e in (False, True)]
    return run_units("C11", us, assumptions=["contracts of history, log-weights and metrics as in contracts/world.py (C22, C09, C12); _reweight, _train, _resample, _mutate return the particles they are given, updated in place",
                                             "the main loop is entered after warm-up (C27); termination of the main loop is not shown (partial correctness)"])
