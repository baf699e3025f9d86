from .lib import *
from .c20 import sampler_attrs, EXTRA
from pyvc.fs import FS, flat
from pyvc.interp import PathVal, path_key


def load(pool):
    def unit(U):
        def run(ctx):
            E = U.E
            fs = FS(E, None, fails=False)
            E.fs = fs
            key = flat(path_key(Opaque("target path")))
            cls = E.load("pocomc.sampler").vars["Sampler"]
            S_ = ObjVal(cls, sampler_attrs(ctx, pool))
            S_.attrs["only_here"] = ctx.fint("only_here")
            saved = {k: v for k, v in sampler_attrs(ctx, None).items() if k not in EXTRA}
            saved["only_saved"] = ctx.fint("only_saved")
            st = dict(S=S_, a0=dict(S_.attrs), saved=saved, keys=[])

            def loaded(c, k):
                st["keys"].append(k)
                return PyDict(saved)
            fs.loaded = loaded
            E.ip.call(ctx, E.ip.getattr(ctx, S_, "load_state"), [PathVal(key)], {})
            st["want"] = key
            return st
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            st = oc[1]
            A = st["S"].attrs
            U.prove(ctx, "the checkpoint is read", st["keys"] == [st["want"]])
            for k, v in sorted(st["saved"].items()):
                U.prove(ctx, "%s is the one saved" % k, A.get(k) is v)
            for k in EXTRA:
                U.prove(ctx, "%s stays that of the loading sampler" % k, (k in A) == (k in st["a0"]) and A.get(k) is st["a0"].get(k))
            U.prove(ctx, "nothing else appears", set(A) <= set(st["saved"]) | set(st["a0"]))
    return unit


def prove():
    from .c27 import warmup_units
    q = "pocomc.sampler.Sampler."
    us = [Unit("load_state (%s)" % (p or "no pool"), [q + "load_state"], load(p)) for p in (None, "pool")]
    us += warmup_units(True)
    return run_units("C21", us, assumptions=["dill.load returns a dictionary equal to the one dumped (what save_state dumps is proved in C20)",
                                             "the sampler's attributes are represented by one of each kind; attributes are treated uniformly by the code under contract",
                                             "a run resumed after warm-up enters the main loop, which is proved for every history and counter (C11, C10)"])
