from .lib import *
from pyvc.fs import FS, distinct, flat
from pyvc.interp import PathVal, path_key

EXTRA = ("pool", "distribute", "pbar")


def sampler_attrs(ctx, pool):
    d = dict(a_array=ctx.sym_arr("a", (ctx.pint("n"),)), t=ctx.fint("t"), have_blobs=ctx.fbool("hb"), scaler=ObjVal(None, {}), log_likelihood=ObjVal(None, {}),
             particles=ObjVal(None, {}), flow=ObjVal(None, {}), current_particles=PyDict({}), random_state=None, warmup=ctx.fbool("wu"), progress=None,
             pbar=ObjVal(None, {}), pool=None if not pool else ObjVal(None, {"map": Opaque("map")}), distribute=Opaque("map"))
    if pool == "gone":
        del d["pool"], d["distribute"]
    return d


def save(pool, kind):
    def unit(U):
        def run(ctx):
            E = U.E
            target = Opaque("target path")
            key = flat(path_key(target))
            path = target if kind == "string" else PathVal(key)
            st = {}

            def change(c, k, what):
                d = distinct(k, key)
                if d is True:
                    return
                if d is None and not (isinstance(flat(k), tuple) and flat(k)[0] == "suffix"):
                    raise Unsupported("whether %r is the checkpoint itself" % (k,))
                if d is None:
                    U.prove(c, "only the checkpoint and a differently named file are written (%s)" % what, c.fbool("same_file"))
                    return
                f = fs.get(key)
                ok = f["content"] == "old" or (isinstance(f["content"], tuple) and f["synced"])
                U.prove(c, "the checkpoint is the old one or a complete one forced to disk (%s)" % what, ok)
            fs = FS(E, change)
            E.fs = fs
            fs.st.attrs["files"][key] = dict(content="old", flushed=True, synced=True)
            cls = E.load("pocomc.sampler").vars["Sampler"]
            S_ = ObjVal(cls, sampler_attrs(ctx, pool))
            st.update(S=S_, a0=dict(S_.attrs), cp=dict(S_.attrs["current_particles"].d), arr=Snap(S_.attrs["a_array"]), fs=fs, key=key)
            U.now = st
            E.ip.call(ctx, E.ip.getattr(ctx, S_, "save_state"), [path], {})
            return st
        for ctx, oc in U.paths(run):
            if not U.reach(ctx):
                continue
            st = U.now
            fs, S_ = st["fs"], st["S"]
            f = fs.get(st["key"])
            failed = fs.st.attrs["failed"]
            if oc[0] == "raise":
                U.prove(ctx, "raises only if the system failed", bool(failed))
                U.prove(ctx, "after a failure the checkpoint is the old one or a complete one forced to disk", f["content"] == "old" or (isinstance(f["content"], tuple) and f["synced"]))
            else:
                U.prove(ctx, "a failed save raises", not failed)
                got = f["content"]
                U.prove(ctx, "the checkpoint is complete and forced to disk", isinstance(got, tuple) and bool(f["synced"]))
                if isinstance(got, tuple):
                    want = {k: v for k, v in st["a0"].items() if k not in EXTRA}
                    new = {k: v for k, v in got[1].items()} if isinstance(got[1], dict) else {}
                    U.prove(ctx, "it holds every attribute of the sampler except pool and progress display", isinstance(got[1], dict) and set(new) == set(want) and all(new[k] is want[k] for k in want))
            U.prove(ctx, "the sampler keeps its attributes", set(S_.attrs) == set(st["a0"]) and all(S_.attrs[k] is v for k, v in st["a0"].items()))
            unchanged(U, ctx, "the sampler's arrays are not altered", S_.attrs["a_array"], st["arr"])
    return unit


def prove():
    q = "pocomc.sampler.Sampler."
    us = [Unit("save_state (%s, %s)" % (p or "no pool", k), [q + "save_state"], save(p, k)) for p in (None, "pool", "gone") for k in ("path", "string")]
    return run_units("C20", us, assumptions=["file system: rename replaces the target atomically; fsync forces what was flushed to disk; a crash loses what was not forced (the directory entry aside)",
                                             "dill.dump writes a complete pickle of the object it is given or raises; any file operation may fail with OSError",
                                             "the sampler's attributes are represented by one of each kind; attributes are treated uniformly by the code under contract"])
