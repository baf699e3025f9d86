"""C20 (atomic checkpoint) and C21 (resume): executable contracts.  All files live in a scratch directory."""
import builtins
import copy
import hashlib
import shutil
import tempfile
from pathlib import Path
from .common import *
import dill
import torch
from scipy import stats
from pocomc.sampler import Sampler
from pocomc.prior import Prior
import pocomc.sampler as sm

torch.set_num_threads(1)


def like_(x):
    x = np.asarray(x, float)
    return float(-0.5 * np.sum((x - 1.) ** 2) / 0.3)


def likeb_(x):
    return like_(x), float(np.asarray(x)[0] * 2)


class RP:
    """Prior recording its draws."""

    def __init__(self):
        self.p = Prior([stats.norm(0, 2), stats.uniform(-4, 8)])
        self.dim, self.bounds = 2, self.p.bounds
        self.draws = 0

    def logpdf(self, x):
        return self.p.logpdf(x)

    def rvs(self, size=1):
        self.draws += 1
        return self.p.rvs(size)


def build(like=like_, seed=3, **kw):
    kw = dict(dict(n_effective=32, n_active=16, n_prior=64, flow="maf3", train_config=dict(epochs=2), precondition=False), **kw)
    return Sampler(RP(), like, random_state=seed, **kw)


def sha(b):
    return hashlib.sha256(b).hexdigest()


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def complete(b, t):
    import io as _io
    try:
        st = dill.load(_io.BytesIO(b))
        return isinstance(st, dict) and "particles" in st and st.get("t") == t
    except Exception:
        return False


class Watch:
    """Observe the checkpoint path at every line executed while saving."""

    def __init__(self, path, old, t):
        self.path, self.old, self.t = str(path), old, t
        self.bad = None
        self.points = 0
        self.last = object()
        self.phase = "old"

    def look(self, where):
        self.points += 1
        try:
            st = os.stat(self.path)
            key = (st.st_ino, st.st_size, st.st_mtime_ns)
        except FileNotFoundError:
            key = None
        if key == self.last or self.bad:
            return
        self.last = key
        b = read(self.path)
        if b == self.old:
            if self.phase == "new":
                self.bad = "the checkpoint went back to the old one at " + where
            return
        if b is None:
            self.bad = "the checkpoint is missing at " + where
        elif not complete(b, self.t):
            self.bad = "the checkpoint is incomplete (%d bytes) at %s" % (len(b), where)
        else:
            self.phase = "new"

    def trace(self, frame, ev, arg):
        fn = frame.f_code.co_filename
        if ev == "line" or ev == "call" or ev == "return":
            if "/pocomc/" in fn:
                sys.settrace(None)
                try:
                    self.look("%s:%d" % (os.path.basename(fn), frame.f_lineno))
                finally:
                    sys.settrace(self.trace)
                return self.trace
        return None


class WatchedDump:
    """Look at the checkpoint path at every write of the serialiser."""

    def __init__(self, w):
        self.w = w

    def __enter__(self):
        self.od = dill.dump
        w = self.w

        class Proxy:
            def __init__(self, f):
                self._f = f

            def write(self, b):
                r = self._f.write(b)
                w.look("write")
                return r

            def __getattr__(self, k):
                return getattr(self._f, k)

        def dump(obj, file, *a, **k):
            w.look("dump")
            tr = sys.gettrace()
            sys.settrace(None)
            try:
                r = self.od(obj, Proxy(file), *a, **k)
            finally:
                sys.settrace(tr)
            w.look("dumped")
            return r
        dill.dump = dump
        return self

    def __exit__(self, *a):
        dill.dump = self.od


class Durable:
    """Record fsync and rename: what takes the place of the checkpoint must have been forced to disk."""

    def __init__(self, path):
        self.path = os.path.abspath(str(path))
        self.synced = {}
        self.bad = None
        self.renames = 0

    def __enter__(self):
        self.o = {k: getattr(os, k) for k in ("fsync", "rename", "replace")}
        self.of = getattr(os, "fdatasync", None)

        def fs(fd):
            r = self.o["fsync"](fd)
            fd2 = fd if isinstance(fd, int) else fd.fileno()
            st = os.fstat(fd2)
            with open("/proc/self/fd/%d" % fd2, "rb") as f:
                self.synced[st.st_ino] = sha(f.read())
            return r

        def mv(kind):
            def f(src, dst, *a, **k):
                if os.path.abspath(os.fspath(dst)) == self.path:
                    self.renames += 1
                    st = os.stat(src)
                    with open(src, "rb") as g:
                        h = sha(g.read())
                    if self.synced.get(st.st_ino) != h:
                        self.bad = "the bytes that replace the checkpoint were not forced to disk first"
                return self.o[kind](src, dst, *a, **k)
            return f
        os.fsync, os.rename, os.replace = fs, mv("rename"), mv("replace")
        # any buffer size is allowed for a buffered file: use a large one, so that bytes reach the file only when flushed
        self.open = builtins.open

        def op(file, mode="r", buffering=-1, *a, **k):
            if "b" in mode and buffering == -1 and ("w" in mode or "a" in mode or "x" in mode or "+" in mode):
                buffering = 1 << 26
            return self.open(file, mode, buffering, *a, **k)
        builtins.open = op
        if self.of:
            os.fdatasync = fs
        return self

    def __exit__(self, *a):
        builtins.open = self.open
        for k, v in self.o.items():
            setattr(os, k, v)
        if self.of:
            os.fdatasync = self.of


def scratch():
    return Path(tempfile.mkdtemp(prefix="verif_state_"))


def ident(s):
    out = {}
    for k, v in s.__dict__.items():
        out[k] = id(v)
    return out


def c20(rep):
    def atomic(rep):
        d = scratch()
        try:
            s = build()
            s.run(n_total=32, n_evidence=0, progress=False)
            for name in ("pmc.state", "noext", "x.temp", "a.b.c", "sub/dir.state", "pmc_1.5", ".hidden"):
                for prev in (False, True):
                    for as_str in (False, True):
                        p = d / name
                        p.parent.mkdir(exist_ok=True)
                        if p.exists():
                            p.unlink()
                        other = d / "other.state"
                        other.write_bytes(b"unrelated")
                        old = None
                        t_keep = s.t
                        if prev:
                            s.t = t_keep - 1
                            s.save_state(p)
                            s.t = t_keep
                            old = read(p)
                        info = dict(path=name, previous=prev, as_string=as_str)
                        rep.case(str(info), info)
                        before = ident(s)
                        w = Watch(p, old, s.t)
                        with Durable(p) as du, WatchedDump(w):
                            sys.settrace(w.trace)
                            try:
                                s.save_state(str(p) if as_str else p)
                            finally:
                                sys.settrace(None)
                        w.look("end")
                        rep.check(w.bad is None, "not atomic: %s" % w.bad, **info)
                        rep.check(du.bad is None, "not durable: %s" % du.bad, **info)
                        rep.check(read(p) is not None and complete(read(p), s.t), "the new checkpoint is not complete after saving", **info)
                        rep.check(ident(s) == before, "saving altered the running sampler", **info)
                        rep.check(other.read_bytes() == b"unrelated", "saving touched another file", **info)
                        if du.renames == 0 and prev and read(p) != old and w.bad is None:
                            rep.skipped.append("durability not observed for %s" % name)
        finally:
            shutil.rmtree(d)

    def failing(rep):
        d = scratch()
        try:
            s = build()
            s.run(n_total=32, n_evidence=0, progress=False)
            p = d / "pmc.state"
            s.save_state(p)
            old = read(p)

            class Boom(Exception):
                pass

            class Unp:
                def __reduce__(self):
                    raise Boom("cannot be saved")

            def case(label, setup, teardown, exc):
                for prev in (True, False):
                    if not prev and p.exists():
                        p.unlink()
                    elif prev:
                        p.write_bytes(old)
                    rep.case((label, prev))
                    setup()
                    raised = None
                    try:
                        s.save_state(p)
                    except BaseException as e:
                        raised = e
                    finally:
                        teardown()
                    rep.check(raised is not None, "a failed save did not raise", failure=label, previous=prev)
                    rep.check(read(p) == (old if prev else None), "a failed save changed the checkpoint", failure=label, previous=prev)
            case("object that cannot be pickled", lambda: setattr(s, "zzz_extra", Unp()), lambda: delattr(s, "zzz_extra"), Boom)
            of, od, on = os.fsync, dill.dump, (os.rename, os.replace)

            def bad_fsync(fd):
                raise OSError("no space left on device")
            case("fsync fails", lambda: setattr(os, "fsync", bad_fsync), lambda: setattr(os, "fsync", of), OSError)

            def bad_dump(*a, **k):
                f = k.get("file", a[1] if len(a) > 1 else None)
                f.write(b"partial" * 100)
                f.flush()
                raise OSError("no space left on device")

            def sd():
                dill.dump = bad_dump
            case("disk full while writing", sd, lambda: setattr(dill, "dump", od), OSError)

            def killed(*a, **k):
                f = k.get("file", a[1] if len(a) > 1 else None)
                f.write(b"partial" * 100)
                f.flush()
                raise KeyboardInterrupt

            def sk():
                dill.dump = killed
            case("interrupted while writing", sk, lambda: setattr(dill, "dump", od), KeyboardInterrupt)

            def badmv(*a, **k):
                raise OSError("rename failed")

            def smv():
                os.rename = badmv
                os.replace = badmv

            def rmv():
                os.rename, os.replace = on
            case("rename fails", smv, rmv, OSError)
            p.write_bytes(old)
            s.save_state(p)
            rep.check(complete(read(p), s.t), "saving does not work after a failed save")
            rep.check(not hasattr(s, "zzz_extra") and "pbar" in s.__dict__ and "pool" in s.__dict__ and "distribute" in s.__dict__, "a failed save altered the sampler")
        finally:
            shutil.rmtree(d)

    def crash(rep):
        """kill the process at points of the save; look at what is left"""
        d = scratch()
        try:
            s = build()
            s.run(n_total=32, n_evidence=0, progress=False)
            p = d / "pmc.state"
            s.t -= 1
            s.save_state(p)
            s.t += 1
            old = read(p)
            k = 0
            while True:
                k += 1
                p.write_bytes(old)
                pid = os.fork()
                if pid == 0:
                    n = [0]

                    def tr(frame, ev, arg):
                        if "/pocomc/" in frame.f_code.co_filename:
                            n[0] += 1
                            if n[0] == k:
                                os._exit(7)
                            return tr
                        return None
                    od = dill.dump

                    def nd(*a, **kw):
                        sys.settrace(None)
                        try:
                            return od(*a, **kw)
                        finally:
                            sys.settrace(tr)
                    dill.dump = nd
                    sys.settrace(tr)
                    try:
                        s.save_state(p)
                    finally:
                        os._exit(0)
                _, st = os.waitpid(pid, 0)
                code = os.waitstatus_to_exitcode(st)
                b = read(p)
                rep.case(("crash", k))
                if not rep.check(b == old or (b is not None and complete(b, s.t)), "a crash during saving leaves a damaged checkpoint", crash_point=k, size=None if b is None else len(b)):
                    break
                if code == 0 or k > 80:
                    break
        finally:
            shutil.rmtree(d)

    rep.run("atomic", atomic)
    rep.run("failing", failing)
    rep.run("crash", crash)


def eq(a, b, depth=0, seen=None):
    """Structural equality; returns a path to the first difference or None."""
    if a is b or depth > 6:
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.dtype == object or b_.dtype == object:
            return None if a_.shape == b_.shape and a_.tolist() == b_.tolist() else ""
        try:
            return None if a_.shape == b_.shape and a_.dtype == b_.dtype and np.array_equal(a_, b_, equal_nan=a_.dtype.kind == "f") else ""
        except TypeError:
            return None if np.array_equal(a_, b_) else ""
    if torch.is_tensor(a):
        return None if torch.is_tensor(b) and torch.equal(a, b) else ""
    if isinstance(a, (int, float, str, bool, bytes, type(None), Path, complex, np.generic)):
        return None if (a == b or (a != a and b != b)) and type(a) == type(b) else " %r != %r" % (a, b)
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return " keys"
        for k in a:
            r = eq(a[k], b[k], depth + 1)
            if r is not None:
                return "[%r]%s" % (k, r)
        return None
    if isinstance(a, (list, tuple)):
        if type(a) != type(b) or len(a) != len(b):
            return " length"
        for i, (p, q) in enumerate(zip(a, b)):
            r = eq(p, q, depth + 1)
            if r is not None:
                return "[%d]%s" % (i, r)
        return None
    if isinstance(a, torch.nn.Module):
        return eq(dict(a.state_dict()), dict(b.state_dict()), depth + 1)
    if callable(a) and not hasattr(a, "__dict__"):
        return None
    if type(a).__name__ != type(b).__name__:
        return " type"
    if callable(a):
        return None if getattr(a, "__name__", None) == getattr(b, "__name__", None) else " name"
    if hasattr(a, "__dict__"):
        return eq(a.__dict__, b.__dict__, depth + 1)
    return None


EXC = ("pool", "distribute", "pbar")


class Pool_:
    def map(self, f, x):
        return [f(q) for q in x]


def c21(rep):
    def attrs(rep):
        d = scratch()
        try:
            for cfg in (dict(), dict(precondition=True), dict(like=likeb_, sample="rwm", resample="syst", metric="uss"), dict(pool=Pool_()), dict(dynamic=False, transform="logit", n_steps=3, n_max_steps=5)):
                s = build(**cfg)
                for stage in ("fresh", "run", "again"):
                    if stage == "run":
                        s.run(n_total=48, n_evidence=0 if not cfg.get("precondition") else 32, progress=False)
                    elif stage == "again":
                        s.run(n_total=96, n_evidence=0, progress=False)
                    p = d / "s.state"
                    s.save_state(p)
                    for lp in (None, Pool_()):
                        other = build(seed=11, like=like_, n_effective=20, n_active=10, n_prior=20, pool=lp, metric="ess", sample="tpcn", n_steps=1)
                        keep = {k: other.__dict__.get(k) for k in EXC}
                        other.load_state(p if lp is None else str(p))
                        rep.case((str(cfg), stage, lp is None), dict(config=cfg, stage=stage))
                        for k, v in s.__dict__.items():
                            if k in EXC or k in ("prior", "log_prior", "sample_prior", "log_likelihood"):
                                continue
                            r = eq(v, other.__dict__.get(k, "MISSING"))
                            rep.check(r is None, "attribute %s%s not restored" % (k, r), config=cfg, stage=stage)
                        for k in EXC:
                            rep.check(other.__dict__.get(k) is keep[k], "loading replaced the loading sampler's %s" % k, config=cfg, stage=stage)
                        x = np.array([[.3, .2], [1., -1.]])
                        rep.check(stage == "fresh" or close(other.log_prior(x), s.log_prior(x)) and close(other._log_like(x)[0], s._log_like(x)[0]), "prior or likelihood not restored", config=cfg)
                        with torch.no_grad():
                            a, b = s.flow.log_prob(torch.tensor(x, dtype=torch.float32)), other.flow.log_prob(torch.tensor(x, dtype=torch.float32))
                        rep.check(torch.equal(a, b), "flow not restored", config=cfg, stage=stage)
        finally:
            shutil.rmtree(d)

    def resume(rep):
        for cfg, every in [(dict(), 1), (dict(like=likeb_, resample="syst", sample="rwm"), 1), (dict(precondition=True), 1), (dict(n_prior=80, metric="uss"), 2), (dict(pool=Pool_()), 3)]:
            d = scratch()
            try:
                s = build(output_dir=str(d / "st"), output_label="L", **cfg)
                rng_at = {}
                osave = s.save_state

                def sv(path, *a, **k):
                    rng_at[str(path)] = (np.random.get_state(), torch.get_rng_state(), s.t, len(s.particles.past["x"]), int(s.calls))
                    s.__dict__.pop("save_state", None)
                    try:
                        return osave(path, *a, **k)
                    finally:
                        s.save_state = sv
                s.save_state = sv
                s.run(n_total=80, n_evidence=0, progress=False, save_every=every)
                s.__dict__.pop("save_state", None)
                ref = {k: list(v) for k, v in s.particles.past.items()}
                T = len(ref["x"])
                names = sorted(rng_at, key=lambda q: rng_at[q][2])
                rep.check(len(names) >= 2, "no checkpoints were written", config=cfg)
                nw = s.n_prior // s.n_active
                pick = names if THOROUGH else names[:nw + 1] + names[nw + 1::3] + names[-1:]
                for nm in dict.fromkeys(pick):
                    st, tst, t, nh, calls = rng_at[nm]
                    info = dict(config=cfg, checkpoint=os.path.basename(nm), iterations=nh)
                    rep.case((str(cfg), os.path.basename(nm)), info)
                    rep.check(nh == t, "checkpoint's iteration counter differs from its history", t=t, **info)
                    r = build(seed=77, **cfg)
                    evals = []
                    ol = r.log_likelihood
                    np.random.set_state(st)
                    torch.set_rng_state(tst)
                    r.run(n_total=80, n_evidence=0, progress=False, resume_state_path=nm)
                    h = r.particles.past
                    rep.check(len(h["x"]) == T, "the resumed run has a different number of iterations", got=len(h["x"]), want=T, **info)
                    rep.check(all(np.array_equal(h["x"][q], ref["x"][q]) for q in range(nh)), "history before the checkpoint not restored", **info)
                    rep.check(list(h["iter"]) == list(range(len(h["x"]))), "iteration numbering does not carry on", got=list(h["iter"]), **info)
                    for q in range(min(nw, len(h["x"]))):
                        B = r.prior_samples[q * r.n_active:(q + 1) * r.n_active]
                        if not rep.check(np.array_equal(h["x"][q], B), "a batch of prior samples was recorded twice or skipped", batch=q, **info):
                            break
                    rep.check(sum(1 for b in h["beta"] if b == 0) == sum(1 for b in ref["beta"] if b == 0), "number of warm-up iterations differs", **info)
                    if len(h["x"]) == T:
                        for k in ("u", "x", "logl", "logp", "logdetj", "beta", "logz", "calls", "steps", "ess"):
                            if not rep.check(all(np.array_equal(a, b) for a, b in zip(h[k], ref[k])), "the resumed run does not continue the original one (%s)" % k, **info):
                                break
                    rep.check(int(r.calls) == int(s.calls), "likelihood calls do not carry on", got=r.calls, want=s.calls, **info)
            finally:
                shutil.rmtree(d)

    def counted(rep):
        """evaluations made by a resumed run: no batch evaluated twice"""
        d = scratch()
        try:
            for stop in (1, 2, 3):
                ev = []

                def like(x):
                    ev.append(tuple(np.asarray(x, float)))
                    return like_(x)
                s = Sampler(RP(), like, random_state=5, n_effective=32, n_active=16, n_prior=64, flow="maf3", precondition=False, output_dir=str(d / "c"), output_label="c")
                s.run(n_total=48, n_evidence=0, progress=False, save_every=1)
                p = d / "c" / ("c_%d.state" % stop)
                if not p.exists():
                    raise Missing("checkpoint name")
                r = Sampler(RP(), like, random_state=6, n_effective=32, n_active=16, n_prior=64, flow="maf3", precondition=False)
                r.load_state(p)
                seen = []
                f = r.log_likelihood.f
                r.log_likelihood.f = lambda x: (seen.append(tuple(np.asarray(x, float))), like_(x))[1]
                r2 = r
                c0 = int(r.calls)
                r.save_state(d / "c2.state")
                del seen[:]
                r.run(n_total=48, n_evidence=0, progress=False)
                rep.case(("counted", stop))
                todo = {tuple(q) for q in r.prior_samples[stop * 16:64]}
                done = {tuple(q) for q in r.prior_samples[:stop * 16]}
                rep.check(not (done & set(seen)), "a batch of prior samples was evaluated twice", checkpoint=stop)
                rep.check(todo <= set(seen), "a batch of prior samples was skipped", checkpoint=stop)
                rep.check(int(r.calls) == c0 + len(seen), "calls of the resumed run wrong", got=int(r.calls), want=c0 + len(seen), checkpoint=stop)
        finally:
            shutil.rmtree(d)

    rep.run("attributes", attrs)
    rep.run("resume", resume)
    rep.run("counted", counted)
