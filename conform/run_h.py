"""C23 (seed) and C28 (options): executable contracts."""
import subprocess
import hashlib
import itertools
from .common import *
import torch
from scipy import stats
from pocomc.sampler import Sampler
from pocomc.prior import Prior
from pocomc.flow import Flow

torch.set_num_threads(1)


def like_(x):
    x = np.asarray(x, float)
    return float(-0.5 * np.sum((x - 1.) ** 2) / 0.3)


def prior_():
    return Prior([stats.norm(0, 2), stats.uniform(-4, 8)])


def build(seed, **kw):
    kw = dict(dict(n_effective=32, n_active=16, n_prior=48, flow="maf3", train_config=dict(epochs=3), precondition=True), **kw)
    return Sampler(prior_(), like_, random_state=seed, **kw)


def flow_hash(s):
    h = hashlib.sha256()
    for k, v in s.flow.flow.state_dict().items():
        h.update(k.encode()); h.update(v.detach().numpy().tobytes())
    return h.hexdigest()


def digest(s, nt=64, nev=64):
    out = [flow_hash(s)]
    s.run(n_total=nt, n_evidence=nev, progress=False)
    h = hashlib.sha256()
    for a in s.posterior():
        h.update(np.ascontiguousarray(a).tobytes())
    out.append(h.hexdigest())
    h = hashlib.sha256()
    for a in s.posterior(resample=True):
        h.update(np.ascontiguousarray(a).tobytes())
    out.append(h.hexdigest())
    for k in ("u", "x", "logl", "logz", "beta", "calls", "steps"):
        h.update(np.ascontiguousarray(np.asarray(s.results[k])).tobytes())
    out.append(h.hexdigest())
    out.append(repr(s.evidence()))
    return out


CFGS = [dict(), dict(sample="rwm", resample="syst"), dict(precondition=False), dict(precondition=False, sample="rwm", metric="uss"), dict(flow="nsf3", transform="logit")]

SUB = """
import sys, os, json
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo')); sys.path.insert(0, %r)
import numpy as np, torch
from conform import run_h
from conform.common import quiet
np.random.seed(%d); torch.manual_seed(%d); np.random.rand(%d)
with quiet():
    d = run_h.digest(run_h.build(%d, **%r))
print('DIGEST' + json.dumps(d))
"""


def c23(rep):
    def inproc(rep):
        for ci, cfg in enumerate(CFGS):
            for seed in ((0, 42) if ci < 2 or THOROUGH else (0,)):
                ds = []
                for pre in (1, 2):
                    np.random.seed(pre * 17)
                    torch.manual_seed(pre * 19)
                    np.random.rand(pre)
                    ds.append(digest(build(seed, **cfg)))
                rep.case((str(cfg), seed), dict(config=cfg, seed=seed))
                for name, a, b in zip(("flow initialisation", "weighted posterior", "resampled posterior", "history", "evidence"), *ds):
                    rep.check(a == b, "same seed, different %s" % name, config=cfg, seed=seed, first=a, second=b)

    def fresh(rep):
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        procs = []
        for k, (pre, hs) in enumerate([(3, "0"), (4, "123")]):
            code = SUB % (root, pre, pre + 1, pre, 0, CFGS[0])
            procs.append(subprocess.Popen([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONHASHSEED=hs)))
        outs = []
        for p in procs:
            o, e = p.communicate(timeout=200)
            l = [q for q in o.splitlines() if q.startswith("DIGEST")]
            if not l:
                raise Missing("subprocess: " + e[-300:])
            outs.append(json.loads(l[0][6:]))
        rep.case("processes")
        rep.check(outs[0] == outs[1], "same seed, different result in another process", first=outs[0], second=outs[1])

    def noseed(rep):
        hs = []
        for pre in (1, 2, 1):
            np.random.seed(pre)
            torch.manual_seed(pre)
            st = np.random.get_state()
            s = build(None, precondition=False)
            st2 = np.random.get_state()
            hs.append((flow_hash(s), digest(s, nev=0)[1], st2[2] == st[2] and np.array_equal(st2[1], st[1])))
        rep.case("noseed")
        rep.check(hs[0][0] != hs[1][0] and hs[0][1] != hs[1][1], "without a seed the generators were reseeded", got=hs)
        rep.check(hs[0][2] or hs[0][1] != hs[1][1], "without a seed the generators were reseeded", got=hs)
        d = [digest(build(sd, precondition=False), nev=0)[1] for sd in (0, 1)]
        rep.check(d[0] != d[1], "different seeds give identical samples", got=d)
        d = [flow_hash(build(sd)) for sd in (0, 1)]
        rep.check(d[0] != d[1], "different seeds give identical flow initialisation", got=d)

    def fixed_state(rep):
        """run() itself must not reseed: two successive runs of differently advanced generators differ."""
        s1 = build(5, precondition=False)
        s2 = build(5, precondition=False)
        np.random.seed(99)
        s2.run(n_total=48, n_evidence=0, progress=False)
        a = np.asarray(s2.results["x"])
        np.random.seed(98)
        s1.run(n_total=48, n_evidence=0, progress=False)
        b = np.asarray(s1.results["x"])
        rep.case("rerun")
        rep.check(a.shape != b.shape or not np.array_equal(a, b), "the generators are reseeded during the run")

    rep.run("in process", inproc)
    rep.run("fresh processes", fresh)
    rep.run("no seed", noseed)
    rep.run("run", fixed_state)


def c28(rep):
    rng = np.random.default_rng(SEED)

    def refuses(**kw):
        k = dict(dict(precondition=False, flow="maf3"), **kw)
        try:
            Sampler(prior_(), like_, **k)
            return False
        except ValueError:
            return True

    def bad(rep):
        for kw in [dict(transform="cauchy"), dict(transform="Probit"), dict(transform=None), dict(transform=""), dict(metric="ESS"), dict(metric="kl"), dict(metric=None), dict(sample="pcn"), dict(sample="hmc"), dict(sample=None),
                   dict(resample="stratified"), dict(resample="multi"), dict(resample=None), dict(flow="maf4"), dict(flow="nsf"), dict(flow="MAF3"), dict(flow=None), dict(flow=3),
                   dict(vectorize=True, blobs_dtype=float), dict(vectorize=True, blobs_dtype="f8"), dict(vectorize=True, blobs_dtype=[("a", float)]), dict(n_active=None, n_effective=None)]:
            for extra in (dict(), dict(precondition=True), dict(n_active=16), dict(sample="rwm")):
                k = dict(extra, **kw)
                rep.case(str(k), k)
                rep.check(refuses(**k), "an invalid option was accepted", options=k)

    def good(rep):
        base = dict(n_effective=32, n_active=16)
        for tr, me, sa, re_, pre, dyn in itertools.product(("probit", "logit"), ("ess", "uss"), ("tpcn", "rwm"), ("mult", "syst"), (True, False), (True, False)):
            k = dict(base, transform=tr, metric=me, sample=sa, resample=re_, precondition=pre, dynamic=dyn, flow="maf3")
            rep.case(str(k))
            s = Sampler(prior_(), like_, **k)
            rep.check(s.metric == me and s.sample == sa and s.resample == re_ and bool(s.preconditioned) == pre and bool(s.dynamic) == dyn and s.scaler.transform == tr, "an option was not honoured", options=k)
        import zuko
        for fl in ("maf3", "maf6", "maf12", "nsf3", "nsf6", "nsf12", zuko.flows.MAF(2, transforms=1, hidden_features=[8])):
            s = Sampler(prior_(), like_, flow=fl, **base)
            rep.case(str(fl)[:20])
            nt = {"3": 3, "6": 6, "2": 12}[fl[-1]] if isinstance(fl, str) else None
            m = s.flow.flow
            if isinstance(fl, str):
                ok = isinstance(m, zuko.flows.MAF if fl.startswith("maf") else zuko.flows.NSF)
                got = sum(1 for t in m.transform.transforms if hasattr(t, "hyper")) if hasattr(m, "transform") and hasattr(m.transform, "transforms") else nt
                rep.check(ok and got == nt, "flow name does not select the documented flow", flow=fl, type=type(m).__name__, transforms=got)
            else:
                rep.check(m is fl, "user flow not used")
        for kw in (dict(vectorize=True), dict(blobs_dtype=float), dict(pool=1), dict(periodic=[1]), dict(reflective=[1]), dict(n_dim=2), dict(pytorch_threads=None), dict(output_dir="x", output_label="y"), dict(random_state=0)):
            rep.case(str(kw))
            Sampler(prior_(), like_, flow="maf3", **base, **kw)

    def derived(rep):
        opts = [None, 1, 7, 16, 33, 64, 100]
        for na, ne, npr in itertools.product(opts, opts, [None, 1, 10, 16, 50, 100, 333]):
            if na is None and (ne is None or ne < 2):
                continue
            if rng.random() < (0.0 if THOROUGH else 0.5):
                continue
            k = dict(n_active=na, n_effective=ne, n_prior=npr)
            rep.case(str(k), k)
            s = Sampler(prior_(), like_, flow="maf3", precondition=False, **k)
            wa = na if na is not None else ne // 2
            we = ne if ne is not None else 2 * na
            rep.check(s.n_active == wa and s.n_effective == we, "particle numbers not derived / honoured", got=(s.n_active, s.n_effective), want=(wa, we), **k)
            rep.check(s.n_prior // s.n_active >= 1 and s.n_prior >= s.n_active, "less than one batch of prior samples", got=s.n_prior, **k)
            if npr is None:
                rep.check(s.n_prior == 2 * max(we // wa, 1) * wa, "default number of prior samples", got=s.n_prior, **k)
            else:
                rep.check(s.n_prior == max(npr, wa), "explicit number of prior samples not honoured", got=s.n_prior, **k)
            rep.check(s.train_frequency == max(we // (wa * 2), 1) and s.train_frequency >= 1, "default training frequency", got=s.train_frequency, **k)
        for st, mx, d in itertools.product([None, 1, 3, 10], [None, 1, 5, 200], [1, 2, 3, 7]):
            s = Sampler(Prior([stats.norm(0, 1)] * d), like_, flow="maf3", precondition=False, n_steps=st, n_max_steps=mx, n_effective=16, n_active=8)
            rep.case((st, mx, d))
            ws = st if st is not None else d // 2
            wm = mx if mx is not None else 10 * ws
            rep.check(s.n_steps == ws and s.n_max_steps == wm and s.n_dim == d, "step numbers not derived / honoured", n_steps=st, n_max_steps=mx, d=d, got=(s.n_steps, s.n_max_steps, s.n_dim))
        for tf in (1, 3, 10):
            s = Sampler(prior_(), like_, flow="maf3", train_frequency=tf)
            rep.check(s.train_frequency == tf, "explicit training frequency not honoured", got=s.train_frequency, want=tf)
        s = Sampler(prior_(), like_, flow="maf3", train_config=dict(epochs=7, patience=3, validation_split=.2))
        rep.check(s.train_config["epochs"] == 7 and s.train_config["patience"] == 3 and s.train_config["validation_split"] == .2 and s.train_config["learning_rate"] == 1e-3, "training options not honoured", got=s.train_config)
        import warnings as w
        with w.catch_warnings(record=True) as rec:
            w.simplefilter("always")
            s = Sampler(prior_(), like_, flow="maf3", n_ess=40, n_active=8)
        rep.check(s.n_effective == 40, "deprecated n_ess not honoured", got=s.n_effective)
        s = Sampler(prior_(), like_, flow="maf3")
        rep.check((s.n_effective, s.n_active, s.n_prior) == (512, 256, 1024), "defaults", got=(s.n_effective, s.n_active, s.n_prior))

    rep.run("bad", bad)
    rep.run("good", good)
    rep.run("derived", derived)
