"""C10, C11, C15-C18, C22, C27: the sampler loop (executable contracts)."""
import copy
import itertools
from .common import *
from .tools_h import mixture
from .mcmc_h import CutPrior, ToyFlow
import torch
from scipy import stats
from pocomc.sampler import Sampler
from pocomc.prior import Prior
from pocomc.tools import ProgressBar

torch.set_num_threads(1)


def ess_(w):
    w = np.asarray(w, float)
    return w.sum() ** 2 / np.sum(w ** 2)


def uss_(w, k=None):
    w = np.asarray(w, float) / np.sum(w)
    k = len(w) if k is None else k
    return np.sum(1 - (1 - w) ** k)


def metric_of(name, w):
    return ess_(w) if name == "ess" else uss_(w)


def weights_of(p, beta):
    logl = np.array([np.asarray(v, float) for v in p.past["logl"]])
    lw, lse, lz = mixture(logl, p.past["beta"], p.past["logz"], beta)
    return np.asarray(np.exp(lw - lw.max()), float), float(lz)


class BoxPrior:
    def __init__(self, d=2):
        self.dim = d
        self.bounds = np.tile(np.array([-5., 5.]), (d, 1))

    def logpdf(self, x):
        x = np.asarray(x, float)
        return np.where(np.all(np.abs(x) <= 5, axis=1), -np.log(10.) * self.dim, -np.inf)

    def rvs(self, size=1):
        return np.random.uniform(-5, 5, (size, self.dim))


class IdFlow:
    """Identity flow: data space = latent space (standard normal base)."""

    def __init__(self, d):
        self.n_dim = d
        self.fits = []

    def fit(self, x, **kw):
        self.fits.append((x.clone(), {k: (v.clone() if torch.is_tensor(v) else v) for k, v in kw.items()}))
        return dict(loss=[0.0], val_loss=[])

    def forward(self, x):
        return x.clone(), torch.zeros(len(x))

    def inverse(self, x):
        return x.clone(), torch.zeros(len(x))

    def log_prob(self, x):
        return torch.sum(-0.5 * x ** 2 - 0.5 * np.log(2 * np.pi), dim=1)

    def sample(self, size=1):
        x = torch.tensor(np.random.normal(size=(size, self.n_dim)), dtype=torch.float32)
        return x, self.log_prob(x)


def like0(x):
    x = np.asarray(x, float)
    return float(-0.5 * np.sum((x - 1.) ** 2) / 0.3)


def sampler(like=like0, d=2, prior=None, **kw):
    kw = dict(dict(n_effective=32, n_active=16, n_prior=48, precondition=False, flow="maf3", train_config=dict(epochs=2), random_state=SEED), **kw)
    return Sampler(prior if prior is not None else BoxPrior(d), like, **kw)


def fill(s, rng, T, n, d, blobs=None, sl=4.0, last=None, ident=True):
    """A synthetic history whose arrays encode the particle they belong to."""
    betas = np.sort(np.concatenate([[0.0], rng.uniform(0, 0.6, max(T - 1, 0))]))[:T]
    if last is not None and T:
        betas[-1] = last
    for t in range(T):
        pid = np.arange(n) + 1000. * (t + 1)
        logl = rng.normal(0, sl, n)
        data = dict(u=np.stack([pid + 0.1 * (k + 1) for k in range(d)], 1), x=np.stack([pid * 2 + 0.1 * (k + 1) for k in range(d)], 1), logdetj=pid * 3., logl=logl, logp=-pid,
                    logw=np.zeros(n), iter=t, logz=float(rng.normal(0, .3)) if t else 0.0, calls=n * (t + 1), steps=1, efficiency=1., ess=float(n), accept=1., beta=float(betas[t]), blobs=None)
        if blobs == "f":
            data["blobs"] = pid * 5.
        elif blobs == "f2":
            data["blobs"] = np.stack([pid * 5., pid * 6.], 1)
        elif blobs == "o":
            data["blobs"] = np.array(["b%d" % int(q) for q in pid], dtype=object)
        s.particles.update(data)
    s.have_blobs = blobs is not None
    s.t = T
    s.pbar = ProgressBar(False)
    s.pbar.info = dict(calls=0)
    s.current_particles = {k: v[-1] for k, v in s.particles.past.items()}
    return s


def pid_checks(rep, cp, blobs, info, logl_of, tag):
    x = np.asarray(cp["x"])
    if not rep.check(x.ndim == 2, tag + ": not an array of particles", x=x, **info):
        return False, np.zeros(0)
    pid = np.round((x[:, 0] - 0.1) / 2)
    d = x.shape[1]
    ok = rep.check(close(x, np.stack([pid * 2 + 0.1 * (k + 1) for k in range(d)], 1)), tag + ": x rows mixed", x=x, **info)
    ok &= rep.check(close(cp["u"], np.stack([pid + 0.1 * (k + 1) for k in range(d)], 1)), tag + ": u belongs to other particles than x", x=x, u=cp["u"], **info)
    ok &= rep.check(close(cp["logdetj"], pid * 3), tag + ": log-Jacobian belongs to other particles", got=cp["logdetj"], want=pid * 3, **info)
    ok &= rep.check(close(cp["logp"], -pid), tag + ": log-prior belongs to other particles", got=cp["logp"], want=-pid, **info)
    ok &= rep.check(close(cp["logl"], [logl_of[int(q)] for q in pid]), tag + ": log-likelihood belongs to other particles", got=cp["logl"], **info)
    if blobs == "f":
        ok &= rep.check(close(cp["blobs"], pid * 5), tag + ": blobs belong to other particles", got=cp["blobs"], want=pid * 5, **info)
    elif blobs == "f2":
        ok &= rep.check(close(cp["blobs"], np.stack([pid * 5, pid * 6], 1)), tag + ": blobs belong to other particles", got=cp["blobs"], **info)
    elif blobs == "o":
        ok &= rep.check(list(cp["blobs"]) == ["b%d" % int(q) for q in pid], tag + ": blobs belong to other particles", got=cp["blobs"], **info)
    return ok, pid


def snapshot(p):
    return {k: [np.copy(v) if isinstance(v, np.ndarray) else v for v in vs] for k, vs in p.past.items()}


def same_history(a, b, upto=None):
    for k in a:
        n = len(a[k]) if upto is None else upto
        if upto is None and len(a[k]) != len(b[k]):
            return k
        for t in range(n):
            p, q = a[k][t], b[k][t]
            if (p is None) != (q is None):
                return k
            if p is not None and not (np.array_equal(p, q) if not (isinstance(p, float) and p != p) else q != q):
                return k
    return None


# ----------------------------------------------------------------------------------------------- C10
def c10(rep):
    rng = np.random.default_rng(SEED)

    def beta_ok(rep, hist, beta_prev, neff, metric, got, info, logz_prev):
        info = {('kind' if k == 'metric' else k): v for k, v in info.items()}
        """hist: particles object before the iteration; got: dict of the iteration."""
        beta, logz, ess = float(got["beta"]), float(got["logz"]), float(got["ess"])
        if not rep.check(beta_prev <= beta <= 1.0, "inverse temperature not monotone in [0,1]", beta=beta, previous=beta_prev, **info):
            return
        w, lz = weights_of(hist, beta)
        m = metric_of(metric, w)
        rep.check(abs(ess - m) <= 1e-6 * m, "recorded sample size is not the metric at the recorded temperature", recorded=ess, metric=m, beta=beta, **info)
        mp = metric_of(metric, weights_of(hist, beta_prev)[0])
        m1 = metric_of(metric, weights_of(hist, 1.0)[0])
        e = 1e-9 * neff
        if mp <= neff - e:
            rep.check(beta == beta_prev, "temperature moved although the metric at the previous one does not exceed the target", beta=beta, previous=beta_prev, metric=mp, target=neff, **info)
            rep.check(logz == logz_prev, "evidence changed although the temperature did not", got=logz, previous=logz_prev, **info)
        elif mp > neff + e:
            rep.check(abs(logz - lz) <= 1e-8 * (1 + abs(lz)), "recorded evidence is not that of the recorded temperature", recorded=logz, at_beta=lz, beta=beta, **info)
            if m1 >= neff + e:
                rep.check(beta == 1.0, "temperature did not jump to one although the metric there meets the target", beta=beta, metric=m1, target=neff, **info)
            elif m1 < neff - e:
                rep.check(abs(m - neff) <= 0.01 * neff * (1 + 1e-9), "metric at the chosen temperature is not within 1% of the target", beta=beta, metric=m, target=neff, **info)

    def direct(rep):
        for t in range(120 if THOROUGH else 60):
            metric = ["ess", "uss"][t % 2]
            dyn = bool((t // 2) % 2)
            T, n = int(rng.integers(2, 6)), int(rng.choice([16, 24, 40]))
            neff = int(rng.integers(8, max(9, int(T * n * rng.choice([.3, .6, .95, 1.3])))))
            s = sampler(n_active=n, n_effective=neff, metric=metric, dynamic=dyn)
            rw = seam(s, "_reweight")
            fill(s, rng, T, n, 2, sl=float(rng.choice([.05, .4, 3., 30., 300., 1e5, 1e8])), last=float(rng.choice([0., .02, .3, .999, 1.0])) if t % 3 == 0 else None)
            hist, snap = s.particles, snapshot(s.particles)
            n0 = s.n_effective
            bp, zp = hist.past["beta"][-1], hist.past["logz"][-1]
            info = dict(metric=metric, dynamic=dyn, n_effective=n0, T=T, n=n, logl=np.array(hist.past["logl"]), beta_t=hist.past["beta"], logz_t=hist.past["logz"])
            rep.case((t,), dict(metric=metric, dynamic=dyn, n_effective=n0, T=T, n=n))
            got = rw(dict(s.current_particles))
            rep.check(same_history(snap, hist.past) is None, "choosing the temperature changed the history", **info)
            beta_ok(rep, hist, bp, n0, metric, got, info, zp)
            if not dyn:
                rep.check(s.n_effective == n0, "target changed with dynamic allocation off", got=s.n_effective, **info)
            else:
                rep.check(isinstance(s.n_effective, (int, np.integer)) and s.n_effective > 0, "target not a positive whole number", got=s.n_effective, **info)

    def whole(rep):
        for cfg in [dict(metric="ess", dynamic=False), dict(metric="uss", dynamic=False), dict(metric="ess", dynamic=False, sample="rwm"), dict(metric="ess", dynamic=True, n_effective=64)]:
            s = sampler(**cfg)
            s.run(n_total=128, n_evidence=0, progress=False)
            rep.case(str(cfg))
            betas = np.asarray(s.results["beta"])
            rep.check(np.all(np.diff(betas) >= 0) and betas[0] == 0 and betas[-1] <= 1, "temperatures not monotone in [0,1]", beta=betas, config=cfg)
            if not cfg["dynamic"]:
                rep.check(s.n_effective == 32, "target changed with dynamic allocation off", got=s.n_effective, config=cfg)
                p = copy.copy(s.particles)
                nw = 3
                for t in range(nw, len(betas)):
                    q = copy.copy(s.particles)
                    q.past = {k: v[:t] for k, v in s.particles.past.items()}
                    it = {k: s.particles.past[k][t] for k in ("beta", "logz", "ess")}
                    beta_ok(rep, q, float(betas[t - 1]), 32, cfg["metric"], it, dict(config=cfg, iteration=t, logl=np.array(q.past["logl"]), betas=betas[:t]), float(q.past["logz"][-1]))

    rep.run("direct", direct)
    rep.run("run", whole)


# ----------------------------------------------------------------------------------------------- C11
def c11(rep):
    rng = np.random.default_rng(SEED)

    def stops(rep):
        for cfg in [dict(metric="ess"), dict(metric="uss"), dict(metric="ess", sample="rwm", resample="syst", dynamic=False), dict(metric="uss", dynamic=False),
                    dict(metric="ess", precondition=True), dict(metric="ess", prior=Prior([stats.norm(1, .5), stats.norm(1, .5)]))]:
            for nt in (40, 160):
                for nev in (0, 64):
                    s = sampler(**cfg)
                    if cfg.get("precondition"):
                        s.flow = IdFlow(2)
                    calls = []
                    for nm in ("_reweight", "_resample", "_mutate", "_compute_evidence"):
                        if hasattr(s, nm):
                            def w(*a, _f=getattr(s, nm), _n=nm, **k):
                                calls.append(_n)
                                return _f(*a, **k)
                            setattr(s, nm, w)
                    ou = s.particles.update
                    s.particles.update = lambda data, ou=ou: (calls.append("record"), ou(data))[1]
                    s.run(n_total=nt, n_evidence=nev, progress=False)
                    info = dict(config=cfg, n_total=nt, n_evidence=nev)
                    rep.case(str(info), info)
                    p = s.particles
                    rep.check(1 - p.past["beta"][-1] < 1e-4, "run returned before the posterior", beta=p.past["beta"][-1], **info)
                    w, lz = weights_of(p, 1.0)
                    m = metric_of(s.metric, w)
                    rep.check(m >= nt * (1 - 1e-9), "run returned with fewer effective samples than requested", metric=m, **info)
                    z, ze = s.evidence()
                    if nev and cfg.get("precondition"):
                        rep.check(ze is not None and np.isfinite(z) and np.isfinite(ze), "no importance-sampling evidence although requested", got=(z, ze), **info)
                        rep.check("_compute_evidence" in calls or not hasattr(Sampler, "_compute_evidence"), "no importance-sampling evidence although requested", **info)
                    else:
                        rep.check(ze is None and abs(z - lz) < 1e-8 * (1 + abs(lz)), "evidence is not that of the collected samples", got=(z, ze), want=lz, **info)
                    it = [c for c in calls if c != "_compute_evidence"]
                    seq = [c for c in it if c != "record"]
                    if all(hasattr(Sampler, nm) for nm in ("_reweight", "_resample", "_mutate")):
                        nw = it.index("_reweight") if "_reweight" in it else len(it)
                        body = it[nw:]
                        rep.check(body == ["_reweight", "_resample", "_mutate", "record"] * (len(body) // 4), "iterations are not reweight, resample, move, record", order=body[:12], **info)
                    # continuing asks for more
                    if nt == 40:
                        s.run(n_total=120, n_evidence=0, progress=False)
                        w, lz = weights_of(p, 1.0)
                        rep.check(metric_of(s.metric, w) >= 120 * (1 - 1e-9) and 1 - p.past["beta"][-1] < 1e-4, "continued run returned too early", metric=metric_of(s.metric, w), **info)
                        z, ze = s.evidence()
                        rep.check(ze is None and abs(z - lz) < 1e-8 * (1 + abs(lz)), "evidence of a continued run is stale", got=(z, ze), want=lz, **info)

    def decision(rep):
        for t in range(60):
            metric = ["ess", "uss"][t % 2]
            T, n = int(rng.integers(1, 6)), 16
            s = sampler(metric=metric)
            f = seam(s, "_not_termination")
            fill(s, rng, T, n, 2, sl=float(rng.choice([.05, 1., 10.])), last=float(rng.choice([1.0, 1.0, 1 - 5e-5, 1 - 2e-4, .9, 0.0])))
            w, _ = weights_of(s.particles, 1.0)
            m = metric_of(metric, w)
            for tot in (1, m * .9, m * 1.1, T * n + 5):
                s.n_total = tot
                b = s.particles.past["beta"][-1]
                want = not (1 - b < 1e-4 and m >= tot)
                rep.case(("dec", t, tot > m))
                got = bool(f(s.current_particles))
                rep.check(got == want, "decision to continue is wrong", beta=b, metric=m, n_total=tot, kind=metric, got=got, want=want)

    rep.run("runs", stops)
    rep.run("decision", decision)


# ----------------------------------------------------------------------------------------------- C15
def c15(rep):
    rng = np.random.default_rng(SEED)

    def whole(rep):
        for t in range(60 if THOROUGH else 30):
            blobs = [None, "f", "f2", "o"][t % 4]
            res = ["mult", "syst"][(t // 4) % 2]
            metric = ["ess", "uss"][(t // 3) % 2]
            n, T, d = 16, int(rng.integers(1, 6)), int(rng.integers(1, 4))
            nact = int(rng.choice([8, 16, 33]))
            if t % 5 == 4:  # active size derived from the effective one
                s = sampler(d=d, n_active=None, n_effective=2 * nact, resample=res, metric=metric)
            else:
                s = sampler(d=d, n_active=nact, n_effective=int(rng.choice([10, 30, 70])), resample=res, metric=metric)
            fill(s, rng, T, n, d, blobs=blobs, sl=float(rng.choice([.1, 2., 15.])))
            rw, rs = seam(s, "_reweight"), seam(s, "_resample")
            logl_of = {1000 * (tt + 1) + i: s.particles.past["logl"][tt][i] for tt in range(T) for i in range(n)}
            snap = snapshot(s.particles)
            info = dict(blobs=blobs, resample=res, metric=metric, T=T, d=d, n_active=nact, trial=t)
            rep.case(str(info), info)
            np.random.seed(SEED + t)
            cp = rw(dict(s.current_particles))
            ok, pid = pid_checks(rep, cp, blobs, info, logl_of, "reweighting")
            w = np.asarray(cp["weights"])
            full, _ = weights_of(s.particles, float(cp["beta"]))
            flat = {1000 * (tt + 1) + i: full[tt * n + i] for tt in range(T) for i in range(n)}
            if ok and rep.check(w.shape == (len(pid),) and len(set(pid)) == len(pid), "one weight per selected particle", **info):
                ww = np.array([flat[int(q)] for q in pid])
                rep.check(close(w, ww / ww.sum(), 1e-8, 1e-12), "a weight is not that of its particle", got=w, want=ww / ww.sum(), **info)
                rep.check(ess_(w) >= .99 * ess_(full) * (1 - 1e-9), "selected particles lose more than 1% of the effective sample size", **info)
            pre = {k: (np.copy(v) if isinstance(v, np.ndarray) else v) for k, v in cp.items()}
            out = rs(dict(cp))
            ok, pid2 = pid_checks(rep, out, blobs, info, logl_of, "resampling")
            rep.check(len(pid2) == nact, "number of active particles is not the configured one", got=len(pid2), **info)
            if ok:
                rep.check(set(pid2) <= set(pid), "resampled particle was not selected", **info)
                wd = dict(zip(pid.tolist(), pre["weights"]))
                rep.check(all(wd[q] > 0 for q in pid2.tolist()), "a particle of weight zero was drawn", **info)
                if res == "syst":
                    cnt = {q: int(np.sum(pid2 == q)) for q in pid.tolist()}
                    rep.check(all(np.floor(nact * wd[q] - 1e-6) <= c <= np.ceil(nact * wd[q] + 1e-6) for q, c in cnt.items()), "systematic counts wrong", **info)
            rep.check(same_history(snap, s.particles.past) is None, "stored history was altered (%s)" % same_history(snap, s.particles.past), **info)
            for k in ("x", "u", "logl", "logp", "logdetj"):
                out[k] += 1.0
            rep.check(same_history(snap, s.particles.past) is None, "resampled particles alias the stored history", **info)

    def proportional(rep):
        for res in ("mult", "syst"):
            s = sampler(n_active=40000 if res == "mult" else 7, resample=res)
            n = 12
            fill(s, rng, 1, n, 2, sl=1.0)
            rs = seam(s, "_resample")
            w = rng.random(n) ** 2
            w /= w.sum()
            cp0 = {k: s.particles.past[k][0] for k in ("u", "x", "logl", "logp", "logdetj", "blobs")}
            cnt = np.zeros(n)
            np.random.seed(SEED)
            N = 1 if res == "mult" else 3000
            for _ in range(N):
                out = rs(dict(cp0, weights=w.copy(), beta=.5))
                cnt += np.bincount((np.round((out["x"][:, 0] - .1) / 2) - 1000).astype(int), minlength=n)
            rep.case(res)
            f = cnt / cnt.sum()
            z = (f - w) / np.sqrt(w * (1 - w) / (cnt.sum()))
            rep.check(np.all(np.abs(z) < 6.5), "particles are not drawn in proportion to their weights", scheme=res, got=f, weights=w)

    rep.run("whole", whole)
    rep.run("proportional", proportional)


# ----------------------------------------------------------------------------------------------- C16
def c16(rep):
    rng = np.random.default_rng(SEED)

    def options(rep):
        for t in range(2 if not THOROUGH else 8):
            for blobs in (None, "f", "f2", "o"):
                for res in ("mult", "syst"):
                    for trim in (True, False):
                        for resample in (True, False):
                            for lw in (True, False):
                                for rb in (True, False):
                                    for et, bt in ((None, None), (0.5, 20), (1.0, 100)):
                                        one(rep, t, blobs, res, trim, resample, lw, rb, et, bt)

    def one(rep, t, blobs, res, trim, resample, lw, rb, et, bt):
        n, T, d = 12, int(rng.integers(1, 5)), 2
        s = cache.get((blobs, res, t))
        if s is None:
            s = sampler(resample=res)
            fill(s, rng, T, n, d, blobs=blobs, sl=float([.3, 3., 10.][t % 3]))
            cache[(blobs, res, t)] = s
        T = len(s.particles.past["x"])
        kw = dict(resample=resample, return_blobs=rb, trim_importance_weights=trim, return_logw=lw)
        if et is not None:
            kw.update(ess_trim=et, bins_trim=bt)
        info = dict(blobs=blobs, scheme=res, options=kw, trial=t)
        rep.case(str(info), info)
        if rb and blobs is None:
            try:
                s.posterior(**kw)
                rep.fail("blobs requested but none exist: no ValueError", **info)
            except ValueError:
                pass
            return
        snap = snapshot(s.particles)
        attrs = {k: copy.deepcopy(v) for k, v in s.__dict__.items() if isinstance(v, (int, float, str, bool, type(None)))}
        np.random.seed(SEED)
        out = s.posterior(**kw)
        rep.check(same_history(snap, s.particles.past) is None, "posterior() changed the stored history", **info)
        rep.check(all(s.__dict__[k] == v or (v != v) for k, v in attrs.items()), "posterior() changed the sampler", **info)
        exp_len = (3 if resample else 4) + (1 if rb else 0)
        if not rep.check(len(out) == exp_len, "wrong number of arrays", got=len(out), **info):
            return
        L = {len(o) for o in out}
        if not rep.check(len(L) == 1, "arrays of different length", lengths=[len(o) for o in out], **info):
            return
        x = np.asarray(out[0])
        pid = np.round((x[:, 0] - 0.1) / 2)
        ll, lp = (out[1], out[2]) if resample else (out[2], out[3])
        logl_of = {1000 * (tt + 1) + i: s.particles.past["logl"][tt][i] for tt in range(T) for i in range(n)}
        rep.check(close(x, np.stack([pid * 2 + .1, pid * 2 + .2], 1)), "sample rows mixed", **info)
        rep.check(close(ll, [logl_of.get(int(q), np.nan) for q in pid]), "log-likelihood belongs to another particle", **info)
        rep.check(close(lp, -pid), "log-prior belongs to another particle", **info)
        if rb:
            b = out[-1]
            ok = {"f": lambda: close(b, pid * 5), "f2": lambda: close(b, np.stack([pid * 5, pid * 6], 1)), "o": lambda: list(b) == ["b%d" % int(q) for q in pid]}[blobs]()
            rep.check(ok, "blobs belong to another particle", **info)
        full, _ = weights_of(s.particles, 1.0)
        full = full / full.sum()
        flat = {1000 * (tt + 1) + i: full[tt * n + i] for tt in range(T) for i in range(n)}
        mine = np.array([flat[int(q)] for q in pid])
        if not resample:
            if lw:
                dlt = np.asarray(out[1]) - np.log(mine)
                rep.check(np.ptp(dlt) < 1e-8, "log-weights are not those of their particles up to a constant", got=out[1], want=np.log(mine), **info)
            else:
                w = np.asarray(out[1])
                rep.check(np.all(w >= 0) and abs(w.sum() - 1) < 1e-9, "weights not normalised", sum=w.sum(), **info)
                rep.check(close(w, mine / mine.sum(), 1e-8, 1e-12), "weights are not the posterior weights of their particles", got=w, want=mine / mine.sum(), **info)
            if not trim:
                rep.check(len(x) == T * n and np.array_equal(np.sort(pid), np.sort(np.array(list(flat), float))), "untrimmed posterior drops particles", **info)
            else:
                rep.check(ess_(mine) >= (et or .99) * ess_(full) * (1 - 1e-9), "trimming lost too much effective sample size", **info)
        else:
            rep.check(np.all(mine > 0), "a particle of weight zero was drawn", **info)

    cache = {}

    def proportional(rep):
        for res in ("mult", "syst"):
            for trim in (True, False):
                s = sampler(resample=res)
                n = 40
                fill(s, rng, 3, n, 2, sl=1.5)
                full, _ = weights_of(s.particles, 1.0)
                full /= full.sum()
                x0, w0, *_ = s.posterior(trim_importance_weights=trim)
                ids = {int(np.round((v - .1) / 2)): i for i, v in enumerate(x0[:, 0])}
                cnt = np.zeros(len(w0))
                np.random.seed(SEED + 5)
                for _ in range(120):
                    x = s.posterior(resample=True, trim_importance_weights=trim)[0]
                    for q in np.round((x[:, 0] - .1) / 2).astype(int):
                        if q not in ids:
                            rep.fail("resampled a particle that was trimmed", scheme=res)
                            return
                        cnt[ids[q]] += 1
                rep.case((res, trim))
                N = cnt.sum()
                z = (cnt / N - w0) / np.sqrt(np.maximum(w0 * (1 - w0), 1e-12) / N)
                rep.check(np.all(np.abs(z[w0 > 1e-5]) < 7), "resampled output is not drawn in proportion to the weights", scheme=res, trim=trim)

    rep.run("options", options)
    rep.run("proportional", proportional)


# ----------------------------------------------------------------------------------------------- C17
class RecFlow(IdFlow):
    def __init__(self, d, sc=1.0):
        super().__init__(d)
        self.draws = []
        self.sc = sc

    def sample(self, size=1):
        x = torch.tensor(np.random.normal(size=(size, self.n_dim)) * self.sc, dtype=torch.float32)
        lq = torch.sum(-0.5 * (x / self.sc) ** 2 - 0.5 * np.log(2 * np.pi) - np.log(self.sc), dim=1)
        self.draws.append((x.numpy().copy().astype(float), lq.numpy().copy().astype(float)))
        return x, lq


def c17(rep):
    rng = np.random.default_rng(SEED)

    def est(rep):
        for t in range(10):
            for kind in ("cut", "box", "scipy"):
                d = 2
                prior = {"cut": CutPrior(d), "box": BoxPrior(d), "scipy": Prior([stats.norm(0, 1), stats.expon(0, 2)])}[kind]
                n = [300, 1500, 40][t % 3]
                vec = t % 2 == 0
                evals = []

                def ll(x):
                    return -3.0 * np.sum((np.asarray(x, float) - .4) ** 2, axis=-1) + [0., 500., -2000.][t % 3]

                def like(x):
                    evals.append(np.atleast_2d(np.asarray(x, float)))
                    return ll(x) if vec else float(ll(x))
                s = sampler(like, prior=prior, precondition=True, vectorize=vec)
                s.flow = RecFlow(d, 1.2)
                s.pbar = ProgressBar(False)
                s.scaler.fit(prior.rvs(400))
                f = seam(s, "_compute_evidence")
                s.calls = 11
                np.random.seed(SEED + t)
                ret = f(n)
                info = dict(prior=kind, n=n, vectorize=vec, trial=t)
                rep.case(str(info), info)
                u, lq = s.flow.draws[-1]
                if not rep.check(len(u) == n, "number of flow draws", got=len(u), **info):
                    return
                x, ld = s.scaler.inverse(u.astype(np.float32))
                lp = prior.logpdf(x)
                lw = np.where(np.isfinite(lp), ll(x) + np.where(np.isfinite(lp), lp, 0) + ld - lq, -np.inf)
                want = logsumexp(lw) - np.log(n)
                z, ze = s.evidence()
                rep.check(abs(z - want) < 1e-3 + 1e-6 * abs(want), "evidence is not the mean over all flow draws of L*prior*Jacobian/q", got=z, want=float(want), outside=int(np.sum(~np.isfinite(lp))), **info)
                m = lw.max()
                w = np.exp(lw - m)
                B = np.array([np.log(np.mean(w[rng.integers(0, n, n)])) for _ in range(3000)])
                rep.check(abs(ze - B.std()) < 0.25 * B.std() + 1e-9, "reported error is not the bootstrap standard deviation of the estimator", got=ze, want=B.std(), **info)
                rep.check(ret is None or (ret[0] == z and ret[1] == ze), "evidence() does not return the computed values", got=(z, ze), ret=ret, **info)
                E = np.concatenate(evals) if evals else np.empty((0, d))
                rep.check(np.all(np.isfinite(prior.logpdf(E))) and len(E) == np.sum(np.isfinite(lp)), "likelihood evaluated outside the support or points left out", evaluated=len(E), inside=int(np.sum(np.isfinite(lp))), **info)
                rep.check(int(s.calls) == 11 + len(E), "evidence calls not counted", got=s.calls, want=11 + len(E), **info)

    def run(rep):
        for kind in ("cut", "box"):
            prior = CutPrior(2) if kind == "cut" else BoxPrior(2)
            s = sampler(lambda x: float(-3. * np.sum((np.asarray(x) - .4) ** 2)), prior=prior, precondition=True)
            s.flow = RecFlow(2, 1.3)
            s.run(n_total=64, n_evidence=400, progress=False)
            u, lq = s.flow.draws[-1]
            x, ld = s.scaler.inverse(u.astype(np.float32))
            lp = prior.logpdf(x)
            lw = np.where(np.isfinite(lp), -3. * np.sum((x - .4) ** 2, axis=1) + np.where(np.isfinite(lp), lp, 0) + ld - lq, -np.inf)
            rep.case(("run", kind))
            rep.check(len(u) == 400, "number of evidence draws is not the requested one", got=len(u))
            want = logsumexp(lw) - np.log(400)
            rep.check(abs(s.evidence()[0] - want) < 1e-3 + 1e-6 * abs(want), "evidence after run is not the importance-sampling estimate", got=s.evidence(), want=float(want), prior=kind)

    rep.run("estimate", est)
    rep.run("run", run)


# ----------------------------------------------------------------------------------------------- C18
class OrderPool:
    """Pools whose map preserves order but evaluates in a different one."""

    def __init__(self, mode):
        self.mode = mode

    def map(self, f, xs):
        xs = list(xs)
        if self.mode == "rev":
            return [f(x) for x in xs[::-1]][::-1]
        if self.mode == "gen":
            return (f(x) for x in xs)
        if self.mode == "tuple":
            return tuple(f(x) for x in xs)
        return list(map(f, xs))


def c18(rep):
    rng = np.random.default_rng(SEED)

    def blob_cases():
        yield None, lambda x: (), None
        yield "f", lambda x: (x[0] * 2 + .5,), None
        yield "f_dt", lambda x: (x[0] * 2 + .5,), float
        yield "f3", lambda x: (x[0], x[1] * 3, -x[0]), None
        yield "arr", lambda x: (np.array([x[0], x[1], 7.0]),), None
        yield "int", lambda x: (int(np.floor(x[0] * 100)),), None
        yield "str", lambda x: ("s%.6f" % x[0],), None
        yield "bytes", lambda x: (b"a" * (1 + int(abs(x[0]) * 10) % 9),), None
        yield "strs", lambda x: ("a" * (1 + int(abs(x[0]) * 10) % 9), "tail%d" % int(x[1] * 10)), None
        yield "struct", lambda x: (x[0] * 2, int(np.floor(x[1] * 10))), [("a", float), ("b", int)]
        yield "struct1", lambda x: (x[0] * 2, "lab%d" % int(np.floor(x[1] * 10))), [("a", float), ("b", "U32")]
        yield "mixed_o", lambda x: ("w%.3f" % x[0], x[1]), object

    def base(x, a=0.0, b=1.0, *, c=0.0):
        return float(-np.sum((np.asarray(x, float) - a) ** 2) * b + c)

    def expected(kind, f, x):
        return [f(q) for q in x]

    def same_blob(kind, got, want):
        if kind in ("f", "f_dt"):
            return close(got, [w[0] for w in want], 1e-12)
        if kind == "int":
            return list(np.asarray(got).ravel()) == [w[0] for w in want]
        if kind in ("f3",):
            return close(got, np.array(want), 1e-12)
        if kind == "arr":
            return close(np.asarray(got).reshape(len(want), -1), np.array([w[0] for w in want]), 1e-12)
        if kind == "str":
            return [str(v) for v in got] == [w[0] for w in want]
        if kind == "bytes":
            return [bytes(v) for v in got] == [w[0] for w in want]
        if kind == "strs":
            return [tuple(str(q) for q in v) for v in got] == [tuple(w) for w in want]
        if kind in ("struct", "struct1"):
            g = np.asarray(got).reshape(len(want))
            return [(float(v["a"]), v["b"].item() if hasattr(v["b"], "item") else v["b"]) for v in g] == [(float(w[0]), w[1]) for w in want]
        if kind == "mixed_o":
            return [tuple(v) for v in got] == [tuple(w) for w in want]
        return got is None

    ARGS = [(None, None, dict(a=0., b=1., c=0.)), ([0.3], None, dict(a=.3, b=1., c=0.)), ([.3, 2.], dict(c=5.), dict(a=.3, b=2., c=5.)), ((.1,), dict(b=3.), dict(a=.1, b=3., c=0.)), (None, dict(a=.7), dict(a=.7, b=1., c=0.)), ([], {}, dict(a=0., b=1., c=0.))]

    def routes(rep):
        for kind, bf, dt in blob_cases():
            for pool in (None, 1, OrderPool("list"), OrderPool("rev"), OrderPool("gen"), OrderPool("tuple")):
                for args, kwargs, eff in (ARGS if kind in (None, "f") else ARGS[:3:2]):
                    seen = []

                    def like(x, *a, **k):
                        seen.append(np.array(x, float).tolist())
                        v = base(x, *a, **k)
                        return (v,) + tuple(bf(np.asarray(x, float))) if kind is not None else v
                    s = sampler(like, likelihood_args=args, likelihood_kwargs=kwargs, pool=pool, blobs_dtype=dt)
                    f = seam(s, "_log_like")
                    for n in (1, 2, 3, 7):
                        x = rng.normal(size=(n, 2))
                        keep = x.copy()
                        seen.clear()
                        info = dict(blobs=kind, pool=getattr(pool, "mode", pool), args=args, kwargs=kwargs, n=n)
                        rep.case(str(info), info)
                        logl, bl = f(x)
                        want = [base(q, **eff) for q in keep]
                        rep.check(close(logl, want, 1e-12, 1e-12) and np.shape(logl) == (n,), "log-likelihoods are not those of the points in order", got=logl, want=want, **info)
                        rep.check(sorted(map(str, seen)) == sorted(str(q.tolist()) for q in keep), "not every point was evaluated exactly once", evaluated=len(seen), **info)
                        rep.check(np.array_equal(x, keep), "points modified", **info)
                        rep.check(same_blob(kind, bl, expected(kind, bf, keep)), "blobs are not those of the points", got=bl, want=expected(kind, bf, keep)[:3], **info)
                        if kind is not None:
                            rep.check(s.have_blobs, "blobs not noticed", **info)
        # vectorised
        for args, kwargs, eff in ARGS:
            cnt = []

            def like(x, a=0.0, b=1.0, *, c=0.0):
                cnt.append(len(x))
                return -np.sum((x - a) ** 2, axis=1) * b + c
            s = sampler(like, likelihood_args=args, likelihood_kwargs=kwargs, vectorize=True)
            x = rng.normal(size=(6, 2))
            logl, bl = s._log_like(x)
            rep.case(("vec", str(args), str(kwargs)))
            rep.check(close(logl, [base(q, **eff) for q in x], 1e-12, 1e-12) and bl is None and sum(cnt) == 6, "vectorised evaluation differs", got=logl, args=args, kwargs=kwargs)

    def caller_args(rep):
        a, k = [0.3], dict(c=1.0)
        s = sampler(base, likelihood_args=a, likelihood_kwargs=k)
        s._log_like(rng.normal(size=(3, 2)))
        rep.case("callerargs")
        rep.check(a == [.3] and k == dict(c=1.0), "caller's argument containers modified", args=a, kwargs=k)

    def runs(rep):
        ref = None
        for mode in ("serial", "pool", "vec"):
            def like(x):
                return float(-0.5 * np.sum((np.asarray(x) - 1) ** 2) / .3)

            def likev(x):
                return np.array([like(q) for q in x])
            s = sampler(likev if mode == "vec" else like, vectorize=mode == "vec", pool=OrderPool("rev") if mode == "pool" else None)
            s.run(n_total=64, n_evidence=0, progress=False)
            out = s.posterior()
            rep.case(("run", mode))
            if ref is None:
                ref = out
            rep.check(all(np.shape(p) == np.shape(q) and np.allclose(p, q, rtol=1e-10, atol=1e-10) for p, q in zip(ref, out)), "a run depends on how the likelihood is evaluated", mode=mode)
        for kind, bf, dt in blob_cases():
            if kind is None:
                continue
            for pool in (None, OrderPool("rev")):
                s = sampler(lambda x: (like0(x),) + tuple(bf(np.asarray(x, float))), blobs_dtype=dt, pool=pool)
                s.run(n_total=48, n_evidence=0, progress=False)
                x, w, l, p, b = s.posterior(return_blobs=True)
                rep.case(("run", kind, pool is None))
                rep.check(close(l, [like0(q) for q in x], 1e-10, 1e-10), "likelihoods detached from their points in a run", blobs=kind)
                rep.check(same_blob(kind, b, expected(kind, bf, x)), "blobs detached from their points in a run", blobs=kind, got=b[:3], want=expected(kind, bf, x[:3]))

    def realpool(rep):
        from multiprocess import Pool
        with Pool(2) as p:
            s = sampler(like0, pool=p)
            x = rng.normal(size=(9, 2))
            logl, _ = s._log_like(x)
            rep.case("multiprocess")
            rep.check(close(logl, [like0(q) for q in x], 1e-12, 1e-12), "multiprocess pool: wrong values", got=logl)

    rep.run("routes", routes)
    rep.run("caller", caller_args)
    rep.run("runs", runs)
    rep.run("realpool", realpool)


# ----------------------------------------------------------------------------------------------- C22
def c22(rep):
    rng = np.random.default_rng(SEED)
    from pocomc.particles import Particles
    KEYS = ["u", "x", "logdetj", "logl", "logp", "logw", "blobs", "iter", "logz", "calls", "steps", "efficiency", "ess", "accept", "beta"]

    def store(rep):
        for t in range(20):
            n, d = int(rng.integers(1, 6)), int(rng.integers(1, 4))
            p = Particles(n, d)
            recs = []
            for it in range(int(rng.integers(1, 7))):
                data = dict(u=rng.normal(size=(n, d)), x=rng.normal(size=(n, d)), logdetj=rng.normal(size=n), logl=rng.normal(size=n), logp=rng.normal(size=n), logw=rng.normal(size=n),
                            blobs=rng.normal(size=n) if t % 3 else None, iter=it, logz=float(rng.normal()) if it else 0., calls=n * (it + 1), steps=it + 1, efficiency=.5, ess=3. + it, accept=.3, beta=min(1., .2 * it), weights=np.ones(n), junk=3)
                recs.append(copy.deepcopy(data))
                p.update(data)
                rep.case((t, it))
                rep.check(set(data) == set(recs[-1]), "recording changed the caller's dictionary")
                for k in KEYS:
                    vs = p.past[k]
                    rep.check(len(vs) == len(recs), "not exactly one record per quantity and iteration", key=k, got=len(vs), want=len(recs))
                    rep.check(all(np.array_equal(vs[q], recs[q][k]) for q in range(len(recs))), "an earlier record changed", key=k)
                    rep.check(np.array_equal(p.get(k), np.asarray([r[k] for r in recs])), "stored quantity not returned in order", key=k)
                    for q in (0, -1, len(recs) // 2):
                        rep.check(np.array_equal(p.get(k, q), recs[q][k]), "record by index wrong", key=k, index=q)
                for k in ("u", "x", "logl", "logdetj", "logp") + (("blobs",) if t % 3 else ()):
                    rep.check(np.array_equal(p.get(k, flat=True), np.concatenate([r[k] for r in recs])), "flat view wrong", key=k)
                res = p.compute_results()
                for k in KEYS:
                    if k == "logw":
                        w, _ = p.compute_logw_and_logz(1.0)
                        logl = np.array([r["logl"] for r in recs])
                        want, lse, _ = mixture(logl, [r["beta"] for r in recs], [r["logz"] for r in recs], 1.0)
                        rep.check(close(res[k], np.asarray(want - lse, float), 1e-8, 1e-8), "log-weights in the results are not those of the whole history", got=res[k], iterations=len(recs))
                    else:
                        rep.check(np.array_equal(res[k], np.asarray([r[k] for r in recs])), "results do not contain all iterations", key=k, iterations=len(recs))
                res2 = p.compute_results()
                rep.check(all(np.array_equal(res[k], res2[k]) for k in KEYS), "results differ on a second query")

    def runs(rep):
        for cfg in [dict(), dict(sample="rwm", resample="syst"), dict(precondition=True), dict(metric="uss", dynamic=False)]:
            s = sampler(**cfg)
            if cfg.get("precondition"):
                s.flow = IdFlow(2)
            hist = []
            ou = s.particles.update
            bad = []

            def upd(data):
                before = snapshot(s.particles)
                if hist and same_history(hist[-1], before) is not None:
                    bad.append(same_history(hist[-1], before))
                ou(data)
                after = snapshot(s.particles)
                if same_history(before, after, upto=min(len(v) for v in before.values())) is not None:
                    bad.append("during recording")
                hist.append(after)
            s.particles.update = upd
            for nt in (40, 140):
                s.run(n_total=nt, n_evidence=0, progress=False)
                rep.case((str(cfg), nt))
                T = len(hist)
                rep.check(not bad, "an earlier record changed (%s)" % bad, config=cfg)
                r = s.results
                for k in KEYS:
                    if k == "blobs":
                        continue
                    if k == "logw":
                        w, _ = weights_of(s.particles, 1.0)
                        rep.check(close(np.exp(r[k]), w / w.sum(), 1e-7, 1e-12), "log-weights in the results are stale", config=cfg, n_total=nt)
                    else:
                        rep.check(len(r[k]) == T, "results do not contain all iterations", key=k, got=len(r[k]), want=T, config=cfg, n_total=nt)
                        rep.check(np.array_equal(np.asarray(r[k]), np.asarray(s.particles.past[k])), "results differ from the history", key=k, config=cfg)
                rep.check(list(np.asarray(r["iter"])) == list(range(T)), "iteration indices do not increase by one", got=r["iter"], config=cfg)
                rep.check(same_history(hist[-1], s.particles.past) is None, "history changed after the last iteration", config=cfg)
                s.posterior(); s.posterior(resample=True)
                rep.check(same_history(hist[-1], s.particles.past) is None, "posterior changed the history", config=cfg)

    rep.run("store", store)
    rep.run("runs", runs)


# ----------------------------------------------------------------------------------------------- C27
class CountPrior(BoxPrior):
    def __init__(self, d=2):
        super().__init__(d)
        self.draws = []

    def logpdf(self, x):
        x = np.asarray(x, float)
        return np.where(np.all(np.abs(x) <= 5, axis=1), -0.1 * np.sum(np.abs(x), axis=1), -np.inf)

    def rvs(self, size=1):
        r = super().rvs(size)
        self.draws.append(r.copy())
        return r


class Stop(Exception):
    pass


def c27(rep):
    rng = np.random.default_rng(SEED)

    def warm(rep):
        t = 0
        for nact, npri, d in [(16, 48, 2), (10, 35, 1), (8, 8, 3), (7, 5, 2), (12, None, 2)]:
            for hole in (None, "some", "half", "pinf"):
                for blobs in (None, "f", "o"):
                    for vec in (False, True):
                        if vec and blobs:
                            continue
                        t += 1
                        prior = CountPrior(d)

                        def ll(x):
                            x = np.asarray(x, float)
                            v = -0.5 * np.sum((x - 1) ** 2, axis=-1)
                            if hole in ("some", "half"):
                                v = np.where(x[..., 0] < (-2 if hole == "some" else 0.5), -np.inf, v)
                            elif hole == "pinf":
                                v = np.where(x[..., 0] > 3.5, np.inf, v)
                            return v

                        def bl(x):
                            return x[0] * 3 + 1 if blobs == "f" else "q%.7f" % x[0]

                        def like(x):
                            if vec:
                                return ll(x)
                            return (float(ll(x)), bl(x)) if blobs else float(ll(x))
                        kw = dict(n_active=nact, n_effective=24, n_prior=npri, vectorize=vec)
                        s = sampler(like, prior=prior, d=d, **kw)
                        recs = []
                        ou = s.particles.update
                        fits = []
                        of = s.scaler.fit
                        ofw = s.scaler.forward
                        order = []

                        def fit(x):
                            fits.append(np.array(x)); order.append("fit")
                            return of(x)

                        def fw(*a, **k):
                            order.append("fw")
                            return ofw(*a, **k)
                        s.scaler.fit, s.scaler.forward = fit, fw

                        def upd(data):
                            if data["beta"] > 0 or len(recs) >= s.n_prior // s.n_active:
                                raise Stop
                            recs.append({k: (np.copy(v) if isinstance(v, np.ndarray) else v) for k, v in data.items()})
                            ou(data)
                        s.particles.update = upd
                        try:
                            s.run(n_total=32, n_evidence=0, progress=False)
                        except Stop:
                            pass
                        except ValueError:
                            if any(np.all(np.isinf(ll(prior.draws[0][i * nact:(i + 1) * nact]))) for i in range(s.n_prior // nact)):
                                continue      # a batch without any finite likelihood cannot be repaired
                            raise
                        info = dict(n_active=nact, n_prior=s.n_prior, d=d, holes=hole, blobs=blobs, vectorize=vec)
                        rep.case(str(info), info)
                        if not rep.check(len(prior.draws) == 1, "the prior was not sampled exactly once", got=len(prior.draws), **info):
                            continue
                        D = prior.draws[0]
                        rep.check(len(fits) == 1 and order[0] == "fit" and np.array_equal(fits[0], D), "the reparameterisation is not fitted once to the prior samples before use", order=order[:3], **info)
                        nb = s.n_prior // nact
                        if not rep.check(len(recs) == nb and len(D) == s.n_prior, "wrong number of warm-up batches", got=len(recs), want=nb, **info):
                            continue
                        for i, r in enumerate(recs):
                            X = D[i * nact:(i + 1) * nact]
                            fin = ~np.isinf(ll(X))
                            x = r["x"]
                            if not rep.check(x.shape == X.shape, "warm-up batch has the wrong size", got=x.shape, want=X.shape, **info):
                                break
                            rep.check(r["beta"] == 0 and r["logz"] == 0, "warm-up temperature or evidence not zero", **info)
                            rep.check(np.array_equal(x[fin], X[fin]), "a particle of finite likelihood was touched or batches are not consecutive", batch=i, got=x[:3], want=X[:3], **info)
                            pool = {tuple(q) for q in X[fin]}
                            rep.check(all(tuple(q) in pool for q in x[~fin]), "a particle of infinite likelihood was not replaced by one of the same batch", batch=i, **info)
                            rep.check(np.all(np.isfinite(r["logl"])) or not np.all(np.isfinite(ll(x))), "infinite likelihood kept", **info)
                            rep.check(close(r["logl"], ll(x), 1e-12, 1e-12), "log-likelihood does not belong to x", batch=i, **info)
                            rep.check(close(r["logp"], prior.logpdf(x), 1e-12, 1e-12), "log-prior does not belong to x", batch=i, **info)
                            rep.check(close(r["u"], s.scaler.forward(x), 1e-10, 1e-10), "u does not belong to x", batch=i, **info)
                            rep.check(close(r["logdetj"], s.scaler.inverse(r["u"])[1], 1e-10, 1e-10), "log-Jacobian does not belong to u", batch=i, **info)
                            if blobs:
                                rep.check(all((abs(p - q) < 1e-9) if blobs == "f" else str(p) == q for p, q in zip(r["blobs"], [bl(v) for v in x])), "blobs do not belong to x", batch=i, got=r["blobs"], **info)

    rep.run("warm-up", warm)
