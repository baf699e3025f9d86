"""C06-C08: the four MCMC kernels (executable contracts)."""
import itertools
from .common import *
import torch
from scipy import stats
from pocomc import mcmc
from pocomc.scaler import Reparameterize
from pocomc.geometry import Geometry

torch.set_num_threads(1)


class ToyFlow:
    """Smooth invertible map with known Jacobian: u = a * (theta + 0.4 tanh theta) (data u, latent theta)."""
    C = 0.4

    def __init__(self, d):
        self.a = np.linspace(0.8, 1.5, d)

    def fwd(self, u):
        w = np.asarray(u, float) / self.a
        t = w / (1 + self.C)
        for _ in range(60):
            t = t - (t + self.C * np.tanh(t) - w) / (1 + self.C / np.cosh(np.clip(t, -30, 30)) ** 2)
        return t

    def logdet_theta(self, t):
        """log |d u / d theta|"""
        return np.sum(np.log(self.a) + np.log1p(self.C / np.cosh(np.clip(t, -30, 30)) ** 2), axis=1)

    def forward(self, v):
        t = self.fwd(v.numpy())
        return torch.tensor(t, dtype=torch.float32), torch.tensor(-self.logdet_theta(t), dtype=torch.float32)

    def inverse(self, t):
        t = t.numpy().astype(float)
        return torch.tensor(self.a * (t + self.C * np.tanh(t)), dtype=torch.float32), torch.tensor(self.logdet_theta(t), dtype=torch.float32)

    def logdet(self, u):
        return self.logdet_theta(self.fwd(u))


class Problem:
    def __init__(self, rng, d, transform="probit", periodic=None, reflective=None, scale=True, cut=True):
        self.d, self.rng, self.cut = d, rng, cut
        b = np.empty((d, 2))
        for i in range(d):
            b[i] = [(0., 2.), (-np.inf, np.inf), (-1., np.inf), (-np.inf, 4.)][i % 4]
        self.b = b
        self.scaler = Reparameterize(d, bounds=b, transform=transform, periodic=periodic, reflective=reflective, scale=scale)
        x = self.draw(400)
        if scale:
            self.scaler.fit(x)
        self.x0 = x
        self.flow = ToyFlow(d)
        self.prior_calls, self.like_calls = [], []
        self.blob_kind = None
        self.bad = None

    def draw(self, n):
        out = np.empty((n, self.d))
        for i in range(self.d):
            lo, hi = self.b[i]
            if np.isfinite(lo) and np.isfinite(hi):
                out[:, i] = lo + (hi - lo) * self.rng.uniform(0.05, 0.95, n)
            elif np.isfinite(lo):
                out[:, i] = lo + self.rng.gamma(3, .5, n)
            elif np.isfinite(hi):
                out[:, i] = hi - self.rng.gamma(3, .5, n)
            else:
                out[:, i] = self.rng.normal(0, 1, n)
        if self.cut:
            bad = ~np.isfinite(self.lp(out))
            while bad.any():
                out[bad] = self.draw_raw(int(bad.sum()))
                bad = ~np.isfinite(self.lp(out))
        return out

    def draw_raw(self, n):
        c, self.cut = self.cut, False
        r = self.draw(n)
        self.cut = c
        return r

    # densities as plain functions of x
    def lp(self, x):
        x = np.asarray(x, float)
        r = -0.5 * np.sum((x - 0.3) ** 2, axis=1) / 1.7
        if self.cut:
            r = np.where(x[:, 0] + 0.3 * x[:, -1] > 2.6, -np.inf, r)
        return r

    def ll(self, x):
        x = np.asarray(x, float)
        r = -2.0 * np.sum(np.abs(x - 0.6) ** 1.5, axis=1) + np.sin(3 * x[:, 0])
        if self.bad is not None:
            r = np.where(x[:, 0] < self.bad[0], self.bad[1], r)
        return r

    def bl(self, x):
        x = np.asarray(x, float)
        if self.blob_kind == "f":
            return x[:, 0] * 7 + 1
        if self.blob_kind == "f2":
            return np.stack([x[:, 0] * 3, x[:, -1] - 5], 1)
        if self.blob_kind == "o":
            return np.array(["%.9g" % v for v in x[:, 0]], dtype=object)
        if self.blob_kind == "st":
            o = np.zeros(len(x), dtype=[("a", float), ("b", int)])
            o["a"], o["b"] = x[:, 0], np.round(x[:, -1] * 1e6).astype(int)
            return o
        return None

    def logprior(self, x):
        self.prior_calls.append(np.array(x, float))
        return self.lp(x)

    def loglike(self, x):
        self.like_calls.append(np.array(x, float))
        return self.ll(x), self.bl(x)

    def state(self, x, beta):
        u = self.scaler.forward(x)
        x2, ld = self.scaler.inverse(u)
        b = self.bl(x2)
        return dict(u=u, x=x2, logdetj=ld, logl=self.ll(x2), logp=self.lp(x2), beta=beta, blobs=b)

    def functions(self, geom):
        return dict(loglike=self.loglike, logprior=self.logprior, scaler=self.scaler, flow=self.flow, u_geometry=geom, theta_geometry=geom)

    def ldj(self, u):
        return self.scaler.inverse(u)[1]


KERNELS = [("preconditioned_pcn", True, True), ("preconditioned_rwm", True, False), ("pcn", False, True), ("rwm", False, False)]


def geometry(rng, d, nu=3.5):
    g = Geometry()
    A = rng.normal(size=(d, d)) * 0.3 + np.eye(d)
    C = A @ A.T
    g.normal_mean = rng.normal(0, .3, d)
    g.normal_cov = C
    g.t_mean = rng.normal(0, .4, d)
    g.t_cov = C * 0.8
    g.t_nu = nu
    return g


def log_t(th, mu, cov, nu):
    d = len(mu)
    q = np.einsum("ij,jk,ik->i", th - mu, np.linalg.inv(cov), th - mu)
    return -(d + nu) / 2 * np.log1p(q / nu)


def log_target(P, x, beta, flow):
    """log density in the space the chain moves in, and the point in that space."""
    u = P.scaler.forward(x, check_input=False)
    lt = P.ll(x) * beta + P.lp(x) + P.ldj(u)
    if flow:
        return lt + P.flow.logdet(u), P.flow.fwd(u)
    return lt, u


def alpha_oracle(P, x, xp, beta, flow, tp, g, mu=None):
    lt0, th0 = log_target(P, x, beta, flow)
    lt1, th1 = log_target(P, xp, beta, flow)
    r = lt1 - lt0
    if tp:
        mu = g.t_mean if mu is None else mu
        r = r - log_t(th1, mu, g.t_cov, g.t_nu) + log_t(th0, mu, g.t_cov, g.t_nu)
    a = np.minimum(1.0, np.exp(r))
    a = np.where(np.isnan(a) | ~np.isfinite(P.lp(xp)), 0.0, a)
    return a, th0, th1


def get_kernel(name):
    return seam(mcmc, name)


def c06(rep):
    rng = np.random.default_rng(SEED)

    def one_step(rep, name, flow, tp, d, transform, beta, blob, bad, per, nu, sig):
        f = get_kernel(name)
        P = Problem(rng, d, transform, periodic=per)
        P.blob_kind, P.bad = blob, bad
        N = 2500
        x0 = P.draw(N)
        if bad is not None:
            for _ in range(200):
                m = P.ll(x0) != P.ll(x0) if np.isnan(bad[1]) else ~np.isfinite(P.ll(x0))
                if not m.any():
                    break
                x0[m] = P.draw(int(m.sum()))
        st = P.state(x0, beta)
        g = geometry(rng, d, nu)
        info = dict(kernel=name, d=d, transform=transform, beta=beta, blobs=blob, likelihood_hole=bad, periodic=per, nu=nu, proposal_scale=sig)
        np.random.seed(SEED * 1000 + rep.evals)
        rep.case(str(info), info)
        r = f(st, P.functions(g), dict(n_max=1, n_steps=1, progress_bar=None, proposal_scale=sig))
        if len(P.prior_calls) != 1 or len(P.prior_calls[0]) != N:
            raise Missing("proposals not observable for " + name)
        xp = P.prior_calls[0]
        a, th0, th1 = alpha_oracle(P, st["x"], xp, beta, flow, tp, g)
        good = np.all(np.isfinite(th1), axis=1)         # rows rounded onto a bound have no recoverable latent point
        if good.mean() < 0.99:
            raise Missing("too many proposals rounded onto a bound")
        if not rep.check(abs(float(r["accept"]) - a.mean()) < 5e-4 + (~good).mean(), "mean acceptance probability differs from the Metropolis-Hastings one", got=r["accept"], want=a.mean(), **info):
            return
        xn, xo = np.asarray(r["x"])[good], st["x"][good]
        xp, a, th0, th1, N = xp[good], a[good], th0[good], th1[good], int(good.sum())
        moved = np.any(xn != xo, axis=1)
        eq = np.all(np.abs(xn - xp) <= 1e-6 * (1 + np.abs(xp)), axis=1)
        rep.check(np.all(eq[moved]), "a moved walker is not at its proposal", **info)
        k = np.argmax(moved & (a < 1e-9))
        rep.check(not np.any(moved & (a < 1e-9)), "a proposal of acceptance probability zero was accepted", x=xo[k], proposal=xp[k], alpha=a[k], **info)
        k = np.argmax(~moved & (a > 1 - 1e-9))
        rep.check(not np.any(~moved & (a > 1 - 1e-9)), "a proposal of acceptance probability one was rejected", x=xo[k], proposal=xp[k], alpha=a[k], **info)
        bins = np.digitize(a, np.linspace(0, 1, 9)[1:-1])
        for q in list(range(8)) + [None]:
            s = (bins == q) if q is not None else np.ones(N, bool)
            v = np.sum(a[s] * (1 - a[s]))
            z = np.sum(moved[s] - a[s]) / np.sqrt(v + 1.0)
            if not rep.check(abs(z) < 6, "proposals are not accepted with the Metropolis-Hastings probability", z=z, alpha_bin=q, accepted=moved[s].mean() if s.any() else None, expected=a[s].mean() if s.any() else None, **info):
                return
        # the proposal density the ratio corresponds to is the one drawn from
        L = np.linalg.cholesky(g.t_cov if tp else g.normal_cov)
        if tp:
            s_ = min(sig, .99)
            e = np.linalg.solve(L, (th1 - g.t_mean - np.sqrt(1 - s_ ** 2) * (th0 - g.t_mean)).T).T / s_
            dl = np.einsum("ij,jk,ik->i", th0 - g.t_mean, np.linalg.inv(g.t_cov), th0 - g.t_mean)
            Q = np.sum(e ** 2, 1) / d * (nu + d) / (nu + dl)
            pv = stats.kstest(Q, stats.f(d, nu + d).cdf).pvalue
            # scale independent of the current distance: split at the median distance
            pv2 = min(stats.kstest(Q[dl > np.median(dl)], stats.f(d, nu + d).cdf).pvalue, stats.kstest(Q[dl <= np.median(dl)], stats.f(d, nu + d).cdf).pvalue)
            pv = min(pv, pv2)
        else:
            e = np.linalg.solve(L, (th1 - th0).T).T / sig
            pv = stats.kstest(np.sum(e ** 2, 1), stats.chi2(d).cdf).pvalue
        rep.check(pv > 1e-10, "proposals are not drawn from the density the acceptance ratio assumes", pvalue=pv, **info)
        dirs = e / np.linalg.norm(e, axis=1, keepdims=True)
        zm = dirs.mean(0) * np.sqrt(N * d)
        C = dirs.T @ dirs / N * d - np.eye(d)
        rep.check(np.all(np.abs(zm) < 7) and np.all(np.abs(C) < 7 * d / np.sqrt(N)), "proposal directions are not those of the proposal density", mean=zm, cov=C, **info)

    for name, flow, tp in KERNELS:
        cfgs = [(2, "probit", 1.0, None, None, None, 3.5, 0.7), (3, "logit", 0.37, "f", None, None, 12.0, 0.35), (1, "probit", 0.6, None, None, None, 2.0, 0.9),
                (4, "probit", 0.8, "f2", (0.4, -np.inf), [0], 5.0, 0.5), (2, "logit", 0.5, None, (0.5, np.nan), [0], 1e6, 1.5), (3, "probit", 0.0, "o", None, None, 4.0, 0.6)]
        if THOROUGH:
            cfgs += [(d, t, b, bl, bad, per, nu, s) for d in (1, 2, 5) for t in ("probit", "logit") for b in (0.05, 1.0) for bl in (None, "f") for bad in (None,) for per in (None,) for nu in (1.0, 30.) for s in (0.2, 2.)]
        for c in cfgs:
            rep.run("%s %s" % (name, c), lambda rep: one_step(rep, name, flow, tp, *c))

    def several(rep, name, flow, tp):
        """One walker, k steps: the last step's acceptance probability belongs to one of the possible current states."""
        f = get_kernel(name)
        for t in range(40):
            d = int(rng.integers(1, 4))
            P = Problem(rng, d, str(rng.choice(["probit", "logit"])))
            g = geometry(rng, d, float(rng.uniform(2, 9)))
            beta = float(rng.uniform(0.2, 1))
            x0 = P.draw(1)
            st = P.state(x0, beta)
            K = 2 + t % 2
            np.random.seed(SEED * 77 + t)
            r = f(st, P.functions(g), dict(n_max=K, n_steps=10 ** 9, progress_bar=None, proposal_scale=0.6))
            if len(P.prior_calls) != K or any(len(q) != 1 for q in P.prior_calls):
                raise Missing("proposals not observable")
            xs = P.prior_calls
            rep.case((name, t))
            cands = []
            for acc in itertools.product((0, 1), repeat=K - 1):
                for adapt in (0, 1):
                    cur, mu = st["x"], g.t_mean
                    for s in range(K - 1):
                        if acc[s]:
                            cur = xs[s]
                        _, th = log_target(P, cur, beta, flow)
                        if adapt:
                            mu = mu + (th[0] - mu) / (s + 2.0)
                    if not np.isfinite(P.lp(cur))[0]:
                        continue
                    cands.append((alpha_oracle(P, cur, xs[-1], beta, flow, tp, g, mu)[0][0], cur))
            ok = any(abs(a - r["accept"]) < 5e-3 for a, _ in cands)
            rep.check(ok, "acceptance probability of a later step is not the Metropolis-Hastings one of any possible current state",
                      kernel=name, got=r["accept"], possible=[a for a, _ in cands], x0=x0, proposals=xs, beta=beta)

    for name, flow, tp in KERNELS:
        rep.run("steps " + name, lambda rep: several(rep, name, flow, tp))


def coherent(rep, P, r, st, info):
    x, u = np.asarray(r["x"]), np.asarray(r["u"])
    x2, ld = P.scaler.inverse(u)
    tol = 1e-5
    ok = rep.check(close(x, x2, tol, tol), "x is not the image of u", x=x, u=u, image=x2, **info)
    ok &= rep.check(close(r["logdetj"], ld, 1e-4, 1e-4), "log-Jacobian does not belong to u", got=r["logdetj"], want=ld, **info)
    ok &= rep.check(close(r["logp"], P.lp(x), 1e-6, 1e-6), "log-prior does not belong to x", got=r["logp"], want=P.lp(x), **info)
    ok &= rep.check(close(r["logl"], P.ll(x), 1e-6, 1e-6), "log-likelihood does not belong to x", got=r["logl"], want=P.ll(x), **info)
    ok &= rep.check(np.all(np.isfinite(r["logp"])) and np.all(np.isfinite(r["logdetj"])) and np.all(np.isfinite(r["logl"])) and np.all(np.isfinite(x)),
                    "a particle moved to a point with non-finite prior, transform or likelihood", logp=r["logp"], logl=r["logl"], **info)
    b = P.bl(x)
    if P.blob_kind is not None:
        gb = r["blobs"]
        if P.blob_kind == "o":
            same = np.shape(gb) == np.shape(b) and all(abs(float(p) - float(q)) <= 1e-6 * (1 + abs(float(q))) for p, q in zip(gb, b))
        elif P.blob_kind == "st":
            same = np.shape(gb) == np.shape(b) and close(gb["a"], b["a"], 1e-6, 1e-6) and np.all(np.abs(gb["b"] - b["b"]) < 50)
        else:
            same = close(gb, b, 1e-6, 1e-6)
        ok &= rep.check(same, "blobs do not belong to x", got=gb, want=b, **info)
    return ok


def same_state(a, b):
    for k in a:
        if a[k] is None or np.isscalar(a[k]):
            if not (a[k] is b[k] or a[k] == b[k]):
                return k
        elif not (np.array_equal(a[k], b[k]) and np.asarray(a[k]).dtype == np.asarray(b[k]).dtype):
            return k
    return None


def deep(st):
    return {k: (np.copy(v) if isinstance(v, np.ndarray) else v) for k, v in st.items()}


class Bar:
    """The part of a progress bar the kernels use."""

    def __init__(self):
        self.info = dict(calls=0)
        self.hist = []

    def update_stats(self, d):
        self.info = {**self.info, **d}
        self.hist.append(dict(d))

    def update_iter(self):
        pass

    def close(self):
        pass


def sweeps(rep, rng, check):
    for name, flow, tp in KERNELS:
        def unit(rep, name=name, flow=flow, tp=tp):
            f = get_kernel(name)
            for t in range(36 if THOROUGH else 14):
                d = int(rng.integers(1, 5))
                per = [0] if rng.random() < .4 else None
                ref = [0] if (per is None and rng.random() < .4) else None
                P = Problem(rng, d, str(rng.choice(["probit", "logit"])), periodic=per, reflective=ref, scale=bool(rng.random() < .8))
                P.blob_kind = [None, "f", "f2", "o", "st"][t % 5]
                P.bad = [None, (0.45, -np.inf), (0.45, np.nan)][t % 3]
                N = int(rng.integers(1, 30))
                x0 = P.draw(N)
                for _ in range(500):
                    m = ~np.isfinite(P.ll(x0))
                    if not m.any():
                        break
                    x0[m] = P.draw(int(m.sum()))
                st = P.state(x0, float(rng.choice([0.0, 0.1, 0.6, 1.0])))
                if not np.all(np.isfinite(st["logl"])):
                    continue
                keep = deep(st)
                g = geometry(rng, d, float(rng.uniform(1.5, 20)))
                sig = float(rng.choice([0.05, 0.5, 2.38 / d ** .5]))
                if t % 7 == 6:
                    sig = 40.0       # nearly every proposal leaves the support
                nmax = int(rng.choice([1, 2, 3, 12]))
                nst = int(rng.choice([0, 1, 3, 50]))
                bar = Bar() if t % 2 else None
                info = dict(kernel=name, d=d, N=N, n_max=nmax, n_steps=nst, blobs=P.blob_kind, hole=P.bad, periodic=per, reflective=ref, beta=st["beta"], proposal_scale=sig, trial=t)
                np.random.seed(SEED * 31 + t)
                rep.case(str(info), info)
                r = f(st, P.functions(g), dict(n_max=nmax, n_steps=nst, progress_bar=bar, proposal_scale=sig))
                check(rep, P, r, st, keep, info, bar)
        rep.run(name, unit)

        def empty(rep, name=name):
            """every proposal outside the prior"""
            f = get_kernel(name)
            for bk in (None, "f", "f2", "o", "st"):
                P = Problem(rng, 2, "probit", cut=False)
                P.blob_kind = bk
                x0 = P.draw(7)
                st = P.state(x0, 0.5)
                keep = deep(st)
                P.lp_ = P.lp
                P.lp = lambda x: np.full(len(x), -np.inf)
                rep.case((name, "nosupport", bk))
                r = f(st, P.functions(geometry(rng, 2)), dict(n_max=3, n_steps=1, progress_bar=None, proposal_scale=.5))
                P.lp = P.lp_
                info = dict(kernel=name, blobs=bk, support="none of the proposals")
                check(rep, P, r, st, keep, info, None)
                rep.check(np.array_equal(r["x"], keep["x"]) and np.array_equal(r["u"], keep["u"]), "moved outside the prior", **info)
        rep.run(name + " no support", empty)


def c07(rep):
    rng = np.random.default_rng(SEED)

    def check(rep, P, r, st, keep, info, bar):
        coherent(rep, P, r, st, info)
        k = same_state(keep, st)
        rep.check(k is None, "the population passed in was altered (%s)" % k, **info)
        for q in ("u", "x", "logl", "logp", "logdetj"):
            rep.check(np.shape(r[q]) == np.shape(keep[q]), "shape of %s changed" % q, **info)
            rep.check(not np.shares_memory(r[q], st[q]), "the result aliases the population passed in (%s)" % q, **info)
    sweeps(rep, rng, check)
    rep.run("sampler", lambda rep: sampler_run(rep, rng, coherence=True))


def c08(rep):
    rng = np.random.default_rng(SEED)

    def check(rep, P, r, st, keep, info, bar):
        n = 0
        for X in P.like_calls:
            n += len(X)
            rep.check(np.all(np.isfinite(X)) and np.all(np.isfinite(P.lp(X))), "likelihood evaluated where the prior is not finite", x=X, logp=P.lp(X), **info)
        if "support" in info:
            rep.check(n == 0, "likelihood evaluated where the prior is not finite", calls=n, **info)
        rep.check(int(r["calls"]) == n, "reported number of calls differs from the evaluations made", reported=r["calls"], made=n, **info)
        rep.check(1 <= int(r["steps"]) <= max(1, info.get("n_max", 3)), "number of steps outside the limit", steps=r["steps"], **info)
        rep.check(len(P.prior_calls) <= max(1, info.get("n_max", 3)), "more sweeps were made than the limit", sweeps=len(P.prior_calls), **info)
        if bar is not None and bar.hist and "calls" in bar.hist[-1]:
            rep.check(int(bar.hist[-1]["calls"]) == n, "progress shows a different number of calls", got=bar.hist[-1]["calls"], made=n, **info)
    sweeps(rep, rng, check)
    rep.run("sampler", lambda rep: sampler_run(rep, rng, coherence=False))


class CutPrior:
    """Prior on a box whose support is only part of the box."""

    def __init__(self, d=2):
        self.d = d
        self.dim = d
        self.bounds = np.tile(np.array([0., 1.]), (d, 1))
        self.n = 0

    def inside(self, x):
        return np.all((x >= 0) & (x <= 1), axis=1) & (x[:, 0] + x[:, -1] < 1.6)

    def logpdf(self, x):
        x = np.asarray(x, float)
        return np.where(self.inside(x), -0.2 * np.sum(x, axis=1), -np.inf)

    def rvs(self, size=1):
        out = np.empty((0, self.d))
        while len(out) < size:
            c = np.random.uniform(0, 1, (4 * size, self.d))
            out = np.concatenate([out, c[self.inside(c)]])
        return out[:size].copy()


def sampler_run(rep, rng, coherence):
    from pocomc.sampler import Sampler
    from pocomc.particles import Particles
    for cfg in [dict(precondition=False, sample="tpcn"), dict(precondition=False, sample="rwm", resample="syst"), dict(precondition=True, sample="tpcn", flow="maf3"),
                dict(precondition=True, sample="rwm", flow="maf3", n_max_steps=3), dict(precondition=False, vectorize=True, n_max_steps=2, n_steps=1)]:
        prior = CutPrior(2)
        evals = []
        blobs = not cfg.get("vectorize")

        def like(x):
            x = np.asarray(x, float)
            if cfg.get("vectorize"):
                evals.extend(x.tolist())
                return -40 * np.sum((x - .5) ** 2, axis=1)
            evals.append(x.tolist())
            v = -40 * np.sum((x - .5) ** 2)
            return v, x[0] * 3 + 1
        s = Sampler(prior, like, n_effective=32, n_active=16, n_prior=48, random_state=SEED, train_config=dict(epochs=2), **cfg)
        snaps = []
        orig = s.particles.update

        def upd(data, orig=orig):
            orig(data)
            snaps.append((int(data.get("calls")), len(evals), int(data.get("steps")), s.n_max_steps))
        s.particles.update = upd
        s.run(n_total=96, n_evidence=64, progress=False)
        info = dict(config=cfg)
        rep.case(str(cfg), info)

        def verify(tag):
            if coherence:
                g = s.particles.get
                x, u = g("x", flat=True), g("u", flat=True)
                x2, ld = s.scaler.inverse(u)
                rep.check(close(x, x2, 1e-5, 1e-5), "history: x is not the image of u", **info)
                rep.check(close(g("logdetj", flat=True), ld, 1e-3, 1e-3), "history: log-Jacobian does not belong to u", **info)
                rep.check(close(g("logp", flat=True), prior.logpdf(x), 1e-6, 1e-6), "history: log-prior does not belong to x", **info)
                rep.check(close(g("logl", flat=True), -40 * np.sum((x - .5) ** 2, axis=1), 1e-6, 1e-6), "history: log-likelihood does not belong to x", **info)
                if blobs:
                    rep.check(close(g("blobs", flat=True), x[:, 0] * 3 + 1, 1e-6, 1e-6), "history: blobs do not belong to x", **info)
            else:
                E = np.array(evals)
                rep.check(np.all(np.isfinite(prior.logpdf(E))), "the sampler evaluated the likelihood outside the prior's support", at=E[~np.isfinite(prior.logpdf(E))][:3], **info)
                for c, n, st, mx in snaps:
                    if not rep.check(c == n, "%s: calls reported after an iteration differ from the evaluations made" % tag, reported=c, made=n, **info):
                        break
                    rep.check(1 <= st <= max(1, mx), "%s: steps outside the limit" % tag, steps=st, limit=mx, **info)
                rep.check(int(s.calls) == len(evals), "%s: total calls differ from the evaluations made" % tag, reported=s.calls, made=len(evals), **info)
                rep.check([int(c) for c in s.results["calls"]] == [n for _, n, _, _ in snaps], "%s: recorded calls differ from the evaluations made" % tag, **info)
        verify("first run")
        s.run(n_total=160, n_evidence=32, progress=False)
        verify("continued run")
