"""C24 (geometry), C25 (flow adapter), C26 (flow training): executable contracts."""
import copy
import warnings as W
from .common import *
import torch
from scipy import stats
from pocomc.geometry import Geometry
from pocomc import tools
from pocomc.flow import Flow

torch.set_num_threads(1)


def c24(rep):
    rng = np.random.default_rng(SEED)

    def wcov(x, w):
        w = w / w.sum()
        m = (w[:, None] * x).sum(0)
        dlt = x - m
        return m, (w[:, None] * dlt).T @ dlt / (1 - np.sum(w ** 2))

    def sane(rep, g, d, info):
        info = {("true_" + k if k in ("nu", "mean", "cov") else k): v for k, v in info.items()}
        ok = rep.check(np.shape(g.normal_mean) == (d,) and np.shape(g.normal_cov) == (d, d), "normal mean / covariance shape", mean=g.normal_mean, cov=g.normal_cov, **info)
        ok &= rep.check(np.shape(g.t_mean) == (d,) and np.shape(g.t_cov) == (d, d), "Student-t location / scale shape", mean=g.t_mean, cov=g.t_cov, **info)
        if not ok:
            return False
        rep.check(np.allclose(g.t_cov, np.asarray(g.t_cov).T, rtol=1e-8, atol=1e-10), "Student-t scale not symmetric", cov=g.t_cov, **info)
        rep.check(np.all(np.isfinite(g.t_mean)) and np.all(np.isfinite(g.t_cov)) and np.all(np.linalg.eigvalsh(g.t_cov) > 0), "Student-t fit not finite / positive definite", mean=g.t_mean, cov=g.t_cov, **info)
        rep.check(np.isfinite(g.t_nu) and float(g.t_nu) > 0, "degrees of freedom not positive and finite", nu=g.t_nu, **info)
        return True

    def fits(rep):
        for t in range(40):
            d = 1 + t % 4
            n = int(rng.integers(5 * d + 5, 80))
            A = rng.normal(size=(d, d)) + 2 * np.eye(d)
            x = rng.standard_t(4, (n, d)) @ A.T + rng.normal(0, 3, d)
            kind = ["none", "uniform", "random", "unnormalised", "peaked"][t % 5]
            w = {"none": None, "uniform": np.full(n, 1. / n), "random": rng.random(n), "unnormalised": rng.random(n) * 50, "peaked": rng.random(n) ** 3}[kind]
            if kind in ("random", "peaked"):
                w = w / w.sum()
            xin, win = x.copy(), None if w is None else w.copy()
            g = Geometry()
            np.random.seed(t)
            info = dict(d=d, n=n, weights=kind, trial=t)
            rep.case(str(info), info)
            g.fit(x, weights=w) if w is not None else g.fit(x)
            if not sane(rep, g, d, info):
                continue
            m, C = wcov(x, np.ones(n) if w is None else w)
            rep.check(close(g.normal_mean, m, 1e-8, 1e-9), "normal mean is not the weighted mean", got=g.normal_mean, want=m, **info)
            rep.check(close(g.normal_cov, C, 1e-8, 1e-9), "normal covariance is not the weighted covariance", got=g.normal_cov, want=C, **info)
            rep.check(np.array_equal(x, xin) and (w is None or np.array_equal(w, win)), "inputs modified", **info)
            g.fit(x[:n - 1], weights=None if w is None else w[:n - 1])
            m, C = wcov(x[:n - 1], np.ones(n - 1) if w is None else w[:n - 1])
            rep.check(close(g.normal_mean, m, 1e-8, 1e-9) and close(g.normal_cov, C, 1e-8, 1e-9), "second fit does not replace the first", **info)

    def population(rep):
        """the Student-t fit is made to the weighted population: integer multiplicities are reproduced exactly"""
        for t in range(12):
            d = 1 + t % 3
            n = 40
            c = rng.integers(0, 4, n)
            c[rng.integers(n)] += n - c.sum() if c.sum() < n else 0
            while c.sum() > n:
                i = rng.integers(n)
                c[i] -= c[i] > 0
            x = rng.standard_t(4, (n, d)) * 2 + 1
            x[c == 0] += 1000.
            g, h = Geometry(), Geometry()
            np.random.seed(t)
            g.fit(x, weights=c / n)
            rep.case(("mult", t))
            if not sane(rep, g, d, dict(trial=t)):
                continue
            h.fit(np.repeat(x, c, axis=0))
            rep.check(close(g.t_mean, h.t_mean, 1e-4, 1e-4) and close(g.t_cov, h.t_cov, 1e-3, 1e-3) and abs(np.log(g.t_nu / h.t_nu)) < 1e-2,
                      "Student-t fit is not that of the weighted population", got=(g.t_mean, g.t_cov, g.t_nu), want=(h.t_mean, h.t_cov, h.t_nu), multiplicities=c)
            rep.check(np.all(np.abs(g.t_mean) < 100), "particles of weight zero enter the Student-t fit", got=g.t_mean)

    def truth(rep):
        for d, nu in ((1, 3.), (2, 3.), (3, 5.)):
            A = np.eye(d) + 0.3 * rng.normal(size=(d, d))
            S = A @ A.T
            mu = rng.normal(0, 2, d)
            x = stats.multivariate_t(mu, S, df=nu, seed=int(rng.integers(1 << 30))).rvs(4000).reshape(-1, d)
            for w in (None, np.full(len(x), 1. / len(x))):
                g = Geometry()
                np.random.seed(0)
                g.fit(x, weights=w)
                rep.case(("truth", d, w is None))
                if not sane(rep, g, d, dict(d=d, nu=nu)):
                    continue
                # (the fitted degrees of freedom are not compared: see DESIGN.md, C24)
                rep.check(np.all(np.abs(g.t_mean - mu) < .4), "Student-t location is not that of the population",
                          got=(g.t_mean, g.t_cov, g.t_nu), want=(mu, S, nu))
        for d in (1, 2, 4):
            x = rng.uniform(-1, 1, (500, d))
            for w in (None, np.full(500, 1 / 500.)):
                g = Geometry()
                g.fit(x, weights=w)
                rep.case(("light", d, w is None))
                sane(rep, g, d, dict(d=d, tails="light"))
                rep.check(g.t_nu > 100, "light tails must give large degrees of freedom", nu=g.t_nu)

    rep.run("fits", fits)
    rep.run("population", population)
    rep.run("truth", truth)


def perturbed(name, d, seed, scale=0.3):
    torch.manual_seed(seed)
    f = Flow(d, name)
    with torch.no_grad():
        for p in f.flow.parameters():
            p.add_(scale * torch.randn_like(p) * (p.abs().mean() + .05))
    f.flow.eval()
    return f


def c25(rep):
    rng = np.random.default_rng(SEED)

    def maps(rep):
        for name in ("maf3", "nsf3", "maf6", "nsf6"):
            for d in (1, 2, 3):
                f = perturbed(name, d, d)
                wrap = tools.flow_numpy_wrapper(f)
                x = rng.normal(0, 1, (6, d))
                keep = x.copy()
                info = dict(flow=name, d=d)
                rep.case(str(info), info)
                th, ld = wrap.forward(x)
                rep.check(np.array_equal(x, keep), "forward modified its input", **info)
                rep.check(isinstance(th, np.ndarray) and th.shape == x.shape and np.shape(ld) == (6,), "wrong output shapes", got=(np.shape(th), np.shape(ld)), **info)
                x2, ld2 = wrap.inverse(th)
                rep.check(close(x2, x, 2e-3, 2e-3), "data -> latent -> data does not return the point", x=x, got=x2, **info)
                rep.check(close(ld, ld2, 5e-3, 5e-3), "the two directions report different log-determinants", forward=ld, inverse=ld2, **info)
                z = rng.normal(0, 1, (6, d))
                xz, lz = wrap.inverse(z)
                z2, lz2 = wrap.forward(xz)
                rep.check(close(z2, z, 2e-3, 5e-3) and close(lz, lz2, 5e-3, 5e-3), "latent -> data -> latent does not return the point", z=z, got=z2, **info)
                # numerical Jacobian of latent -> data in double precision
                fd = copy.deepcopy(f.flow).double()
                h = 1e-5
                for r in range(3):
                    J = np.empty((d, d))
                    with torch.no_grad():
                        inv = fd().transform.inv
                        z0 = torch.tensor(th[r], dtype=torch.float64)
                        for k in range(d):
                            e = torch.zeros(d, dtype=torch.float64)
                            e[k] = h
                            J[:, k] = ((inv(z0 + e) - inv(z0 - e)) / (2 * h)).numpy()
                    want = np.linalg.slogdet(J)[1]
                    rep.check(abs(want - ld[r]) < 5e-2 + 2e-2 * abs(want), "log-determinant is not that of the latent-to-data map", got=ld[r], want=want, **info)
                # densities
                with torch.no_grad():
                    xt = torch.tensor(x, dtype=torch.float32)
                    lp = f.log_prob(xt).numpy()
                    want = np.sum(stats.norm.logpdf(th), axis=1) - ld
                    rep.check(close(lp, want, 5e-3, 5e-3), "density is not the pull-back of the latent density", got=lp, want=want, **info)
                    torch.manual_seed(3)
                    s, lq = f.sample(50)
                    rep.check(tuple(s.shape) == (50, d) and tuple(lq.shape) == (50,), "sample shapes", got=(s.shape, lq.shape), **info)
                    rep.check(close(lq.numpy(), f.log_prob(s).numpy(), 5e-3, 1e-2), "samples' log-densities are not those of the flow", **info)
                    sz = wrap.forward(s.numpy())[0]
                    rep.check(abs(sz.mean()) < 6 / np.sqrt(50 * d) + .05, "samples are not in the flow's data space", mean=sz.mean(), **info)
                    a, la = f.forward(xt)
                    b, lb = f.inverse(a)
                    rep.check(close(la.numpy(), -lb.numpy(), 5e-3, 5e-3) and close(b.numpy(), x, 2e-3, 2e-3), "torch-level maps are inconsistent", **info)
                # batch independence
                t1 = wrap.forward(x[2:3])
                rep.check(close(t1[0][0], th[2], 1e-4, 1e-4), "rows are not mapped independently", **info)

    def types(rep):
        f = perturbed("maf3", 2, 0)
        x = torch.tensor(rng.normal(size=(4, 2)))
        for fn in ("forward", "inverse", "log_prob"):
            g = getattr(f, fn)
            with W.catch_warnings(record=True) as rec:
                W.simplefilter("always")
                with torch.no_grad():
                    o64, o32 = g(x), g(x.float())
            rep.case(("types", fn))
            p = o64 if torch.is_tensor(o64) else o64[0]
            q = o32 if torch.is_tensor(o32) else o32[0]
            rep.check(p.dtype == torch.float32 and torch.allclose(p, q), "double input not converted to single precision", fn=fn)
            rep.check(len(rec) >= 1, "no warning for double input", fn=fn)
            for bad in (torch.ones(4, 2, dtype=torch.int64), torch.ones(4, 2, dtype=torch.int32), torch.ones(4, 2, dtype=torch.float16), torch.ones(4, 2, dtype=torch.bool)):
                try:
                    with torch.no_grad():
                        g(bad)
                    rep.fail("unsupported type accepted", fn=fn, dtype=str(bad.dtype))
                except ValueError:
                    pass
        td = seam(tools, "torch_double_to_float")
        for warn in (True, False):
            with W.catch_warnings(record=True) as rec:
                W.simplefilter("always")
                r = td(x, warn=warn)
            rep.case(("td", warn))
            rep.check(r.dtype == torch.float32 and torch.equal(r, x.float()), "conversion wrong", warn=warn, got=r.dtype)
            rep.check(bool(rec) == warn, "warning not given / not silenced", warn=warn)
        y = x.float()
        rep.check(torch.equal(td(y), y), "single precision changed")
        try:
            td(torch.ones(2, dtype=torch.int64), warn=False)
            rep.fail("unsupported type accepted", dtype="int64")
        except ValueError:
            pass
        a = rng.normal(size=(3, 2))
        rep.check(tools.numpy_to_torch(a).dtype == torch.float32 and close(tools.torch_to_numpy(tools.numpy_to_torch(a)), a, 1e-6, 1e-6), "numpy <-> torch conversion")

    def gradfree(rep):
        f = perturbed("maf3", 2, 0)
        w = tools.flow_numpy_wrapper(f)
        th, _ = w.forward(np.zeros((3, 2)))
        rep.case("gradfree")
        rep.check(isinstance(th, np.ndarray), "wrapper returns numpy")

    rep.run("maps", maps)
    rep.run("types", types)
    rep.run("gradfree", gradfree)


class Toy(torch.nn.Module):
    """Stand-in for the wrapped flow: a shifted normal; records what it is asked."""

    def __init__(self, d, rec):
        super().__init__()
        self.theta = torch.nn.Parameter(torch.full((d,), 3.0))
        self.rec = rec

    def forward(self, c=None):
        return self

    def log_prob(self, x):
        v = -0.5 * torch.sum((x - self.theta) ** 2, dim=-1) - 1.0
        self.rec.append((self.training, x.detach().clone(), v.detach().clone(), {k: q.clone() for k, q in self.state_dict().items()}))
        return v


def toy_flow(d, rec):
    torch.manual_seed(0)
    f = Flow(d, "maf3")
    f.flow = Toy(d, rec)
    return f


def c26(rep):
    rng = np.random.default_rng(SEED)

    def wfun(x):
        return 0.1 + np.abs(x[:, 0]) + 2.0 * (x[:, -1] > 0)

    def training(rep):
        t = 0
        for n in (40, 41, 7):
            for split in (0.0, 0.5, 0.2, 0.3, 0.75):
                for weighted in (True, False):
                    for shuffle in (True, False):
                        for bs in (1000, 7):
                            t += 1
                            d = 2
                            rec = []
                            f = toy_flow(d, rec)
                            x = rng.normal(size=(n, d))
                            x[:, 0] += np.arange(n) * 10          # identifies the sample
                            xt = torch.tensor(x, dtype=torch.float32)
                            wt = torch.tensor(wfun(x), dtype=torch.float32) if weighted else None
                            xk, wk = xt.clone(), None if wt is None else wt.clone()
                            ep = 4
                            nv = int(split * n)
                            if split > 0 and nv == 0:
                                continue
                            torch.manual_seed(t)
                            info = dict(n=n, split=split, weighted=weighted, shuffle=shuffle, batch_size=bs)
                            rep.case(str(info), info)
                            h = f.fit(xt, weights=wt, validation_split=split, epochs=ep, batch_size=bs, patience=50, shuffle=shuffle, annealing=bool(t % 2), learning_rate=1e-3)
                            rep.check(torch.equal(xt, xk) and (wt is None or torch.equal(wt, wk)), "the caller's arrays were modified", **info)
                            rep.check(len(h["loss"]) == ep and (len(h["val_loss"]) == ep if split > 0 else len(h["val_loss"]) == 0), "not one loss per epoch", got=(len(h["loss"]), len(h["val_loss"])), **info)
                            tr = [r for r in rec if r[0]]
                            va = [r for r in rec if not r[0]]
                            ids = lambda rs: np.round(torch.cat([r[1] for r in rs]).numpy()[:, 0] / 10).astype(int) if rs else np.array([], int)
                            allx = {tuple(np.float32(q)) for q in x}
                            for nm, rs in (("training", tr), ("validation", va)):
                                for r in rs:
                                    for q in r[1].numpy():
                                        if tuple(q) not in allx:
                                            rep.fail("%s uses a point that is not a sample" % nm, point=q, **info)
                                            return
                            key = {tuple(np.float32(q)): i for i, q in enumerate(x)}
                            idt = [key[tuple(q)] for r in tr for q in r[1].numpy()]
                            idv = [key[tuple(q)] for r in va for q in r[1].numpy()]
                            nt_ = n - nv if split > 0 else n
                            ok = rep.check(len(idt) == ep * nt_ and len(idv) == (ep * nv if split > 0 else 0), "hold-out is not the requested fraction", trained=len(idt) / ep, held_out=len(idv) / ep, want=(nt_, nv), **info)
                            if ok:
                                per = [idt[e * nt_:(e + 1) * nt_] for e in range(ep)]
                                pev = [idv[e * nv:(e + 1) * nv] for e in range(ep)] if split > 0 else []
                                rep.check(all(len(set(p)) == nt_ for p in per) and all(set(p) == set(per[0]) for p in per), "an epoch repeats or drops training samples", **info)
                                rep.check(all(len(set(p)) == nv and set(p) == set(pev[0]) for p in pev), "an epoch repeats or drops validation samples", **info)
                                rep.check(set(per[0]) | set(pev[0] if pev else []) == set(range(n)), "samples dropped", **info)
                                rep.check(not (set(per[0]) & set(pev[0] if pev else [])), "training and validation overlap", **info)
                            if weighted:
                                for nm, rs, key_ in (("training", tr, "loss"), ("validation", va, "val_loss")):
                                    if not rs:
                                        continue
                                    m = nt_ if nm == "training" else nv
                                    per_e = []
                                    cur, cnt = 0.0, 0
                                    for r in rs:
                                        w = wfun(np.array([x[key[tuple(q)]] for q in r[1].numpy()]))
                                        cur += float(np.sum(-r[2].numpy() * w) / np.sum(w))
                                        cnt += len(r[1])
                                        if cnt == m:
                                            per_e.append(cur)
                                            cur, cnt = 0.0, 0
                                    ratio = np.array(h[key_]) / np.array(per_e) if len(per_e) == len(h[key_]) else np.array([0., 1.])
                                    want = 1000. / m
                                    rep.check(np.all(np.abs(ratio / np.median(ratio) - 1) < 1e-3) and abs(np.median(ratio) / want - 1) < 1e-3, "%s samples are not paired with their own weights" % nm, ratio=ratio, want=want, **info)

    def early(rep):
        for t in range(24):
            d = 2
            rec = []
            f = toy_flow(d, rec)
            x = torch.tensor(rng.normal(0, 1, (40, d)), dtype=torch.float32)
            split = [0.5, 0.0, 0.25][t % 3]
            lr = [0.8, 0.3, 1.5, 3.0][t % 4]
            pat = [2, 3, 1, 4][(t // 2) % 4]
            torch.manual_seed(t)
            w = torch.rand(40) + .1 if t % 2 else None
            ep = 200
            h = f.fit(x, weights=w, validation_split=split, epochs=ep, batch_size=[100, 8][t % 2], patience=pat, annealing=False, learning_rate=lr)
            mon = h["val_loss"] if split > 0 else h["loss"]
            E = len(h["loss"])
            info = dict(split=split, learning_rate=lr, patience=pat, weighted=w is not None, epochs_run=E)
            rep.case(str((t, info)), info)
            rep.check(1 <= E <= ep and (len(mon) == E), "number of epochs", got=E, **info)
            if E < ep:
                # parameters after each epoch
                tr = [i for i, r in enumerate(rec) if r[0]]
                nb = len(tr) // E
                after = []
                for e in range(E):
                    if split > 0:
                        va = [i for i, r in enumerate(rec) if not r[0]]
                        nvb = len(va) // E
                        after.append(rec[va[e * nvb]][3]["theta"])
                    elif e + 1 < E:
                        after.append(rec[tr[(e + 1) * nb]][3]["theta"])
                best = int(np.argmin(mon))
                fin = f.flow.state_dict()["theta"]
                if best < len(after):
                    rep.check(torch.allclose(fin, after[best], rtol=1e-6, atol=1e-7), "early stopping does not leave the parameters of the best monitored loss", best_epoch=best, got=fin.numpy(), want=after[best].numpy(), losses=mon[-8:], **info)
                rep.check(E - 1 - best >= 1, "stopped although the loss was still improving", best_epoch=best, **info)

    def limits(rep):
        for ep in (1, 2, 5):
            rec = []
            f = toy_flow(2, rec)
            h = f.fit(torch.tensor(rng.normal(size=(20, 2)), dtype=torch.float32), epochs=ep, validation_split=.5, patience=1000)
            rep.case(("epochs", ep))
            rep.check(len(h["loss"]) == ep == len(h["val_loss"]), "epochs run", got=len(h["loss"]), want=ep)
        f = perturbed("maf3", 2, 1)
        x = torch.tensor(rng.normal(size=(64, 2)))
        k = x.clone()
        w = torch.rand(64)
        wk = w.clone()
        h = f.fit(x, weights=w, epochs=3, validation_split=.25, laplace_scale=.5, gaussian_scale=.5, noise=.1, verbose=0)
        rep.case("real flow")
        rep.check(torch.equal(x, k) and torch.equal(w, wk) and len(h["loss"]) == 3 and np.all(np.isfinite(h["loss"])), "fit of a real flow", got=h)

    def sampler_(rep):
        from .sampler_h import sampler, IdFlow
        s = sampler(precondition=True)
        s.flow = IdFlow(2)
        got = []
        o = seam(s, "_reweight")

        def rw(cp):
            r = o(cp)
            got.append((np.array(r["u"]), np.array(r["weights"])))
            return r
        s._reweight = rw
        s.run(n_total=64, n_evidence=0, progress=False)
        us = [np.float32(u) for u, _ in got]
        rep.case("sampler")
        for xf, kw in s.flow.fits:
            hit = [i for i, u in enumerate(us) if u.shape == tuple(xf.shape) and np.array_equal(u, xf.numpy())]
            rep.check(bool(hit) and any(np.allclose(kw["weights"].numpy(), np.float32(got[i][1])) for i in hit), "the flow is not trained on the reweighted particles with their weights")

    rep.run("training", training)
    rep.run("early", early)
    rep.run("limits", limits)
    rep.run("sampler", sampler_)
