"""C05, C09, C12, C13, C14: prior, persistent weights, sample sizes, trimming, systematic resampling."""
import contextlib
import math
import signal
from fractions import Fraction
from .common import *
from pocomc.prior import Prior
from pocomc.particles import Particles
from pocomc import tools


class Marg:
    """A marginal with only the three methods a prior needs; records how it is used."""
    log = None

    def __init__(self, i, lo=-np.inf, hi=np.inf):
        self.i, self.lo, self.hi, self.count = i, lo, hi, 0

    def logpdf(self, x):
        x = np.asarray(x, float)
        return np.where((x >= self.lo) & (x <= self.hi), -(self.i + 1.) * np.abs(np.where(np.isfinite(x), x, 0.) - 0.25 * self.i) + 0.1 * self.i, -np.inf)

    def rvs(self, size=1, **kw):
        n = int(np.prod(size))
        out = 1000. * self.i + self.count + np.arange(n)
        self.count += n
        return out.reshape(size) if not np.isscalar(size) else out

    def support(self):
        return (self.lo, self.hi)


def c05(rep):
    rng = np.random.default_rng(SEED)
    from scipy import stats

    def custom(rep):
        for d in (1, 2, 3, 5, 8):
            for t in range(8):
                lo = np.where(rng.random(d) < .5, -np.inf, rng.uniform(-4, -1, d))
                hi = np.where(rng.random(d) < .5, np.inf, rng.uniform(1, 4, d))
                ms = [Marg(i, float(lo[i]), float(hi[i])) for i in range(d)]
                p = Prior(ms)
                n = int(rng.integers(1, 9))
                if t == 0:
                    n = d
                x = rng.normal(0, 2, (n, d))
                xin = x.copy()
                want = np.array([sum(float(ms[i].logpdf(x[r, i])) for i in range(d)) for r in range(n)])
                got = p.logpdf(x)
                info = dict(d=d, n=n, lo=lo, hi=hi)
                rep.case((d, t), info)
                rep.check(np.shape(got) == (n,) and close(got, want, 1e-12, 1e-12), "log-density is not the sum of the marginals", x=xin, got=got, want=want, **info)
                rep.check(np.array_equal(x, xin), "input modified", **info)
                got2 = p.logpdf(x)
                rep.check(close(got, got2, 0, 0), "second evaluation differs", **info)
                b = p.bounds
                rep.check(np.shape(b) == (d, 2) and np.array_equal(b[:, 0], lo) and np.array_equal(b[:, 1], hi), "bounds wrong", got=b, **info)
                rep.check(p.dim == d, "dimension wrong", got=p.dim, **info)
                for size in (1, 2, d, d + 1, 7):
                    before = [m.count for m in ms]
                    s = p.rvs(size)
                    rep.case((d, t, size))
                    ok = np.shape(s) == (size, d)
                    if ok:
                        for i in range(d):
                            ok &= sorted(s[:, i]) == [1000. * i + before[i] + k for k in range(size)]
                    rep.check(ok, "samples are not one row per draw with coordinate i from marginal i", size=size, got=s, **info)
                s = p.rvs()
                rep.check(np.shape(s) == (1, d), "default number of draws is not one row", got=s, **info)
                s = p.rvs(size=3)
                rep.check(np.shape(s) == (3, d), "keyword size", got=s, **info)
                f = np.asfortranarray(x)
                rep.check(close(p.logpdf(f), want, 1e-12, 1e-12), "Fortran-ordered input", **info)

    def scipy_(rep):
        ds = [stats.norm(1, 2), stats.uniform(-3, 6), stats.beta(2, 5, loc=1, scale=3), stats.expon(2), stats.lognorm(0.5), stats.truncnorm(-1, 2)]
        for t in range(12):
            sel = [ds[i] for i in rng.integers(0, len(ds), int(rng.integers(1, 6)))]
            p = Prior(sel)
            d = len(sel)
            x = rng.normal(0, 3, (11, d))
            want = np.zeros(11)
            for r in range(11):
                want[r] = sum(float(sel[i].logpdf(x[r, i])) for i in range(d))
            rep.case(("scipy", t))
            rep.check(close(p.logpdf(x), want, 1e-10, 1e-10), "scipy marginals: log-density wrong", x=x, got=p.logpdf(x), want=want)
            rep.check(np.array_equal(p.bounds, np.array([q.support() for q in sel])), "scipy marginals: bounds wrong", got=p.bounds)
            s = p.rvs(9)
            rep.check(s.shape == (9, d) and np.all(np.isfinite(p.logpdf(s))), "draws outside the prior's own support", got=s)
            np.random.seed(t)
            s = p.rvs(4000)
            for i in range(d):
                pv = stats.kstest(s[:, i], sel[i].cdf).pvalue
                rep.check(pv > 1e-9, "coordinate i is not distributed as marginal i", i=i, pvalue=pv)

    rep.run("custom", custom)
    rep.run("scipy", scipy_)


def mixture(logl, betas, logzs, beta):
    """Oracle: per-particle log weights and log evidence."""
    T, n = logl.shape
    ld = np.longdouble
    L = logl.astype(ld)
    # terms[s, t, i] = L[t, i] * beta_s - logz_s
    terms = L[None, :, :] * np.asarray(betas, dtype=ld)[:, None, None] - np.asarray(logzs, dtype=ld)[:, None, None]
    m = terms.max(axis=0)
    den = m + np.log(np.sum(np.exp(terms - m[None]), axis=0)) - np.log(ld(T))
    lw = L * ld(beta) - den
    flat = lw.reshape(-1)
    m = flat.max()
    lse = m + np.log(np.sum(np.exp(flat - m)))
    return flat, lse, lse - np.log(ld(len(flat)))


def history(rng, T, n, d=2, scale=5., beta_hi=1.0):
    p = Particles(n, d)
    betas = np.sort(np.concatenate([[0.0], rng.uniform(0, beta_hi, T - 1)])) if T > 1 else np.array([0.0])
    logls = rng.normal(0, 1, (T, n)) * scale
    logzs = np.concatenate([[0.0], rng.normal(0, max(1, scale / 5), T - 1)])
    for t in range(T):
        p.update(dict(u=rng.normal(size=(n, d)), x=rng.normal(size=(n, d)), logdetj=rng.normal(size=n), logl=logls[t].copy(), logp=rng.normal(size=n),
                      logw=np.zeros(n), blobs=None, iter=t, logz=float(logzs[t]), calls=n * (t + 1), steps=1, efficiency=1., ess=1., accept=1., beta=float(betas[t])))
    return p, logls, betas, logzs


def c09(rep):
    rng = np.random.default_rng(SEED)

    def formula(rep):
        for T, n in [(1, 1), (1, 5), (2, 1), (2, 2), (3, 3), (3, 4), (5, 2), (6, 7), (4, 4), (8, 3)]:
            for scale in (0.1, 3., 200., 1e6, 1e12):
                p, logls, betas, logzs = history(rng, T, n, scale=scale)
                for beta in (0.0, 0.3, 1.0, float(betas[-1]), 0.77):
                    want, lse, lz = mixture(logls, betas, logzs, beta)
                    info = dict(logl=logls, beta_t=betas, logz_t=logzs, beta=beta)
                    rep.case((T, n, scale, beta), info)
                    snap = {k: [np.copy(v) if v is not None else None for v in vs] for k, vs in p.past.items()}
                    tol = 1e-9 * (1 + scale)
                    lw, z = p.compute_logw_and_logz(beta)
                    lw = np.asarray(lw)
                    ok = np.shape(lw) == (T * n,)
                    rep.check(ok and close(lw, np.asarray(want - lse, float), 1e-9, tol), "normalised log-weights differ from the mixture formula",
                              got=lw, want=np.asarray(want - lse, float), **info)
                    rep.check(close(z, float(lz), 1e-9, tol), "log-evidence is not the log of the mean unnormalised weight", got=z, want=float(lz), **info)
                    if ok and scale < 1e5:
                        rep.check(abs(np.exp(lw).sum() - 1) < 1e-9, "normalised weights do not sum to one", got=np.exp(lw).sum(), **info)
                    lw2, z2 = p.compute_logw_and_logz(beta, normalize=False)
                    rep.check(close(lw2, np.asarray(want, float), 1e-9, tol) and close(z2, float(lz), 1e-9, tol), "unnormalised log-weights differ from the mixture formula",
                              got=lw2, want=np.asarray(want, float), logz=z2, **info)
                    same = all(len(p.past[k]) == len(snap[k]) and all((a is None and b is None) or np.array_equal(a, b) for a, b in zip(p.past[k], snap[k])) for k in snap)
                    rep.check(same, "computing weights changed the stored history", **info)
                w0, _ = p.compute_logw_and_logz()
                w1, _, = p.compute_logw_and_logz(1.0)
                rep.check(close(w0, w1, 0, 0), "default temperature is not one")

    def shape(rep):
        # equal temperatures, large offset, extreme spread
        for off in (-1e8, 0., 1e8):
            p, logls, betas, logzs = history(rng, 4, 5, scale=2.)
            for t in range(4):
                p.past["logl"][t] = p.past["logl"][t] + off
                p.past["logz"][t] = p.past["logz"][t] + off * betas[t]
            lw, z = p.compute_logw_and_logz(1.0)
            p2, *_ = (p,)
            rep.case(("off", off))
            rep.check(np.all(np.isfinite(lw)) and np.isfinite(z), "overflow for log-likelihoods of large magnitude", off=off, got=lw, z=z)
        p, logls, betas, logzs = history(rng, 3, 4, scale=2.)
        p.past["logl"][1][2] = -1e300
        lw, z = p.compute_logw_and_logz(1.0)
        rep.check(not np.any(np.isnan(lw)) and np.isfinite(z), "very small log-likelihood breaks the weights", got=lw, z=z)

    rep.run("formula", formula)
    rep.run("magnitude", shape)


def wvectors(rng, thorough=False):
    out = [np.array([1.0]), np.array([0.25]), np.array([0.5, 0.5]), np.array([1.0, 0.0]), np.array([0.0, 1.0]), np.array([0, 0, 3.0, 0]), np.ones(7), np.ones(100) * 1e-8,
           np.array([1e-300, 1.0, 1e-300]), np.array([5., 3., 2.]), np.array([0.1] * 10), np.array([1e-9, 1 - 1e-9]), np.array([0.7, 0.1, 0.1, 0.1]), np.arange(1., 9.)]
    for _ in range(60 if thorough else 25):
        n = int(rng.integers(1, 60))
        w = rng.random(n) ** float(rng.choice([0.3, 1, 3, 8]))
        if rng.random() < .4:
            w[rng.random(n) < .3] = 0
            if w.sum() == 0:
                w[0] = 1
        if rng.random() < .5:
            w = w / w.sum()
        elif rng.random() < .5:
            w = w * float(rng.choice([1e-6, 1e6, 17.]))
        out.append(w)
    return out


def c12(rep):
    rng = np.random.default_rng(SEED)

    def ess(rep):
        for w in wvectors(rng, THOROUGH):
            W = [Fraction(float(v)) for v in w]
            S = sum(W)
            n = len(w)
            want = float(S * S / sum(v * v for v in W))
            got = tools.effective_sample_size(w.copy())
            rep.case(("ess", w.tobytes().hex()[:40]), w)
            rep.check(close(got, want, 1e-9), "effective sample size != (sum w)^2 / sum w^2", w=w, got=got, want=want)
            rep.check(1 - 1e-9 <= got <= n * (1 + 1e-9), "effective sample size out of range", w=w, got=got)
            for k in (None, 0, 1, 2, 5, n, 3 * n + 1, 1000):
                kk = n if k is None else k
                wn = np.array([float(v / S) for v in W])
                with np.errstate(all="ignore"):
                    want = float(np.sum(-np.expm1(kk * np.log1p(-np.minimum(wn, 1))))) if kk else 0.0
                got = tools.unique_sample_size(w.copy()) if k is None else tools.unique_sample_size(w.copy(), k=k)
                rep.case(("uss", k, len(w)))
                rep.check(close(got, want, 1e-7, 1e-7), "unique sample size != sum 1-(1-w)^k", w=w, k=k, got=got, want=want)
                rep.check(-1e-9 <= got <= n * (1 + 1e-9) and got <= kk * (1 + 1e-9) + 1e-9, "unique sample size out of range", w=w, k=k, got=got)

    def logw(rep):
        for t in range(40):
            n = int(rng.integers(1, 30))
            lw = rng.normal(0, float(rng.choice([.1, 3, 100])), n)
            if t % 5 == 0 and n > 1:
                lw[rng.integers(n)] = -np.inf if n > 2 else lw[0]
            m = lw.max()
            w = np.exp(lw - m)
            want = w.sum() ** 2 / (w ** 2).sum() / n
            wl = m + np.log(w.sum())
            for c in (0., 1.5, -700., 700., 1e5, -1e5):
                l0 = lw + c
                keep = l0.copy()
                rep.case(("logw", t, c))
                got = tools.compute_ess(l0)
                rep.check(close(got, want, 1e-6, 1e-9), "relative ESS depends on a constant added to the log-weights", logw=lw, c=c, got=got, want=want)
                rep.check(0 < got <= 1 + 1e-9, "relative ESS out of range", logw=l0, got=got)
                got = tools.increment_logz(l0)
                rep.check(close(got, wl + c, 1e-9, 1e-7), "log-evidence increment does not shift with a constant", logw=lw, c=c, got=got, want=wl + c)
                rep.check(np.array_equal(l0, keep), "log-weights modified", logw=keep)

    rep.run("ess", ess)
    rep.run("logw", logw)


@contextlib.contextmanager
def alarm(sec):
    def h(*a):
        raise TimeoutError("did not terminate within %ss" % sec)
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(sec)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def c13(rep):
    rng = np.random.default_rng(SEED)

    def trim(rep):
        for w in wvectors(rng, THOROUGH):
            for ess in (0.99, 0.5, 0.9, 1.0, 0.999, 0.05):
                for bins in (1000, 1, 2, 10, 100):
                    n = len(w)
                    samples = np.arange(n) * 10 + 3
                    keep = samples.copy()
                    wn = w / w.sum()
                    info = dict(w=w, ess=ess, bins=bins)
                    rep.case((w.tobytes().hex()[:24], ess, bins), info)
                    try:
                        with alarm(20):
                            s, v = tools.trim_weights(samples, w.copy(), ess=ess, bins=bins)
                    except TimeoutError as e:
                        rep.fail("trimming did not terminate", **info)
                        return
                    except Exception as e:
                        rep.fail("trimming failed: %s: %s" % (type(e).__name__, e), **info)
                        return
                    s, v = np.asarray(s), np.asarray(v)
                    rep.check(np.array_equal(samples, keep), "samples modified", **info)
                    if not rep.check(len(s) == len(v) and len(s) >= 1, "lengths differ or nothing kept", s=s, v=v, **info):
                        continue
                    idx = (s - 3) // 10
                    rep.check(np.all(np.diff(idx) > 0), "kept samples not in original order", kept=idx, **info)
                    rep.check(close(v, wn[idx] / wn[idx].sum(), 1e-9, 1e-12), "kept weights are not the samples' own weights renormalised", kept=idx, got=v, **info)
                    rep.check(abs(v.sum() - 1) < 1e-9, "kept weights do not sum to one", got=v.sum(), **info)
                    mask = np.zeros(n, bool)
                    mask[idx] = True
                    if (~mask).any():
                        rep.check(wn[~mask].max() < wn[mask].min() + 1e-18, "a dropped sample has at least the weight of a kept one", kept=idx, **info)
                    e0, e1 = 1 / np.sum(wn ** 2), 1 / np.sum(v ** 2)
                    rep.check(e1 >= ess * e0 * (1 - 1e-9), "effective sample size of what is kept is too small", kept_ess=e1, ess0=e0, **info)
        s, v = tools.trim_weights(np.arange(20), np.ones(20))
        rep.check(len(s) == 20 and close(v, np.ones(20) / 20), "equal weights must all be kept", s=s)
        x2 = rng.normal(size=(30, 3))
        w = rng.random(30) ** 6
        s, v = tools.trim_weights(x2, w.copy(), ess=.5)
        rows = [i for i in range(30) if any(np.array_equal(x2[i], q) for q in s)]
        rep.check(len(rows) == len(s) and np.array_equal(x2[rows], s), "rows of 2-d samples not kept whole")

    rep.run("trim", trim)


@contextlib.contextmanager
def forced_uniform(v):
    """Force the uniform offset whichever global-RNG function the code uses for it."""
    names = ["random", "random_sample", "rand", "uniform", "ranf", "sample"]
    old = {k: getattr(np.random, k) for k in names if hasattr(np.random, k)}

    def mk(k):
        def f(*a, **kw):
            if k == "uniform":
                lo = a[0] if a else kw.get("low", 0.0)
                hi = a[1] if len(a) > 1 else kw.get("high", 1.0)
                size = a[2] if len(a) > 2 else kw.get("size")
                return lo + (hi - lo) * (v if size is None else np.full(size, v))
            size = (a if k == "rand" and a else (a[0] if a else kw.get("size")))
            return v if size is None or size == () else np.full(size, v)
        return f
    for k in old:
        setattr(np.random, k, mk(k))
    try:
        yield
    finally:
        for k, f in old.items():
            setattr(np.random, k, f)


LOWSEEDS = [2309893, 2139089, 1533721]
HIGHSEEDS = [2114088, 2356932, 1945426]


def c14(rep):
    rng = np.random.default_rng(SEED)

    def one(rep, w, size, **kw):
        keep = w.copy()
        info = dict(w=keep, size=size, **kw)
        rep.case((keep.tobytes().hex()[:32], size, str(kw)), info)
        rs = kw.get("random_state")
        try:
            with alarm(20):
                idx = tools.systematic_resample(size, w, random_state=rs) if rs is not None else tools.systematic_resample(size, w)
        except Exception as e:
            rep.fail("systematic resampling failed: %s: %s" % (type(e).__name__, e), **info)
            return None
        rep.check(np.array_equal(w, keep), "weights modified", **info)
        idx = np.asarray(idx)
        if not rep.check(idx.shape == (size,) and np.issubdtype(idx.dtype, np.integer), "wrong number or type of indices", got=idx, **info):
            return None
        if not rep.check(np.all(idx >= 0) and np.all(idx < len(w)), "invalid index", got=idx, **info):
            return None
        rep.check(np.all(np.diff(idx) >= 0), "indices decrease", got=idx, **info)
        cnt = np.bincount(idx, minlength=len(w))
        e = size * keep / keep.sum()
        tol = 1e-6 * size + 1e-9
        bad = (cnt < np.floor(e - tol)) | (cnt > np.ceil(e + tol))
        rep.check(not bad.any(), "an index appears neither floor nor ceil of size * weight times", got=cnt, expected=e, **info)
        return idx

    def main(rep):
        for w in wvectors(rng, THOROUGH):
            for size in (1, 2, 5, len(w), 64, 257):
                for rs in (0, 7, int(rng.integers(1 << 30)), LOWSEEDS[int(rng.integers(3))], HIGHSEEDS[int(rng.integers(3))]):
                    a = one(rep, w.copy(), size, random_state=rs)
                    b = one(rep, w.copy(), size, random_state=rs)
                    if a is not None and b is not None:
                        rep.check(np.array_equal(a, b), "not deterministic given the seed", w=w, size=size, random_state=rs)
        # weights whose sum is off one by less than the renormalisation tolerance
        for e in (1e-9, 1e-8, 1.4e-8):
            for sgn in (-1, 1):
                for n in (2, 3, 10):
                    w = np.full(n, 1.0 / n)
                    w[-1] += sgn * e
                    for size in (1, 4, 1000):
                        for rs in HIGHSEEDS + LOWSEEDS:
                            one(rep, w.copy(), size, random_state=rs)

    def forced(rep):
        for off in (0.0, 5e-324, 1e-12, 0.25, 0.5, 0.75, 1 - 1e-12, np.nextafter(1., 0.)):
            with forced_uniform(off):
                for w in [np.array([0.5, 0.5 - 1e-9]), np.array([.25, .25, .25, .25]), np.array([0., 1., 0.]), np.array([1., 0., 0.]), np.array([0., 0., 1.]), np.array([1.0]), np.full(10, .1),
                          np.full(1000, 1e-3), np.array([.3, .7 + 1e-8]), np.array([3., 1.])]:
                    for size in (1, 2, 3, 4, 10, 100):
                        one(rep, w.copy(), size, offset=off)
        # the offset is uniform: over many seeds each index is drawn in proportion to its weight
        w = np.array([.1, .2, .3, .4])
        tot = np.zeros(4)
        N = 3000
        for s in range(N):
            tot += np.bincount(tools.systematic_resample(1, w, random_state=s), minlength=4)
        z = (tot / N - w) / np.sqrt(w * (1 - w) / N)
        rep.check(np.all(np.abs(z) < 6), "selection frequencies are not proportional to the weights", got=tot / N, w=w)
        # no seed given: the global generator's state must be used (not reset)
        np.random.seed(3)
        a = [tools.systematic_resample(50, np.full(40, 1 / 40.)).tolist() for _ in range(30)]
        rep.check(len({str(q) for q in a}) > 1, "without a seed successive calls are identical")

    rep.run("seeds", main)
    rep.run("offsets", forced)
