"""C01-C04: Reparameterize (executable contracts)."""
import itertools
from fractions import Fraction
from .common import *
from scipy.special import ndtr, ndtri, expit
from pocomc.scaler import Reparameterize

KINDS = ["none", "left", "right", "both", "nan_none", "nan_left", "nan_right"]


def bounds_for(kinds, rng, wide=False):
    b = np.empty((len(kinds), 2))
    for i, k in enumerate(kinds):
        lo = float(np.round(rng.uniform(-5, 5), 3))
        w = float(np.round(rng.choice([0.3, 1.0, 2.5, 1e3 if wide else 7.0]), 3))
        hi = lo + w
        b[i] = {"none": (-np.inf, np.inf), "left": (lo, np.inf), "right": (-np.inf, hi), "both": (lo, hi),
                "nan_none": (np.nan, np.nan), "nan_left": (lo, np.nan), "nan_right": (np.nan, hi)}[k]
    return b


def base(k):
    return k.replace("nan_", "")


def interior(kinds, b, n, rng):
    x = np.empty((n, len(kinds)))
    for i, k in enumerate(kinds):
        k = base(k)
        if k == "none":
            x[:, i] = rng.normal(0, 3, n)
        elif k == "left":
            x[:, i] = b[i, 0] + rng.gamma(1.5, 2.0, n) + 1e-3
        elif k == "right":
            x[:, i] = b[i, 1] - rng.gamma(1.5, 2.0, n) - 1e-3
        else:
            x[:, i] = b[i, 0] + (b[i, 1] - b[i, 0]) * rng.uniform(0.01, 0.99, n)
    return x


def inside(kinds, b, x, tol=0.0):
    ok = True
    for i, k in enumerate(kinds):
        k = base(k)
        t = tol * (1 + np.nanmax(np.abs(np.where(np.isfinite(b[i]), b[i], 0))))
        if k in ("left", "both"):
            ok &= bool(np.all(x[:, i] >= b[i, 0] - t))
        if k in ("right", "both"):
            ok &= bool(np.all(x[:, i] <= b[i, 1] + t))
    return ok


def combos(rng, thorough):
    out = [(k,) for k in KINDS]
    out += list(itertools.product(["none", "left", "right", "both"], repeat=2))
    for d in (3, 4, 5):
        for _ in range(12 if thorough else 5):
            out.append(tuple(rng.choice(KINDS, d)))
    out += [("both",) * 5, ("none",) * 3, ("left", "none", "both", "right", "both", "left")]
    return out


MODES = [("off", dict(scale=False)), ("diag", dict(scale=True, diagonal=True)), ("full", dict(scale=True, diagonal=False))]


def instances(rng, thorough, only_modes=None):
    for kinds in combos(rng, thorough):
        for tr in ("probit", "logit"):
            for mname, kw in MODES:
                if only_modes and mname not in only_modes:
                    continue
                b = bounds_for(kinds, rng)
                yield kinds, tr, mname, kw, b


def make(kinds, tr, mname, kw, b, rng, n=12):
    s = Reparameterize(len(kinds), bounds=b.copy(), transform=tr, **kw)
    xfit = interior(kinds, b, max(n, 4 * len(kinds)), rng)
    if mname != "off":
        s.fit(xfit)
    return s, xfit


def c01(rep):
    rng = np.random.default_rng(SEED)

    def roundtrip(rep):
        for kinds, tr, mname, kw, b in instances(rng, THOROUGH):
            s, xfit = make(kinds, tr, mname, kw, b, rng)
            x = interior(kinds, b, 6, rng)
            info = dict(kinds=kinds, transform=tr, scaling=mname, bounds=b)
            xin = x.copy()
            u = s.forward(x)
            rep.case((kinds, tr, mname), info)
            rep.check(np.array_equal(x, xin), "forward modified the caller's array", x=xin, **info)
            if not rep.check(np.shape(u) == x.shape and np.all(np.isfinite(u)), "forward of an interior point is not finite", x=x, u=u, **info):
                return
            uin = u.copy()
            x2, ld = s.inverse(u)
            rep.check(np.array_equal(u, uin), "inverse modified the caller's array", u=uin, **info)
            if not rep.check(close(x2, x, 1e-7, 1e-7), "inverse(forward(x)) != x", x=x, got=x2, **info):
                return
            rep.check(inside(kinds, b, x2, 1e-12), "inverse left the bounds", u=u, x=x2, **info)
            # rows independent
            for r in (0, 3):
                xr = s.forward(x[r:r + 1])
                rep.check(close(xr[0], u[r], 1e-10, 1e-10), "forward of a row depends on the other rows", row=x[r], got=xr, batch=u[r], **info)
                xi, li = s.inverse(u[r:r + 1])
                rep.check(close(xi[0], x2[r], 1e-10, 1e-10) and close(li[0], ld[r], 1e-10, 1e-10),
                          "inverse of a row depends on the other rows", row=u[r], got=xi, batch=x2[r], **info)
            # arbitrary finite u: out and back
            uu = rng.normal(0, 1.5, (6, len(kinds)))
            if mname != "off":
                uu = rng.normal(0, 0.7, (6, len(kinds)))
            xx, _ = s.inverse(uu)
            u3 = s.forward(xx, check_input=False)
            if not rep.check(close(u3, uu, 1e-5, 1e-6), "forward(inverse(u)) != u", u=uu, x=xx, got=u3, **info):
                return
            # far-out points stay within the bounds
            ue = rng.choice([-700., -40., -8., 0., 8., 40., 300.], (8, len(kinds)))
            if mname == "full":
                ue = ue / 20
            xe, _ = s.inverse(ue)
            rep.check(inside(kinds, b, xe, 1e-11), "inverse of an extreme point left the bounds", u=ue, x=xe, **info)

    def special(rep):
        # bounds omitted, (None-like) tuple bounds, integer and single precision input, Fortran order, views
        for tr in ("probit", "logit"):
            s = Reparameterize(3, transform=tr, scale=False)
            x = rng.normal(size=(5, 3))
            u = s.forward(x)
            rep.case(("nobounds", tr))
            rep.check(close(s.inverse(u)[0], x) and close(u, x), "no bounds: transform is not invertible", x=x, u=u, transform=tr)
            for tb in ((0.0, 2.0), (-np.inf, 3.0), (1.0, np.inf)):
                s = Reparameterize(3, bounds=tb, transform=tr, scale=False)
                x = np.array([[1.25, 1.5, 1.75], [1.125, 1.0625, 1.9]])
                rep.case((tb, tr))
                u = s.forward(x)
                rep.check(close(s.inverse(u)[0], x, 1e-9), "tuple bounds: inverse(forward(x)) != x", x=x, bounds=tb, u=u, transform=tr)
            b = np.array([[0., 10.], [-np.inf, 10.], [0., np.inf], [-np.inf, np.inf]])
            for diag in (None, True):
                s = Reparameterize(4, bounds=b, transform=tr, scale=diag is not None)
                if diag:
                    s.fit(interior(("both", "right", "left", "none"), b, 20, rng))
                xi = np.array([[1, 2, 3, 4], [9, -3, 7, -5], [5, 5, 5, 5]])
                u = s.forward(xi)
                rep.case(("int", tr, diag))
                rep.check(close(s.inverse(u)[0], xi, 1e-7), "integer input: inverse(forward(x)) != x", x=xi, u=u, transform=tr)
                ui = np.array([[1, -2, 0, 3], [0, 1, -1, 2]])
                xb = s.inverse(ui)[0]
                rep.check(close(s.forward(xb, check_input=False), ui, 1e-6, 1e-6), "integer latent input: forward(inverse(u)) != u", u=ui, x=xb, transform=tr)
                u32 = rng.normal(size=(5, 4)).astype(np.float32)
                xb = s.inverse(u32)[0]
                rep.check(close(s.forward(xb, check_input=False), u32, 2e-3, 2e-3), "float32 latent input: forward(inverse(u)) != u", u=u32, x=xb, transform=tr)
                xf = np.asfortranarray(interior(("both", "right", "left", "none"), b, 7, rng))
                rep.check(close(s.inverse(s.forward(xf))[0], xf, 1e-7), "Fortran-ordered input", x=xf, transform=tr)
                x0 = np.empty((0, 4))
                rep.check(s.forward(x0).shape == (0, 4) and s.inverse(x0)[0].shape == (0, 4), "empty input", transform=tr)
                # the instance must not alias / change its inputs between calls
                xa, xc = interior(("both", "right", "left", "none"), b, 3, rng), interior(("both", "right", "left", "none"), b, 3, rng)
                ua = s.forward(xa); keep = ua.copy(); s.forward(xc)
                rep.check(np.array_equal(ua, keep), "a later call changed an earlier result", x=xa)
                ya = s.inverse(ua)[0]; keep = ya.copy(); s.inverse(s.forward(xc))
                rep.check(np.array_equal(ya, keep), "a later call changed an earlier result", x=xa)
                # repeated calls give the same answer (no hidden state)
                rep.check(close(s.forward(xa), ua, 0, 0) and close(s.inverse(ua)[0], ya, 0, 0), "repeated call differs", x=xa)
        try:
            Reparameterize(2, transform="cauchy")
            rep.fail("unknown transform accepted", transform="cauchy")
        except ValueError:
            pass

    def near(rep):
        # points close to the bounds (still strictly inside)
        for tr in ("probit", "logit"):
            b = np.array([[-1., 3.], [0., np.inf], [-np.inf, 2.]])
            s = Reparameterize(3, bounds=b, transform=tr, scale=False)
            for e in (1e-3, 1e-6, 1e-9):
                x = np.array([[-1 + e, e, 2 - e], [3 - e, 1 / e, 2 - 1 / e]])
                rep.case((tr, e))
                u = s.forward(x)
                x2 = s.inverse(u)[0]
                rep.check(close(x2, x, 1e-7, 1e-9), "near the bounds: inverse(forward(x)) != x", x=x, u=u, got=x2, transform=tr)

    rep.run("roundtrip", roundtrip)
    rep.run("special", special)
    rep.run("near", near)


def oracle_map(kind, tr, b, v):
    """x and log|dx/dv| of one coordinate."""
    k = base(kind)
    if k == "none":
        return v, np.zeros_like(v)
    if k == "left":
        return b[0] + np.exp(v), v
    if k == "right":
        return b[1] - np.exp(v), v
    w = b[1] - b[0]
    if tr == "probit":
        return b[0] + w * ndtr(v), np.log(w) - v * v / 2 - 0.5 * np.log(2 * np.pi)
    return b[0] + w * expit(v), np.log(w) - np.logaddexp(0, -v) - np.logaddexp(0, v)


def c02(rep):
    rng = np.random.default_rng(SEED + 1)

    def jac(rep):
        for kinds, tr, mname, kw, b in instances(rng, THOROUGH):
            s, xfit = make(kinds, tr, mname, kw, b, rng)
            d = len(kinds)
            sc = 2.0 if mname == "off" else 0.8
            U = rng.normal(0, sc, (4, d))
            x, ld = s.inverse(U)
            info = dict(kinds=kinds, transform=tr, scaling=mname, bounds=b)
            rep.case((kinds, tr, mname), info)
            if not rep.check(np.shape(ld) == (4,), "log-determinant is not one value per row", shape=np.shape(ld), **info):
                return
            h = 1e-5
            for r in range(4):
                J = np.empty((d, d))
                for k in range(d):
                    up, um = U[r:r + 1].copy(), U[r:r + 1].copy()
                    up[0, k] += h
                    um[0, k] -= h
                    J[:, k] = (s.inverse(up)[0][0] - s.inverse(um)[0][0]) / (2 * h)
                want = np.linalg.slogdet(J)[1]
                if np.isfinite(want) and not rep.check(abs(want - ld[r]) < 1e-4 * (1 + abs(want)), "log-determinant differs from the derivative of the map",
                                                       u=U[r], reported=ld[r], numerical=want, **info):
                    return
            # tails: analytic derivative of the (verified) map
            if mname == "off":
                T = rng.choice([-30., -12., -6., 0.0, 6., 12., 30.], (6, d))
                for i, k in enumerate(kinds):
                    if base(k) == "both" and tr == "logit":
                        T[:, i] = np.clip(T[:, i], -30, 12)      # log(1-p) loses digits in double precision beyond
                xt, lt = s.inverse(T)
                want = np.zeros(6)
                same = True
                for i, k in enumerate(kinds):
                    xo, lo = oracle_map(k, tr, b[i], T[:, i])
                    same &= close(xo, xt[:, i], 1e-9, 1e-9)
                    want += lo
                if same:
                    rep.check(close(lt, want, 1e-3, 1e-3), "log-determinant wrong in the tails", u=T, reported=lt, analytic=want, **info)
            # more rows than columns and vice versa, single row
            for n in (1, d, d + 1):
                Un = rng.normal(0, sc, (n, d))
                _, l1 = s.inverse(Un)
                l2 = np.array([s.inverse(Un[q:q + 1])[1][0] for q in range(n)])
                rep.check(close(l1, l2, 1e-9, 1e-9), "log-determinants of a batch differ from those of its rows", u=Un, batch=l1, rows=l2, **info)

    rep.run("jacobian", jac)


def unfold(v, lo, hi, kind):
    """Exact (rational) set of admissible answers."""
    v, lo, hi = Fraction(v), Fraction(lo), Fraction(hi)
    P = hi - lo
    if lo <= v <= hi:
        return [v]
    if kind == "periodic":
        q = (v - lo) % P
        return [lo + q] + ([hi] if q == 0 else [])
    q = (v - lo) % (2 * P)
    return [lo + q if q <= P else lo + 2 * P - q]


def c03(rep):
    rng = np.random.default_rng(SEED + 2)

    def bc(rep):
        reps = 60 if THOROUGH else 25
        for t in range(reps):
            d = int(rng.integers(1, 6))
            idx = list(rng.permutation(d))
            npd, nrf = rng.integers(0, d + 1), rng.integers(0, d + 1)
            periodic = [int(i) for i in idx[:npd]]
            reflective = [int(i) for i in idx[npd:npd + nrf]]
            per_arg = periodic if (periodic or rng.random() < .5) else None
            ref_arg = reflective if (reflective or rng.random() < .5) else None
            b = np.empty((d, 2))
            b[:, 0] = np.round(rng.uniform(-4, 4, d) * 8) / 8
            b[:, 1] = b[:, 0] + rng.choice([0.25, 0.5, 1.0, 3.0, 8.0], d)
            free = [i for i in range(d) if i not in periodic and i not in reflective]
            for i in free:
                if rng.random() < .5:
                    b[i] = (-np.inf, np.inf)
            tr = str(rng.choice(["probit", "logit"]))
            s = Reparameterize(d, bounds=b.copy(), periodic=per_arg, reflective=ref_arg, transform=tr)
            n = int(rng.integers(1, 7))
            x = np.empty((n, d))
            for i in range(d):
                lo, hi = (b[i] if np.isfinite(b[i]).all() else (-1., 1.))
                w = hi - lo
                base_ = lo + w * np.round(rng.uniform(0, 1, n) * 1024) / 1024
                x[:, i] = base_ + w * rng.choice([0, 0, 1, -1, 2, -2, 3, -5, 17, -40], n)
                ex = rng.random(n)
                x[:, i] = np.where(ex < .08, hi, np.where(ex < .16, lo, np.where(ex < .2, hi + w, x[:, i])))
            xin = x.copy()
            y = s.apply_boundary_conditions_x(x)
            info = dict(bounds=b, periodic=per_arg, reflective=ref_arg, x=xin)
            rep.case(("bc", d, tuple(periodic), tuple(reflective), t), info)
            rep.check(np.array_equal(x, xin), "the caller's array was modified", **info)
            if not rep.check(np.shape(y) == xin.shape, "shape changed", got=y, **info):
                continue
            for j in range(n):
                for i in range(d):
                    v, g = xin[j, i], float(y[j, i])
                    if i in free or (b[i, 0] <= v <= b[i, 1]):
                        rep.check(g == v, "a value in range or without boundary condition was changed", row=j, col=i, got=g, **info)
                        continue
                    kind = "periodic" if i in periodic else "reflective"
                    tol = 1e-9 * (1 + abs(v) + abs(b[i]).max())
                    cand = unfold(v, b[i, 0], b[i, 1], kind)
                    rep.check(b[i, 0] - tol * 0 <= g <= b[i, 1] + 0, "%s value not brought into range" % kind, row=j, col=i, got=g, **info)
                    rep.check(any(abs(float(c) - g) <= tol for c in cand), "%s value mapped to the wrong point" % kind, row=j, col=i,
                              got=g, want=[float(c) for c in cand], **info)

    def generic(rep):
        for t in range(200 if THOROUGH else 80):
            lo = float(rng.normal(0, 3)); hi = lo + float(rng.gamma(1, 2) + .05)
            v = lo + (hi - lo) * float(rng.normal(0, rng.choice([0.6, 3, 20])))
            for kind in ("periodic", "reflective"):
                b = np.array([[-np.inf, np.inf], [lo, hi]])
                s = Reparameterize(2, bounds=b, **{kind: [1]})
                g = s.apply_boundary_conditions_x(np.array([[v * 2, v]]))
                rep.case((kind, t))
                want = float(unfold(v, lo, hi, kind)[0])
                tol = 1e-9 * (abs(v) + abs(lo) + abs(hi))
                w = hi - lo
                d_ = abs(g[0, 1] - want)
                if kind == "periodic":
                    d_ = min(d_, abs(d_ - w))
                rep.check(lo <= g[0, 1] <= hi and d_ <= tol and g[0, 0] == v * 2, "%s condition wrong" % kind, low=lo, high=hi, x=v, got=g, want=want)

    rep.run("exact", bc)
    rep.run("generic", generic)


def c04(rep):
    rng = np.random.default_rng(SEED + 3)

    def raises(fn, *a, **k):
        try:
            fn(*a, **k)
            return None
        except ValueError as e:
            if isinstance(e, np.linalg.LinAlgError):
                return None
            return e

    def positions(rep):
        for kinds in combos(rng, THOROUGH):
            b = bounds_for(kinds, rng)
            d = len(kinds)
            n = int(rng.integers(1, 6))
            s = Reparameterize(d, bounds=b.copy(), scale=False, transform=str(rng.choice(["probit", "logit"])))
            x = interior(kinds, b, n, rng)
            info = dict(kinds=kinds, bounds=b)
            rep.case(("in", kinds), info)
            rep.check(raises(s.forward, x) is None and raises(s.fit, x) is None, "data inside the bounds rejected", x=x, **info)
            xc = x.copy()
            for i, k in enumerate(kinds):
                if base(k) in ("left", "both"):
                    xc[rng.integers(n), i] = b[i, 0]
                if base(k) in ("right", "both") and n > 1:
                    xc[rng.integers(n), i] = b[i, 1]
            rep.check(raises(s.forward, xc) is None and raises(s.fit, xc) is None, "data on the closed bounds rejected", x=xc, **info)
            for r in range(n):
                for i, k in enumerate(kinds):
                    bad = [np.nan]
                    if base(k) in ("left", "both"):
                        bad += [np.nextafter(b[i, 0], -np.inf), b[i, 0] - 5, -np.inf]
                    if base(k) in ("right", "both"):
                        bad += [np.nextafter(b[i, 1], np.inf), b[i, 1] + 5, np.inf]
                    for v in bad:
                        y = x.copy()
                        y[r, i] = v
                        rep.case((kinds, r, i, str(v)))
                        rep.check(raises(s.forward, y) is not None, "forward accepted data outside the bounds", x=y, row=r, col=i, **info)
                        rep.check(raises(s.fit, y) is not None, "fit accepted data outside the bounds", x=y, row=r, col=i, **info)
                    ok = []
                    if base(k) in ("none", "left"):
                        ok.append(1e12)
                    if base(k) in ("none", "right"):
                        ok.append(-1e12)
                    for v in ok:
                        y = x.copy()
                        y[r, i] = v
                        rep.check(raises(s.forward, y) is None, "a side without a bound was limited", x=y, row=r, col=i, **info)
            lo, hi = s.low.copy(), s.high.copy()
            raises(s.forward, x)
            rep.check(np.array_equal(s.low, lo, equal_nan=True) and np.array_equal(s.high, hi, equal_nan=True), "checking changed the stored bounds", **info)

    def modes(rep):
        b = np.array([[0., 1.], [-np.inf, 2.], [np.nan, np.nan]])
        for tr in ("probit", "logit"):
            for kw in (dict(scale=True), dict(scale=True, diagonal=False)):
                s = Reparameterize(3, bounds=b, transform=tr, **kw)
                x = interior(("both", "right", "none"), b, 20, rng)
                s.fit(x)
                y = x.copy(); y[7, 0] = 1.5
                z = x.copy(); z[3, 1] = 2.5
                rep.case((tr, str(kw)))
                for q in (y, z):
                    rep.check(raises(s.forward, q) is not None, "scaled forward accepted data outside the bounds", x=q)
                    rep.check(raises(s.fit, q) is not None, "scaled fit accepted data outside the bounds", x=q)
                rep.check(raises(s.forward, x) is None, "scaled forward rejected data inside the bounds", x=x)
                rep.check(raises(s.forward, y, check_input=False) is None, "input checking off still rejects", x=y)
        s = Reparameterize(2)
        rep.check(raises(s.forward, np.array([[np.nan, 0.]])) is not None, "NaN accepted without bounds")
        s2 = Reparameterize(2, scale=False)
        rep.check(raises(s2.forward, np.array([[1e300, -1e300]])) is None, "no bounds: value rejected")

    def helper(rep):
        import pocomc.input_validation as iv
        f = seam(iv, "assert_array_within_interval")
        for lo_open in (False, True):
            for hi_open in (False, True):
                l, r = np.array([0., np.nan, -1.]), np.array([1., 2., np.nan])
                cases = [([.5, -9., 7.], True), ([0., 2., -1.], not (lo_open or hi_open)), ([0., 1., 0.], not lo_open), ([1., 1., 0.], not hi_open),
                         ([-.1, 0, 0], False), ([.5, 2.1, 0], False), ([.5, 0, -1.1], False), ([np.nan, 0, 0], False)]
                for v, ok in cases:
                    l0, r0 = l.copy(), r.copy()
                    got = raises(f, np.array([v, [.5, 0., 0.]]), l, r, left_open=lo_open, right_open=hi_open) is None
                    rep.case((lo_open, hi_open, str(v)))
                    rep.check(got == ok, "interval check wrong", x=v, left=l, right=r, left_open=lo_open, right_open=hi_open, accepted=got)
                    rep.check(np.array_equal(l, l0, equal_nan=True) and np.array_equal(r, r0, equal_nan=True), "bounds modified")

    rep.run("positions", positions)
    rep.run("modes", modes)
    rep.run("helper", helper)
