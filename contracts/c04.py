from .scalerlib import *

CHECK = "pocomc.input_validation:assert_array_within_interval"


def bad_at(x, l, h):
    return Or(x.nan, And(Not(l.nan), xlt(x, l)), And(Not(h.nan), xlt(h, x)))


def interval(U):
    """assert_array_within_interval raises ValueError exactly when some coordinate is outside (or NaN)."""
    def run(ctx):
        n, d = ctx.pint("n"), ctx.pint("d")
        x = ctx.sym_arr("x", (n, d), flags=True)
        lo, hi = ctx.sym_arr("lo", (d,), flags=True), ctx.sym_arr("hi", (d,), flags=True)
        ss = [Snap(a) for a in (x, lo, hi)]
        U.data = (n, d, x, lo, hi, ss)
        return U.E.ip.call(ctx, U.E.func(CHECK), [x, lo, hi], {})
    for ctx, oc in U.paths(run):
        if not U.reach(ctx):
            continue
        n, d, x, lo, hi, ss = U.data
        gx, gl, gh = [s.g for s in ss]
        bad = lambda i, j: bad_at(gx((i, j)), gl((j,)), gh((j,)))
        if oc[0] == "raise":
            U.prove(ctx, "raises ValueError", oc[1].cls.issub(U.E.exc("ValueError")))
            U.prove(ctx, "raises only if some coordinate is outside its bounds or NaN", S.any_atom(n, lambda i: S.any_atom(d, lambda j: bad(i, j))))
        else:
            i, j = ctx.fint("i"), ctx.fint("q")
            U.prove(ctx, "accepts only if every coordinate is within its bounds", Implies(And(inrange(i, n), inrange(j, d)), Not(bad(i, j))))
        for a, s, nm in zip((x, lo, hi), ss, ("data", "lower bounds", "upper bounds")):
            unchanged(U, ctx, nm + " unchanged", a, s)


def caller(meth, kwargs, checks):
    def unit(U):
        for diag in (True, False) if meth == "fit" else (True,):
            def run(ctx):
                E = U.E
                d, s, gl, gh = build(U, ctx, diagonal=diag)
                n = ctx.pint("n")
                x = ctx.sym_arr("x", (n, d), flags=True)
                gx = snapshot(x)
                st = dict(checked=False, raised=False)
                U.data = (n, d, gx, gl, gh, st)

                def contract(c, f, args, kw):
                    # the callee's contract, checked against the data and the bounds of this object
                    names = ["x", "left", "right"]
                    v = dict(zip(names, args)); v.update(kw)
                    if kw.get("left_open") or kw.get("right_open") or len(args) > 3:
                        raise Unsupported("open interval")
                    fx, fl, fh = snapshot(as_arr(c, v["x"])), snapshot(as_arr(c, v["left"])), snapshot(as_arr(c, v["right"]))
                    i, j = c.fint("i"), c.fint("q")
                    pre = And(inrange(i, n), inrange(j, d))
                    st["checked"] = True
                    U.prove(c, "the data given are checked against this object's own bounds, coordinate by coordinate",
                            Implies(pre, And(xsame(fx((i, j)), gx((i, j))), xsame(fl((j,)), gl((j,))), xsame(fh((j,)), gh((j,))))))
                    badv = S.any_atom(n, lambda a: S.any_atom(d, lambda b: bad_at(fx((a, b)), fl((b,)), fh((b,)))))
                    if c.branch(badv):
                        st["raised"] = True
                        raise PyExc(E.exc("ValueError"), ("outside",))
                    return None
                E.active[CHECK.replace(":", ".")] = contract
                E.active[CHECK] = contract
                E.active["pocomc.scaler:Reparameterize._forward"] = lambda c, f, a, k: c.sym_arr("uf", (n, d), flags=True)
                E.active["pocomc.scaler:Reparameterize._forward_affine"] = lambda c, f, a, k: c.sym_arr("ufa", (n, d), flags=True)
                return E.ip.call(ctx, E.ip.getattr(ctx, s, meth), [x], dict(kwargs))
            for ctx, oc in U.paths(run):
                if not U.reach(ctx):
                    continue
                n, d, gx, gl, gh, st = U.data
                if not checks:
                    U.prove(ctx, "no check when switched off", oc[0] == "ok")
                    continue
                U.prove(ctx, "the data are checked", st["checked"])
                if oc[0] == "raise":
                    U.prove(ctx, "fails only through the bounds check, with ValueError", bool(st["raised"] and oc[1].cls.issub(U.E.exc("ValueError"))))
                else:
                    U.prove(ctx, "does not swallow the failure", not st["raised"])
    return unit


def bounds_none(U):
    """Bounds not given impose no limit; a pair of numbers applies to every parameter."""
    E = U.E
    for pair in (False, True):
        def run(ctx):
            d = ctx.pint("d")
            cls = E.load("pocomc.scaler").vars["Reparameterize"]
            if pair:
                ctx.assume(d != 2)
                a, b = ctx.sym_xf("a", flags=True), ctx.sym_xf("b", flags=True)
                s = E.ip.call(ctx, cls, [d], dict(bounds=(a, b)))
                return d, s, a, b
            return d, E.ip.call(ctx, cls, [d], {}), NINF, PINF
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            d, s, a, b = oc[1]
            nm = "a pair of bounds applies to every parameter" if pair else "omitted bounds are -inf and +inf"
            arr_same(U, ctx, nm + " (lower)", s.attrs["low"], Arr((d,), lambda idx: a, "f"))
            arr_same(U, ctx, nm + " (upper)", s.attrs["high"], Arr((d,), lambda idx: b, "f"))


def prove():
    q = "pocomc.scaler.Reparameterize."
    return run_units("C04", [
        Unit("assert_array_within_interval", ["pocomc.input_validation.assert_array_within_interval"], interval),
        Unit("Reparameterize.fit", [q + "fit", q + "__init__", q + "_create_masks"], caller("fit", {}, True)),
        Unit("Reparameterize.forward", [q + "forward"], caller("forward", {}, True)),
        Unit("Reparameterize.forward(check_input=True)", [q + "forward"], caller("forward", {"check_input": True}, True)),
        Unit("Reparameterize.forward(check_input=False)", [q + "forward"], caller("forward", {"check_input": False}, False)),
        Unit("Reparameterize.__init__ bounds", [q + "__init__"], bounds_none),
    ], assumptions=["the fitted covariance of full-covariance rescaling is positive definite (np.linalg.cholesky does not fail)",
                    "conversion of a pair of bounds to float32 is exact"])
