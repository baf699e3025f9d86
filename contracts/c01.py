from .scalerlib import *

Q = "pocomc.scaler:Reparameterize."


def inside(x, l, h):
    """Strictly inside the bounds, finite."""
    return And(x.fin, Implies(l.fin, x.r > l.r), Implies(h.fin, x.r < h.r))


def parts(transform):
    """_inverse(_forward(x)) = x inside the bounds; _forward(_inverse(u)) = u and _inverse(u) within the bounds."""
    def unit(U):
        E = U.E
        for first in ("x", "u"):
            def run(ctx):
                d, s, gl, gh = build(U, ctx, transform=transform)
                n = ctx.pint("n")
                a = ctx.sym_arr(first, (n, d))
                sa = Snap(a)
                i, j = ctx.fint("i"), ctx.fint("q")
                ctx.assume(inrange(i, n))
                ctx.assume(inrange(j, d))
                call = lambda m, v: E.ip.call(ctx, E.ip.getattr(ctx, s, m), [v], {})
                if first == "x":
                    ctx.assume(zb(inside(sa.g((i, j)), gl((j,)), gh((j,)))))
                    mid = call("_forward", a)
                    back = call("_inverse", mid)[0]
                else:
                    mid = call("_inverse", a)[0]
                    back = call("_forward", mid)
                return n, d, a, sa, i, j, mid, back, gl, gh
            for ctx, oc in U.paths(run):
                if not U.reach(ctx) or not U.no_raise(ctx, oc):
                    continue
                n, d, a, sa, i, j, mid, back, gl, gh = oc[1]
                l, h = gl((j,)), gh((j,))
                v0, m, b = sa.g((i, j)), xf(mid.get((i, j))), xf(back.get((i, j)))
                for kn, k in zip(("unbounded", "lower-bounded", "upper-bounded", "doubly bounded"), kinds(l, h)):
                    tag = "%s, %s: " % ("inverse of forward" if first == "x" else "forward of inverse", kn)
                    U.prove(ctx, tag + "intermediate value is finite", Implies(k, m.fin))
                    if first == "u":
                        U.prove(ctx, tag + "the point lies strictly within the bounds", Implies(k, inside(m, l, h)))
                    U.prove(ctx, tag + "returns the point", Implies(k, And(b.fin, b.r == v0.r)), hint=[zb(k)] if False else [])
                U.prove(ctx, "shapes are kept", And(iv(mid.shape[0]) == n, iv(mid.shape[1]) == d, iv(back.shape[0]) == n, iv(back.shape[1]) == d))
                unchanged(U, ctx, "argument unchanged", a, sa)
    return unit

def affine(diag):
    """The rescaling learnt by fit is inverted exactly."""
    def unit(U):
        E = U.E
        for first in ("forward", "inverse"):
            def run(ctx):
                d, s, gl, gh = build(U, ctx, diagonal=diag)
                n, m = ctx.pint("n"), ctx.pint("m")
                uu = ctx.sym_arr("uu", (m, d))
                E.active[Q + "_forward"] = lambda c, f, a, k: copy_arr(uu)
                E.active["pocomc.input_validation:assert_array_within_interval"] = lambda c, f, a, k: None
                E.ip.call(ctx, E.ip.getattr(ctx, s, "fit"), [ctx.sym_arr("xs", (m, d))], {})
                del E.active[Q + "_forward"]
                i, j = ctx.fint("i"), ctx.fint("q")
                ctx.assume(inrange(i, n))
                ctx.assume(inrange(j, d))
                if diag:
                    sg = E.ip.getattr(ctx, s, "sigma")
                    v = xf(sg.get((j,)))
                    ctx.assume(zb(And(v.fin, v.r > 0)))
                a = ctx.sym_arr("v", (n, d))
                sa = Snap(a)
                call = lambda mth, v: E.ip.call(ctx, E.ip.getattr(ctx, s, mth), [v], {})
                if first == "forward":
                    mid = call("_forward_affine", a)
                    back = call("_inverse_affine", mid)[0]
                else:
                    mid = call("_inverse_affine", a)[0]
                    back = call("_forward_affine", mid)
                return n, d, a, sa, i, j, mid, back
            for ctx, oc in U.paths(run):
                if not U.reach(ctx) or not U.no_raise(ctx, oc):
                    continue
                n, d, a, sa, i, j, mid, back = oc[1]
                mv, b = xf(mid.get((i, j))), xf(back.get((i, j)))
                tag = "%s first: " % first
                U.prove(ctx, tag + "intermediate value is finite", mv.fin)
                U.prove(ctx, tag + "returns the point", And(b.fin, b.r == sa.g((i, j)).r))
                unchanged(U, ctx, tag + "argument unchanged", a, sa)
    return unit


def whole(transform, mode):
    """The public forward / inverse pair, everything inlined, with any fitted location and scale."""
    def unit(U):
        E = U.E
        for first in ("x", "u"):
            def run(ctx):
                d, s, gl, gh = build(U, ctx, transform=transform, scale=mode != "off", diagonal=mode != "full")
                n = ctx.pint("n")
                i, j = ctx.fint("i"), ctx.fint("q")
                ctx.assume(inrange(i, n))
                ctx.assume(inrange(j, d))
                if mode == "diagonal":
                    mu, sg = ctx.sym_arr("mu", (d,)), ctx.sym_arr("sg", (d,))
                    S.TH.schema(sg.get((j,)).r.decl(), lambda q, dd=sg.get((j,)).r.decl(): [dd(q) > 0])
                    S.SIGNS[sg.get((j,)).r.decl().name()] = 2
                    ctx.set(s, "attrs", dict(s.attrs, mu=mu, sigma=sg)) if False else s.attrs.update(mu=mu, sigma=sg)
                a = ctx.sym_arr(first, (n, d))
                sa = Snap(a)
                call = lambda m, v, **k: E.ip.call(ctx, E.ip.getattr(ctx, s, m), [v], k)
                if first == "x":
                    ctx.assume(zb(inside(sa.g((i, j)), gl((j,)), gh((j,)))))
                    mid = call("forward", a, check_input=False)
                    back = call("inverse", mid)[0]
                else:
                    mid = call("inverse", a)[0]
                    back = call("forward", mid, check_input=False)
                return n, d, a, sa, i, j, mid, back, gl, gh
            for ctx, oc in U.paths(run):
                if not U.reach(ctx) or not U.no_raise(ctx, oc):
                    continue
                n, d, a, sa, i, j, mid, back, gl, gh = oc[1]
                l, h = gl((j,)), gh((j,))
                v0, m, b = sa.g((i, j)), xf(mid.get((i, j))), xf(back.get((i, j)))
                for kn, k in zip(("unbounded", "lower-bounded", "upper-bounded", "doubly bounded"), kinds(l, h)):
                    tag = "%s, %s: " % ("inverse of forward" if first == "x" else "forward of inverse", kn)
                    U.prove(ctx, tag + "returns the point", Implies(k, And(b.fin, b.r == v0.r)))
                unchanged(U, ctx, "argument unchanged", a, sa)
    return unit


def composed(U):
    """forward = rescaling after the coordinate maps, inverse = the coordinate maps after undoing the rescaling (callees by contract)."""
    E = U.E
    PF, PI, AF, AI = [RowFn(x, "row") for x in ("PF", "PI", "AF", "AI")]
    LP, LA = RowFn("LPI", "real"), RowFn("LAI", "real")
    for scale in (True, False):
        for diag in (True, False):
            def run(ctx):
                d, s, gl, gh = build(U, ctx, scale=scale, diagonal=diag)
                n = ctx.pint("n")
                x = ctx.sym_arr("x", (n, d), flags=True)
                u = ctx.sym_arr("u", (n, d), flags=True)
                E.active[Q + "_forward"] = lambda c, f, a, k: rowmap(c, PF, a[1], d)
                E.active[Q + "_inverse"] = lambda c, f, a, k: (rowmap(c, PI, a[1], d), rowval(c, LP, a[1]))
                E.active[Q + "_forward_affine"] = lambda c, f, a, k: rowmap(c, AF, a[1], d)
                E.active[Q + "_inverse_affine"] = lambda c, f, a, k: (rowmap(c, AI, a[1], d), rowval(c, LA, a[1]))
                sx, su = Snap(x), Snap(u)
                ctx.taint.append("modular")
                f = E.ip.call(ctx, E.ip.getattr(ctx, s, "forward"), [x], {"check_input": False})
                g = E.ip.call(ctx, E.ip.getattr(ctx, s, "inverse"), [u], {})
                return n, d, x, u, sx, su, f, g
            for ctx, oc in U.paths(run):
                if not U.reach(ctx) or not U.no_raise(ctx, oc):
                    continue
                n, d, x, u, sx, su, f, g = oc[1]
                xr = lambda i: row_term(ctx, sx.arr(), i)
                ur = lambda i: row_term(ctx, su.arr(), i)
                tag = "rescaling %s: " % ("on" if scale else "off")
                fw = (lambda r: AF(PF(r))) if scale else PF
                bw = (lambda r: PI(AI(r))) if scale else PI
                lj = (lambda r: xadd(LA(r), LP(AI(r)))) if scale else LP
                i, j = ctx.fint("i"), ctx.fint("q")
                ctx.assume(inrange(i, n))
                ctx.assume(inrange(j, d))
                U.prove(ctx, tag + "forward composes the coordinate maps and the rescaling", val_same(f.get((i, j)), el_xf(fw(xr(i)), j)))
                U.prove(ctx, tag + "inverse undoes them in the opposite order", val_same(g[0].get((i, j)), el_xf(bw(ur(i)), j)))
                U.prove(ctx, tag + "log-Jacobians of both stages are added", val_same(g[1].get((i,)), lj(ur(i))))
                unchanged(U, ctx, tag + "argument of forward unchanged", x, sx)
                unchanged(U, ctx, tag + "argument of inverse unchanged", u, su)
    E.active.clear()


def prove():
    q = "pocomc.scaler.Reparameterize."
    fl = [q + m for m in ("_forward", "_inverse", "_forward_none", "_inverse_none", "_forward_left", "_inverse_left", "_forward_right", "_inverse_right",
                          "_forward_both", "_inverse_both", "_create_masks", "__init__")]
    return run_units("C01", [Unit("per-coordinate maps (%s)" % t, fl, parts(t)) for t in ("probit", "logit")] +
                     [Unit("rescaling (%s)" % ("diagonal" if g else "full covariance"), [q + "fit", q + "_forward_affine", q + "_inverse_affine"], affine(g)) for g in (True, False)] +
                     [Unit("forward/inverse (%s, rescaling %s)" % (t, m), fl + [q + "forward", q + "inverse"], whole(t, m)) for t in ("probit", "logit") for m in ("off", "diagonal")] +
                     [Unit("composition of forward and inverse", [q + "forward", q + "inverse"], composed)],
                     assumptions=["the standard deviations found by fit are positive, the covariance found by fit is positive definite (np.linalg.cholesky/inv are contracts: L L^-1 = 1)",
                                  "exp/log, erf/erfinv, logaddexp satisfy their defining identities on the reals"])
