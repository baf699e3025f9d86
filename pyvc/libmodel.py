"""Tables of modelled library functions and methods."""
import math
import z3
from fractions import Fraction
from .term import *  # noqa
from . import term as T
from . import solver as S
from .values import *  # noqa
from .ctx import merge, same_dim, fresh_name
from .ops import *  # noqa
from .index import *  # noqa
from .interp import IterVal, elem, KeysView, AttrsDict, PathVal, path_key, StarArgs, class_lookup
from .loops import sum_xf
from .npmodel import DT, Dtype, dtype_code, arg, only


def install(E):
    np_ = E.np
    ip = E.ip

    def M(name):
        def deco(f):
            tbl[name] = Model("np." + name, f)
            return f
        return deco
    tbl = {}
    E.nptbl = tbl

    def ew(name, f, dt=None):
        def g(ctx, a, kw):
            if "out" in kw or "where" in kw:
                raise Unsupported("ufunc keyword")
            return elementwise(ctx, f, a, dt)
        tbl[name] = Model("np." + name, g)

    num = lambda f: (lambda *a: f(*[xf(x) for x in a]))
    ew("exp", num(xexp), "f")
    ew("sqrt", num(xsqrt), "f")
    ew("isfinite", lambda x: True if is_int(x) or is_bool(x) else xf(x).fin, "b")
    ew("isnan", lambda x: False if is_int(x) or is_bool(x) else xf(x).nan, "b")
    ew("isinf", lambda x: False if is_int(x) or is_bool(x) else xf(x).inf, "b")
    ew("isneginf", lambda x: xf(x).ni, "b")
    ew("isposinf", lambda x: xf(x).pi, "b")
    ew("logical_and", lambda x, y: And(x, y), "b")
    ew("logical_or", lambda x, y: Or(x, y), "b")
    ew("logical_not", lambda x: Not(x), "b")
    ew("square", num(lambda x: xmul(x, x)), "f")
    ew("negative", num(xneg), "f")
    ew("log1p", num(lambda x: xlog(xadd(XF(rv(1)), x))), "f")
    ew("expm1", num(lambda x: xsub(xexp(x), XF(rv(1)))), "f")
    ew("sign", num(lambda x: XF(z3.If(x.r > 0, rv(1), z3.If(x.r < 0, rv(-1), ZERO)), x.nan)), "f")
    for nm, op in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("power", "**"), ("mod", "%"), ("true_divide", "/"),
                   ("remainder", "%"), ("floor_divide", "//")):
        tbl[nm] = Model("np." + nm, lambda ctx, a, kw, op=op: ip.binop(ctx, op, a[0], a[1]))
    for nm, op in (("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">="), ("equal", "=="), ("not_equal", "!=")):
        ew(nm, lambda x, y, op=op: cmp_scalar(op, x, y), "b")

    @M("floor")
    def _floor(ctx, a, kw):
        return elementwise(ctx, lambda x: XF(toreal(iv(xfloor_int(xf(x))))), a, "f")

    @M("log")
    def _log(ctx, a, kw):
        return elementwise(ctx, lambda x: xlog(xf(x)), a, "f")

    def absf(x):
        if is_int(x):
            return abs(x) if isinstance(x, int) else z3.If(x >= 0, x, -x)
        return xabs(xf(x))
    ew("abs", absf)
    ew("absolute", absf)
    ew("fabs", num(xabs), "f")

    def minmax(f, ifn):
        def g(x, y):
            if is_int(x) and is_int(y):
                if isinstance(x, int) and isinstance(y, int):
                    return ifn(x, y)
                c = iv(x) <= iv(y)
                return z3.If(c, iv(x), iv(y)) if ifn is min else z3.If(c, iv(y), iv(x))
            return f(xf(x), xf(y))
        return g
    ew("minimum", minmax(xmin, min))
    ew("maximum", minmax(xmax, max))

    def clip(x, lo, hi):
        if lo is not None:
            x = minmax(xmax, max)(x, lo)
        if hi is not None:
            x = minmax(xmin, min)(x, hi)
        return x

    @M("clip")
    def _clip(ctx, a, kw):
        lo, hi = arg(a, kw, 1, "a_min"), arg(a, kw, 2, "a_max")
        x = a[0]
        if lo is not None:
            x = elementwise(ctx, minmax(xmax, max), [x, lo])
        if hi is not None:
            x = elementwise(ctx, minmax(xmin, min), [x, hi])
        return x

    lae = ObjVal(None, {"__call__": Model("np.logaddexp", lambda ctx, a, kw: elementwise(ctx, np_.logaddexp, a, "f")),
                        "reduce": Model("np.logaddexp.reduce", lambda ctx, a, kw: np_.lae_reduce(ctx, as_arr(ctx, a[0]), arg(a, kw, 1, "axis", 0)))})
    tbl["logaddexp"] = lae
    for nm, red in (("add", "sum"),):
        tbl[nm] = ObjVal(None, {"__call__": tbl[nm], "reduce": Model("np.add.reduce", lambda ctx, a, kw: np_.sum(ctx, a[0], arg(a, kw, 1, "axis", 0)))})

    @M("array")
    def _array(ctx, a, kw):
        only(kw, "dtype", "copy")
        return np_.array(ctx, a[0], arg(a, kw, 1, "dtype"))

    @M("asarray")
    def _asarray(ctx, a, kw):
        only(kw, "dtype")
        if isinstance(a[0], Arr) and arg(a, kw, 1, "dtype") is None:
            return a[0]
        h = E.hooks.get("asarray")
        if h:
            r = h(ctx, a[0])
            if r is not None:
                return r
        return np_.array(ctx, a[0], arg(a, kw, 1, "dtype"))
    tbl["asanyarray"] = tbl["asarray"]

    @M("copy")
    def _copy(ctx, a, kw):
        if isinstance(a[0], Arr):
            return copy_arr(a[0])
        if is_num(a[0]):
            return a[0]
        return np_.array(ctx, a[0])

    def filler(val):
        def f(ctx, a, kw):
            dt = dtype_code(arg(a, kw, 1, "dtype"), "f")
            return np_.full(ctx, a[0] if a else kw["shape"], val, dt)
        return f
    tbl["zeros"] = Model("np.zeros", filler(0))
    tbl["ones"] = Model("np.ones", filler(1))

    @M("empty")
    def _empty(ctx, a, kw):
        return np_.empty(ctx, a[0] if a else kw["shape"], dtype_code(arg(a, kw, 1, "dtype"), "f"))

    @M("full")
    def _full(ctx, a, kw):
        v = arg(a, kw, 1, "fill_value")
        dt = arg(a, kw, 2, "dtype")
        return np_.full(ctx, a[0] if a else kw["shape"], v, dtype_code(dt) if dt is not None else dt_of(v))

    def like(val):
        def f(ctx, a, kw):
            x = as_arr(ctx, a[0])
            dt = dtype_code(kw["dtype"]) if kw.get("dtype") is not None else x.dt
            if val is None:
                return np_.empty(ctx, x.shape, dt)
            return np_.full(ctx, x.shape, val, dt)
        return f
    tbl["zeros_like"] = Model("np.zeros_like", like(0))
    tbl["ones_like"] = Model("np.ones_like", like(1))
    tbl["empty_like"] = Model("np.empty_like", like(None))

    @M("full_like")
    def _full_like(ctx, a, kw):
        x = as_arr(ctx, a[0])
        dt = dtype_code(kw["dtype"]) if kw.get("dtype") is not None else x.dt
        return np_.full(ctx, x.shape, arg(a, kw, 1, "fill_value"), dt)

    @M("arange")
    def _arange(ctx, a, kw):
        only(kw, "dtype")
        if len(a) == 1:
            lo, hi = 0, a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            raise Unsupported("arange step")
        if not (is_int(lo) and is_int(hi)):
            raise Unsupported("arange of non-integers")
        n = sub_i(hi, lo)
        if is_z3(n) and ctx.quick(n >= 0) is not True:
            n = z3.If(n >= 0, n, z3.IntVal(0))
        dt = dtype_code(kw.get("dtype"), "i")
        return Arr((n,), lambda idx: cast(dt, add_i(lo, idx[0])), dt, tag={"arange": True} if isinstance(lo, int) and lo == 0 and dt == "i" else {})

    @M("linspace")
    def _linspace(ctx, a, kw):
        only(kw, "num")
        lo, hi, n = xf(a[0]), xf(a[1]), arg(a, kw, 2, "num", 50)
        if isinstance(n, int):
            m = max(n - 1, 1)
            st = xdiv(xsub(hi, lo), xf(m))
        else:
            st = xdiv(xsub(hi, lo), XF(z3.If(n > 1, toreal(n - 1), rv(1))))
        return Arr((n,), lambda idx: xadd(lo, xmul(xf(idx[0]), st)), "f", tag={"linspace": (lo, hi)})

    @M("tile")
    def _tile(ctx, a, kw):
        x, reps = as_arr(ctx, a[0]), arg(a, kw, 1, "reps")
        if isinstance(reps, PyList):
            reps = tuple(reps.items)
        g = snapshot(x)
        if not isinstance(reps, tuple):
            reps = (reps,)
        shp = x.shape
        while len(shp) < len(reps):
            shp = (1,) + shp
        while len(reps) < len(shp):
            reps = (1,) + reps
        off = len(shp) - x.ndim
        out = []
        for d, r in zip(shp, reps):
            out.append(d * r if isinstance(d, int) and isinstance(r, int) else (r if isinstance(d, int) and d == 1 else (d if isinstance(r, int) and r == 1 else z3.simplify(iv(d) * iv(r)))))

        def fn(idx):
            ix = []
            for j in range(off, len(shp)):
                d, r = shp[j], reps[j]
                if isinstance(d, int) and d == 1:
                    ix.append(0)
                elif isinstance(r, int) and r == 1:
                    ix.append(idx[j])
                else:
                    ix.append(idx[j] % d if isinstance(idx[j], int) and isinstance(d, int) else iv(idx[j]) % iv(d))
            return g(tuple(ix))
        return Arr(tuple(out), fn, x.dt)

    @M("shape")
    def _shape(ctx, a, kw):
        v = a[0]
        if isinstance(v, Arr):
            return v.shape
        if isinstance(v, (PyList, tuple)):
            return as_arr(ctx, v).shape
        h = E.hooks.get("shape")
        if h:
            return h(ctx, v)
        raise Unsupported("np.shape of %r" % (v,))

    @M("ndim")
    def _ndim(ctx, a, kw):
        return as_arr(ctx, a[0]).ndim

    @M("size")
    def _size(ctx, a, kw):
        return np_.count_of(as_arr(ctx, a[0]), None)

    @M("transpose")
    def _transpose(ctx, a, kw):
        return transpose(ctx, as_arr(ctx, a[0]))

    @M("reshape")
    def _reshape(ctx, a, kw):
        return reshape(E, ctx, as_arr(ctx, a[0]), np_.shape_arg(a[1]))

    @M("concatenate")
    def _concat(ctx, a, kw):
        only(kw, "axis")
        ax = arg(a, kw, 1, "axis", 0)
        h = E.hooks.get("concatenate")
        if h:
            r = h(ctx, a[0], ax)
            if r is not None:
                return r
        return concatenate(E, ctx, a[0], ax)
    tbl["hstack"] = Model("np.hstack", lambda ctx, a, kw: concatenate(E, ctx, a[0], 0 if all(as_arr(ctx, x).ndim == 1 for x in ip.iterate_concrete(ctx, a[0])) else 1))

    @M("stack")
    def _stack(ctx, a, kw):
        if arg(a, kw, 1, "axis", 0) != 0:
            if arg(a, kw, 1, "axis", 0) in (1, -1):
                r = np_.array(ctx, a[0])
                if r.ndim == 2:
                    return transpose(ctx, r)
            raise Unsupported("stack axis")
        return np_.array(ctx, a[0])
    tbl["vstack"] = Model("np.vstack", lambda ctx, a, kw: np_.array(ctx, a[0]))
    tbl["column_stack"] = Model("np.column_stack", lambda ctx, a, kw: transpose(ctx, np_.array(ctx, a[0])))

    @M("atleast_1d")
    def _al1(ctx, a, kw):
        x = as_arr(ctx, a[0])
        if x.ndim == 0:
            v = x.get(())
            return Arr((1,), lambda idx: v, x.dt)
        return x

    @M("atleast_2d")
    def _al2(ctx, a, kw):
        x = as_arr(ctx, a[0])
        if x.ndim == 0:
            v = x.get(())
            return Arr((1, 1), lambda idx: v, x.dt, tag=dict(x.tag))
        if x.ndim == 1:
            return basic_view(ctx, x, (None, slice(None)))
        return x

    @M("squeeze")
    def _sq(ctx, a, kw):
        x = as_arr(ctx, a[0])
        ax = arg(a, kw, 1, "axis")
        return squeeze(E, ctx, x, ax)

    @M("expand_dims")
    def _ed(ctx, a, kw):
        x = as_arr(ctx, a[0])
        ax = arg(a, kw, 1, "axis")
        key = [slice(None)] * x.ndim
        key.insert(ax if ax >= 0 else x.ndim + 1 + ax, None)
        return basic_view(ctx, x, tuple(key))

    @M("where")
    def _where(ctx, a, kw):
        if len(a) == 3:
            return elementwise(ctx, lambda c, x, y: merge(ip.truth(ctx, c), x, y), a,
                               "f" if "f" in (dt_of(a[1]), dt_of(a[2])) else dt_of(a[1]))
        if len(a) == 1:
            c = a[0]
            n = c.shape[0]
            ar = Arr((n,), lambda idx: idx[0], "i", tag={"arange": True})
            return (getitem(ctx, ar, c),)
        raise Unsupported("np.where")
    tbl["flatnonzero"] = Model("np.flatnonzero", lambda ctx, a, kw: tbl["where"].f(ctx, a, kw)[0])
    tbl["nonzero"] = Model("np.nonzero", lambda ctx, a, kw: tbl["where"].f(ctx, a, kw))

    @M("count_nonzero")
    def _cnz(ctx, a, kw):
        if a[0].dt != "b":
            raise Unsupported("count_nonzero")
        return np_.sum(ctx, a[0])

    def red(f):
        def g(ctx, a, kw):
            only(kw, "axis", "keepdims")
            if kw.get("keepdims"):
                return f(ctx, a[0], arg(a, kw, 1, "axis"), True)
            return f(ctx, a[0], arg(a, kw, 1, "axis"))
        return g
    tbl["sum"] = Model("np.sum", red(np_.sum))
    tbl["mean"] = Model("np.mean", red(np_.mean))
    tbl["any"] = Model("np.any", red(np_.any))
    tbl["all"] = Model("np.all", red(np_.all))
    tbl["max"] = tbl["amax"] = Model("np.max", red(lambda ctx, x, ax=None: np_.extremum(ctx, x, ax, 1)))
    tbl["min"] = tbl["amin"] = Model("np.min", red(lambda ctx, x, ax=None: np_.extremum(ctx, x, ax, -1)))

    @M("var")
    def _var(ctx, a, kw):
        only(kw, "axis", "ddof")
        return np_.var(ctx, a[0], arg(a, kw, 1, "axis"), kw.get("ddof", 0))

    @M("std")
    def _std(ctx, a, kw):
        only(kw, "axis", "ddof")
        v = np_.var(ctx, a[0], arg(a, kw, 1, "axis"), kw.get("ddof", 0))
        return elementwise(ctx, lambda x: xsqrt(xf(x)), [v], "f")

    @M("average")
    def _avg(ctx, a, kw):
        only(kw, "axis", "weights")
        x = as_arr(ctx, a[0])
        w = arg(a, kw, 2, "weights")
        ax = arg(a, kw, 1, "axis")
        if w is None:
            return np_.mean(ctx, x, ax)
        w = as_arr(ctx, w)
        if w.ndim != 1 or (x.ndim > 1 and ax is None):
            raise Unsupported("average")
        ax = 0 if ax is None else (ax + x.ndim if ax < 0 else ax)
        if not dims_equal(ctx, w.shape[0], x.shape[ax]):
            raise PyExc(E.exc("ValueError"), ("weights length",))
        g, h = snapshot(x), snapshot(w)
        prod = Arr(x.shape, lambda idx: xmul(xf(g(idx)), xf(h((idx[ax],)))), "f")
        return ip.binop(ctx, "/", np_.sum(ctx, prod, ax), np_.sum(ctx, w))

    @M("cov")
    def _cov(ctx, a, kw):
        only(kw, "aweights", "ddof", "rowvar")
        m = as_arr(ctx, a[0])
        if kw.get("rowvar", True) is False:
            m = transpose(ctx, m)
        return np_.cov(ctx, m, kw.get("aweights"), kw.get("ddof", 1) if kw.get("ddof") is not None else 1)

    @M("dot")
    def _dot(ctx, a, kw):
        return np_.dot(ctx, a[0], a[1])
    tbl["matmul"] = tbl["inner_"] = Model("np.matmul", lambda ctx, a, kw: np_.dot(ctx, a[0], a[1]))

    @M("diag")
    def _diag(ctx, a, kw):
        x = as_arr(ctx, a[0])
        g = snapshot(x)
        if x.ndim == 1:
            n = x.shape[0]
            return Arr((n, n), lambda idx: merge(z3.simplify(iv(idx[0]) == iv(idx[1])) if not z3.is_true(z3.simplify(iv(idx[0]) == iv(idx[1]))) else True, xf(g((idx[0],))), XF(ZERO)), "f")
        return Arr((x.shape[0],), lambda idx: g((idx[0], idx[0])), x.dt)
    tbl["diagonal"] = tbl["diag"]

    @M("eye")
    def _eye(ctx, a, kw):
        n = a[0]
        return Arr((n, n), lambda idx: XF(z3.If(iv(idx[0]) == iv(idx[1]), rv(1), ZERO)), "f")
    tbl["identity"] = tbl["eye"]

    @M("median")
    def _median(ctx, a, kw):
        x = as_arr(ctx, a[0])
        ax = arg(a, kw, 1, "axis")
        if x.ndim == 1:
            f, d = np_.uf(ctx, "MEDIAN", [x], 0)
            return XF(f())
        ax = ax + x.ndim if ax < 0 else ax
        f, d = np_.uf(ctx, "MEDIAN%d" % ax, [x], 1)
        return Arr((x.shape[1 - ax],), lambda idx: XF(f(idx[0])), "f")

    @M("percentile")
    def _pct(ctx, a, kw):
        only(kw, "q")
        return percentile(E, ctx, as_arr(ctx, a[0]), xf(arg(a, kw, 1, "q")))

    @M("quantile")
    def _qt(ctx, a, kw):
        only(kw, "q")
        return percentile(E, ctx, as_arr(ctx, a[0]), xmul(xf(arg(a, kw, 1, "q")), XF(rv(100))))

    @M("issubdtype")
    def _isd(ctx, a, kw):
        d, k = a
        if isinstance(d, Dtype) and isinstance(k, Dtype):
            if k.name == "floating":
                return d.name.startswith("float")
            if k.name == "integer":
                return d.name.startswith("int")
        raise Unsupported("issubdtype")

    @M("finfo")
    def _finfo(ctx, a, kw):
        return ObjVal(None, {"eps": 2.220446049250313e-16, "tiny": 2.2250738585072014e-308, "max": 1.7976931348623157e308})

    @M("dtype")
    def _dtype(ctx, a, kw):
        if isinstance(a[0], str):
            return DT.get(a[0]) or Dtype(a[0])
        if isinstance(a[0], Dtype):
            return a[0]
        raise Unsupported("np.dtype")

    @M("isscalar")
    def _iss(ctx, a, kw):
        return is_num(a[0])

    @M("errstate")
    def _es(ctx, a, kw):
        return Opaque("nullcontext")

    @M("prod")
    def _prod(ctx, a, kw):
        raise Unsupported("np.prod")

    @M("nan_to_num")
    def _ntn(ctx, a, kw):
        raise Unsupported("nan_to_num")

    @M("array_equal")
    def _ae(ctx, a, kw):
        x, y = as_arr(ctx, a[0]), as_arr(ctx, a[1])
        if x.ndim != y.ndim:
            return False
        return np_.all(ctx, elementwise(ctx, lambda p, q: cmp_scalar("==", p, q), [x, y], "b"))

    def rnd(name, f):
        rtbl[name] = Model("np.random." + name, f)
    rtbl = {}
    unit = lambda t: [t >= 0, t < 1]
    rnd("seed", lambda ctx, a, kw: E.event(ctx, ("seed", "numpy", a[0] if a else kw.get("seed"))))
    rnd("rand", lambda ctx, a, kw: np_.draw(ctx, "uniform", tuple(a), "f", unit))
    for nm in ("random", "random_sample", "ranf"):
        rnd(nm, lambda ctx, a, kw: np_.draw(ctx, "uniform", np_.size_arg(arg(a, kw, 0, "size")), "f", unit))

    def _uniform(ctx, a, kw):
        lo, hi = arg(a, kw, 0, "low", 0.0), arg(a, kw, 1, "high", 1.0)
        u = np_.draw(ctx, "uniform", np_.size_arg(arg(a, kw, 2, "size")), "f", unit)
        if concrete(lo) and concrete(hi) and lo == 0 and hi == 1:
            return u
        return ip.binop(ctx, "+", lo, ip.binop(ctx, "*", ip.binop(ctx, "-", hi, lo), u))
    rnd("uniform", _uniform)
    rnd("randn", lambda ctx, a, kw: np_.draw(ctx, "normal", tuple(a)))
    rnd("standard_normal", lambda ctx, a, kw: np_.draw(ctx, "normal", np_.size_arg(arg(a, kw, 0, "size"))))

    def _normal(ctx, a, kw):
        lo, sc = arg(a, kw, 0, "loc", 0.0), arg(a, kw, 1, "scale", 1.0)
        u = np_.draw(ctx, "normal", np_.size_arg(arg(a, kw, 2, "size")))
        if concrete(lo) and concrete(sc) and lo == 0 and sc == 1:
            return u
        return ip.binop(ctx, "+", lo, ip.binop(ctx, "*", sc, u))
    rnd("normal", _normal)

    def _gamma(ctx, a, kw):
        sh, sc = arg(a, kw, 0, "shape"), arg(a, kw, 1, "scale", 1.0)
        size = arg(a, kw, 2, "size")
        if size is None and (isinstance(sh, Arr) or isinstance(sc, Arr)):
            shp = broadcast_shapes(ctx, [x.shape for x in (sh, sc) if isinstance(x, Arr)])
        else:
            shp = np_.size_arg(size)
        # standard gamma variate times scale
        g = np_.draw(ctx, "gamma", shp, "f", lambda t: [t > 0], gshape=sh, gscale=sc)
        S.SIGNS[ctx.draws[-1]["decl"].name()] = 2
        ctx.draws[-1]["std"] = True
        return ip.binop(ctx, "*", sc, g)
    rnd("gamma", _gamma)
    rnd("standard_gamma", lambda ctx, a, kw: _gamma(ctx, [a[0], 1.0] + list(a[1:]), kw))
    rnd("choice", lambda ctx, a, kw: np_.choice(ctx, a, kw))

    def get_rnd(n):
        if n in rtbl:
            return rtbl[n]
        return Poison("np.random.%s is not modelled" % n)
    ltbl = {
        "inv": Model("np.linalg.inv", lambda ctx, a, kw: np_.inv(ctx, a[0])),
        "cholesky": Model("np.linalg.cholesky", lambda ctx, a, kw: np_.cholesky(ctx, a[0])),
        "slogdet": Model("np.linalg.slogdet", lambda ctx, a, kw: np_.slogdet(ctx, a[0])),
        "solve": Model("np.linalg.solve", lambda ctx, a, kw: np_.solve(ctx, a[0], a[1])),
        "LinAlgError": E.exc("LinAlgError"),
    }
    tbl["random"] = ModVal("np.random", get_rnd)
    tbl["linalg"] = ModVal("np.linalg", lambda n: ltbl.get(n) or Poison("np.linalg.%s is not modelled" % n))
    tbl.update({"inf": float("inf"), "nan": float("nan"), "pi": XF(PI), "newaxis": None, "float64": DT["float64"],
                "float32": DT["float32"], "int64": DT["int64"], "int32": DT["int64"], "floating": DT["floating"],
                "integer": DT["integer"], "bool_": DT["bool"], "object_": DT["object"], "e": XF(EXP(rv(1))),
                "ndarray": Opaque("np.ndarray"), "Inf": float("inf"), "NaN": float("nan")})
    E.nptbl = tbl

    def np_get(n):
        if n in tbl:
            return tbl[n]
        return Poison("np.%s is not modelled" % n)

    # ---- scipy ---------------------------------------------------------------
    def erf(x):
        x = xf(x)
        r = ERF(x.r)
        if x.inf is not False:
            r = z3.If(zb(x.pi), rv(1), z3.If(zb(x.ni), rv(-1), r))
        return XF(r, x.nan)

    def erfinv(x):
        x = xf(x)
        bad = Or(x.nan, x.inf, And(x.fin, Or(x.r > 1, x.r < -1)))
        return XF(ERFINV(x.r), bad, And(Not(bad), x.r == 1), And(Not(bad), x.r == -1))
    stbl = {"erf": Model("scipy.special.erf", lambda ctx, a, kw: elementwise(ctx, erf, a, "f")),
            "erfinv": Model("scipy.special.erfinv", lambda ctx, a, kw: elementwise(ctx, erfinv, a, "f")),
            "psi": Model("scipy.special.psi", lambda ctx, a, kw: elementwise(ctx, lambda x: XF(PSI(xf(x).r), xf(x).nan), a, "f")),
            "digamma": Model("scipy.special.psi", lambda ctx, a, kw: elementwise(ctx, lambda x: XF(PSI(xf(x).r), xf(x).nan), a, "f")),
            "ndtr": Model("scipy.special.ndtr", lambda ctx, a, kw: elementwise(ctx, lambda x: xmul(XF(rv(Fraction(1, 2))), xadd(XF(rv(1)), erf(xdiv(xf(x), xsqrt(XF(rv(2))))))), a, "f")),
            "ndtri": Model("scipy.special.ndtri", lambda ctx, a, kw: elementwise(ctx, lambda x: xmul(xsqrt(XF(rv(2))), erfinv(xsub(xmul(XF(rv(2)), xf(x)), XF(rv(1))))), a, "f")),
            "expit": Model("scipy.special.expit", lambda ctx, a, kw: elementwise(ctx, lambda x: xdiv(XF(rv(1)), xadd(XF(rv(1)), xexp(xneg(xf(x))))), a, "f")),
            "logit": Model("scipy.special.logit", lambda ctx, a, kw: elementwise(ctx, lambda x: xlog(xdiv(xf(x), xsub(XF(rv(1)), xf(x)))), a, "f")),
            "logsumexp": Model("scipy.special.logsumexp", lambda ctx, a, kw: np_.lae_reduce(ctx, as_arr(ctx, a[0]), arg(a, kw, 1, "axis"))),
            }
    special = ModVal("scipy.special", lambda n: stbl.get(n) or Poison("scipy.special.%s is not modelled" % n))

    def bisect(ctx, a, kw):
        """scipy.optimize.bisect: a root between the two ends (tolerances not modelled)."""
        lo, hi = xf(a[1]), xf(a[2])
        r = ctx.sym_xf("bisect")
        ctx.fact(z3.And(r.r >= lo.r, r.r <= hi.r))
        ctx.draws.append(dict(kind="bisect", f=a[0], lo=lo, hi=hi, res=r))
        return r
    optimize = ModVal("scipy.optimize", lambda n: {"bisect": Model("scipy.optimize.bisect", bisect)}.get(n) or Poison("scipy.optimize.%s" % n))
    scipy = ModVal("scipy", lambda n: {"special": special, "optimize": optimize}.get(n) or Poison("scipy.%s" % n))
    mtbl = {"sqrt": Model("math.sqrt", lambda ctx, a, kw: math.sqrt(a[0]) if concrete(a[0]) else xsqrt(xf(a[0]))),
            "log": Model("math.log", lambda ctx, a, kw: math.log(a[0]) if concrete(a[0]) and a[0] > 0 and False else xlog(xf(a[0]))),
            "exp": Model("math.exp", lambda ctx, a, kw: xexp(xf(a[0]))), "pi": XF(PI), "inf": float("inf"), "nan": float("nan"),
            "isfinite": Model("math.isfinite", lambda ctx, a, kw: xf(a[0]).fin), "isnan": Model("math.isnan", lambda ctx, a, kw: xf(a[0]).nan),
            "isinf": Model("math.isinf", lambda ctx, a, kw: xf(a[0]).inf),
            "floor": Model("math.floor", lambda ctx, a, kw: xfloor_int(xf(a[0]))),
            "ceil": Model("math.ceil", lambda ctx, a, kw: arith(ctx, "-", 0, xfloor_int(xneg(xf(a[0]))))),
            "fabs": Model("math.fabs", lambda ctx, a, kw: xabs(xf(a[0])))}
    E.extmods = {
        "numpy": ModVal("numpy", np_get), "scipy": scipy, "scipy.special": special, "scipy.optimize": optimize,
        "math": ModVal("math", lambda n: mtbl.get(n) if n in mtbl else Poison("math.%s" % n)),
        "typing": ModVal("typing", lambda n: Opaque("typing." + n)),
        "warnings": ModVal("warnings", lambda n: Model("warnings." + n, lambda ctx, a, kw: E.event(ctx, ("warn",) + tuple(a[:1]))) if n == "warn" else (Model("warnings", lambda ctx, a, kw: Opaque("nullcontext")))),
        "time": ModVal("time", lambda n: Model("time." + n, lambda ctx, a, kw: ctx.sym_xf("time"))),
        "copy": ModVal("copy", lambda n: Model("copy." + n, lambda ctx, a, kw: deepcopy(E, ctx, a[0]))),
    }

    # ---- builtins --------------------------------------------------------------
    b = {}
    E.builtins = b

    def BI(name):
        def deco(f):
            b[name] = Model(name, f)
            return f
        return deco

    @BI("len")
    def _len(ctx, a, kw):
        v = a[0]
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyExc(E.exc("TypeError"), ("len() of unsized object",))
            return v.shape[0]
        if isinstance(v, PyList):
            return v.sym.n if v.sym is not None else len(v.items)
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, (PyDict, PySet)):
            return len(v.d)
        if isinstance(v, KeysView):
            return len(v.dct.d)
        if isinstance(v, (SymList, IterVal)):
            return v.n
        if is_num(v) or v is None:
            raise PyExc(E.exc("TypeError"), ("object has no len()",))
        if isinstance(v, ObjVal):
            f = class_lookup(v.cls, "__len__") if isinstance(v.cls, ClassVal) else v.attrs.get("__len__")
            if f is not None:
                return ip.call(ctx, f, [v] if isinstance(f, FuncVal) else [], {})
        h = E.hooks.get("len")
        if h:
            r = h(ctx, v)
            if r is not None:
                return r
        raise Unsupported("len of %r" % (v,))

    @BI("range")
    def _range(ctx, a, kw):
        if all(isinstance(x, int) for x in a):
            return range(*a)
        if any(not is_int(x) for x in a):
            raise PyExc(E.exc("TypeError"), ("range of non-integer",))
        if len(a) == 1:
            n = a[0]
            nn = n if ctx.quick(iv(n) >= 0) is True else z3.If(iv(n) >= 0, iv(n), z3.IntVal(0))
            return IterVal(nn, lambda k: k)
        if len(a) == 2:
            lo = a[0]
            n = sub_i(a[1], a[0])
            nn = n if ctx.quick(iv(n) >= 0) is True else z3.If(iv(n) >= 0, iv(n), z3.IntVal(0))
            return IterVal(nn, lambda k: add_i(lo, k))
        if isinstance(a[2], int) and a[2] == -1:
            hi = a[0]
            n = sub_i(a[0], a[1])
            return IterVal(n, lambda k: sub_i(hi, k))
        raise Unsupported("range step")

    @BI("enumerate")
    def _enum(ctx, a, kw):
        st = arg(a, kw, 1, "start", 0)
        items = ip.iterate_concrete(ctx, a[0])
        if items is not None:
            return PyList([(i + st, x) for i, x in enumerate(items)])
        n, item, dom = ip.iter_spec(ctx, a[0])
        return IterVal(n, lambda k: (add_i(st, k), item(k)))

    @BI("zip")
    def _zip(ctx, a, kw):
        its = [ip.iterate_concrete(ctx, x) for x in a]
        if all(i is not None for i in its):
            return PyList([tuple(t) for t in zip(*its)])
        specs = [ip.iter_spec(ctx, x) for x in a]
        n = specs[0][0]
        for s in specs[1:]:
            if not dims_equal(ctx, n, s[0]):
                raise Unsupported("zip of different lengths")
        return IterVal(n, lambda k: tuple(s[1](k) for s in specs))

    @BI("map")
    def _map(ctx, a, kw):
        f = a[0]
        h = E.hooks.get("map")
        if h:
            r = h(ctx, f, a[1:])
            if r is not None:
                return r
        items = ip.iterate_concrete(ctx, a[1])
        if items is not None and len(a) == 2:
            return PyList([ip.call(ctx, f, [x], {}) for x in items])
        n, item, dom = ip.iter_spec(ctx, a[1])
        return E.loops.sym_map(ctx, f, n, item)

    @BI("list")
    def _list(ctx, a, kw):
        if not a:
            return PyList([])
        v = a[0]
        if isinstance(v, SymList):
            return SymList(v.n, v.item, v.dom)
        items = ip.iterate_concrete(ctx, v)
        if items is not None:
            return PyList(items)
        n, item, dom = ip.iter_spec(ctx, v)
        return SymList(n, lambda k: item(iv(k)), dom)

    @BI("tuple")
    def _tuple(ctx, a, kw):
        if not a:
            return ()
        items = ip.iterate_concrete(ctx, a[0])
        if items is None and isinstance(a[0], Arr) and isinstance(a[0].shape[0], int):
            items = [elem(ctx, a[0], q) for q in range(a[0].shape[0])]
        if items is None:
            raise Unsupported("tuple of a symbolic sequence")
        return tuple(items)

    @BI("dict")
    def _dict(ctx, a, kw):
        d = {}
        if a:
            if isinstance(a[0], PyDict):
                d.update(a[0].d)
            elif isinstance(a[0], AttrsDict):
                d.update(a[0].obj.attrs)
            else:
                for k, v in [ip.iterate_concrete(ctx, x) for x in ip.iterate_concrete(ctx, a[0])]:
                    d[k] = v
        d.update(kw)
        return PyDict(d)

    @BI("set")
    def _set(ctx, a, kw):
        h = E.hooks.get("set")
        if h:
            r = h(ctx, a)
            if r is not None:
                return r
        if not a:
            return PySet({})
        items = ip.iterate_concrete(ctx, a[0])
        if items is None:
            raise Unsupported("set of a symbolic sequence")
        return PySet({ip.hashable(x): None for x in items})

    def to_float(ctx, a, kw):
        v = a[0] if a else 0.0
        if isinstance(v, (bool, int, float)):
            return float(v)
        if isinstance(v, Arr):
            if v.ndim == 0 or all(isinstance(d, int) and d == 1 for d in v.shape):
                return xf(v.get((0,) * v.ndim))
            raise PyExc(E.exc("TypeError"), ("only length-1 arrays can be converted",))
        if isinstance(v, str):
            return float(v)
        if isinstance(v, (tuple, PyList, PyDict)) or v is None:
            raise PyExc(E.exc("TypeError"), ("float() argument",))
        h = E.hooks.get("float")
        if h:
            r = h(ctx, v)
            if r is not None:
                return r
        return xf(v)
    b["float"] = Model("float", to_float)

    def _int(ctx, a, kw):
        v = a[0] if a else 0
        if isinstance(v, Arr) and v.ndim == 0:
            v = v.get(())
        if v is None:
            raise PyExc(E.exc("TypeError"), ("int() argument",))
        if isinstance(v, str):
            return int(v)
        return to_int(ctx, v)
    b["int"] = Model("int", _int)
    b["bool"] = Model("bool", lambda ctx, a, kw: ip.truth(ctx, a[0]))
    b["str"] = Model("str", lambda ctx, a, kw: a[0] if isinstance(a[0], str) else (str(a[0]) if isinstance(a[0], (int, float)) else Opaque("fstr", parts=(a[0],))))
    b["repr"] = b["str"]
    b["abs"] = Model("abs", lambda ctx, a, kw: elementwise(ctx, absf, [a[0]]) if isinstance(a[0], Arr) else absf(a[0]))
    b["print"] = Model("print", lambda ctx, a, kw: None)
    b["type"] = Model("type", lambda ctx, a, kw: type_of(E, a[0]))
    b["object"] = ClassVal("object", "builtins", None, [], {})
    b["callable"] = Model("callable", lambda ctx, a, kw: isinstance(a[0], (Model, FuncVal, Bound, ClassVal)))
    b["id"] = Model("id", lambda ctx, a, kw: id(a[0]))
    b["round"] = Model("round", lambda ctx, a, kw: (_ for _ in ()).throw(Unsupported("round")))
    b["Ellipsis"] = Ellipsis
    b["NotImplemented"] = NotImplemented
    b["__name__"] = "module"

    def mm(sgn):
        def f(ctx, a, kw):
            if len(a) == 1:
                if isinstance(a[0], Arr):
                    return np_.extremum(ctx, a[0], None, sgn)
                a = ip.iterate_concrete(ctx, a[0])
                if a is None:
                    raise Unsupported("min/max of a symbolic sequence")
            v = a[0]
            for w in a[1:]:
                v = minmax(xmax, max)(v, w) if sgn > 0 else minmax(xmin, min)(v, w)
            return v
        return f
    b["max"] = Model("max", mm(1))
    b["min"] = Model("min", mm(-1))

    @BI("sum")
    def _sum(ctx, a, kw):
        v = a[0]
        if isinstance(v, Arr) and v.ndim == 1:
            return np_.sum(ctx, v)
        if isinstance(v, Arr):
            return np_.sum(ctx, v, 0)
        items = ip.iterate_concrete(ctx, v)
        if items is not None:
            t = arg(a, kw, 1, "start", 0)
            for x in items:
                t = ip.binop(ctx, "+", t, x)
            return t
        n, item, dom = ip.iter_spec(ctx, v)
        return np_.sum(ctx, np_.array(ctx, SymList(n, item)), 0)

    @BI("any")
    def _any(ctx, a, kw):
        items = ip.iterate_concrete(ctx, a[0])
        if items is not None:
            return Or(*[ip.truth(ctx, x) for x in items])
        n, item, dom = ip.iter_spec(ctx, a[0])
        return S.any_atom(n, lambda k: ip.truth(ctx, item(k)))

    @BI("all")
    def _all(ctx, a, kw):
        items = ip.iterate_concrete(ctx, a[0])
        if items is not None:
            return And(*[ip.truth(ctx, x) for x in items])
        n, item, dom = ip.iter_spec(ctx, a[0])
        return S.all_atom(n, lambda k: ip.truth(ctx, item(k)))

    @BI("isinstance")
    def _isinst(ctx, a, kw):
        ts = a[1] if isinstance(a[1], tuple) else (a[1],)
        r = [isinst(E, ctx, a[0], t) for t in ts]
        return Or(*r)

    @BI("hasattr")
    def _hasattr(ctx, a, kw):
        try:
            ip.getattr(ctx, a[0], a[1])
            return True
        except PyExc as e:
            if e.cls.name == "AttributeError":
                return False
            raise

    @BI("getattr")
    def _getattr(ctx, a, kw):
        try:
            return ip.getattr(ctx, a[0], a[1])
        except PyExc as e:
            if e.cls.name == "AttributeError" and len(a) > 2:
                return a[2]
            raise

    @BI("setattr")
    def _setattr(ctx, a, kw):
        ip.setattr(ctx, a[0], a[1], a[2])

    @BI("sorted")
    def _sorted(ctx, a, kw):
        items = ip.iterate_concrete(ctx, a[0])
        if items is None or kw or not all(isinstance(x, (int, str)) for x in items):
            raise Unsupported("sorted")
        return PyList(sorted(items))

    @BI("reversed")
    def _rev(ctx, a, kw):
        items = ip.iterate_concrete(ctx, a[0])
        if items is None:
            n, item, dom = ip.iter_spec(ctx, a[0])
            return IterVal(n, lambda k: item(sub_i(sub_i(n, 1), k)))
        return PyList(items[::-1])

    @BI("slice")
    def _slice(ctx, a, kw):
        return slice(*a)

    @BI("vars")
    def _vars(ctx, a, kw):
        return AttrsDict(a[0])
    for n, c in E.excs.items():
        b[n] = c
    b["None"] = None

    def sym_map(ctx, f, n, item):
        import ast
        e = ast.parse("f(x)", mode="eval").body
        env = Env(None, "builtins")
        env.vars = {"f": f}

        class G:
            target = ast.Name(id="x", ctx=ast.Store())
            ifs = []
        return E.loops.sym_comp(ctx, None, G, SymList(n, item), env, lambda env2: ip.ev(ctx, e, env2))
    E.loops.sym_map = sym_map


def type_of(E, v):
    if isinstance(v, ObjVal):
        return v.cls
    if isinstance(v, bool):
        return E.builtins["bool"]
    if is_int(v):
        return E.builtins["int"]
    if is_num(v):
        return E.builtins["float"]
    if isinstance(v, Arr):
        return E.nptbl["ndarray"]
    if isinstance(v, str):
        return E.builtins["str"]
    if isinstance(v, (PyList, SymList)):
        return E.builtins["list"]
    raise Unsupported("type of %r" % (v,))


def isinst(E, ctx, v, t):
    b = E.builtins
    h = E.hooks.get("isinstance")
    if h:
        r = h(ctx, v, t)
        if r is not None:
            return r
    if t is b["int"]:
        return is_int(v) or isinstance(v, bool)
    if t is b["float"]:
        return isinstance(v, (float, XF))
    if t is b["bool"]:
        return is_bool(v)
    if t is b["str"]:
        return isinstance(v, str) or (isinstance(v, Opaque) and v.name == "fstr")
    if t is b["list"]:
        return isinstance(v, (PyList, SymList))
    if t is b["tuple"]:
        return isinstance(v, tuple)
    if t is b["dict"]:
        return isinstance(v, PyDict)
    if t is b["set"]:
        return isinstance(v, PySet)
    if t is E.nptbl["ndarray"]:
        return isinstance(v, Arr) and v.lib == "np"
    if isinstance(t, ClassVal):
        if not isinstance(v, ObjVal):
            return False
        c = v.cls

        def sub(c):
            return c is t or any(sub(x) for x in getattr(c, "bases", []))
        return sub(c)
    if isinstance(t, ExcCls):
        return isinstance(v, ObjVal) and isinstance(v.cls, ExcCls) and v.cls.issub(t)
    raise Unsupported("isinstance with %r" % (t,))


def transpose(ctx, a):
    if a.ndim < 2:
        return a
    if a.ndim == 2:
        return Arr((a.shape[1], a.shape[0]), None, a.dt, base=a, fwd=lambda i: (i[1], i[0]), inv=lambda i: (True, (i[1], i[0])), lib=a.lib, tag=dict(a.tag))
    raise Unsupported("transpose of %d-d" % a.ndim)


def squeeze(E, ctx, x, ax):
    if ax is None:
        raise Unsupported("squeeze without axis")
    axes = ax if isinstance(ax, tuple) else (ax,)
    axes = [int(t) + (x.ndim if t < 0 else 0) for t in axes]
    key = tuple(0 if j in axes else slice(None) for j in range(x.ndim))
    for j in axes:
        if not (isinstance(x.shape[j], int) and x.shape[j] == 1):
            if ctx.quick(iv(x.shape[j]) == 1) is not True:
                raise PyExc(E.exc("ValueError"), ("cannot squeeze",))
    return basic_view(ctx, x, key)


def reshape(E, ctx, x, shp):
    if len(shp) == 1 and isinstance(shp[0], tuple):
        shp = shp[0]
    g = snapshot(x)
    if x.ndim == 1 and len(shp) == 2 and isinstance(shp[1], int) and shp[1] == 1:
        return Arr((x.shape[0], 1), lambda idx: g((idx[0],)), x.dt, lib=x.lib)
    if x.ndim == 1 and len(shp) == 2 and isinstance(shp[0], int) and shp[0] == 1:
        return Arr((1, x.shape[0]), lambda idx: g((idx[1],)), x.dt, lib=x.lib)
    if len(shp) == 1 and isinstance(shp[0], int) and shp[0] == -1:
        return concatenate(E, ctx, x, 0) if x.ndim > 1 else copy_arr(x)
    raise Unsupported("reshape %r -> %r" % (x.shape, shp))


def concatenate(E, ctx, v, ax):
    """Flatten the first two axes (of equal-size pieces) or join known pieces."""
    items = None
    if not isinstance(v, Arr):
        items = E.ip.iterate_concrete(ctx, v)
    if items is None:
        x = as_arr(ctx, v)
        if ax != 0 or x.ndim < 2:
            raise Unsupported("concatenate axis")
        t, n = x.shape[0], x.shape[1]
        g = snapshot(x)
        tot = t * n if isinstance(t, int) and isinstance(n, int) else z3.simplify(iv(t) * iv(n))
        key = (iv(t).sexpr(), iv(n).sexpr())
        fl = E.__dict__.setdefault("flats", {})
        if key not in fl:
            u = len(fl)
            q = z3.Function("fdiv%d" % u, I, I)
            r = z3.Function("fmod%d" % u, I, I)
            fl[key] = (q, r)
            S.TH.schema(q, lambda p: [z3.Implies(z3.And(p >= 0, p < iv(tot), iv(n) >= 1, iv(t) >= 0),
                                                 z3.And(q(p) >= 0, q(p) < iv(t), r(p) >= 0, r(p) < iv(n), p == q(p) * iv(n) + r(p)))])
            T.FLAT[(q.name(), r.name())] = (iv(t), iv(n))
        q, r = fl[key]
        tag = {"flat": (q, r, t, n)}
        return Arr((tot,) + x.shape[2:], lambda idx: g((q(iv(idx[0])), r(iv(idx[0]))) + tuple(idx[1:])), x.dt, lib=x.lib, tag=tag)
    arrs = [as_arr(ctx, x) for x in items]
    if not arrs:
        raise PyExc(E.exc("ValueError"), ("need at least one array to concatenate",))
    if len(arrs) == 1:
        return copy_arr(arrs[0])
    if ax != 0:
        raise Unsupported("concatenate axis")
    out = arrs[0]
    for nx in arrs[1:]:
        a, c = out, nx
        ga, gc = snapshot(a), snapshot(c)
        na = a.shape[0]
        tot = add_i(na, c.shape[0])

        def fn(idx, ga=ga, gc=gc, na=na):
            i = idx[0]
            if isinstance(i, int) and isinstance(na, int):
                return ga(idx) if i < na else gc((i - na,) + tuple(idx[1:]))
            return merge(iv(i) < iv(na), ga(idx), gc((sub_i(i, na),) + tuple(idx[1:])))
        out = Arr((tot,) + a.shape[1:], fn, a.dt if a.dt == c.dt else "f")
    return out


def percentile(E, ctx, a, q):
    """numpy.percentile: between min and max, the minimum at q=0."""
    lo = E.np.extremum(ctx, a, None, -1)
    hi = E.np.extremum(ctx, a, None, 1)
    f, d = E.np.uf(ctx, "PCT", [a, q], 0)
    t = f()
    lo, hi = xf(lo), xf(hi)
    if not (lo.pure and hi.pure and q.pure):
        raise Unsupported("percentile of non-finite values")
    ctx.fact(z3.And(t >= lo.r, t <= hi.r, z3.Implies(q.r == 0, t == lo.r), z3.Implies(q.r == 100, t == hi.r)))
    return XF(t)


def deepcopy(E, ctx, v):
    if isinstance(v, Arr):
        return copy_arr(v)
    if isinstance(v, PyDict):
        return PyDict({k: deepcopy(E, ctx, x) for k, x in v.d.items()})
    if isinstance(v, PyList):
        return PyList([deepcopy(E, ctx, x) for x in v.items])
    if isinstance(v, (tuple,)):
        return tuple(deepcopy(E, ctx, x) for x in v)
    if is_num(v) or isinstance(v, (str, type(None))) or is_z3(v):
        return v
    h = E.hooks.get("deepcopy")
    if h:
        return h(ctx, v)
    raise Unsupported("deepcopy of %r" % (v,))


def value_attr(E, ctx, o, name):
    ip, np_ = E.ip, E.np
    if hasattr(o, "pyattr"):
        return o.pyattr(E, ctx, name)
    if isinstance(o, Arr):
        return arr_attr(E, ctx, o, name)
    if isinstance(o, (XF, int, float)) or (is_z3(o) and not o.sort() == Obj):
        h = E.hooks.get("scalar_attr")
        r = h(ctx, o, name) if h else None
        if r is not None:
            return r
        if name == "copy":
            return Model("scalar.copy", lambda c, a, kw: o)
        if name == "dtype":
            return DT["float64"] if not is_int(o) else DT["int64"]
        if name == "item":
            return Model("item", lambda c, a, kw: o)
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name in ("astype",):
            return Model("astype", lambda c, a, kw: o)
        if name == "bit_length" and isinstance(o, int):
            return Model("bit_length", lambda c, a, kw: o.bit_length())
        if name == "bit_length":
            return Model("bit_length", lambda c, a, kw: c.fint("bitlen"))
        return NotImplemented
    if isinstance(o, PyDict):
        if name == "get":
            def get(c, a, kw):
                v = o.d.get(ip.hashable(a[0]), a[1] if len(a) > 1 else None)
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                if isinstance(v, PyList) and v.sym is not None:
                    return v.sym
                return v
            return Model("dict.get", get)
        if name == "keys":
            return Model("dict.keys", lambda c, a, kw: PyList(list(o.d.keys())))
        if name == "values":
            return Model("dict.values", lambda c, a, kw: PyList(list(o.d.values())))
        if name == "items":
            return Model("dict.items", lambda c, a, kw: PyList([(k, v) for k, v in o.d.items()]))
        if name == "copy":
            return Model("dict.copy", lambda c, a, kw: PyDict(o.d))
        if name == "update":
            def upd(c, a, kw):
                d = dict(o.d)
                if a:
                    d.update(a[0].obj.attrs if isinstance(a[0], AttrsDict) else a[0].d)
                d.update(kw)
                c.set(o, "d", d)
            return Model("dict.update", upd)
        if name == "pop":
            def pop(c, a, kw):
                k = ip.hashable(a[0])
                if k not in o.d:
                    if len(a) > 1:
                        return a[1]
                    raise PyExc(E.exc("KeyError"), (k,))
                d = dict(o.d)
                v = d.pop(k)
                c.set(o, "d", d)
                return v
            return Model("dict.pop", pop)
        if name == "setdefault":
            def sd(c, a, kw):
                if a[0] not in o.d:
                    d = dict(o.d)
                    d[a[0]] = a[1] if len(a) > 1 else None
                    c.set(o, "d", d)
                return o.d[a[0]]
            return Model("dict.setdefault", sd)
        return NotImplemented
    if isinstance(o, AttrsDict):
        if name == "copy":
            return Model("dict.copy", lambda c, a, kw: PyDict(o.obj.attrs))
        if name == "items":
            return Model("dict.items", lambda c, a, kw: PyList([(k, v) for k, v in o.obj.attrs.items()]))
        if name == "keys":
            return Model("dict.keys", lambda c, a, kw: PyList(list(o.obj.attrs)))
        if name == "get":
            return Model("dict.get", lambda c, a, kw: o.obj.attrs.get(a[0], a[1] if len(a) > 1 else None))
        if name == "update":
            def upd(c, a, kw):
                d = dict(o.obj.attrs)
                if a:
                    d.update(a[0].d)
                d.update(kw)
                c.set(o.obj, "attrs", d)
            return Model("dict.update", upd)
        if name == "pop":
            def popa(c, a, kw):
                if a[0] not in o.obj.attrs:
                    if len(a) > 1:
                        return a[1]
                    raise PyExc(E.exc("KeyError"), (a[0],))
                d = dict(o.obj.attrs)
                v = d.pop(a[0])
                c.set(o.obj, "attrs", d)
                return v
            return Model("dict.pop", popa)
        return NotImplemented
    if isinstance(o, PyList):
        if name == "append":
            def app(c, a, kw):
                c.set(o, "items", o.items + [a[0]])
            return Model("list.append", app)
        if name == "extend":
            def ext(c, a, kw):
                c.set(o, "items", o.items + ip.iterate_concrete(c, a[0]))
            return Model("list.extend", ext)
        if name == "pop":
            def pop(c, a, kw):
                if not o.items:
                    raise PyExc(E.exc("IndexError"), ("pop from empty list",))
                items = list(o.items)
                v = items.pop(*a)
                c.set(o, "items", items)
                return v
            return Model("list.pop", pop)
        if name == "copy":
            return Model("list.copy", lambda c, a, kw: PyList(o.items))
        return NotImplemented
    if isinstance(o, PySet):
        if name == "copy":
            return Model("set.copy", lambda c, a, kw: PySet(o.d))
        if name in ("add", "discard", "remove"):
            def f(c, a, kw):
                d = dict(o.d)
                if name == "add":
                    d[a[0]] = None
                else:
                    d.pop(a[0], None)
                c.set(o, "d", d)
            return Model("set." + name, f)
        return NotImplemented
    if isinstance(o, SymList):
        h = E.hooks.get("symlist_attr")
        if h:
            r = h(ctx, o, name)
            if r is not None:
                return r
        if name == "copy":
            return Model("list.copy", lambda c, a, kw: SymList(o.n, o.item, o.dom))
        if name == "append":
            def app2(c, a, kw):
                n, it = o.st
                v = a[0]
                c.set(o, "st", (z3.simplify(iv(n) + 1), lambda q: v if same_dim(q, n) else merge(iv(q) == iv(n), v, it(q))))
            return Model("list.append", app2)
        return NotImplemented
    if isinstance(o, str):
        if name in ("endswith", "startswith", "lower", "upper", "strip", "format", "split", "join", "replace"):
            return Model("str." + name, lambda c, a, kw: getattr(o, name)(*a) if all(isinstance(x, (str, int)) for x in a) else Opaque("fstr", parts=(o,) + tuple(a)))
        return NotImplemented
    if isinstance(o, Opaque):
        if name in o.kw:
            return o.kw[name]
        h = E.hooks.get("opaque_attr")
        if h:
            r = h(ctx, o, name)
            if r is not None:
                return r
        return NotImplemented
    if isinstance(o, Dtype):
        if name == "kind":
            return {"float64": "f", "float32": "f", "int64": "i", "bool": "b", "object": "O", "str": "U"}.get(o.name, "V")
        return NotImplemented
    h = E.hooks.get("value_attr")
    if h:
        r = h(ctx, o, name)
        if r is not None:
            return r
    return NotImplemented


def value_sub(E, ctx, o, k):
    h = E.hooks.get("value_sub")
    if h:
        r = h(ctx, o, k)
        if r is not None:
            return r
    if isinstance(o, Opaque) and o.name.startswith("typing"):
        return o
    return NotImplemented


def arr_attr(E, ctx, o, name):
    np_, ip = E.np, E.ip
    h = E.hooks.get("arr_attr")
    if h:
        r = h(ctx, o, name)
        if r is not None:
            return r
    if name == "shape":
        return o.shape
    if name == "ndim":
        return o.ndim
    if name == "size":
        return np_.count_of(o, None)
    if name == "T":
        return transpose(ctx, o)
    if name == "dtype":
        if "dtype" in o.tag:
            return o.tag["dtype"]
        return DT[{"f": "float64", "i": "int64", "b": "bool", "o": "object"}[o.dt]]
    if name == "copy":
        return Model("arr.copy", lambda c, a, kw: copy_arr(o))
    if name in ("flatten", "ravel"):
        return Model("arr." + name, lambda c, a, kw: copy_arr(o) if o.ndim == 1 else concatenate(E, c, o, 0))
    if name == "reshape":
        return Model("arr.reshape", lambda c, a, kw: reshape(E, c, o, tuple(a)))
    if name == "astype":
        return Model("arr.astype", lambda c, a, kw: np_.astype(c, o, a[0]))
    if name in ("sum", "mean", "any", "all", "max", "min", "std", "var", "clip", "transpose", "squeeze", "dot"):
        return Model("arr." + name, lambda c, a, kw: E.nptbl[name].f(c, [o] + list(a), kw))
    if name == "item":
        return Model("arr.item", lambda c, a, kw: o.get((0,) * o.ndim))
    if name == "tolist":
        return Model("arr.tolist", lambda c, a, kw: SymList(o.shape[0], lambda k: elem(c, o, k)))
    return NotImplemented
