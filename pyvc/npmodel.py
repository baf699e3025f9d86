"""Assumed contracts of numpy / scipy / Python library functions (the trusted models)."""
import math
import z3
from fractions import Fraction
from .term import *  # noqa
from . import term as T
from . import solver as S
from .values import *  # noqa
from .ctx import merge, same_dim, fresh_name
from .ops import *  # noqa
from .index import *  # noqa
from .loops import sum_xf, terms_of
from .interp import IterVal, elem, KeysView, AttrsDict, PathVal, path_key, StarArgs


def U(msg):
    raise Unsupported(msg)


def arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def only(kw, *names):
    for k in kw:
        if k not in names:
            raise Unsupported("keyword %s" % k)


class Dtype:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "dtype(%s)" % self.name


DT = {n: Dtype(n) for n in ("float64", "float32", "int64", "bool", "object", "floating", "integer", "str", "unknown")}


def dtype_code(v, default="f"):
    if v is None:
        return default
    if isinstance(v, Dtype):
        return {"float64": "f", "float32": "f", "int64": "i", "bool": "b", "object": "o"}.get(v.name) or U("dtype")
    if isinstance(v, Model) and v.name in ("float", "int", "bool"):
        return v.name[0]
    if isinstance(v, str):
        if v in ("float", "float64", "float32", "f8", "f4"):
            return "f"
        if v in ("int", "int64"):
            return "i"
        if v == "bool":
            return "b"
        if v == "object":
            return "o"
    raise Unsupported("dtype %r" % (v,))


# names of bound variables: a result that mentions one is a function of it
BOUNDP = {"b", "bb", "ab", "jj", "pp", "sb", "j", "k", "kk"}


class NP:
    def __init__(self, eng):
        self.eng = eng
        self.memo = {}
        self.mats = {}

    # -- content key: same content, same result ------------------------------
    def key(self, v):
        if isinstance(v, Arr):
            js = tuple(z3.Int("jj!%d" % i) for i in range(v.ndim))
            return ("arr", tuple(str(d) for d in v.shape), tuple(t.sexpr() for t in terms_of(v.get(js))) or repr(v.get(js)))
        if isinstance(v, XF) or is_z3(v):
            return tuple(t.sexpr() for t in terms_of(v))
        return repr(v)

    def uf(self, ctx, name, args, nd, rng=R):
        """Deterministic function of its arguments: same symbol for the same content.
        Generic indices occurring in the content become arguments."""
        vals, own, ren = [], set(), []
        content = {}
        for ai, a in enumerate(args):
            if isinstance(a, Arr):
                js = tuple(T.bound_var() for i in range(a.ndim))
                own |= {j.decl().name() for j in js}
                ren += [(j, z3.Int("jq!%d" % i)) for i, j in enumerate(js)]
                v = a.get(js)
                content[ai] = (terms_of(v), v)
                vals += content[ai][0]
            else:
                vals += terms_of(a)
        ps = {}
        gen = {c.decl().name() for c in ctx.loopidx} | self.eng.generic_names
        for t in vals + [iv(d) for a in args if isinstance(a, Arr) for d in a.shape]:
            for c in free_int_consts(t):
                n = c.decl().name()
                if n not in own and (n in gen or n.split("!")[0] in BOUNDP):
                    ps[n] = c
        params = [ps[k] for k in sorted(ps)]
        pren = [(p, z3.Int("pp!%d" % i)) for i, p in enumerate(params)] + ren

        def k1(a, ai):
            if isinstance(a, Arr):
                ts, v = content[ai]
                return ("arr", tuple(subst(iv(d), pren).sexpr() for d in a.shape), tuple(subst(t, pren).sexpr() for t in ts) or repr(v))
            if isinstance(a, XF) or is_z3(a):
                return tuple(subst(t, pren).sexpr() for t in terms_of(a))
            return repr(a)
        key = (name, tuple(k1(a, ai) for ai, a in enumerate(args)), str(rng))
        if key not in self.memo:
            m = len(params) + nd
            nm = fresh_name(name)
            self.memo[key] = z3.Function(nm, *([I] * m + [rng])) if m else z3.Const(nm, rng).decl()
        d = self.memo[key]
        return (lambda *idx: d(*(params + [iv(i) for i in idx]))), d

    # -- constructors ----------------------------------------------------------
    def array(self, ctx, v, dtype=None):
        if isinstance(v, Arr):
            r = copy_arr(v)
        elif isinstance(v, SymList):
            probe = v.item(z3.Int("jj!p"))
            it = v.item
            if isinstance(probe, Arr):
                r = Arr((v.n,) + probe.shape, lambda idx: it(iv(idx[0])).get(idx[1:]), probe.dt)
            elif isinstance(probe, (tuple, PyList)):
                m = len(probe.items if isinstance(probe, PyList) else probe)
                seq = lambda q: (lambda w: w.items if isinstance(w, PyList) else w)(it(q))
                dt = max((dt_of(x) for x in (probe.items if isinstance(probe, PyList) else probe)), key="bifo?".index)

                def fn(idx):
                    xs = seq(iv(idx[0]))
                    j = idx[1]
                    if isinstance(j, int):
                        return xs[j]
                    out = xs[-1]
                    for q in range(m - 2, -1, -1):
                        out = merge(j == q, xs[q], out)
                    return out
                r = Arr((v.n, m), fn, dt)
            elif is_num(probe):
                r = Arr((v.n,), lambda idx: it(iv(idx[0])), dt_of(probe))
            elif is_z3(probe) and probe.sort() == Obj:
                r = Arr((v.n,), lambda idx: it(iv(idx[0])), "o")
            else:
                raise Unsupported("array of %r" % (probe,))
        elif isinstance(v, (PyList, tuple)):
            items = v.items if isinstance(v, PyList) else list(v)
            if not items:
                return Arr((0,), lambda idx: XF(ZERO), "f")
            if all(is_num(x) for x in items):
                dts = [dt_of(x) for x in items]
                dt = "f" if "f" in dts else ("i" if "i" in dts else "b")

                def fn(idx):
                    j = idx[0]
                    if isinstance(j, int):
                        return cast(dt, items[j])
                    out = cast(dt, items[-1])
                    for q in range(len(items) - 2, -1, -1):
                        out = merge(z3.simplify(j == q), cast(dt, items[q]), out) if not z3.is_true(z3.simplify(j == q)) else cast(dt, items[q])
                    return out
                r = Arr((len(items),), fn, dt)
            else:
                sub = [self.array(ctx, x) if not isinstance(x, Arr) else x for x in items]
                shp = sub[0].shape
                for s in sub[1:]:
                    if len(s.shape) != len(shp) or not all(dims_equal(ctx, a, b) for a, b in zip(s.shape, shp)):
                        raise Unsupported("ragged array")
                gs = [snapshot(s) for s in sub]

                def fn2(idx):
                    j = idx[0]
                    if isinstance(j, int):
                        return gs[j](idx[1:])
                    out = gs[-1](idx[1:])
                    for q in range(len(gs) - 2, -1, -1):
                        out = merge(j == q, gs[q](idx[1:]), out)
                    return out
                r = Arr((len(sub),) + shp, fn2, sub[0].dt)
        elif is_num(v):
            r = Arr((), lambda idx: v, dt_of(v))
        else:
            raise Unsupported("np.array of %r" % (v,))
        if dtype is not None:
            r = self.astype(ctx, r, dtype)
        return r

    def astype(self, ctx, a, dtype):
        dt = dtype_code(dtype)
        if dt == a.dt:
            return copy_arr(a)
        g = snapshot(a)
        if dt == "i" and a.dt == "f":
            return Arr(a.shape, lambda idx: to_int(ctx, g(idx)), "i", lib=a.lib)
        return Arr(a.shape, lambda idx: cast(dt, g(idx)), dt, lib=a.lib)

    def shape_arg(self, v):
        if isinstance(v, (tuple,)):
            return tuple(v)
        if isinstance(v, PyList):
            return tuple(v.items)
        return (v,)

    def full(self, ctx, shape, val, dt=None):
        shp = self.shape_arg(shape)
        dt = dt or dt_of(val)
        cv = cast(dt, val)
        return Arr(shp, lambda idx: cv, dt)

    def empty(self, ctx, shape, dt):
        # arbitrary contents
        return ctx.sym_arr("empty", self.shape_arg(shape), dt, flags=(dt == "f"))

    # -- reductions ----------------------------------------------------------------
    def reduce_axis(self, ctx, a, axis, one, keepdims=False, dt="f"):
        """one(n, lam) reduces a vector."""
        a = as_arr(ctx, a)
        if isinstance(axis, tuple) and len(axis) == 1:
            axis = axis[0]
        if axis is None:
            if a.ndim == 0:
                return one(1, lambda b: a.get(()))
            if a.ndim == 1:
                g = snapshot(a)
                return one(a.shape[0], lambda b: g((b,)))
            if a.ndim == 2 and one.__name__ == "sum_one":
                g = snapshot(a)
                return one(a.shape[0], lambda b: one(a.shape[1], lambda c: g((b, c))))
            if a.ndim == 2 and one.__name__ in ("any_one", "all_one", "max_one", "min_one"):
                g = snapshot(a)
                return one(a.shape[0], lambda b: one(a.shape[1], lambda c: g((b, c))))
            raise Unsupported("reduction of a matrix")
        if not isinstance(axis, int):
            raise Unsupported("axis")
        if axis < 0:
            axis += a.ndim
        if not 0 <= axis < a.ndim:
            raise PyExc(self.eng.exc("ValueError"), ("axis out of bounds",))
        g = snapshot(a)
        n = a.shape[axis]
        shp = a.shape[:axis] + a.shape[axis + 1:]
        if keepdims:
            shp2 = a.shape[:axis] + (1,) + a.shape[axis + 1:]
            return Arr(shp2, lambda idx: one(n, lambda b: g(idx[:axis] + (b,) + idx[axis + 1:])), dt, lib=a.lib)
        if not shp:
            return one(n, lambda b: g((b,)))
        return Arr(shp, lambda idx: one(n, lambda b: g(idx[:axis] + (b,) + idx[axis:])), dt, lib=a.lib)

    def sum(self, ctx, a, axis=None, keepdims=False):
        a = as_arr(ctx, a)
        if a.dt == "b":
            if a.ndim == 1 and axis in (None, 0, -1):
                mi, args = mask_info(ctx, a)
                return mi.count(args)
            if axis is None:
                raise Unsupported("count over a matrix mask")

            g = snapshot(a)

            def sum_one(n, lam):
                return z3.ToInt(mk_sum(n if isinstance(n, int) else iv(n), lambda b: z3.If(zb(lam(b)), rv(1), ZERO)))
            return self.reduce_axis(ctx, a, axis, sum_one, keepdims, "i")
        if a.dt == "i":
            def sum_one(n, lam):
                return z3.ToInt(mk_sum(n if isinstance(n, int) else iv(n), lambda b: toreal(iv(lam(b)))))
            return self.reduce_axis(ctx, a, axis, sum_one, keepdims, "i")

        def sum_one(n, lam):
            return sum_xf(n, lambda b: xf(lam(b)))
        return self.reduce_axis(ctx, a, axis, sum_one, keepdims)

    def count_of(self, a, axis):
        if axis is None:
            n = 1
            for d in a.shape:
                n = n * d if isinstance(n, int) and isinstance(d, int) else iv(n) * iv(d)
            return n
        return a.shape[axis]

    def mean(self, ctx, a, axis=None, keepdims=False):
        a = as_arr(ctx, a)
        if a.dt in "ib":
            a = self.astype(ctx, a, DT["float64"])
        n = self.count_of(a, axis)
        if a.ndim == 1 and not keepdims:
            m = self.unit_mean(ctx, a, n)
            if m is not None:
                return m
        s = self.sum(ctx, a, axis, keepdims)
        return self.eng.ip.binop(ctx, "/", s, n)

    def unit_mean(self, ctx, a, n):
        """Mean of values that all lie in [0, 1]: finite and in [0, 1] (lemma by induction over the sum)."""
        if getattr(self.eng, "coarse", 0) and not getattr(self.eng, "coarse_mean", 0) or not z3.is_expr(iv(n)) or not S.posint(iv(n)):
            return None
        q = ctx.fint("qm")
        v = xf(a.get((q,)))
        if not value_exp(v.r):
            return None
        if not ctx.provable(z3.Implies(z3.And(q >= 0, q < iv(n)), zb(And(v.fin, v.r >= 0, v.r <= 1)))):
            return None
        g = snapshot(a)
        m = mk_sum(iv(n), lambda b: xf(g((b,))).r) / toreal(iv(n))
        ctx.fact(z3.And(m >= 0, m <= 1))
        return XF(m)

    def var(self, ctx, a, axis=None, ddof=0):
        a = as_arr(ctx, a)
        m = self.mean(ctx, a, axis, keepdims=axis is not None)
        d = self.eng.ip.binop(ctx, "-", a, m)
        sq = self.eng.ip.binop(ctx, "*", d, d)
        n = self.count_of(a, axis)
        if ddof:
            n = arith(ctx, "-", n, ddof)
        return self.eng.ip.binop(ctx, "/", self.sum(ctx, sq, axis), n)

    def any(self, ctx, a, axis=None):
        def any_one(n, lam):
            return S.any_atom(n, lambda b: self.eng.ip.truth(ctx, lam(b)))
        return self.reduce_axis(ctx, a, axis, any_one, False, "b")

    def all(self, ctx, a, axis=None):
        def all_one(n, lam):
            return S.all_atom(n, lambda b: self.eng.ip.truth(ctx, lam(b)))
        return self.reduce_axis(ctx, a, axis, all_one, False, "b")

    def extremum(self, ctx, a, axis, sgn):
        """max (sgn=1) / min (sgn=-1)."""
        a = as_arr(ctx, a)
        if a.dt == "b":
            raise Unsupported("max of booleans")

        if a.ndim == 2 and axis is None and a.dt == "f":
            # over-approximated by an arbitrary value (only used in messages)
            ctx.taint.append("maximum of a matrix")
            return ctx.sym_xf("EXT2", flags=True)

        def max_one(n, lam):
            return self.max_of(ctx, n, lam, sgn)
        return self.reduce_axis(ctx, a, axis, max_one, False, a.dt)

    def max_of(self, ctx, n, lam, sgn):
        if isinstance(n, int) and n <= 4:
            if n == 0:
                raise PyExc(self.eng.exc("ValueError"), ("zero-size array to reduction",))
            v = lam(0)
            for j in range(1, n):
                v = xmax(xf(v), xf(lam(j))) if sgn > 0 else xmin(xf(v), xf(lam(j)))
            return v
        tmp = Arr((n,), lambda idx: lam(idx[0]), "f")
        b0 = z3.Int("jj!0")
        probe = lam(b0)
        isint = is_int(probe)
        nm = "MAX" if sgn > 0 else "MIN"
        if isint:
            f, d = self.uf(ctx, nm, [tmp], 0, I)
        else:
            f, d = self.uf(ctx, nm, [tmp], 0)
        w, wd = self.uf(ctx, "wit" + nm, [tmp], 0, I)
        m = f()
        wit = w()
        # facts: m is attained at wit and bounds every element (finite elements assumed below)
        if isint:
            ctx.eng.generic_fact(ctx, ("max", d.name()), z3.Implies(iv(n) > 0, z3.And(wit >= 0, wit < iv(n), m == iv(lam(wit)))),
                                 lambda q: z3.Implies(z3.And(q >= 0, q < iv(n)), (m >= iv(lam(q))) if sgn > 0 else (m <= iv(lam(q)))))
            return m
        pv = xf(probe)
        if pv.pure:
            ctx.eng.generic_fact(ctx, ("max", d.name()), z3.Implies(iv(n) > 0, z3.And(wit >= 0, wit < iv(n), m == xf(lam(wit)).r)),
                                 lambda q: z3.Implies(z3.And(q >= 0, q < iv(n)), (m >= xf(lam(q)).r) if sgn > 0 else (m <= xf(lam(q)).r)))
            return XF(m)
        g = [self.uf(ctx, nm + s, [tmp], 0, B)[0]() for s in ("_nan", "_pi", "_ni")]
        anynan = S.any_atom(n, lambda q: xf(lam(q)).nan)
        v = XF(m, g[0], And(Not(g[0]), g[1]), And(Not(g[0]), Not(g[1]), g[2]))
        at = xf(lam(wit))
        ctx.eng.generic_fact(ctx, ("max", d.name()),
                             And(Iff(v.nan, anynan), z3.Implies(zb(And(iv(n) > 0, Not(anynan))), zb(And(wit >= 0, wit < iv(n), xsame(v, at))))),
                             lambda q: z3.Implies(zb(And(q >= 0, q < iv(n), Not(anynan))), zb(xle(xf(lam(q)), v) if sgn > 0 else xle(v, xf(lam(q))))))
        return v

    def logaddexp(self, a, b):
        a, b = xf(a), xf(b)
        # log(exp a + exp b); NaN propagates, -inf is neutral
        nan = Or(a.nan, b.nan)
        pi = Or(a.pi, b.pi)
        s = xadd(xexp(XF(a.r, False, False, a.ni)), xexp(XF(b.r, False, False, b.ni)))
        r = xlog(s)
        if nan is False and pi is False:
            return r
        return XF(r.r, nan, And(Not(nan), pi), And(Not(nan), Not(pi), r.ni))

    def lae_reduce(self, ctx, a, axis=0):
        def lae_one(n, lam):
            pr = xf(lam(z3.Int("jj!q")))
            s = sum_xf(n, lambda b: (lambda v: xexp(XF(v.r, False, False, v.ni)))(xf(lam(b))))
            r = xlog(s)
            nan = S.any_atom(n, lambda b: xf(lam(b)).nan)
            pi = S.any_atom(n, lambda b: xf(lam(b)).pi)
            if nan is False and pi is False:
                return r
            return XF(r.r, nan, And(Not(nan), pi), And(Not(nan), Not(pi), r.ni))
        return self.reduce_axis(ctx, a, axis, lae_one)

    # -- linear algebra --------------------------------------------------------------
    def dot(self, ctx, a, b):
        a, b = as_arr(ctx, a), as_arr(ctx, b)
        if a.ndim == 0 or b.ndim == 0:
            return self.eng.ip.binop(ctx, "*", a if a.ndim else a.get(()), b if b.ndim else b.get(()))
        n, m = a.shape[-1], b.shape[0] if b.ndim == 1 else b.shape[-2]
        if not dims_equal(ctx, n, m):
            if ctx.quick(iv(n) == iv(m)) is not True:
                raise PyExc(self.eng.exc("ValueError"), ("shapes not aligned",))
        ga, gb = snapshot(a), snapshot(b)
        if a.ndim == 1 and b.ndim == 1:
            return sum_xf(n, lambda q: xmul(xf(ga((q,))), xf(gb((q,)))))
        if a.ndim == 2 and b.ndim == 1:
            return Arr((a.shape[0],), lambda idx: sum_xf(n, lambda q: xmul(xf(ga((idx[0], q))), xf(gb((q,))))), "f")
        if a.ndim == 1 and b.ndim == 2:
            return Arr((b.shape[1],), lambda idx: sum_xf(n, lambda q: xmul(xf(ga((q,))), xf(gb((q, idx[0]))))), "f")
        if a.ndim == 2 and b.ndim == 2:
            return Arr((a.shape[0], b.shape[1]), lambda idx: sum_xf(n, lambda q: xmul(xf(ga((idx[0], q))), xf(gb((q, idx[1]))))), "f")
        raise Unsupported("dot of %d-d and %d-d" % (a.ndim, b.ndim))

    def cov(self, ctx, m, aweights=None, ddof=1):
        """numpy.cov of an array whose rows are variables."""
        m = as_arr(ctx, m)
        if m.ndim == 1:
            m = Arr((1, m.shape[0]), (lambda g: (lambda idx: g((idx[1],))))(snapshot(m)), "f")
        if m.ndim != 2:
            raise Unsupported("cov")
        d, n = m.shape
        g = snapshot(m)
        ip = self.eng.ip

        def over(x, y, what):
            """x / y, without case distinctions if y is known not to vanish."""
            key = what
            if key not in known:
                known[key] = bool(ctx.provable(zb(And(y.fin, y.r != 0)), timeout=1500))
            if known[key] and x.pure:
                return XF(x.r / y.r)
            return xdiv(x, y)
        known = {}
        if aweights is not None:
            w = snapshot(as_arr(ctx, aweights))
            wi = lambda k: xf(w((k,)))
            wsum = sum_xf(n, wi)
            avg = lambda i: over(sum_xf(n, lambda k: xmul(wi(k), xf(g((i, k))))), wsum, "wsum")
            fact = xsub(wsum, xmul(xf(ddof), over(sum_xf(n, lambda k: xmul(wi(k), wi(k))), wsum, "wsum")))
        else:
            wi = lambda k: XF(rv(1))
            avg = lambda i: xdiv(sum_xf(n, lambda k: xf(g((i, k)))), xf(n))
            fact = xsub(xf(n), xf(ddof))

        def el(i, j):
            s = sum_xf(n, lambda k: xmul(wi(k), xmul(xsub(xf(g((i, k))), avg(i)), xsub(xf(g((j, k))), avg(j)))))
            return over(s, fact, "fact")
        out = Arr((d, d), lambda idx: el(idx[0], idx[1]), "f", tag={"cov": True})
        # numpy squeezes the result
        if isinstance(d, int):
            if d == 1:
                return Arr((), lambda idx: el(0, 0), "f", tag={"cov": True})
            return out
        if ctx.branch(d == 1):
            return Arr((), lambda idx: el(0, 0), "f", tag={"cov": True})
        return out

    def named_matrix(self, ctx, a):
        """Function symbol equal to the matrix a elementwise."""
        a = as_arr(ctx, a)
        i, j = z3.Int("jj!0"), z3.Int("jj!1")
        v = xf(a.get((i, j)))
        if not v.pure:
            v = XF(v.r)
        t = v.r
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() >= 2 and t.arg(t.num_args() - 2).eq(i) and t.arg(t.num_args() - 1).eq(j) \
                and not any(contains(x, i) or contains(x, j) for x in t.children()[:-2]):
            lead = t.children()[:-2]
            d = t.decl()
            return (lambda p, q: d(*(lead + [iv(p), iv(q)]))), d.name()
        f, d = self.uf(ctx, "MAT", [a], 2)
        g = snapshot(a)
        nlead = d.arity() - 2
        key = ("named", d.name())
        if key not in self.memo and nlead == 0:
            self.memo[key] = True
            S.TH.schema(d, lambda p, q: [d(p, q) == xf(g((p, q))).r])
        return f, d.name()

    def inv(self, ctx, a):
        a = as_arr(ctx, a)
        self.square(ctx, a)
        f, name = self.named_matrix(ctx, a)
        h, d = self.uf(ctx, "INV", [a], 2)
        self.mats[(name, d.name())] = True
        T.MATINV[name] = d.name()
        T.MATINV[d.name()] = name
        T.MATDIM[name] = T.MATDIM[d.name()] = a.shape[0]
        if "spd" in a.tag or a.tag.get("sym"):
            T.SYMM.add(d.name())
        if "spd" in a.tag:
            T.PDMAT.add(d.name())
        if isinstance(a.shape[0], int) and a.shape[0] == 1:
            ctx.fact(f(z3.IntVal(0), z3.IntVal(0)) * h(z3.IntVal(0), z3.IntVal(0)) == 1)
        return Arr(a.shape, lambda idx: XF(h(idx[0], idx[1])), "f", tag={"invof": name})

    def square(self, ctx, a):
        if a.ndim != 2:
            raise PyExc(self.eng.exc("LinAlgError"), ("%d-dimensional array given, 2-d required" % a.ndim,))
        if not dims_equal(ctx, a.shape[0], a.shape[1]):
            raise PyExc(self.eng.exc("LinAlgError"), ("not square",))

    def cholesky(self, ctx, a):
        a = as_arr(ctx, a)
        self.square(ctx, a)
        f, name = self.named_matrix(ctx, a)
        h, d = self.uf(ctx, "CHOL", [a], 2)
        T.CHOLOF[d.name()] = name
        return Arr(a.shape, lambda idx: XF(h(idx[0], idx[1])), "f", tag={"cholof": name})

    def slogdet(self, ctx, a):
        a = as_arr(ctx, a)
        self.square(ctx, a)
        f, name = self.named_matrix(ctx, a)
        s, _ = self.uf(ctx, "DETSIGN", [a], 0)
        l, d = self.uf(ctx, "LOGABSDET", [a], 0)
        self.memo[("logabsdet", name)] = l()
        return (XF(s()), XF(l()))

    def solve(self, ctx, a, b):
        a, b = as_arr(ctx, a), as_arr(ctx, b)
        iv_ = self.inv(ctx, a)
        return self.dot(ctx, iv_, b)

    # -- random draws ------------------------------------------------------------------
    def draw(self, ctx, kind, shape, dt="f", schema=None, **info):
        nm = fresh_name("draw_" + kind)
        lead = list(ctx.loopidx)
        nd = len(shape)
        rng = {"f": R, "i": I}[dt]
        dcl = z3.Function(nm, *([I] * (len(lead) + nd) + [rng])) if lead or nd else z3.Const(nm, rng).decl()
        if schema is not None:
            S.TH.schema(dcl, lambda *a: schema(dcl(*a)))
        f = lambda idx: dcl(*(lead + [iv(i) for i in idx]))
        rec = dict(kind=kind, decl=dcl, shape=shape, lead=lead, f=f, **info)
        ctx.draws.append(rec)
        ctx.eng.event(ctx, ("draw", kind, rec))
        if not shape:
            return XF(f(())) if dt == "f" else f(())
        a = Arr(shape, (lambda idx: XF(f(idx))) if dt == "f" else f, dt)
        a.tag["draw"] = rec
        return a

    def size_arg(self, size):
        if size is None:
            return ()
        return self.shape_arg(size)

    def choice(self, ctx, args, kw):
        a = arg(args, kw, 0, "a")
        size = arg(args, kw, 1, "size")
        rep = arg(args, kw, 2, "replace", True)
        p = arg(args, kw, 3, "p")
        shp = self.size_arg(size)
        if is_int(a):
            n = a
            src = None
        else:
            src = as_arr(ctx, a)
            n = src.shape[0]
        q = ctx.quick(iv(n) > 0)
        if q is not True:
            # empty population
            if ctx.branch(iv(n) <= 0):
                if all(ctx.quick(iv(s) > 0) is False for s in shp if not isinstance(s, int)) and shp:
                    pass
                raise PyExc(self.eng.exc("ValueError"), ("a must be non-empty",))
        if p is not None:
            pa = as_arr(ctx, p)
            if not dims_equal(ctx, pa.shape[0], n):
                raise PyExc(self.eng.exc("ValueError"), ("a and p must have same size",))
            ctx.eng.choice_p(ctx, pa)
        idx = self.draw(ctx, "choice", shp, "i", lambda t: [t >= 0, t < iv(n)], n=n, p=p, replace=rep, src=src)
        if src is None:
            return idx
        g = snapshot(src)
        if isinstance(idx, Arr):
            h = snapshot(idx)
            r = Arr(shp, lambda i: g((h(i),)), src.dt)
            if src.tag.get("arange"):
                r.tag["draw"] = idx.tag.get("draw")
                return Arr(shp, lambda i: h(i), "i", tag=dict(r.tag))
            return r
        return g((idx,))


def value_exp(t):
    """An exponential occurs as a value (not merely in a condition)."""
    if not z3.is_app(t):
        return False
    if t.decl().name() == "EXP":
        return True
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        return value_exp(t.arg(1)) or value_exp(t.arg(2))
    return k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) and any(value_exp(c) for c in t.children())
