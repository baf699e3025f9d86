"""Array indexing: views, masks, gathers, scatters, rows."""
import z3
from .term import *  # noqa
from . import term as T
from . import solver as S
from .values import *  # noqa
from .ctx import same_dim, merge, fresh_name
from .ops import *  # noqa


class MaskInfo:
    """x[mask]: order-preserving enumeration nz of the indices where pred holds."""

    def __init__(self, uid, params, n, pred, bvar):
        self.uid = uid
        self.params = params
        self._n, self._pred, self._b = n, pred, bvar
        k = len(params)
        self.nzd = z3.Function("nz%d" % uid, *([I] * (k + 1) + [I]))
        self.rkd = z3.Function("rank%d" % uid, *([I] * (k + 1) + [I]))
        self.cnd = z3.Function("cnt%d" % uid, *([I] * k + [I])) if k else None
        self.cn0 = z3.Int("cnt%d" % uid)

    def count(self, args):
        return self.cnd(*args) if args else self.cn0

    def pred_at(self, args, k):
        return subst(zb(self._pred), list(zip(self.params, args)) + [(self._b, iv(k))])

    def n_at(self, args):
        return subst(iv(self._n), list(zip(self.params, args)))

    def nz(self, args, c):
        c = iv(c)
        if is_app_of(c, self.rkd) and all(c.arg(i).eq(a) for i, a in enumerate(args)):
            return c.arg(len(args))
        return self.nzd(*(list(args) + [c]))

    def rank(self, args, k):
        k = iv(k)
        if is_app_of(k, self.nzd) and all(k.arg(i).eq(a) for i, a in enumerate(args)):
            return k.arg(len(args))
        return self.rkd(*(list(args) + [k]))

    def register(self):
        th = S.TH
        m = len(self.params)

        def nzs(*a):
            args, c = list(a[:m]), a[m]
            t = self.nzd(*a)
            return [z3.Implies(z3.And(c >= 0, c < self.count(args)),
                               z3.And(t >= 0, t < self.n_at(args), self.pred_at(args, t),
                                      self.rkd(*(args + [t])) == c))]

        def rks(*a):
            args, k = list(a[:m]), a[m]
            t = self.rkd(*a)
            return [z3.Implies(z3.And(k >= 0, k < self.n_at(args), self.pred_at(args, k)),
                               z3.And(t >= 0, t < self.count(args), self.nzd(*(args + [t])) == k))]

        def cns(*a):
            args = list(a)
            t = self.count(args)
            n = self.n_at(args)
            anyt = S.any_atom(n, lambda b: self.pred_at(args, b))
            allt = S.all_atom(n, lambda b: self.pred_at(args, b))
            return [z3.Implies(n >= 0, z3.And(t >= 0, t <= n, (t > 0) == zb(anyt), (t == n) == zb(allt)))]
        th.schema(self.nzd, nzs)
        th.schema(self.rkd, rks)
        th.schemas.setdefault("cnt%d" % self.uid, []).append(cns)
        T.NZ["cnt%d" % self.uid] = self
        th.masks["cnt%d" % self.uid] = self


def mask_info(ctx, arr):
    """(MaskInfo, args) of a 1-D boolean array."""
    n = arr.shape[0]
    dp = ctx.eng.__dict__.setdefault("mdepth", 0)
    b = z3.Int("mb!%d" % dp)          # one bound variable per nesting depth: equal masks give identical terms
    ctx.eng.mdepth = dp + 1
    try:
        pred = arr.get((b,))
    finally:
        ctx.eng.mdepth = dp
    pred = z3.simplify(zb(pred)) if not isinstance(pred, bool) else z3.BoolVal(pred)
    hi = iv(n)
    ps = {}
    for t in (pred, hi):
        for c in free_int_consts(t):
            if not c.eq(b):
                ps[c.decl().name()] = c
    loopn = {c.decl().name() for c in ctx.loopidx} | ctx.eng.generic_names
    params = [ps[k] for k in sorted(ps) if k in loopn or k.split("!")[0] in ("b", "bb", "ab", "jj", "pp", "sb", "j", "k", "kk", "mb")]
    mb = b
    pren = [(p, z3.Int("pp!%d" % i)) for i, p in enumerate(params)]
    pred2, hi2 = subst(pred, pren), subst(hi, pren)
    key = (pred2.sexpr(), hi2.sexpr())
    reg = ctx.eng.mask_reg
    here = ctx.__dict__.setdefault("masks_here", {})
    if key in here:
        return here[key], params
    if key in reg:
        if not getattr(ctx.eng, "coarse", 0):
            here[key] = reg[key]
        return reg[key], params
    # a mask equivalent to an existing one (on this path) shares its enumeration
    kk = b
    for k2, mi in list(here.items()) if not getattr(ctx.eng, "coarse", 0) else ():
        if len(mi.params) == len(params) and k2[1] == key[1]:
            other = mi.pred_at(params, kk)
            if ctx.provable(z3.Implies(z3.And(kk >= 0, kk < hi), pred == other), timeout=1500):
                return mi, params
    uid = len(reg)
    mi = MaskInfo(uid, [p for _, p in pren], hi2, pred2, mb)
    T._keep.append(pred2)
    reg[key] = mi
    if not getattr(ctx.eng, "coarse", 0):
        here[key] = mi
    mi.register()
    return mi, params


def norm_index(ctx, i, n):
    if isinstance(i, bool):
        raise Unsupported("boolean scalar index")
    if isinstance(i, int):
        if i < 0:
            return z3.simplify(iv(n) + i) if not isinstance(n, int) else n + i
        return i
    if is_z3(i) and z3.is_int(i):
        q = ctx.quick(i >= 0)
        if q is True:
            return i
        if q is False:
            return z3.simplify(iv(n) + i)
        return z3.If(i >= 0, i, iv(n) + i)
    if isinstance(i, XF):
        raise PyExc(ctx.eng.exc("IndexError"), ("float index",))
    raise Unsupported("index %r" % (i,))


def check_bounds(ctx, i, n):
    """Raise IndexError on the paths where a scalar index is out of range."""
    if isinstance(i, int) and isinstance(n, int):
        ok = -n <= i < n
    else:
        j = norm_index(ctx, i, n)
        ok = z3.And(iv(j) >= 0, iv(j) < iv(n))
    if ok is True:
        return
    if not ctx.eng.bounds_checks:
        return
    if not ctx.branch(ok):
        raise PyExc(ctx.eng.exc("IndexError"), ("index out of range",))


def slice_params(ctx, s, n):
    st, sp, step = s
    if step is not None and not (isinstance(step, int) and step == 1):
        if isinstance(step, int) and step == -1 and st is None and sp is None:
            return ("rev", n)
        raise Unsupported("slice step")

    def clip(v, default):
        if v is None:
            return default
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v = max(n + v, 0)
            return min(v, n)
        if isinstance(v, int) and v < 0:
            v = z3.simplify(iv(n) + v)
            return v if ctx.quick(v >= 0) is True else z3.If(v >= 0, v, z3.IntVal(0))
        if isinstance(v, int) and v == 0:
            return 0
        v = iv(v)
        q = ctx.quick(z3.And(v >= 0, v <= iv(n)))
        if q is True:
            return v
        if ctx.quick(v >= 0) is not True:
            v = z3.If(v >= 0, v, z3.If(v + iv(n) >= 0, v + iv(n), z3.IntVal(0)))
        return z3.If(v <= iv(n), v, iv(n))
    a, b = clip(st, 0), clip(sp, n)
    if isinstance(a, int) and isinstance(b, int):
        return ("fwd", a, max(0, b - a))
    ln = z3.simplify(iv(b) - iv(a))
    if ctx.quick(ln >= 0) is not True:
        ln = z3.If(ln >= 0, ln, z3.IntVal(0))
    return ("fwd", a, ln)


def add_i(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    return z3.simplify(iv(a) + iv(b))


def sub_i(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return z3.simplify(iv(a) - iv(b))


def normalize_key(ctx, arr, key):
    if not isinstance(key, tuple):
        key = (key,)
    if any(k is Ellipsis for k in key):
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        pos = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:pos] + (slice(None),) * (arr.ndim - n) + key[pos + 1:]
    out = []
    for k in key:
        if isinstance(k, (PyList, SymList)):
            k = ctx.eng.np_array(ctx, k)
        if isinstance(k, Arr) and k.ndim == 0:
            k = k.get(())
        out.append(k)
    key = tuple(out)
    used = sum(1 for k in key if k is not None)
    used += sum(k.ndim - 1 for k in key if isinstance(k, Arr) and k.dt == "b")
    if used > arr.ndim:
        raise PyExc(ctx.eng.exc("IndexError"), ("too many indices",))
    key = key + (slice(None),) * (arr.ndim - used)
    return key


def concrete_mask(k):
    """Positions selected by a mask of known length and known entries."""
    if k.ndim != 1 or not isinstance(k.shape[0], int) or k.shape[0] > 8:
        return None
    out = []
    for q in range(k.shape[0]):
        v = k.get((q,))
        if is_z3(v):
            v = z3.simplify(v)
            v = True if z3.is_true(v) else False if z3.is_false(v) else None
        if v is True:
            out.append(q)
        elif v is not False:
            return None
    return out


def getitem(ctx, arr, key):
    key = normalize_key(ctx, arr, key)
    adv = [k for k in key if isinstance(k, Arr)]
    if not adv:
        return basic_view(ctx, arr, key)
    if len(adv) == 1 and adv[0].dt == "b" and adv[0].ndim > 1:
        raise Unsupported("multi-dimensional mask read")
    if len(adv) > 1:
        raise Unsupported("several advanced indices")
    pos = [i for i, k in enumerate(key) if isinstance(k, Arr)][0]
    ax = sum(1 for k in key[:pos] if k is not None)
    k = key[pos]
    rest = key[:pos] + (slice(None),) + key[pos + 1:]
    base = basic_view(ctx, arr, rest) if any(not is_full(s) for s in rest) else arr
    oax = sum(1 for s in key[:pos] if s is None or isinstance(s, slice))
    g = snapshot(base)
    if k.dt == "b":
        if not dims_equal(ctx, k.shape[0], base.shape[oax]):
            raise PyExc(ctx.eng.exc("IndexError"), ("boolean index did not match",))
        fixed = concrete_mask(k)
        if fixed is not None:
            def take(i):
                if isinstance(i, int):
                    return fixed[i] if -len(fixed) <= i < len(fixed) else 0
                t = z3.IntVal(fixed[-1]) if fixed else z3.IntVal(0)
                for q in range(len(fixed) - 2, -1, -1):
                    t = z3.If(iv(i) == q, z3.IntVal(fixed[q]), t)
                return z3.simplify(t)
            return Arr(base.shape[:oax] + (len(fixed),) + base.shape[oax + 1:], lambda idx: g(idx[:oax] + (take(idx[oax]),) + idx[oax + 1:]), base.dt, lib=base.lib)
        mi, args = mask_info(ctx, k)
        cnt = mi.count(args)
        shp = base.shape[:oax] + (cnt,) + base.shape[oax + 1:]
        tag = {}
        if base.tag.get("arange") and base.ndim == 1:
            tag["scatter"] = (mi, args)
        return Arr(shp, lambda idx: g(idx[:oax] + (mi.nz(args, idx[oax]),) + idx[oax + 1:]), base.dt, lib=base.lib, tag=tag)
    if k.dt != "i":
        raise PyExc(ctx.eng.exc("IndexError"), ("arrays used as indices must be integer",))
    h = snapshot(k)
    nd = k.ndim
    n = base.shape[oax]
    shp = base.shape[:oax] + k.shape + base.shape[oax + 1:]
    ctx.eng.index_array_use(ctx, k, n)

    def fn(idx):
        j = h(idx[oax:oax + nd])
        return g(idx[:oax] + (neg_norm(j, n),) + idx[oax + nd:])
    return Arr(shp, fn, base.dt, lib=base.lib)


def neg_norm(j, n):
    if isinstance(j, int) and j < 0:
        return sub_i(n, -j)
    return j


def is_full(s):
    return isinstance(s, slice) and s.start is None and s.stop is None and s.step is None


def basic_view(ctx, arr, key):
    """Integers, slices and newaxis: a view."""
    if all(is_full(k) for k in key):
        return Arr(arr.shape, None, arr.dt, base=arr, fwd=lambda i: i, inv=lambda i: (True, i), lib=arr.lib, tag=dict(arr.tag))
    spec = []
    shape = []
    ax = 0
    for k in key:
        if k is None:
            shape.append(1)
            spec.append(("new",))
            continue
        n = arr.shape[ax]
        if isinstance(k, slice):
            if is_full(k):
                spec.append(("fwd", 0, n))
                shape.append(n)
            else:
                p = slice_params(ctx, (k.start, k.stop, k.step), n)
                if p[0] == "rev":
                    spec.append(("rev", n))
                    shape.append(n)
                else:
                    spec.append(p)
                    shape.append(p[2])
        elif is_int(k) or isinstance(k, XF):
            check_bounds(ctx, k, n)
            spec.append(("at", norm_index(ctx, k, n)))
        else:
            raise Unsupported("index %r" % (k,))
        ax += 1

    def fwd(idx):
        out = []
        j = 0
        for s in spec:
            if s[0] == "new":
                j += 1
            elif s[0] == "at":
                out.append(s[1])
            elif s[0] == "rev":
                out.append(sub_i(sub_i(s[1], 1), idx[j]))
                j += 1
            else:
                out.append(add_i(s[1], idx[j]))
                j += 1
        return tuple(out)

    def inv(bidx):
        g = True
        out = []
        a = 0
        for s in spec:
            if s[0] == "new":
                out.append(0)
                continue
            b = bidx[a]
            if s[0] == "at":
                g = And(g, b == s[1] if (isinstance(b, int) and isinstance(s[1], int)) else iv(b) == iv(s[1]))
            elif s[0] == "rev":
                out.append(sub_i(sub_i(s[1], 1), b))
            else:
                st, ln = s[1], s[2]
                if not (isinstance(st, int) and st == 0 and same_dim(ln, arr.shape[a])):
                    g = And(g, zb(z3.And(iv(b) >= iv(st), iv(b) < iv(st) + iv(ln))))
                out.append(sub_i(b, st))
            a += 1
        return g, tuple(out)
    if not shape:
        if arr.dt == "row":
            pass
        return arr.get(fwd(()))
    v = Arr(tuple(shape), None, arr.dt, base=arr, fwd=fwd, inv=inv, lib=arr.lib)
    return v


def setitem(ctx, arr, key, val):
    """arr[key] = val"""
    if isinstance(key, Arr) and key.dt == "b" and key.ndim > 1:
        if key.ndim != arr.ndim or isinstance(val, Arr):
            raise Unsupported("multi-dimensional mask write")
        m = snapshot(key)
        write(ctx, arr, lambda idx: m(idx), lambda idx: val)
        return
    key = normalize_key(ctx, arr, key)
    adv = [k for k in key if isinstance(k, Arr)]
    if isinstance(val, (PyList, SymList, tuple)):
        val = ctx.eng.np_array(ctx, val)
    if not adv:
        if all(is_int(k) for k in key) and len(key) == arr.ndim:
            for k, n in zip(key, arr.shape):
                check_bounds(ctx, k, n)
            tgt = tuple(norm_index(ctx, k, n) for k, n in zip(key, arr.shape))
            if isinstance(val, Arr):
                if val.ndim == 0 or all(isinstance(d, int) and d == 1 for d in val.shape):
                    val = val.get((0,) * val.ndim)
                else:
                    raise PyExc(ctx.eng.exc("ValueError"), ("setting an array element with a sequence",))

            def cond(idx):
                g = True
                for a, b in zip(idx, tgt):
                    g = And(g, (a == b) if isinstance(a, int) and isinstance(b, int) else iv(a) == iv(b))
                return g
            write(ctx, arr, cond, lambda idx: val)
            return
        v = basic_view(ctx, arr, key)
        assign_all(ctx, v, val)
        return
    if len(adv) > 1:
        raise Unsupported("several advanced indices in assignment")
    pos = [i for i, k in enumerate(key) if isinstance(k, Arr)][0]
    k = key[pos]
    rest = key[:pos] + (slice(None),) + key[pos + 1:]
    base = basic_view(ctx, arr, rest) if any(not is_full(s) for s in rest) else arr
    oax = sum(1 for s in key[:pos] if s is None or isinstance(s, slice))
    if k.dt == "b":
        if not dims_equal(ctx, k.shape[0], base.shape[oax]):
            raise PyExc(ctx.eng.exc("IndexError"), ("boolean index did not match",))
        mi, args = mask_info(ctx, k)
        m = snapshot(k)
        shp = base.shape[:oax] + (mi.count(args),) + base.shape[oax + 1:]
        getv = value_getter(ctx, val, shp)
        write(ctx, base, lambda idx: m((idx[oax],)),
              lambda idx: getv(idx[:oax] + (mi.rank(args, idx[oax]),) + idx[oax + 1:]))
        return
    if k.dt == "i" and k.ndim == 1:
        sc = k.tag.get("scatter")
        shp = base.shape[:oax] + k.shape + base.shape[oax + 1:]
        getv = value_getter(ctx, val, shp)
        if sc is not None:
            mi, args = sc
            write(ctx, base, lambda idx: mi.pred_at(args, idx[oax]),
                  lambda idx: getv(idx[:oax] + (mi.rank(args, idx[oax]),) + idx[oax + 1:]))
            return
    raise Unsupported("scatter through an integer array")


def value_getter(ctx, val, shp):
    if isinstance(val, Arr):
        out = broadcast_shapes(ctx, [val.shape, shp])
        if len(out) != len(shp):
            if val.ndim > len(shp):
                raise PyExc(ctx.eng.exc("ValueError"), ("could not broadcast",))
        g = snapshot(val)
        return lambda idx: g(bindex(val.shape, shp, idx))
    if is_num(val) or is_z3(val):
        return lambda idx: val
    if val is None:
        raise PyExc(ctx.eng.exc("TypeError"), ("float() argument must be a number, not NoneType",))
    raise Unsupported("assigning %r to an array" % (val,))


def assign_all(ctx, arr, val):
    getv = value_getter(ctx, val, arr.shape)
    write(ctx, arr, lambda idx: True, getv)


# ---- rows ------------------------------------------------------------------
class RowReg:
    by_key = {}
    by_decl = {}


def el_xf(Rt, j):
    """The j-th element of a row term (if-then-else is pushed outwards)."""
    j = iv(j)
    if z3.is_app(Rt) and Rt.decl().kind() == z3.Z3_OP_ITE:
        return xite(Rt.arg(0), el_xf(Rt.arg(1), j), el_xf(Rt.arg(2), j))
    if z3.is_app(Rt) and Rt.decl().name() in RowReg.by_decl:
        info = RowReg.by_decl[Rt.decl().name()]
        return info.inst(Rt.children(), j)
    if z3.is_app(Rt) and Rt.decl().name() in T.FINROW:
        return XF(EL(Rt, j))
    return XF(EL(Rt, j), ELNAN(Rt, j), And(Not(ELNAN(Rt, j)), ELPI(Rt, j)),
              And(Not(ELNAN(Rt, j)), Not(ELPI(Rt, j)), ELNI(Rt, j)))


class RowInfo:
    def __init__(self, decl, params, b, val):
        self.decl, self.params, self.b, self.val = decl, params, b, val

    def inst(self, args, j):
        pairs = list(zip(self.params, args)) + [(self.b, iv(j))]
        return xsubst(self.val, pairs)


def to_row(v, b):
    """Row term whose b-th element is v, or None if v is not in row form."""
    r = v.r
    if is_app_of(r, EL) and r.arg(1).eq(b) and not contains(r.arg(0), b):
        w = el_xf(r.arg(0), b)
        if same_flag(v.nan, w.nan) and same_flag(v.pi, w.pi) and same_flag(v.ni, w.ni):
            return r.arg(0)
        return None
    if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_ITE and not contains(r.arg(0), b):
        c = r.arg(0)

        def part(f, i):
            if isinstance(f, bool):
                return f
            if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE and f.arg(0).eq(c):
                return f.arg(i)
            return None
        subs = []
        for i in (1, 2):
            fl = [part(f, i) for f in v.flags()]
            if any(f is None for f in fl):
                return None
            s = to_row(XF(r.arg(i), *fl), b)
            if s is None:
                return None
            subs.append(s)
        return z3.If(c, subs[0], subs[1])
    return None


def same_flag(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b)
    return a.eq(b)


def row_term(ctx, arr, r=None):
    """Row-sort term for row r of a 2-D array (or for a 1-D array)."""
    b = T.bound_var()
    v = arr.get((iv(r), b)) if r is not None else arr.get((b,))
    if not isinstance(v, XF):
        v = xf(v)
    t = to_row(v, b)
    if t is not None:
        return t
    v = XF(z3.simplify(v.r), *[z3.simplify(f) if is_z3(f) else f for f in v.flags()])
    t = to_row(v, b)
    if t is not None:
        return t
    params = T.index_terms([v.r, v.nan, v.pi, v.ni], b)
    rb = z3.Int("rb!0")
    pren = [(p, z3.Int("pp!%d" % i)) for i, p in enumerate(params)] + [(b, rb)]
    val = xsubst(v, pren)
    pren.pop()
    b = rb
    key = tuple(q.sexpr() if is_z3(q) else q for q in (val.r, val.nan, val.pi, val.ni))
    if key not in RowReg.by_key:
        n = len(RowReg.by_key)
        decl = z3.Function("mkrow%d" % n, *([I] * len(params) + [Row])) if params else z3.Const("mkrow%d" % n, Row).decl()
        info = RowInfo(decl, [p for _, p in pren], b, val)
        RowReg.by_key[key] = info
        RowReg.by_decl["mkrow%d" % n] = info
        T._keep.append(val.r)
    return RowReg.by_key[key].decl(*params)


class RowFn:
    """An abstract function of one row; real-valued (with flags), row-valued or object-valued."""

    def __init__(self, name, kind="real", flags=True, pure=None):
        self.name, self.kind = name, kind
        self.f = z3.Function(name, Row, {"real": R, "row": Row, "obj": Obj}[kind])
        self.flags = flags
        if kind == "real" and flags:
            self.fl = [z3.Function(name + s, Row, B) for s in ("_nan", "_pinf", "_ninf")]

    def __call__(self, Rt):
        if z3.is_app(Rt) and Rt.decl().kind() == z3.Z3_OP_ITE:
            return merge(Rt.arg(0), self(Rt.arg(1)), self(Rt.arg(2)))
        if self.kind != "real":
            return self.f(Rt)
        if not self.flags:
            return XF(self.f(Rt))
        nan, p, n = [g(Rt) for g in self.fl]
        return XF(self.f(Rt), nan, And(Not(nan), p), And(Not(nan), Not(p), n))
