"""Scalar and array operations."""
import math
from fractions import Fraction
import z3
from .term import *  # noqa
from . import term as T
from . import solver as S
from .values import *  # noqa
from .ctx import same_dim, merge, fresh_name


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_z3(v) and z3.is_int(v))


def is_bool(v):
    return isinstance(v, bool) or (is_z3(v) and z3.is_bool(v))


def is_num(v):
    return isinstance(v, (int, float, XF, Fraction)) or (is_z3(v) and (z3.is_int(v) or z3.is_real(v) or z3.is_bool(v)))


def concrete(v):
    return isinstance(v, (bool, int, float, Fraction))


def dt_of(v):
    if isinstance(v, Arr):
        return v.dt
    if is_bool(v):
        return "b"
    if is_int(v):
        return "i"
    if is_num(v):
        return "f"
    if is_z3(v) and v.sort() == Obj:
        return "o"
    return "?"


def b2i(v):
    if isinstance(v, bool):
        return int(v)
    if is_z3(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


# ---- scalar functions ------------------------------------------------------
def xrecip(a):
    c = a.const()
    if c is not None and c != 0:
        return XF(rv(1 / c))
    if S.sign(a.r) == 2 and a.pure:
        return XF(rv(1) / a.r)
    z = And(a.fin, a.r == 0) if c is None else (c == 0)
    # 1/0 = +inf (the sign of zero is not modelled), 1/inf = 0
    r = rv(1) / a.r
    if a.inf is not False:
        r = z3.If(zb(a.inf), ZERO, r)
    return XF(r, a.nan, z, False)


def xdiv(a, b):
    c = b.const()
    if c is not None and c != 0:
        return xmul(a, XF(rv(1 / c)))
    if b.pure and a.pure and S.sign(b.r) == 2:
        return XF(a.r / b.r)
    if b.pure and a.pure:
        z = b.r == 0 if c is None else (c == 0)
        return XF(a.r / b.r, And(z, a.r == 0), And(z, a.r > 0), And(z, a.r < 0))
    return xmul(a, xrecip(b))


def xexp(a):
    c = a.const()
    if c == 0:
        return XF(rv(1))
    e = EXP(a.r)
    if a.ni is not False:
        e = z3.If(zb(a.ni), ZERO, e)
    return XF(e, a.nan, a.pi, False)


def xlog(a):
    c = a.const()
    if c == 1:
        return XF(ZERO)
    if a.pure and S.sign(a.r) == 2:
        return XF(LOG(a.r))
    if c is not None:
        return NINF if c == 0 else (NAN if c < 0 else XF(LOG(a.r)))
    neg = And(a.fin, a.r < 0)
    zer = And(a.fin, a.r == 0)
    if S.sign(a.r) == 1:
        neg = False
    return XF(LOG(a.r), Or(a.nan, neg, a.ni), a.pi, zer)


def xsqrt(a):
    c = a.const()
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return XF(rv(Fraction(n, d)))
        return XF(SQRT(a.r))
    if S.sign(a.r) >= 1 and a.pure:
        return XF(SQRT(a.r))
    return XF(SQRT(a.r), Or(a.nan, a.ni, And(a.fin, a.r < 0)), a.pi, False)


def xabs(a):
    r = z3.If(a.r >= 0, a.r, -a.r) if a.const() is None else rv(abs(a.const()))
    return XF(r, a.nan, a.inf, False)


def xmin(a, b):
    """numpy.minimum: NaN propagates."""
    if a.pure and b.pure:
        if a.const() is not None and b.const() is not None:
            return a if a.const() <= b.const() else b
        return XF(z3.If(a.r <= b.r, a.r, b.r))
    n = Or(a.nan, b.nan)
    v = xite(xle(a, b), a, b)
    return XF(v.r, n, And(Not(n), v.pi), And(Not(n), v.ni))


def xmax(a, b):
    return xneg(xmin(xneg(a), xneg(b)))


def xpow(a, b):
    a, b = xf(a), xf(b)
    e = b.const()
    ca = a.const()
    if e is not None and ca is not None:
        if e.denominator == 1 and (ca != 0 or e >= 0) and abs(e) < 64:
            return XF(rv(ca ** int(e)))
    if e is not None:
        if e == 0:
            return XF(rv(1))
        if e.denominator == 1 and 0 < e <= 8:
            out = a
            for _ in range(int(e) - 1):
                out = xmul(out, a)
            return out
        if e.denominator == 1 and -8 <= e < 0:
            return xrecip(xpow(a, XF(rv(-e))))
        if e == Fraction(1, 2):
            return xsqrt(a)
        if e == Fraction(-1, 2):
            return xrecip(xsqrt(a))
    if not (a.pure and b.pure):
        if a.pure and b.nan is False:
            pass
        raise Unsupported("power of a non-finite value")
    if S.sign(a.r) == 2 or (S.sign(a.r) >= 1 and e is not None and e > 0):
        return XF(POW(a.r, b.r))
    return XF(POW(a.r, b.r), And(a.r < 0, z3.Not(z3.IsInt(b.r)) if not z3.is_to_real(b.r) else False), False, False)


def xfloor_int(a):
    if not a.pure:
        raise Unsupported("floor of a possibly non-finite value")
    c = a.const()
    if c is not None:
        return math.floor(c)
    return FLOOR(a.r)


def to_int(ctx, a):
    """Python int(): truncation towards zero."""
    if isinstance(a, bool):
        return int(a)
    if isinstance(a, int):
        return a
    if isinstance(a, float):
        return int(a)
    if is_z3(a) and z3.is_int(a):
        return a
    if is_z3(a) and z3.is_bool(a):
        return b2i(a)
    a = xf(a)
    c = a.const()
    if c is not None:
        return int(c)
    # int of an integer-valued expression
    t = z3.simplify(a.r)
    if a.pure and z3.is_to_real(t):
        return t.arg(0)
    if not a.pure:
        if ctx.quick(Not(a.fin)) is not False:
            if ctx.branch(Not(a.fin)):
                raise PyExc(ctx.eng.exc("ValueError"), ("int of non-finite",))
        a = XF(a.r)
    if S.sign(a.r) >= 1:
        return FLOOR(a.r)
    return z3.If(a.r >= 0, FLOOR(a.r), -FLOOR(-a.r))


# ---- comparison ------------------------------------------------------------
def cmp_scalar(op, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
    if not (is_num(a) and is_num(b)):
        if op in ("==", "!="):
            if is_z3(a) and is_z3(b) and a.sort() == b.sort():
                return (a == b) if op == "==" else (a != b)
            if a is b:
                return op == "=="
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return op == "!="
            if type(a).__name__ == "Dtype" and type(b).__name__ == "Dtype" and "unknown" not in (a.name, b.name):
                return (a.name == b.name) == (op == "==")
        raise Unsupported("comparison of %r and %r" % (a, b))
    if concrete(a) and concrete(b):
        return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
    if is_bool(a) and is_bool(b):
        if op == "==":
            return Iff(a, b)
        if op == "!=":
            return Not(Iff(a, b))
    a, b = b2i(a), b2i(b)
    if is_int(a) and is_int(b):
        x, y = iv(a), iv(b)
        r = {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        r2 = z3.simplify(r)
        return True if z3.is_true(r2) else (False if z3.is_false(r2) else r)
    x, y = xf(a), xf(b)
    if op == "==":
        return xeq(x, y)
    if op == "!=":
        return Not(xeq(x, y))
    if op == "<":
        return xlt(x, y)
    if op == ">":
        return xlt(y, x)
    if op == "<=":
        return xle(x, y)
    return xle(y, x)


def int_floordiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    return iv(a) / iv(b)        # z3 Int division: floor for positive divisors


def arith(ctx, op, a, b):
    """Scalar arithmetic."""
    if concrete(a) and concrete(b):
        try:
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return a / b
            if op == "//":
                return a // b
            if op == "%":
                return a % b
            if op == "**":
                if isinstance(a, int) and isinstance(b, int) and abs(b) > 4096:
                    raise Unsupported("huge power")
                r = a ** b
                if isinstance(r, complex):
                    raise Unsupported("complex power")
                return r
        except ZeroDivisionError:
            raise PyExc(ctx.eng.exc("ZeroDivisionError"))
        except OverflowError:
            raise PyExc(ctx.eng.exc("OverflowError"))
    if op in ("&", "|", "^"):
        if is_bool(a) and is_bool(b):
            return And(a, b) if op == "&" else (Or(a, b) if op == "|" else Not(Iff(a, b)))
        if isinstance(a, int) and isinstance(b, int):
            return a & b if op == "&" else (a | b if op == "|" else a ^ b)
        raise Unsupported("bitwise on symbols")
    a, b = b2i(a), b2i(b)
    if is_int(a) and is_int(b) and op != "/":
        x, y = iv(a), iv(b)
        if op == "+":
            return z3.simplify(x + y)
        if op == "-":
            return z3.simplify(x - y)
        if op == "*":
            return z3.simplify(x * y)
        if op in ("//", "%"):
            q = ctx.quick(y > 0)
            if q is not True:
                raise Unsupported("integer division by a possibly non-positive number")
            return int_floordiv(a, b) if op == "//" else (x % y)
        if op == "**" and isinstance(b, int) and 0 <= b <= 6:
            out = z3.IntVal(1)
            for _ in range(b):
                out = out * x
            return z3.simplify(out)
        return xpow(xf(a), xf(b))
    x, y = xf(a), xf(b)
    if op == "+":
        return xadd(x, y)
    if op == "-":
        return xsub(x, y)
    if op == "*":
        return xmul(x, y)
    if op == "/":
        return xdiv(x, y)
    if op == "**":
        return xpow(x, y)
    if op == "//":
        q = xdiv(x, y)
        return XF(toreal(iv(xfloor_int(XF(q.r)))), q.nan, q.pi, q.ni)
    if op == "%":
        if x.pure and y.pure:
            q = XF(x.r / y.r)
            return XF(x.r - toreal(iv(xfloor_int(q))) * y.r, y.r == 0 if y.const() is None else y.const() == 0)
    raise Unsupported("operator %s" % op)


# ---- arrays ----------------------------------------------------------------
def dims_equal(ctx, a, b):
    if same_dim(a, b):
        return True
    if isinstance(a, int) and isinstance(b, int):
        return False
    x, y = z3.simplify(iv(a)), z3.simplify(iv(b))
    if x.eq(y):
        return True
    al = ctx.eng.mask_alias(ctx, x, y)
    if al:
        return True
    return ctx.provable(x == y)


def broadcast_shapes(ctx, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for ax in range(nd):
        dims = []
        for s in shapes:
            j = ax - (nd - len(s))
            if j >= 0:
                dims.append(s[j])
        cur = None
        for d in dims:
            if isinstance(d, int) and d == 1:
                continue
            if cur is None:
                cur = d
            elif not dims_equal(ctx, cur, d):
                x, y = iv(cur), iv(d)
                q = ctx.quick(x == y)
                if q is False and ctx.quick(z3.And(x != 1, y != 1)) is True:
                    raise PyExc(ctx.eng.exc("ValueError"), ("operands could not be broadcast together",))
                if ctx.branch(x == y):
                    pass
                elif ctx.branch(y == 1):
                    pass
                elif ctx.branch(x == 1):
                    cur = d
                else:
                    raise PyExc(ctx.eng.exc("ValueError"), ("operands could not be broadcast together",))
        out.append(1 if cur is None else cur)
    return tuple(out)


def bindex(arr_shape, out_shape, idx):
    """Index into an array of arr_shape given an index of the broadcast result."""
    off = len(out_shape) - len(arr_shape)
    return tuple(0 if (isinstance(arr_shape[j], int) and arr_shape[j] == 1) else idx[j + off] for j in range(len(arr_shape)))


def as_arr(ctx, v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, (PyList, SymList, tuple)):
        return ctx.eng.np_array(ctx, v)
    return Arr((), lambda idx: v, dt_of(v))


def elementwise(ctx, f, args, dt=None, lib=None):
    arrs = [as_arr(ctx, a) if not is_num(a) and not (is_z3(a)) else a for a in args]
    if not any(isinstance(a, Arr) for a in arrs):
        return f(*arrs)
    shapes = [a.shape for a in arrs if isinstance(a, Arr)]
    shp = broadcast_shapes(ctx, shapes)
    fns = [(a, a.fn if a.base is None else snapshot(a)) if isinstance(a, Arr) else (a, None) for a in arrs]

    def fn(idx):
        vals = []
        for a, g in fns:
            if isinstance(a, Arr):
                vals.append(g(bindex(a.shape, shp, idx)))
            else:
                vals.append(a)
        return f(*vals)
    if dt is None:
        dts = [dt_of(a) for a in arrs]
        dt = "f" if "f" in dts else ("i" if "i" in dts else "b")
    lb = lib or next((a.lib for a in arrs if isinstance(a, Arr) and a.lib != "np"), "np")
    if shp == () :
        return fn(())
    return Arr(shp, fn, dt, lib=lb)


def snapshot(a):
    """Freeze the present contents of an array (views included) as a Fn."""
    if a.base is None:
        return a.fn
    inner = snapshot(a.base)
    fwd = a.fwd
    return Fn(lambda idx: inner(fwd(idx)))


def frozen(a, **kw):
    return Arr(a.shape, snapshot(a), kw.get("dt", a.dt), lib=kw.get("lib", a.lib), tag=dict(a.tag))


def copy_arr(a):
    return Arr(a.shape, snapshot(a), a.dt, lib=a.lib, tag=dict(a.tag))


def write(ctx, arr, cond, val):
    """arr[idx] := val(idx) where cond(idx)."""
    if arr.base is not None:
        inv = arr.inv

        def c2(bidx):
            g, idx = inv(bidx)
            return And(g, cond(idx)) if g is not False else False

        def v2(bidx):
            g, idx = inv(bidx)
            return val(idx)
        write(ctx, arr.base, c2, v2)
        return
    old = arr.fn
    dt = arr.dt

    def fn(idx):
        c = cond(idx)
        if c is True:
            return cast(dt, val(idx))
        if c is False:
            return old(idx)
        return merge(c, cast(dt, val(idx)), old(idx))
    ctx.set(arr, "fn", Fn(fn))


def cast(dt, v):
    if dt == "f" and is_num(v):
        return xf(v)
    if dt == "b" and is_num(v) and not is_bool(v):
        if is_int(v):
            return v != 0 if not isinstance(v, int) else v != 0
        return Not(xeq(xf(v), XF(ZERO)))
    if dt == "i" and is_bool(v):
        return b2i(v)
    if dt == "i" and not is_int(v) and is_num(v):
        raise Unsupported("float stored into an int array")
    return v
