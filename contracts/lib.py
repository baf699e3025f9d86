"""Vocabulary shared by the contracts: opaque collaborators and specification helpers."""
import z3
from pyvc import term as T, solver as S
from pyvc.term import *  # noqa
from pyvc.values import *  # noqa
from pyvc.ctx import fresh_name
from pyvc.ops import *  # noqa
from pyvc.loops import GenVal, sum_xf
from pyvc.npmodel import arg
from pyvc.index import *  # noqa
from .base import Unit, run_units

I, R, B = T.I, T.R, T.B


def uf(name, *sorts):
    return z3.Function(name, *sorts)


def xuf(name, dom, flags=True):
    """An uninterpreted function to the extended reals."""
    f = z3.Function(name, *(list(dom) + [R]))
    if not flags:
        return lambda *a: XF(f(*a))
    g = [z3.Function(name + s, *(list(dom) + [B])) for s in ("_nan", "_pinf", "_ninf")]

    def call(*a):
        nan, p, n = [h(*a) for h in g]
        return XF(f(*a), nan, And(Not(nan), p), And(Not(nan), Not(p), n))
    return call


def xargs(x):
    """An extended real as arguments of an uninterpreted function."""
    x = xf(x)
    return [x.r, zb(x.nan), zb(x.pi), zb(x.ni)]


def inrange(i, n):
    return z3.And(i >= 0, i < iv(n))


def arr_same(U, ctx, name, a, b, shape=None):
    """Two arrays have the same shape and the same contents (NaN equal to NaN)."""
    if not isinstance(a, Arr) or a.ndim != b.ndim:
        return U.prove(ctx, name + " [shape]", False)
    ok = True
    for p, q in zip(a.shape, b.shape):
        ok = U.prove(ctx, name + " [shape]", iv(p) == iv(q)) and ok
    js = [ctx.fint("q") for _ in range(a.ndim)]
    pre = And(*[inrange(j, d) for j, d in zip(js, b.shape)])
    x, y = a.get(tuple(js)), b.get(tuple(js))
    return U.prove(ctx, name, Implies(pre, val_same(x, y))) and ok


def val_same(x, y):
    if isinstance(x, XF) or isinstance(y, XF):
        return xsame(xf(x), xf(y))
    if is_bool(x) or is_bool(y):
        return Iff(x, y)
    if is_int(x) and is_int(y):
        return iv(x) == iv(y)
    return x == y


class Snap:
    """Contents of an array at one moment (for frame conditions)."""
    def __init__(self, a):
        self.shape, self.dt, self.g = a.shape, a.dt, snapshot(a)

    def arr(self):
        return Arr(self.shape, lambda idx: self.g(idx), self.dt)


def unchanged(U, ctx, name, a, snap):
    return arr_same(U, ctx, name, a, snap.arr())


# ---- proof rules for finite sums (induction on the number of terms) --------------------
def sum_nonneg(U, ctx, name, n, lam, extra=()):
    """Rule: from 0 <= lam(i) for every i in range (an obligation) conclude 0 <= sum lam."""
    i = ctx.fint("i")
    if U.prove(ctx, name + " [pointwise]", Implies(inrange(i, n), lam(i) >= 0), extra=list(extra), sync=True):
        ctx.fact(T.mk_sum(n, lam) >= 0)
        return True
    return False


def sum_elem(U, ctx, name, n, lam, i):
    """Rule: a sum of non-negative terms is at least each of its terms."""
    q = ctx.fint("q")
    if U.prove(ctx, name + " [pointwise]", Implies(inrange(q, n), lam(q) >= 0), sync=True):
        ctx.fact(Implies(inrange(i, n), lam(i) <= T.mk_sum(n, lam)))
        return True
    return False


def nonneg_weights(ctx, n, name="w"):
    """Non-negative finite weights with a positive sum."""
    w = ctx.sym_arr(name, (n,))
    g = snapshot(w)
    S.SIGNS[g((z3.Int("i0"),)).r.decl().name()] = 1
    dec = g((z3.Int("qw"),)).r.decl()
    S.TH.schema(dec, lambda i: [dec(i) >= 0])
    tot = T.mk_sum(n, lambda b: g((b,)).r)
    ctx.assume(tot > 0)
    return w, g, tot


# ---- collaborators acting row by row ----------------------------------------------------
def rowmap(ctx, F, a, d=None):
    """Array whose i-th row is F(row i of a)."""
    sa = Snap(a).arr()
    return Arr((a.shape[0], a.shape[1] if d is None else d), lambda idx: el_xf(F(row_term(ctx, sa, iv(idx[0]))), iv(idx[1])), "f")


def rowval(ctx, F, a):
    """Vector whose i-th entry is F(row i of a)."""
    sa = Snap(a).arr()
    return Arr((a.shape[0],), lambda idx: F(row_term(ctx, sa, iv(idx[0]))), "f")
