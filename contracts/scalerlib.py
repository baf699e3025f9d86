"""Symbolic construction of a Reparameterize object through its real __init__."""
from .lib import *


def sym_bounds(ctx, d):
    """Bounds as any float array: NaN and infinities included; low < high where both are finite."""
    lo = ctx.sym_arr("lo", (d,), flags=True)
    hi = ctx.sym_arr("hi", (d,), flags=True)
    gl, gh = snapshot(lo), snapshot(hi)
    b = Arr((d, 2), lambda idx: xite(iv(idx[1]) == 0, gl((idx[0],)), gh((idx[0],))) if not isinstance(idx[1], int) else (gl if idx[1] == 0 else gh)((idx[0],)), "f")
    q = z3.Int("q")
    dec = gl((q,)).r.decl()
    dech = gh((q,)).r.decl()

    def order(i):
        l, h = gl((i,)), gh((i,))
        return [z3.Implies(zb(And(l.fin, h.fin)), l.r < h.r)]
    S.TH.schema(dec, order)
    S.TH.schema(dech, order)
    return b, gl, gh


def build(U, ctx, **kw):
    E = U.E
    d = ctx.pint("d")
    b, gl, gh = sym_bounds(ctx, d)
    cls = E.load("pocomc.scaler").vars["Reparameterize"]
    s = E.ip.call(ctx, cls, [d], dict(bounds=b, **kw))
    return d, s, gl, gh


def kinds(l, h):
    """(none, left, right, both)"""
    return And(Not(l.fin), Not(h.fin)), And(l.fin, Not(h.fin)), And(Not(l.fin), h.fin), And(l.fin, h.fin)
