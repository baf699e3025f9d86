"""Symbolic derivative of a result term with respect to one entry of the argument array."""
from .lib import *
from pyvc.values import Unsupported


def others(t, v):
    """Applications of v's array other than v itself."""
    return [s for s in subterms([t]) if z3.is_app(s) and s.decl().eq(v.decl()) and not s.eq(v)]


def has(t, v):
    return any(s.eq(v) for s in subterms([t]))


def D(t, v):
    if t.eq(v):
        return rv(1)
    if not has(t, v):
        return rv(0)
    k = t.decl().kind()
    c = t.children()
    if k == z3.Z3_OP_ADD:
        return z3.Sum([D(x, v) for x in c])
    if k == z3.Z3_OP_SUB:
        return D(c[0], v) - z3.Sum([D(x, v) for x in c[1:]])
    if k == z3.Z3_OP_UMINUS:
        return -D(c[0], v)
    if k == z3.Z3_OP_MUL:
        out = []
        for i, x in enumerate(c):
            if has(x, v):
                p = D(x, v)
                for j, y in enumerate(c):
                    if j != i:
                        p = p * y
                out.append(p)
        return z3.Sum(out) if len(out) > 1 else out[0]
    if k == z3.Z3_OP_DIV:
        a, b = c
        if not has(b, v):
            return D(a, v) / b
        return (D(a, v) * b - a * D(b, v)) / (b * b)
    if k == z3.Z3_OP_ITE:
        if has(c[0], v):
            raise Unsupported("derivative across a case distinction on the argument")
        return z3.If(c[0], D(c[1], v), D(c[2], v))
    n = t.decl().name()
    if n == "EXP":
        return t * D(c[0], v)
    if n == "LOG":
        return D(c[0], v) / c[0]
    if n == "ERF":
        return rv(2) / SQRT(PI) * EXP(-(c[0] * c[0])) * D(c[0], v)
    if n == "ERFINV":
        return SQRT(PI) / 2 * EXP(t * t) * D(c[0], v)
    if n == "SQRT":
        return D(c[0], v) / (2 * t)
    if n == "POW" and not has(c[1], v):
        return c[1] * T.POW(c[0], c[1] - 1) * D(c[0], v)
    raise Unsupported("derivative of %s" % t.decl())
