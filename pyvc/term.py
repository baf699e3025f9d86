"""Term layer: extended reals over z3, polynomial canonicalisation, sums.

Machine floats are modelled as extended reals: a z3 Real plus three flags
(NaN, +inf, -inf).  Rounding and overflow are not modelled (stated assumption).
"""
from fractions import Fraction
import z3

R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()
Row = z3.DeclareSort("Row")      # a vector of floats (one particle's coordinates)
Obj = z3.DeclareSort("Obj")      # opaque Python object (blob, dtype, ...)

EXP = z3.Function("EXP", R, R)
LOG = z3.Function("LOG", R, R)
ERF = z3.Function("ERF", R, R)
ERFINV = z3.Function("ERFINV", R, R)
SQRT = z3.Function("SQRT", R, R)
POW = z3.Function("POW", R, R, R)
PSI = z3.Function("PSI", R, R)
FLOOR = z3.Function("FLOORI", R, I)
PI = z3.Const("PI", R)
EL = z3.Function("el", Row, I, R)
ELNAN = z3.Function("elnan", Row, I, B)
ELPI = z3.Function("elpinf", Row, I, B)
ELNI = z3.Function("elninf", Row, I, B)


class Unsupported(Exception):
    """The code left the subset this generator understands: no verdict."""


def is_z3(x):
    return isinstance(x, z3.ExprRef)


# ---- booleans with folding -------------------------------------------------
def And(*a):
    out = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*a):
    out = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def IteB(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return Not(c)
    if is_z3(a) and is_z3(b) and a.eq(b):
        return a
    return z3.If(c, zb(a), zb(b))


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def rv(x):
    """Rational constant; floats are read as the decimal they are written as."""
    if isinstance(x, float):
        x = Fraction(repr(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator) + "/" + str(x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
    return z3.RealVal(x)


def iv(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def toreal(t):
    if z3.is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


# ---- extended reals --------------------------------------------------------
class XF:
    __slots__ = ("r", "nan", "pi", "ni")

    def __init__(self, r, nan=False, pi=False, ni=False):
        self.r = r
        self.nan = nan
        self.pi = pi
        self.ni = ni

    def flags(self):
        return (self.nan, self.pi, self.ni)

    @property
    def pure(self):
        return self.nan is False and self.pi is False and self.ni is False

    @property
    def fin(self):
        return And(Not(self.nan), Not(self.pi), Not(self.ni))

    @property
    def inf(self):
        return Or(self.pi, self.ni)

    def const(self):
        if self.pure and z3.is_rational_value(self.r):
            return Fraction(self.r.numerator_as_long(), self.r.denominator_as_long())
        return None

    def __repr__(self):
        if self.pure:
            return "XF(%s)" % (self.r,)
        return "XF(%s|nan=%s,pi=%s,ni=%s)" % (self.r, self.nan, self.pi, self.ni)


ZERO = rv(0)
NAN = XF(ZERO, nan=True)
PINF = XF(ZERO, pi=True)
NINF = XF(ZERO, ni=True)


def xf(v):
    """Coerce a scalar value to XF."""
    if isinstance(v, XF):
        return v
    if isinstance(v, bool):
        return XF(rv(1 if v else 0))
    if isinstance(v, int):
        return XF(rv(v))
    if isinstance(v, float):
        if v != v:
            return NAN
        if v == float("inf"):
            return PINF
        if v == float("-inf"):
            return NINF
        return XF(rv(v))
    if isinstance(v, Fraction):
        return XF(rv(v))
    if is_z3(v):
        if z3.is_bool(v):
            return XF(z3.If(v, rv(1), rv(0)))
        if z3.is_int(v):
            return XF(toreal(v))
        if z3.is_real(v):
            return XF(v)
    raise Unsupported("not a number: %r" % (v,))


def simp_r(t):
    return z3.simplify(t) if not z3.is_const(t) else t


def xneg(a):
    return XF(simp_r(-a.r), a.nan, a.ni, a.pi)


def xadd(a, b):
    r = _fold2(a.r, b.r, lambda x, y: x + y, "+")
    if a.pure and b.pure:
        return XF(r)
    nan = Or(a.nan, b.nan, And(a.pi, b.ni), And(a.ni, b.pi))
    return XF(r, nan, And(Not(nan), Or(a.pi, b.pi)), And(Not(nan), Or(a.ni, b.ni)))


def _rat(t):
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def _fold2(x, y, f, op):
    cx, cy = _rat(x), _rat(y)
    if cx is not None and cy is not None:
        return rv(f(cx, cy))
    if op == "+":
        if cx == 0:
            return y
        if cy == 0:
            return x
    if op == "*":
        if cx == 1:
            return y
        if cy == 1:
            return x
        if cx == 0 or cy == 0:
            return ZERO
    return f(x, y)


def xsub(a, b):
    return xadd(a, xneg(b))


def xmul(a, b):
    r = _fold2(a.r, b.r, lambda x, y: x * y, "*")
    if a.pure and b.pure:
        return XF(r)
    az = And(a.fin, a.r == 0) if _rat(a.r) is None or not a.pure else (_rat(a.r) == 0)
    bz = And(b.fin, b.r == 0) if _rat(b.r) is None or not b.pure else (_rat(b.r) == 0)
    apos = Or(a.pi, And(a.fin, a.r > 0))
    aneg = Or(a.ni, And(a.fin, a.r < 0))
    bpos = Or(b.pi, And(b.fin, b.r > 0))
    bneg = Or(b.ni, And(b.fin, b.r < 0))
    nan = Or(a.nan, b.nan, And(a.inf, bz), And(b.inf, az))
    inf = And(Not(nan), Or(a.inf, b.inf))
    pi = And(inf, Or(And(apos, bpos), And(aneg, bneg)))
    ni = And(inf, Or(And(apos, bneg), And(aneg, bpos)))
    return XF(r, nan, pi, ni)


def xite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    return XF(a.r if a.r.eq(b.r) else z3.If(c, a.r, b.r),
              IteB(c, a.nan, b.nan), IteB(c, a.pi, b.pi), IteB(c, a.ni, b.ni))


def xlt(a, b):
    if a.pure and b.pure:
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            return ca < cb
        return a.r < b.r
    return And(Not(a.nan), Not(b.nan),
               Or(And(a.fin, b.fin, a.r < b.r), And(a.ni, Not(b.ni)), And(b.pi, Not(a.pi))))


def xle(a, b):
    return Or(xlt(a, b), xeq(a, b)) if not (a.pure and b.pure) else _le(a, b)


def _le(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return ca <= cb
    return a.r <= b.r


def xeq(a, b):
    if a.pure and b.pure:
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            return ca == cb
        return a.r == b.r
    return And(Not(a.nan), Not(b.nan),
               Or(And(a.fin, b.fin, a.r == b.r), And(a.pi, b.pi), And(a.ni, b.ni)))


def xsame(a, b):
    """Identity as values (NaN same as NaN): used in specifications."""
    if a.pure and b.pure:
        return a.r == b.r
    return And(Iff(a.nan, b.nan), Iff(a.pi, b.pi), Iff(a.ni, b.ni),
               Implies(And(a.fin, b.fin), a.r == b.r))


# ---- traversal helpers -----------------------------------------------------
_info = {}      # term id -> (term, children, name of an uninterpreted symbol or None, is an integer)
_free = {}      # term id -> ids of the constants in it


def info(t):
    k = t.get_id()
    r = _info.get(k)
    if r is None:
        if not z3.is_app(t):
            r = (t, (), None, False)
        else:
            d = t.decl()
            r = (t, tuple(t.children()), d.name() if d.kind() == z3.Z3_OP_UNINTERPRETED else None, t.sort_kind() == z3.Z3_INT_SORT)
        _info[k] = r
    return r


def subterms(ts):
    seen = set()
    stack = [t for t in ts if is_z3(t)]
    out = []
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        out.append(t)
        stack.extend(info(t)[1])
    return out


_NOFREE = frozenset()


def free_ids(t):
    """ids of the uninterpreted constants in t"""
    k = t.get_id()
    r = _free.get(k)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in _free:
            stack.pop()
            continue
        _, ch, name, _ = info(x)
        todo = [c for c in ch if c.get_id() not in _free]
        if todo:
            stack += todo
            continue
        stack.pop()
        if not ch:
            _free[i] = frozenset((i,)) if name is not None else _NOFREE
        else:
            fs = [_free[c.get_id()] for c in ch]
            big = max(fs, key=len)
            _free[i] = big if all(f <= big for f in fs) else frozenset().union(*fs)
    return _free[k]


def is_app_of(t, decl):
    return z3.is_app(t) and t.decl().eq(decl)


def contains(t, c):
    k = c.get_id()
    _, ch, name, _ = info(c)
    if not ch and name is not None:
        return k in free_ids(t)
    fc = free_ids(c)
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i == k:
            return True
        if i in seen or not fc <= free_ids(x):
            continue
        seen.add(i)
        stack.extend(info(x)[1])
    return False


def free_int_consts(t):
    out = {}
    for s in subterms([t]):
        if z3.is_const(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(s):
            out[s.decl().name()] = s
    return [out[k] for k in sorted(out)]


def index_terms(ts, b):
    """Maximal integer terms f(...) or constants in ts that do not contain b, in order of first occurrence:
    the parameters of a definition whose bound variable is b."""
    out, seen, memo = [], set(), {}

    def free(t):
        k = t.get_id()
        if k not in memo:
            memo[k] = not contains(t, b)
        return memo[k]
    stack = [t for t in reversed(ts) if is_z3(t)]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if not z3.is_app(t):
            continue
        if z3.is_int(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and free(t):
            out.append(t)
            continue
        stack += reversed(t.children())
    return out


def subst(t, pairs):
    if isinstance(t, bool) or t is None:
        return t
    return z3.substitute(t, *pairs)


def xsubst(v, pairs):
    if not pairs:
        return v
    if isinstance(v, XF):
        return XF(subst(v.r, pairs), subst(v.nan, pairs), subst(v.pi, pairs), subst(v.ni, pairs))
    if is_z3(v):
        return subst(v, pairs)
    if isinstance(v, tuple):
        return tuple(xsubst(x, pairs) for x in v)
    return v


# ---- polynomials (Laurent monomials over atoms) ----------------------------
class Poly:
    """dict monomial -> Fraction; monomial = tuple of (atom id, power), sorted."""
    atoms = {}

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)} if c else {})

    @staticmethod
    def atom(t, p=1):
        key = t.get_id()
        Poly.atoms[key] = t
        return Poly({((key, p),): Fraction(1)})

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
            if d[m] == 0:
                del d[m]
        return Poly(d)

    def scale(self, c):
        return Poly({m: v * c for m, v in self.d.items()} if c else {})

    def __mul__(self, o):
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
                if d[m] == 0:
                    del d[m]
        return Poly(d)

    def single(self):
        if len(self.d) == 1:
            return next(iter(self.d.items()))
        return None


def mmul(m1, m2):
    d = dict(m1)
    for k, p in m2:
        d[k] = d.get(k, 0) + p
        if d[k] == 0:
            del d[k]
    return tuple(sorted(d.items()))


_poly_memo = {}
_keep = []           # keep z3 asts alive so that ids stay unique


def poly(t, splitexp=False):
    key = (t.get_id(), splitexp)
    if key in _poly_memo:
        return _poly_memo[key]
    _keep.append(t)
    p = _poly(t, splitexp)
    _poly_memo[key] = p
    return p


def _poly(t, se):
    c = _rat(t)
    if c is not None:
        return Poly.const(c)
    if z3.is_int_value(t):
        return Poly.const(t.as_long())
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_TO_REAL:
        a = t.arg(0)
        if z3.is_int_value(a):
            return Poly.const(a.as_long())
        ka = a.decl().kind()
        if ka in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            ch = [poly(z3.ToReal(x), se) for x in a.children()]
            return _arith(ka, ch)
        return Poly.atom(t)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        r = _arith(k, [poly(x, se) for x in t.children()])
        return reduce_ind(r) if se and k == z3.Z3_OP_MUL else r
    if se and k == z3.Z3_OP_ITE and is_ind(t):
        c = t.arg(0)
        return Poly.const(1) + Poly.atom(z3.If(c.arg(0), rv(1), rv(0))).scale(-1) if z3.is_not(c) else Poly.atom(t)
    if k == z3.Z3_OP_DIV:
        return poly(t.arg(0), se) * precip(poly(t.arg(1), se))
    if k == z3.Z3_OP_POWER:
        e = _rat(t.arg(1))
        if e is None and z3.is_int_value(t.arg(1)):
            e = Fraction(t.arg(1).as_long())
        if e is not None and e.denominator == 1 and abs(e) <= 8:
            b = poly(t.arg(0), se)
            if e < 0:
                b, e = precip(b), -e
            out = Poly.const(1)
            for _ in range(int(e)):
                out = out * b
            return out
        return Poly.atom(t)
    if se and k == z3.Z3_OP_ITE and z3.is_real(t):
        c = t.arg(0)
        x, y = t.arg(1), t.arg(2)
        if z3.is_not(c):
            c, x, y = c.arg(0), y, x
        px, py = poly(x, se), poly(y, se)
        if len(px.d) <= 6 and len(py.d) <= 6:
            ind = Poly.atom(z3.If(c, rv(1), rv(0)))
            return reduce_ind(ind * px + py + (ind * py).scale(-1))
        return Poly.atom(t)
    if is_app_of(t, EXP):
        a = poly(t.arg(0), se)
        if se:
            out = Poly.const(1)
            for m, c in sorted(a.d.items()):
                if c.denominator == 1:
                    x = mono_term(m)
                    inner = _explog(x)
                    if inner is not None:
                        base = poly(inner, se)
                        q = base if c > 0 else precip(base)
                    else:
                        q = Poly.atom(EXP(x), 1 if c > 0 else -1)
                    for _ in range(abs(int(c))):
                        out = out * q
                else:
                    out = out * Poly.atom(EXP(rv(c) * mono_term(m)))
            return out
        ct = poly_term(a)
        inner = _explog(ct)
        if inner is not None:
            return poly(inner, se)
        if not a.d:
            return Poly.const(1)
        return Poly.atom(EXP(ct))
    if z3.is_app(t) and t.num_args() > 0 and all(z3.is_real(x) for x in t.children()) and k == z3.Z3_OP_UNINTERPRETED:
        return Poly.atom(t.decl()(*[poly_term(poly(x, se)) for x in t.children()]))
    return Poly.atom(t)


def is_ind(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and _rat(t.arg(1)) == 1 and _rat(t.arg(2)) == 0


def reduce_ind(p):
    """Indicators are idempotent."""
    d = {}
    for m, c in p.d.items():
        m2 = tuple((k, 1 if e > 1 and is_ind(Poly.atoms[k]) else e) for k, e in m)
        d[m2] = d.get(m2, 0) + c
        if d[m2] == 0:
            del d[m2]
    return Poly(d)


def _explog(t):
    """EXP(LOG(a)) = a: only formed where a>0 is known (mk_log guards it)."""
    if is_app_of(t, LOG):
        return t.arg(0)
    return None


def _arith(k, ch):
    if k == z3.Z3_OP_ADD:
        out = ch[0]
        for x in ch[1:]:
            out = out + x
        return out
    if k == z3.Z3_OP_SUB:
        out = ch[0]
        for x in ch[1:]:
            out = out + x.scale(-1)
        return out
    if k == z3.Z3_OP_UMINUS:
        return ch[0].scale(-1)
    out = ch[0]
    for x in ch[1:]:
        out = out * x
    return out


def precip(p):
    s = p.single()
    if s is not None:
        m, c = s
        return Poly({tuple((k, -e) for k, e in m): 1 / c})
    t = poly_term(p)
    return Poly.atom(t, -1)


def mono_term(m):
    """z3 term of a Laurent monomial (deterministic order)."""
    num, den = [], []
    for k, p in sorted(m, key=lambda kp: Poly.atoms[kp[0]].sexpr()):
        a = Poly.atoms[k]
        (num if p > 0 else den).extend([a] * abs(p))
    t = rv(1) if not num else num[0]
    for a in num[1:]:
        t = t * a
    if den:
        dt = den[0]
        for a in den[1:]:
            dt = dt * a
        t = t / dt
    return t


def poly_term(p):
    if not p.d:
        return ZERO
    items = []
    for m, c in p.d.items():
        if m == ():
            items.append(("", rv(c)))
            continue
        mt = mono_term(m)
        items.append((mt.sexpr(), mt if c == 1 else rv(c) * mt))
    items.sort(key=lambda x: x[0])
    t = items[0][1]
    for _, x in items[1:]:
        t = t + x
    return t


def canon(t, splitexp=False):
    return poly_term(poly(t, splitexp))


# ---- sums ------------------------------------------------------------------
class SumReg:
    """SUM_n(params) = sum over 0<=b<hi of body; canonical and hash-consed."""
    by_key = {}
    by_decl = {}

    @classmethod
    def reset(cls):
        cls.by_key = {}
        cls.by_decl = {}


class SumInfo:
    __slots__ = ("decl", "params", "bounds", "body")

    def __init__(self, decl, params, bounds, body):
        self.decl, self.params, self.bounds, self.body = decl, params, bounds, body

    def inst(self, args):
        pairs = list(zip(self.params, args))
        return [(b, subst(h, pairs)) for b, h in self.bounds], subst(self.body, pairs)


_bv = [0]


def bound_var():
    _bv[0] += 1
    return z3.Int("b!%d" % _bv[0])


def sum_atom(bounds, body):
    """bounds: list of (boundvar const, hi term); body: canonical real term."""
    ren = [(b, z3.Int("bb!%d" % i)) for i, (b, _) in enumerate(bounds)]
    body2 = subst(body, ren)
    his = [iv(h) for _, h in bounds]
    allt = [body2] + his
    ps = {}
    bbn = {b2.decl().name() for _, b2 in ren}
    memo = {}

    def hasb(t):
        k = t.get_id()
        if k not in memo:
            memo[k] = (z3.is_const(t) and t.decl().name() in bbn) or any(hasb(c) for c in t.children())
        return memo[k]
    seen = set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_int(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not hasb(t):
            ps[t.sexpr()] = t
            return
        for c in t.children():
            walk(c)
    for t in allt:
        walk(t)
    params = list(ps.values())      # in order of first occurrence
    # larger terms first, so that a parameter inside another one is not replaced on its own
    order = sorted(range(len(params)), key=lambda i: -len(params[i].sexpr()))
    pren = [(p, z3.Int("pp!%d" % i)) for i, p in enumerate(params)]
    body3, his3 = body2, list(his)
    for i in order:
        body3 = subst(body3, [pren[i]])
        his3 = [subst(h, [pren[i]]) for h in his3]
    key = (body3.sexpr(), tuple(h.sexpr() for h in his3))
    info = SumReg.by_key.get(key)
    if info is None:
        n = len(SumReg.by_key)
        decl = z3.Function("SUM%d" % n, *([I] * len(params) + [R]))
        info = SumInfo(decl, [p for _, p in pren], [(b2, h) for (_, b2), h in zip(ren, his3)], body3)
        SumReg.by_key[key] = info
        SumReg.by_decl[decl.name()] = info
        _keep.append(body3)
    return info.decl(*params)


MATINV = {}   # matrix symbol name <-> symbol of its inverse
CHOLOF = {}   # Cholesky factor symbol -> matrix symbol
FLAT = {}     # (fdiv, fmod) symbols of flattened matrices -> (rows, cols)
SYMM = set()  # symbols of symmetric matrices
PDMAT = set()  # symbols of positive definite matrices
FINROW = set()  # functions whose values are finite rows
NZ = {}      # count decl name -> MaskInfo; turns sums over x[mask] into guarded sums


COARSE = [0]         # discovery of the state a loop modifies: values do not matter
RAW_SUM = [False]   # keep the body of a sum as one atom (the proof then goes by pointwise equality)


def mk_sum(hi, lam):
    """sum_{0<=j<hi} lam(j) as a canonical real term (lam returns a pure real term)."""
    b = bound_var()
    body = lam(b)
    if isinstance(hi, int):
        if hi <= 8:
            t = ZERO
            for j in range(hi):
                t = _fold2(t, subst(body, [(b, z3.IntVal(j))]), lambda x, y: x + y, "+")
            return t
        hi = z3.IntVal(hi)
    # sum over a compressed axis -> guarded sum over the full axis
    body = z3.simplify(body) if contains(body, b) else body
    if z3.is_app(hi) and hi.decl().name() in NZ:
        mi = NZ[hi.decl().name()]
        args = hi.children()
        nzb = mi.nzd(*(args + [b]))
        if contains(body, nzb):
            k = bound_var()
            body2 = subst(body, [(nzb, k)])
            if not contains(body2, b):
                g = mi.pred_at(args, k)
                return mk_sum(mi.n_at(args), lambda kk: z3.If(subst(zb(g), [(k, kk)]), subst(body2, [(k, kk)]), ZERO))
    # sum over a flattened pair of axes -> double sum
    for (qn, rn), (ft, fn_) in FLAT.items():
        if not hi.eq(z3.simplify(ft * fn_)):
            continue
        qa = [x for x in subterms([body]) if z3.is_app(x) and x.decl().name() in (qn, rn) and x.num_args() == 1 and x.arg(0).eq(b)]
        if not qa:
            continue
        a, c = bound_var(), bound_var()
        body2 = subst(body, [(x, a if x.decl().name() == qn else c) for x in qa])
        if not contains(body2, b):
            return mk_sum(ft, lambda aa: mk_sum(fn_, lambda cc: subst(body2, [(a, aa), (c, cc)])))
    p = Poly.atom(body) if RAW_SUM[0] else poly(body, True)
    return poly_term(sum_poly(p, b, hi))


def sum_poly(p, b, hi):
    out = Poly()
    for m, c in p.d.items():
        dep = tuple((k, e) for k, e in m if contains(Poly.atoms[k], b))
        ind = tuple((k, e) for k, e in m if not contains(Poly.atoms[k], b))
        coef = Poly({ind: c})
        if not dep:
            out = out + coef * Poly.atom(toreal(iv(hi)))
            continue
        # nested sum factor linear in dep: push inside
        inner = None
        for k, e in dep:
            a = Poly.atoms[k]
            if e == 1 and z3.is_app(a) and a.decl().name() in SumReg.by_decl and a.num_args() and contains(a, b):
                inner = (k, a)
                break
        if inner is not None:
            k, a = inner
            rest = tuple((kk, e) for kk, e in dep if kk != k)
            info = SumReg.by_decl[a.decl().name()]
            bnds, ibody = info.inst([a.arg(i) for i in range(a.num_args())])
            fresh = [(bb, bound_var()) for bb, _ in bnds]
            ibody = subst(ibody, fresh)
            newb = [(nb, subst(h, fresh)) for (_, nb), (_, h) in zip(fresh, bnds)]
            if all(not contains(h, b) for _, h in newb):
                fullp = Poly({rest: Fraction(1)}) * poly(ibody, True)
                for fm, fc in fullp.d.items():
                    out = out + coef.scale(fc) * sum_mono([(b, hi)] + newb, fm)
                continue
        out = out + coef * sum_mono([(b, hi)], dep)
    return out


MATDIM = {}   # matrix symbol -> dimension


def sum_mono(bounds, m):
    """Sum of a monomial over several bound variables; products of a matrix and its inverse are contracted."""
    m = list(m)
    bounds = list(bounds)
    guard = []
    if MATINV:
        changed = True
        while changed:
            changed = False
            for bi, (b, h) in enumerate(bounds):
                deps = [(k, e) for k, e in m if contains(Poly.atoms[k], b)]
                if len(deps) != 2 or any(e != 1 for _, e in deps) or any(contains(hh, b) for _, hh in bounds):
                    continue
                for (k1, _), (k2, _) in (deps, deps[::-1]):
                    x, y = Poly.atoms[k1], Poly.atoms[k2]
                    if not (z3.is_app(x) and z3.is_app(y) and MATINV.get(x.decl().name()) == y.decl().name()):
                        continue
                    if x.num_args() < 2 or x.num_args() != y.num_args() or not x.arg(x.num_args() - 1).eq(b) or not y.arg(y.num_args() - 2).eq(b):
                        continue
                    p, q = x.arg(x.num_args() - 2), y.arg(y.num_args() - 1)
                    if contains(p, b) or contains(q, b) or any(not u.eq(v) for u, v in zip(x.children()[:-2], y.children()[:-2])):
                        continue
                    if not iv(h).eq(iv(MATDIM.get(x.decl().name(), -1))):
                        continue
                    # sum_b X[p,b] Y[b,q] = [p == q]
                    m.remove((k1, 1))
                    m.remove((k2, 1))
                    del bounds[bi]
                    sub = None
                    for ci, (c, hc) in enumerate(bounds):
                        if c.eq(q) and not contains(p, c):
                            sub = (ci, c, p, hc)
                            break
                        if c.eq(p) and not contains(q, c):
                            sub = (ci, c, q, hc)
                            break
                    if sub is None:
                        m.append((_atom_id(z3.If(p == q, rv(1), rv(0))), 1))
                    else:
                        ci, c, r, hc = sub
                        m = [(_atom_id(subst(Poly.atoms[k], [(c, r)])), e) for k, e in m]
                        del bounds[ci]
                        if not any(r.eq(c2) and iv(h2).eq(iv(hc)) for c2, h2 in bounds):
                            guard.append(z3.And(r >= 0, r < hc))
                    changed = True
                    break
                if changed:
                    break
    mm = {}
    for k, e in m:
        mm[k] = mm.get(k, 0) + e
    m = tuple(sorted((k, e) for k, e in mm.items() if e))
    if not bounds:
        r = Poly({m: Fraction(1)})
    else:
        r = Poly.atom(sum_atom(bounds, mono_term(m)))
    for g in guard:
        r = r * Poly.atom(z3.If(g, rv(1), rv(0)))
    return r


def _atom_id(t):
    Poly.atoms[t.get_id()] = t
    _keep.append(t)
    return t.get_id()
