"""Goal discharge: z3 with instances; case-split + rational-function normal form; cvc5."""
import time
from fractions import Fraction
import z3
import sympy as sp
from .term import *  # noqa
from . import term as T
from . import solver as S


class SymConv:
    """z3 real terms -> sympy expressions over atoms, with exp/log laws."""

    def __init__(self, positive):
        self.positive = positive       # callable: z3 term -> bool (provably > 0)
        self.sym = {}                  # z3 id -> (symbol, term)
        self.back = {}                 # symbol -> z3 term
        self.logs = {}
        self.memo = {}
        self.keep = []

    def atom(self, t, pos=None):
        k = t.get_id()
        if k not in self.sym:
            if pos is None:
                pos = S.sign(t) == 2 or self.positive(t)
            s = sp.Symbol("a%d" % len(self.sym), real=True, positive=True if pos else None)
            self.sym[k] = (s, t)
            self.back[s] = t
            self.keep.append(t)
        return self.sym[k][0]

    def conv(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        self.keep.append(t)
        r = self._conv(t)
        self.memo[k] = r
        return r

    def _conv(self, t):
        c = T._rat(t)
        if c is not None:
            return sp.Rational(c.numerator, c.denominator)
        if z3.is_int_value(t):
            return sp.Integer(t.as_long())
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            a = t.arg(0)
            if a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or z3.is_int_value(a):
                return self._arith(a, lambda x: self.conv(z3.ToReal(x)))
            return self.atom(t)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV):
            return self._arith(t, self.conv)
        if k == z3.Z3_OP_POWER:
            e = T._rat(t.arg(1))
            if e is not None and e.denominator == 1:
                return self.conv(t.arg(0)) ** int(e)
        if is_app_of(t, SQRT):
            a = self.conv(t.arg(0))
            if a.is_Rational:
                return sp.sqrt(a)
            n = sp.factor(a)
            return self._named(SQRT, n, t)
        if is_app_of(t, EXP):
            return self.exp(self.conv(t.arg(0)))
        if is_app_of(t, LOG):
            return self.log(self.conv(t.arg(0)), t.arg(0))
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() and all(z3.is_real(a) for a in t.children()):
            # normalise the arguments
            args = [self.to_z3(sp.expand(self.conv(a))) for a in t.children()]
            return self.atom(t.decl()(*args))
        return self.atom(t)

    def _named(self, fn, arg, t):
        return self.atom(fn(self.to_z3(arg)))

    def _arith(self, t, f):
        k = t.decl().kind()
        ch = [f(x) for x in t.children()]
        if k == z3.Z3_OP_ADD:
            return sp.Add(*ch)
        if k == z3.Z3_OP_SUB:
            return ch[0] - sp.Add(*ch[1:])
        if k == z3.Z3_OP_MUL:
            return sp.Mul(*ch)
        if k == z3.Z3_OP_UMINUS:
            return -ch[0]
        if k == z3.Z3_OP_DIV:
            return ch[0] / ch[1]
        return sp.Integer(t.as_long())

    def exp(self, e):
        e = sp.expand(sp.cancel(sp.together(e))) if e.free_symbols else e
        if e == 0:
            return sp.Integer(1)
        terms = sp.Add.make_args(e)
        out = sp.Integer(1)
        for m in terms:
            c, rest = m.as_coeff_Mul()
            if rest in self.logs.values() and c.is_Integer:
                arg = [a for a, s in self.logs.items() if s == rest][0]
                out *= self.logarg[rest] ** c
                continue
            if not rest.free_symbols:
                out *= self.atom(EXP(self.to_z3(m)), True)
                continue
            if c.is_Integer:
                out *= self.atom(EXP(self.to_z3(rest)), True) ** c
            else:
                out *= self.atom(EXP(self.to_z3(m)), True)
        return out

    logarg = None

    def log(self, a, zt):
        if self.logarg is None:
            self.logarg = {}
        f = sp.factor(sp.together(a))
        num = sp.Integer(0)
        neg = 1
        out = sp.Integer(0)
        facs = []
        for b in sp.Mul.make_args(f):
            base, e = b.as_base_exp()
            facs.append((base, e))
        # flip pairs of provably negative factors
        pos = []
        sgn = 1
        for base, e in facs:
            if base.is_Rational:
                if base < 0:
                    base = -base
                    if e == 1:
                        sgn = -sgn
                pos.append((base, e))
                continue
            zb_ = self.to_z3(base)
            if self.positive(zb_):
                pos.append((base, e))
            elif e.is_Integer and self.positive(self.to_z3(sp.expand(-base))):
                if e % 2:
                    sgn = -sgn
                pos.append((sp.expand(-base), e))
            else:
                return self.atom(LOG(self.to_z3(sp.expand(a))))
        if sgn < 0:
            return self.atom(LOG(self.to_z3(sp.expand(a))))
        for base, e in pos:
            if base.is_Rational:
                for p, m in sp.factorint(base.p).items():
                    if p != 1:
                        out += e * m * self.atom(LOG(rv(int(p))))
                for p, m in sp.factorint(base.q).items():
                    if p != 1:
                        out -= e * m * self.atom(LOG(rv(int(p))))
                continue
            zt_ = self.back.get(base)
            if zt_ is not None and is_app_of(zt_, EXP):
                out += e * self.conv(zt_.arg(0))
                continue
            if zt_ is not None and is_app_of(zt_, SQRT):
                out += e * self.log(self.conv(zt_.arg(0)), zt_.arg(0)) / 2
                continue
            # irreducible factor: canonical sign / content
            key = sp.srepr(sp.expand(base))
            if key not in self.logs:
                s = self.atom(LOG(self.to_z3(sp.expand(base))))
                self.logs[key] = s
                self.logarg[s] = base
            out += e * self.logs[key]
        return out

    def to_z3(self, e):
        e = sp.sympify(e)
        if e.is_Integer:
            return rv(int(e))
        if e.is_Rational:
            return rv(Fraction(int(e.p), int(e.q)))
        if e.is_Symbol:
            return self.back[e]
        if e.is_Add:
            args = [self.to_z3(a) for a in sorted(e.args, key=sp.default_sort_key)]
            t = args[0]
            for a in args[1:]:
                t = t + a
            return t
        if e.is_Mul:
            num, den = [], []
            for a in sorted(e.args, key=sp.default_sort_key):
                b, x = a.as_base_exp()
                if x.is_Integer and x < 0:
                    den += [self.to_z3(b)] * int(-x)
                else:
                    num.append(self.to_z3(a))
            t = num[0] if num else rv(1)
            for a in num[1:]:
                t = t * a
            for a in den:
                t = t / a
            return t
        if e.is_Pow:
            b, x = e.as_base_exp()
            if x.is_Integer:
                z = self.to_z3(b)
                t = z
                for _ in range(abs(int(x)) - 1):
                    t = t * z
                return t if x > 0 else rv(1) / t
            if x == sp.Rational(1, 2):
                return SQRT(self.to_z3(b))
            if x == sp.Rational(-1, 2):
                return rv(1) / SQRT(self.to_z3(b))
            return T.POW(self.to_z3(b), self.to_z3(x))
        raise Unsupported("sympy back-translation of %s" % e)


def ite_conds(t):
    out = []
    for s in subterms([t]):
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE and (z3.is_real(s) or z3.is_int(s)):
            # innermost-first: conditions without nested ite are safe to split
            out.append(s)
    out.sort(key=lambda s: len(s.sexpr()))
    return out


def prove_eq(hyps, a, b, deadline, depth=0, stats=None):
    """a == b (reals) by case splitting on if-then-else and normal forms."""
    if time.time() > deadline:
        return False
    d = z3.simplify(a - b)
    if T._rat(d) == 0:
        return True
    ites = ite_conds(d)
    if ites:
        if depth > 14:
            return False
        c = ites[0].arg(0)
        for val in (True, False):
            lit = c if val else z3.Not(c)
            h2 = hyps + [lit]
            r, _ = S.check(h2, timeout=1500, rounds=2)
            if r == "unsat":
                continue
            rep = [(c, z3.BoolVal(val))]
            a2 = z3.simplify(z3.substitute(a, *rep))
            b2 = z3.simplify(z3.substitute(b, *rep))
            if not prove_eq(h2, a2, b2, deadline, depth + 1):
                return False
        return True

    posmemo = {}

    def positive(t):
        k = t.get_id()
        if k in posmemo:
            return posmemo[k][0]
        if S.sign(t) == 2:
            posmemo[k] = (True, t)
            return True
        r, _ = S.check(hyps + [t <= 0], timeout=1500, rounds=2)
        posmemo[k] = (r == "unsat", t)
        return r == "unsat"
    try:
        cv = SymConv(positive)
        e = cv.conv(a) - cv.conv(b)
        e = sp.together(sp.expand(e))
        e = sp.cancel(e) if e.free_symbols else sp.nsimplify(e)
        if e == 0:
            return True
        e = sp.simplify(e) if len(e.free_symbols) <= 6 and sp.count_ops(e) < 60 else e
        if e == 0:
            return True
        # the normal form of the difference may still vanish by the hypotheses
        num, den = sp.fraction(sp.together(e))
        zt = cv.to_z3(sp.expand(num))
        r, _ = S.check(hyps + [zt != 0], timeout=2000, rounds=2)
        return r == "unsat"
    except (Unsupported, KeyError, NotImplementedError, TypeError):
        return False


def conjuncts(g):
    if isinstance(g, bool):
        return [] if g else [False]
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conjuncts(c)
        return out
    if z3.is_true(g):
        return []
    if z3.is_or(g):
        # a -> (b and c)
        ands = [c for c in g.children() if z3.is_and(c)]
        if len(ands) == 1:
            rest = [c for c in g.children() if not c.eq(ands[0])]
            return [x for c in conjuncts(ands[0]) for x in ([False] if c is False else [z3.Or(*(rest + [c]))])]
        return [g]
    if z3.is_implies(g):
        return [z3.Or(z3.Not(g.arg(0)), c) if c is not False else z3.Not(g.arg(0)) for c in conjuncts(g.arg(1))]
    return [g]


def strip(g, hyps):
    """a1 or a2 or ... : move the negations of all but an equality into hypotheses."""
    if z3.is_implies(g):
        return strip(g.arg(1), hyps + [g.arg(0)])
    if z3.is_or(g):
        eqs = [c for c in g.children() if z3.is_eq(c) and z3.is_real(c.arg(0))]
        if len(eqs) == 1:
            return strip(eqs[0], hyps + [z3.Not(c) for c in g.children() if not c.eq(eqs[0])])
    return g, hyps


_small = {}


def small(h, lim=250):
    k = (h.get_id(), lim)
    if k not in _small or not _small[k][1].eq(h):
        n, ok = 0, True
        for _ in subterms([h]):
            n += 1
            if n > lim:
                ok = False
                break
        _small[k] = (ok, h)
    return _small[k][0]


_syms = {}


def symbols(t):
    """names of the uninterpreted functions and non-integer constants of t"""
    k = t.get_id()
    if k not in _syms:
        _syms[k] = (t, frozenset(T.info(x)[2] for x in subterms([t]) if T.info(x)[2] is not None and (T.info(x)[1] or not T.info(x)[3])))
    return _syms[k][1]


DIVU = z3.Function("div!u", z3.RealSort(), z3.RealSort(), z3.RealSort())
POWU = z3.Function("pow!u", z3.RealSort(), z3.RealSort(), z3.RealSort())


class Linear:
    """Non-linear monomials replaced by constants: a generalisation whose validity implies that of the original."""

    def __init__(self):
        self.memo, self.mono, self.keep, self.found = {}, {}, [], False

    def __call__(self, t):
        stack = [t]
        while stack:
            x = stack[-1]
            if x.get_id() in self.memo:
                stack.pop()
                continue
            ch = x.children() if z3.is_app(x) else []
            todo = [c for c in ch if c.get_id() not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.keep.append(x)
            self.memo[x.get_id()] = self.one(x, [self.memo[c.get_id()] for c in ch])
        return self.memo[t.get_id()]

    def one(self, x, ch):
        if not ch:
            return x
        k = x.decl().kind()
        if k == z3.Z3_OP_MUL:
            c, fs = z3.simplify(z3.Product([a for a in ch if T._rat(a) is not None or z3.is_int_value(a)] or [z3.RealVal(1) if z3.is_real(x) else z3.IntVal(1)])), []
            for a in ch:
                if not (T._rat(a) is not None or z3.is_int_value(a)):
                    fs.append(a)
            if len(fs) < 2:
                return x.decl()(*ch)
            self.found = True
            fs.sort(key=lambda a: (len(T.info(a)[1]) > 0, T.info(a)[2] or "~", a.decl().kind(), a.get_id()))
            key = tuple(a.get_id() for a in fs)
            if key not in self.mono:
                self.keep.extend(fs)
                so = x.sort()
                f = z3.Function("mul!%s%d" % (so.name(), len(fs)), *([so] * (len(fs) + 1)))
                self.mono[key] = f(*fs)
            return c * self.mono[key]
        if k == z3.Z3_OP_DIV and T._rat(ch[1]) is None:
            self.found = True
            return DIVU(ch[0], ch[1])
        if k == z3.Z3_OP_POWER:
            self.found = True
            return POWU(*ch) if z3.is_real(ch[0]) and z3.is_real(ch[1]) else x.decl()(*ch)
        if all(a.eq(b) for a, b in zip(ch, x.children())):
            return x
        return z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch) if k == z3.Z3_OP_OR else z3.Sum(*ch) if k == z3.Z3_OP_ADD else x.decl()(*ch)


def linear_try(fs, timeout=3000):
    """unsat of the linear abstraction (with the instances of the theory)"""
    t0 = time.time()
    i = S.Inst([f for f in fs if f is not True])
    if i.false:
        return True
    lin = Linear()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    n = 0
    out = False
    for k in range(2):
        more = i.step()
        if len(i.out) > 1500:
            break
        for f in i.out[n:]:
            s.add(lin(z3.simplify(f)))
        n = len(i.out)
        if not lin.found and k == 0:
            break                           # nothing non-linear: the ordinary check does it
        if s.check() == z3.unsat:
            out = True
            break
        if not more:
            break
    S.STATS["queries"] += 1
    S.STATS["z3_s"] += time.time() - t0
    return out


def prove(hyps, goal, timeout=8.0):
    """-> (status, info): 'proved' | 'refuted' | 'unknown'"""
    t0 = time.time()
    deadline = t0 + timeout * 4
    hyps = [h for h in hyps if h is not True]
    used = []
    for g in conjuncts(goal):
        if g is False:
            r, m = S.check(hyps, timeout=timeout * 1000)
            if r == "unsat":
                used.append("z3")
                continue
            if r == "sat":
                return ("refuted" if not S.theory_incomplete(hyps) else "unknown"), dict(model=m, goal=z3.BoolVal(False), backend="z3", sat=True)
            return "unknown", dict(goal=z3.BoolVal(False))
        light = [h for h in hyps if not is_z3(h) or small(h)]
        if not z3.is_true(z3.simplify(g)):
            if small(g, 400):
                sy = symbols(g)
                tiny = [h for h in light if is_z3(h) and small(h, 40) and symbols(h) <= sy]
                if len(tiny) < len(light) and S.check(tiny + [z3.Not(g)], timeout=1500, rounds=2)[0] == "unsat":
                    used.append("z3")
                    continue
            if linear_try(light + [z3.Not(g)], min(timeout, 4.0) * 1000):
                used.append("z3")
                continue
        if len(light) < len(hyps):
            # most obligations do not need the bulky conditions of the path
            if S.check(light + [z3.Not(g)], timeout=min(timeout, 3.0) * 1000)[0] == "unsat":
                used.append("z3")
                continue
        st, info = prove1(hyps, g, timeout, deadline)
        if st != "proved":
            return st, info
        used.append(info.get("backend"))
    return "proved", dict(backend="+".join(sorted(set(u for u in used if u))) or "simplify")


def sum_congruence(hyps, g, deadline, cap=12):
    """Two sums with equal bounds and pointwise equal terms are equal (each pointwise equality is proved)."""
    apps = [t for t in subterms([g]) if z3.is_app(t) and t.decl().name() in T.SumReg.by_decl]
    out, n = [], 0
    for i, a in enumerate(apps):
        for b in apps[i + 1:]:
            ia, ib = T.SumReg.by_decl[a.decl().name()], T.SumReg.by_decl[b.decl().name()]
            if len(ia.bounds) != len(ib.bounds) or a.eq(b) or n >= cap or time.time() > deadline:
                continue
            n += 1
            ba, ta = ia.inst([a.arg(k) for k in range(a.num_args())])
            bb, tb = ib.inst([b.arg(k) for k in range(b.num_args())])
            fr = [z3.Int("cg!%d" % k) for k in range(len(ba))]
            ra = [(x, f) for (x, _), f in zip(ba, fr)]
            rb = [(x, f) for (x, _), f in zip(bb, fr)]
            ta, tb = z3.substitute(ta, *ra), z3.substitute(tb, *rb)
            ha, hb = [z3.substitute(h, *ra) for _, h in ba], [z3.substitute(h, *rb) for _, h in bb]
            if any(not x.eq(y) and S.check(hyps + [x != y], timeout=1000, rounds=2)[0] != "unsat" for x, y in zip(ha, hb)):
                continue
            rng = [z3.And(f >= 0, f < h) for f, h in zip(fr, ha)]
            if S.check(hyps + rng + [ta != tb], timeout=1500, rounds=3)[0] == "unsat" or prove_eq(hyps + rng, ta, tb, min(deadline, time.time() + 4)):
                out.append(a == b)
    return out


def prove1(hyps, g, timeout, deadline, lemmas=None):
    g2 = z3.simplify(g)
    if z3.is_true(g2):
        return "proved", dict(backend="simplify")
    eqg, h2 = strip(g, hyps)
    iseq = z3.is_eq(eqg) and z3.is_real(eqg.arg(0))
    if iseq:
        # cheap algebra first: no solver needed
        if T._rat(z3.simplify(eqg.arg(0) - eqg.arg(1))) == 0:
            return "proved", dict(backend="simplify")
    r, m = S.check(hyps + [z3.Not(g)], timeout=min(timeout, 3.0) * 1000)
    if r == "unsat":
        return "proved", dict(backend="z3")
    if iseq and prove_eq(h2, eqg.arg(0), eqg.arg(1), deadline):
        return "proved", dict(backend="ratnf+z3")
    if time.time() > deadline:
        return "unknown", dict(goal=g, sat=False)
    if lemmas is None:
        lem = sum_congruence(hyps, g, deadline)
        if lem:
            st, info = prove1(hyps + lem, g, timeout, deadline, lemmas=lem)
            if st == "proved":
                info = dict(info, backend="congruence+" + str(info.get("backend")))
                return st, info
    if time.time() > deadline:
        return "unknown", dict(goal=g, sat=False)
    r2, m2 = S.check(hyps + [z3.Not(g)], timeout=timeout * 1000, rounds=4)
    if r2 == "unsat":
        return "proved", dict(backend="z3")
    if r2 == "unknown" or S.theory_incomplete(hyps + [g]):
        r3 = S.cvc5_check(hyps + [z3.Not(g)], timeout=int(timeout * 1000))
        if r3 == "unsat":
            return "proved", dict(backend="cvc5")
    if r2 == "sat":
        inc = S.theory_incomplete(hyps + [g])
        return ("unknown" if inc else "refuted"), dict(model=m2, goal=g, backend="z3", sat=True)
    return "unknown", dict(goal=g, sat=False)
