"""Execution context: path conditions, decisions, journal, proving."""
import time
import z3
from .term import *  # noqa
from . import term as T
from . import solver as S
from .values import *  # noqa

_cnt = [0]


def fresh_name(p):
    _cnt[0] += 1
    return "%s!%d" % (p, _cnt[0])


QMEMO = {}
_lin = {}


def int_linear(f):
    """Boolean combination of linear integer atoms over constants (no reals, no theory symbols)."""
    k = f.get_id()
    if k in _lin and _lin[k][1].eq(f):
        return _lin[k][0]
    ok = True
    for t in subterms([f]):
        if z3.is_quantifier(t) or z3.is_var(t) or not z3.is_app(t):
            ok = False
            break
        if t.sort().kind() not in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT):
            ok = False
            break
        d = t.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
            ok = False
            break
        if d.kind() in (z3.Z3_OP_MUL,) and sum(0 if z3.is_int_value(c) else 1 for c in t.children()) > 1 or d.kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_TO_INT):
            ok = False
            break
    _lin[k] = (ok, f)
    return ok


class Ctx:
    def __init__(self, eng, dec=(), pending=None):
        self.eng = eng
        self.path = []
        self.facts = []
        self.dec = list(dec)
        self.pos = 0
        self.pending = pending if pending is not None else []
        self.journal = []
        self.loopidx = []        # generic loop index constants in scope
        self.draws = []          # (kind, symbol info)
        self.events = ObjVal(None, {"trace": ()})     # ghost state, journaled
        self.obligations = []
        self.depth = 0
        self.taint = []          # reasons why a refutation would not be trusted
        self.feas_timeout = 2000
        self.cur = None
        self.exp_args = []

    # -- journal -------------------------------------------------------------
    def set(self, obj, attr, val):
        self.journal.append((obj, attr, getattr(obj, attr)))
        setattr(obj, attr, val)

    def mark(self):
        return len(self.journal)

    def effects(self, mark):
        """(obj, attr) -> (old, new) since mark."""
        eff = {}
        for obj, attr, old in self.journal[mark:]:
            k = (id(obj), attr)
            if k not in eff:
                eff[k] = (obj, attr, old)
        return {k: (o, a, old, getattr(o, a)) for k, (o, a, old) in eff.items()}

    def rollback(self, mark):
        while len(self.journal) > mark:
            obj, attr, old = self.journal.pop()
            setattr(obj, attr, old)

    # -- symbols -------------------------------------------------------------
    def fint(self, p="i"):
        return z3.Int(fresh_name(p))

    def pint(self, p="n"):
        """An integer the contract's precondition declares to be at least 1."""
        c = self.fint(p)
        S.POSINT.add(c.decl().name())
        self.path.append(c >= 1)
        return c

    def freal(self, p="r"):
        return z3.Real(fresh_name(p))

    def fbool(self, p="b"):
        return z3.Bool(fresh_name(p))

    def ffunc(self, p, dom, rng, over_loops=True):
        """fresh function symbol; over generic loop indices in scope as leading args."""
        lead = list(self.loopidx) if over_loops else []
        if lead or dom:
            d = z3.Function(fresh_name(p), *([I] * len(lead) + list(dom) + [rng]))
            return lambda *a: d(*(lead + list(a))), d
        c = z3.Const(fresh_name(p), rng)
        return (lambda *a: c), c.decl()

    def sym_arr(self, name, shape, dt="f", flags=False, lib="np"):
        """An array with arbitrary contents (over the loop indices in scope)."""
        nd = len(shape)
        if dt == "f":
            f, _ = self.ffunc(name, [I] * nd, R)
            if flags:
                g = [self.ffunc(name + s, [I] * nd, B)[0] for s in ("_nan", "_pinf", "_ninf")]

                def fn(idx):
                    a = [iv(i) for i in idx]
                    nan, p, n = g[0](*a), g[1](*a), g[2](*a)
                    return XF(f(*a), nan, And(Not(nan), p), And(Not(nan), Not(p), n))
                return Arr(shape, fn, dt, lib=lib)
            return Arr(shape, lambda idx: XF(f(*[iv(i) for i in idx])), dt, lib=lib)
        rng = {"i": I, "b": B, "o": Obj}[dt]
        f, _ = self.ffunc(name, [I] * nd, rng)
        return Arr(shape, lambda idx: f(*[iv(i) for i in idx]), dt, lib=lib)

    def sym_xf(self, name, flags=False):
        f, _ = self.ffunc(name, [], R)
        if not flags:
            return XF(f())
        g = [self.ffunc(name + s, [], B)[0] for s in ("_nan", "_pinf", "_ninf")]
        nan, p, n = g[0](), g[1](), g[2]()
        return XF(f(), nan, And(Not(nan), p), And(Not(nan), Not(p), n))

    # -- assumptions -----------------------------------------------------------
    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.path.append(f)

    def fact(self, f):
        if f is not True:
            self.facts.append(zb(f))

    def hyps(self):
        return self.facts + self.path

    # -- branching -------------------------------------------------------------
    def quick(self, f):
        """Is f decided by the hypotheses? True / False / None"""
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        key = (f.sexpr(), len(self.path), len(self.facts), tuple(id(p) for p in self.path[-3:]))
        for p in reversed(self.path):
            if is_z3(p):
                if p.eq(f):
                    return True
                if z3.is_not(f) and p.eq(f.arg(0)) or z3.is_not(p) and p.arg(0).eq(f):
                    return False
        h = self.hyps()
        if int_linear(f):
            # integer facts of the path alone (no theory instances): cheap
            hi = [p for p in h if is_z3(p) and int_linear(p)]
            key = (f.get_id(),) + tuple(p.get_id() for p in hi)
            if key not in QMEMO:
                s = z3.SolverFor("QF_UFLIA")
                s.set("timeout", 300)
                s.add(*hi)
                s.add(z3.Not(f))
                QMEMO[key] = (s.check() == z3.unsat, f, hi)
            if QMEMO[key][0]:
                return True
        if getattr(self.eng, "coarse", 0):
            return None           # discovery of modified state: explore both branches
        r, _ = S.check(h + [z3.Not(f)], timeout=self.feas_timeout, rounds=2)
        if r == "unsat":
            return True
        r2, _ = S.check(h + [f], timeout=self.feas_timeout, rounds=2)
        if r2 == "unsat":
            return False
        return None

    def branch(self, c):
        """Decide a condition, splitting the path if it is open."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        q = self.quick(c)
        if q is not None:
            return q
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        elif self.eng.forking and self.pending is self.eng.root_pending:
            d = not self.eng.split()
            self.dec.append(d)
        else:
            d = True
            self.dec.append(True)
            self.pending.append(self.dec[:self.pos] + [False])
        self.pos += 1
        self.path.append(c if d else z3.Not(c))
        return d

    def provable(self, f, timeout=3000, rounds=2):
        if isinstance(f, bool):
            return f
        q = z3.simplify(f)
        if z3.is_true(q):
            return True
        from .prover import small
        hyps = [h for h in self.hyps() if h is not True]
        light = [h for h in hyps if not is_z3(h) or small(h)]
        if len(light) < len(hyps) and S.check(light + [z3.Not(f)], timeout=min(timeout, 1500), rounds=rounds)[0] == "unsat":
            return True
        r, _ = S.check(hyps + [z3.Not(f)], timeout=timeout, rounds=rounds)
        return r == "unsat"

    def resolve(self, v):
        """Drop the NaN / infinity flags of a scalar that the hypotheses exclude."""
        if not isinstance(v, XF) or v.pure or getattr(self.eng, "coarse", 0):
            return v
        fl, rep = [], []
        for f in v.flags():
            if is_z3(f):
                g = z3.simplify(f)
                if z3.is_false(g) or z3.is_true(g):
                    f = bool(z3.is_true(g))
                else:
                    key = (g.get_id(), len(self.path), len(self.facts), self.path[-1].get_id() if self.path and is_z3(self.path[-1]) else 0)
                    memo = self.__dict__.setdefault("_rmemo", {})
                    if key not in memo:
                        memo[key] = (self.provable(z3.Not(g), timeout=1500), g)
                    if memo[key][0]:
                        rep += [(f, z3.BoolVal(False)), (g, z3.BoolVal(False))]
                        f = False
            fl.append(f)
        if all(x is False for x in fl):
            r = v.r
            if rep and any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE for t in subterms([r])):
                for t in [t for t in subterms([r]) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not T.is_z3(None)]:
                    c = t.arg(0)
                    if any(n.startswith(("bb!", "b!", "pp!")) for n in (x.decl().name() for x in subterms([c]) if z3.is_const(x))):
                        continue
                    if self.provable(z3.Not(c), timeout=800):
                        rep.append((c, z3.BoolVal(False)))
                r = z3.simplify(z3.substitute(r, *rep))
            return XF(r)
        return XF(v.r, *fl)

    # -- sub-exploration ---------------------------------------------------------
    def sub_explore(self, thunk):
        """Run thunk on every feasible sub-path from here; undo each.  Returns a list of
        (condition list, effects, outcome)."""
        out = []
        stack = [[]]
        sv = (self.dec, self.pos, self.pending)
        base = len(self.path)
        n = 0
        while stack:
            dec = stack.pop()
            n += 1
            if n > 200:
                raise Unsupported("too many sub-paths")
            mark = self.mark()
            self.dec, self.pos, self.pending = list(dec), 0, stack
            try:
                try:
                    outcome = ("ok", thunk())
                except ReturnSig as r:
                    outcome = ("return", r.value)
                except BreakSig:
                    outcome = ("break", None)
                except ContinueSig:
                    outcome = ("continue", None)
                except PyExc as e:
                    outcome = ("raise", e)
                conds = self.path[base:]
                out.append((conds, self.effects(mark), outcome))
            except Infeasible:
                pass
            finally:
                del self.path[base:]
                self.rollback(mark)
                self.dec, self.pos, self.pending = sv
        return out

    def apply_merged(self, outs):
        """Apply the merge of the effects of several sub-paths."""
        if len(outs) == 1:
            for k, (o, a, old, new) in outs[0][1].items():
                self.set(o, a, new)
            return
        keys = {}
        for conds, eff, _ in outs:
            for k, (o, a, old, new) in eff.items():
                keys.setdefault(k, (o, a, old))
        for k, (o, a, old) in keys.items():
            vals = [(And(*conds), eff[k][3] if k in eff else old) for conds, eff, _ in outs]
            v = vals[-1][1]
            for c, w in reversed(vals[:-1]):
                v = merge(c, w, v)
            self.set(o, a, v)

    # -- proving -------------------------------------------------------------------
    def prove(self, name, goal, timeout=None, extra=(), hint=(), note=""):
        return self.eng.obligation(self, name, goal, timeout=timeout, extra=list(extra), hint=list(hint), note=note)


def merge(c, a, b):
    """if c then a else b, for interpreter values and object states."""
    if a is b:
        return a
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, Fn) and isinstance(b, Fn):
        return Fn(lambda idx: merge(c, a(idx), b(idx)))
    if isinstance(a, dict) and isinstance(b, dict):
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            if k in a and k in b:
                try:
                    out[k] = merge(c, a[k], b[k])
                except Unsupported as e:
                    out[k] = Poison("value differs between branches: %s" % e)
            else:
                out[k] = Poison("bound only on one branch: %s" % (k,))
        return out
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [merge(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Poison):
        return a
    if isinstance(b, Poison):
        return b
    if isinstance(a, bool) and isinstance(b, bool) or (is_z3(a) and z3.is_bool(a)) or (is_z3(b) and z3.is_bool(b)):
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return IteB(c, a, b)
    isint = lambda v: (isinstance(v, int) and not isinstance(v, bool)) or (is_z3(v) and z3.is_int(v))
    if isint(a) and isint(b):
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        return z3.If(c, iv(a), iv(b))
    isnum = lambda v: isint(v) or isinstance(v, (float, XF)) or (is_z3(v) and z3.is_real(v))
    if isnum(a) and isnum(b):
        return xite(c, xf(a), xf(b))
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return a if a.eq(b) else z3.If(c, a, b)
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and all(same_dim(x, y) for x, y in zip(a.shape, b.shape)):
        return Arr(a.shape, lambda idx: merge(c, a.get(idx), b.get(idx)), a.dt)
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name:
        return a
    raise Unsupported("cannot merge %r and %r" % (type(a).__name__, type(b).__name__))


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return is_z3(iv(a)) and iv(a).eq(iv(b))
