"""Obligation discharge: schema instantiation + z3 (cvc5 as second back end)."""
import time
import itertools
import z3
from .term import *  # noqa
from . import term as T

STATS = dict(queries=0, z3_s=0.0, cvc5_s=0.0, cvc5_queries=0)


class Theory:
    """Fact schemas attached to function symbols, instantiated on ground applications."""

    def __init__(self):
        self.schemas = {}      # decl name -> list of fn(args)->list of formulas
        self.masks = {}        # mask registry
        self.anys = {}         # decl name -> (params, bounds, body)
        self.any_key = {}
        self.defs = []         # generic facts (fn(int term) -> formula)

    def schema(self, decl, f):
        self.schemas.setdefault(decl.name(), []).append(f)


TH = Theory()


def reset():
    global TH
    TH.schemas.clear()
    TH.masks.clear()
    TH.anys.clear()
    TH.any_key.clear()
    TH.defs.clear()
    SIGNS.clear()
    T._info.clear()
    T._free.clear()
    _memo.clear()
    POSINT.clear()
    T.SumReg.reset()
    T.NZ.clear()
    T.FLAT.clear()
    T.MATINV.clear()
    T.MATDIM.clear()
    T.SYMM.clear()
    T.PDMAT.clear()
    T.FINROW.clear()
    UNITS.clear()
    T.RAW_SUM[0] = False
    T.COARSE[0] = 0
    T._poly_memo.clear()
    T.Poly.atoms.clear()


INCOMPLETE = {"EXP", "LOG", "ERF", "ERFINV", "POW", "PSI", "SQRT"}


# ---- ANY / ALL atoms -------------------------------------------------------
def any_atom(hi, lam):
    """exists 0<=b<hi: lam(b); a hash-consed boolean atom with witness and instances."""
    b = T.bound_var()
    body = lam(b)
    if isinstance(body, bool):
        if body is False:
            return False
        return True if (isinstance(hi, int) and hi > 0) else (False if isinstance(hi, int) else hi > 0)
    if isinstance(hi, int):
        if hi <= 6:
            return Or(*[subst(body, [(b, z3.IntVal(j))]) for j in range(hi)])
        hi = z3.IntVal(hi)
    body = z3.simplify(body)
    if z3.is_false(body):
        return False
    if not T.contains(body, b):
        return And(hi > 0, body)
    params = T.index_terms([body, hi], b)
    pren = [(p, z3.Int("pp!%d" % i)) for i, p in enumerate(params)]
    ab = z3.Int("ab!0")
    body2, hi2 = subst(body, pren + [(b, ab)]), subst(hi, pren)
    key = (body2.sexpr(), hi2.sexpr())
    if key not in TH.any_key:
        n = len(TH.any_key)
        decl = z3.Function("ANY%d" % n, *([I] * len(params) + [B])) if params else z3.Bool("ANY%d" % n)
        wit = z3.Function("anyw%d" % n, *([I] * len(params) + [I])) if params else z3.Int("anyw%d" % n)
        info = (decl, wit, [p for _, p in pren], ab, hi2, body2)
        TH.any_key[key] = info
        TH.anys["ANY%d" % n] = info
        T._keep.append(body2)
    info = TH.any_key[key]
    return info[0](*params) if params else info[0]


def all_atom(hi, lam):
    return Not(any_atom(hi, lambda b: Not(lam(b))))


# ---- instantiation ---------------------------------------------------------
_memo = {}      # instances already built
info = T.info


def term_facts(name, t):
    """Facts the theory has about one application (built once per term and set of schemas)."""
    sch = TH.schemas.get(name, ())
    key = ("t", t.get_id(), len(sch))
    r = _memo.get(key)
    if r is None:
        out = list(builtin_unary(name, t))
        for f in sch:
            x = f(*[t.arg(i) for i in range(t.num_args())])
            out += x if isinstance(x, list) else [x]
        if name in T.SumReg.by_decl:
            out += sum_facts(name, t)
        r = _memo[key] = (t, out)
    return r[1]


def memo(key, keep, f):
    r = _memo.get(key)
    if r is None:
        r = _memo[key] = (keep, f())
    return r[1]


CAND = ("anyw", "wit", "nz", "rank")
SHAPEY = ("cnt", "calls", "n_max", "n_steps")


class Inst:
    """Formulas with the instances of the theory's schemas on their ground terms, round by round."""

    def __init__(self, fs, cap=4000, ints=()):
        self.out = [f for f in fs if not isinstance(f, bool)]
        self.false = any(f is False for f in fs)
        self.cap, self.ints = cap, list(ints)
        self.seen, self.apps, self.cands, self.done = set(), {}, {}, set()
        self.rnd = 0
        self.fresh = list(self.out)

    def walk(self):
        new = []
        stack, seen = self.fresh, self.seen
        while stack:
            t = stack.pop()
            k = t.get_id()
            if k in seen:
                continue
            seen.add(k)
            _, ch, name, isint = info(t)
            if name is not None:
                self.apps.setdefault(name, []).append(t)
                new.append((name, t))
                if isint and (not ch or name.startswith(CAND)):
                    self.cands[k] = t
            stack.extend(ch)
        for t in self.ints:
            self.cands[t.get_id()] = t
        return new

    def step(self):
        """One round; False when nothing was added."""
        if self.false:
            self.out = [z3.BoolVal(False)]
            return False
        if len(self.out) > self.cap:
            return False
        new = self.walk()
        done, add = self.done, []
        rnd, self.rnd = self.rnd, self.rnd + 1
        for name, t in sorted(new, key=lambda x: x[1].get_id()):
            add += term_facts(name, t)
        for name in sorted({n for n, _ in new} & {"EXP", "ERF", "LOG"}):
            add += builtin_pairs(name, sorted(self.apps[name], key=lambda t: t.get_id()), done)
        # sums: a positive sum has a positive term; a sum of non-negative terms is at least each term
        for name, ts in self.apps.items():
            sf = T.SumReg.by_decl.get(name)
            if sf is None or len(sf.bounds) != 1:
                continue
            nn = memo(("nn", name), None, lambda: sign(sf.body)) >= 1
            cs = [s for s in self.cands.values() if info(s)[2].startswith("kfin")] if nn else []
            if nn:
                cs += [t for n2, t2 in self.apps.items() if n2.startswith("sumw") for t in t2]
            for t in ts:
                def parts():
                    pr = list(zip(sf.params, [t.arg(i) for i in range(t.num_args())]))
                    (bb, h), = [(b_, subst(h_, pr)) for b_, h_ in sf.bounds]
                    return bb, h, subst(sf.body, pr), [a for _, a in pr]
                if rnd == 0 and ("sw", t.get_id()) not in done:
                    done.add(("sw", t.get_id()))
                    bb, h, body, args = memo(("sp", t.get_id()), t, parts)
                    wn = "sumw" + name
                    w = z3.Function(wn, *([I] * len(args) + [I]))(*args) if args else z3.Int(wn)
                    add.append(memo(("sw", t.get_id()), t, lambda: z3.Implies(t > 0, z3.And(w >= 0, w < h, subst(body, [(bb, w)]) > 0))))
                for s in cs[:6]:
                    key = ("se", t.get_id(), s.get_id())
                    if key in done:
                        continue
                    done.add(key)
                    bb, h, body, args = memo(("sp", t.get_id()), t, parts)
                    add.append(memo(key, (t, s), lambda: z3.Implies(z3.And(s >= 0, s < h), t >= subst(body, [(bb, s)]))))
        # ANY atoms
        cl = None
        for name, ts in self.apps.items():
            an = TH.anys.get(name)
            if an is None:
                continue
            decl, wit, params, b, hi, body = an
            if cl is None:
                cl = [c for c in self.cands.values() if not (info(c)[2] in POSINT or info(c)[2].startswith(SHAPEY))]
                cl = sorted(cl, key=lambda q: memo(("sx", q.get_id()), q, q.sexpr))[:40]
            for t in ts:
                tid = t.get_id()

                def parts():
                    args = [t.arg(i) for i in range(t.num_args())]
                    pairs = list(zip(params, args))
                    return pairs, (wit(*args) if args else wit), subst(hi, pairs)
                pairs, w, h = memo(("ap", tid), t, parts)
                if ("w", tid) not in done:
                    done.add(("w", tid))
                    add.append(memo(("w", tid), t, lambda: z3.Implies(t, z3.And(w >= 0, w < h, subst(body, pairs + [(b, w)])))))
                for s in cl:
                    key = ("i", tid, s.get_id())
                    if key in done:
                        continue
                    done.add(key)
                    if s.eq(h):
                        continue
                    add.append(memo(key, (t, s), lambda: z3.Implies(z3.And(s >= 0, s < h, subst(body, pairs + [(b, s)])), t)))
        if TH.defs:
            cands = [s for s in self.cands.values() if not info(s)[2].startswith("rank")]
            cands = sorted(cands, key=lambda q: memo(("sx", q.get_id()), q, q.sexpr))[:25]
            for di, (trig, fa) in enumerate(TH.defs):
                if trig not in self.apps:
                    continue
                for q in cands:
                    key = ("d", di, q.get_id())
                    if key in done:
                        continue
                    done.add(key)
                    add.append(fa(q))
        add = [z3.BoolVal(False) if a is False else a for a in add if not isinstance(a, bool) or a is False]
        self.fresh = list(add)
        self.out = self.out + add
        return bool(add)


def instantiate(fs, rounds=3, cap=4000, ints=()):
    i = Inst(fs, cap, ints)
    for _ in range(rounds):
        if not i.step():
            break
    return i.out


def builtin_unary(name, t):
    if name == "EXP":
        a = t.arg(0)
        r = [t > 0, z3.Implies(a <= 0, t <= 1), z3.Implies(a >= 0, t >= 1), z3.Implies(a == 0, t == 1),
             z3.Implies(a != 0, t != 1)]
        return r
    if name == "LOG":
        a = t.arg(0)
        r = [z3.Implies(a > 0, EXP(t) == a), z3.Implies(a == 1, t == 0), z3.Implies(a > 1, t > 0),
             z3.Implies(z3.And(a > 0, a < 1), t < 0)]
        if is_app_of(a, EXP):
            r.append(t == a.arg(0))
        return r
    if name == "ERF":
        a = t.arg(0)
        return [t > -1, t < 1, ERFINV(t) == a, (a > 0) == (t > 0), (a == 0) == (t == 0)]
    if name == "ERFINV":
        a = t.arg(0)
        return [z3.Implies(z3.And(a > -1, a < 1), ERF(t) == a)]
    if name == "SQRT":
        a = t.arg(0)
        return [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)), z3.Implies(a > 0, t > 0)]
    if name == "FLOORI":
        a = t.arg(0)
        return [z3.ToReal(t) <= a, a < z3.ToReal(t) + 1]
    if name == "PI":
        return [PI > rv("3.14159"), PI < rv("3.1416")]
    if name == "POW":
        a, e = t.arg(0), t.arg(1)
        return [z3.Implies(a > 0, t > 0), z3.Implies(z3.And(a >= 0, a <= 1, e >= 0), z3.And(t >= 0, t <= 1)),
                z3.Implies(e == 1, t == a), z3.Implies(z3.And(a == 1), t == 1),
                z3.Implies(z3.And(a > 1, e > 0), t > 1),
                z3.Implies(z3.And(a == 0, e > 0), t == 0)]
    return []


def builtin_pairs(name, ts, done):
    r = []
    if name in ("EXP", "ERF") and 1 < len(ts) <= 12:
        for a, b in itertools.combinations(ts, 2):
            k = (name, "p", a.get_id(), b.get_id())
            if k in done:
                continue
            done.add(k)
            x, y = a.arg(0), b.arg(0)
            r += [z3.Implies(x < y, a < b), z3.Implies(y < x, b < a), z3.Implies(x == y, a == b)]
    if name == "LOG" and 1 < len(ts) <= 10:
        for a, b in itertools.combinations(ts, 2):
            k = (name, "p", a.get_id(), b.get_id())
            if k in done:
                continue
            done.add(k)
            x, y = a.arg(0), b.arg(0)
            r += [z3.Implies(z3.And(x > 0, x < y), a < b), z3.Implies(z3.And(y > 0, y < x), b < a)]
    return r


UNITS = set()   # real symbols known to lie in [0, 1]


def unit(t):
    c = T._rat(t)
    if c is not None:
        return 0 <= c <= 1
    if not z3.is_app(t):
        return False
    if t.decl().name() in UNITS:
        return True
    return t.decl().kind() == z3.Z3_OP_MUL and all(unit(x) for x in t.children())


def negunit(ts):
    if len(ts) != 1:
        return False
    t = ts[0]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
        return unit(t.arg(0))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
        ch = t.children()
        neg = [x for x in ch if T._rat(x) == -1]
        return len(neg) == 1 and all(unit(x) for x in ch if T._rat(x) != -1)
    return False


def factors(t):
    return [x for c in t.children() for x in factors(c)] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL else [t]


def quadform(bnds, body):
    """sum_p v_p sum_q M_pq v_q with M positive definite."""
    if len(bnds) != 1:
        return False
    b, h = bnds[0]
    fs = factors(body)
    for s in fs:
        if not (z3.is_app(s) and s.decl().name() in T.SumReg.by_decl):
            continue
        rest = [x for x in fs if not x.eq(s)]
        if len(rest) != len(fs) - 1:
            continue
        q = z3.Int("qf!0")
        info = T.SumReg.by_decl[s.decl().name()]
        if len(info.bounds) != 1:
            continue
        pairs = list(zip(info.params, [s.arg(i) for i in range(s.num_args())]))
        h2 = subst(info.bounds[0][1], pairs)
        b2 = subst(subst(info.body, [(info.bounds[0][0], q)]), pairs)
        f2 = factors(b2)
        for m in f2:
            if not (z3.is_app(m) and m.decl().name() in T.PDMAT and m.num_args() == 2):
                continue
            ix = {m.arg(0).get_id(), m.arg(1).get_id()}
            if ix != {b.get_id(), q.get_id()} or not h2.eq(h):
                continue
            r2 = [x for x in f2 if not x.eq(m)]
            v1 = z3.simplify(z3.Product([z3.RealVal(1)] + [subst(x, [(b, q)]) for x in rest]))
            v2 = z3.simplify(z3.Product([z3.RealVal(1)] + r2))
            if v1.eq(v2):
                return True
    return False


def sum_facts(name, t):
    """Sign facts of sums whose body is syntactically non-negative."""
    info = T.SumReg.by_decl[name]
    bnds, body = info.inst([t.arg(i) for i in range(t.num_args())])
    r = []
    s = sign(body)
    if not s and T.PDMAT and quadform(bnds, body):
        return [t >= 0]
    if s == 2 and all(posint(h) for _, h in bnds):
        return [t > 0]
    if s >= 1:
        r.append(t >= 0)
    if s == 2:
        r.append(z3.Implies(z3.And(*[h > 0 for _, h in bnds]), t > 0))
    return r


POSINT = set()  # names of integer constants declared >= 1 by contract preconditions


def posint(h):
    if z3.is_int_value(h):
        return h.as_long() > 0
    if z3.is_const(h):
        return h.decl().name() in POSINT
    return z3.is_mul(h) and all(posint(c) for c in h.children())


SIGNS = {}      # decl name -> 1 (>=0) or 2 (>0): declared by contract preconditions


def sign(t):
    """2: provably positive, 1: non-negative, 0: unknown (syntactic)."""
    c = T._rat(t)
    if c is not None:
        return 2 if c > 0 else (1 if c == 0 else 0)
    if z3.is_app(t):
        n = t.decl().name()
        if n == "EXP":
            return 2
        if n in SIGNS:
            return SIGNS[n]
        if n in T.SumReg.by_decl:
            info = T.SumReg.by_decl[n]
            bnds, body = info.inst([t.arg(i) for i in range(t.num_args())])
            sb = sign(body)
            if not sb and T.PDMAT and quadform(bnds, body):
                return 1
            return sb if sb < 2 or all(posint(h) for _, h in bnds) else 1
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return 2 if posint(t.arg(0)) else 0
        if k == z3.Z3_OP_MUL:
            # squares
            ch = list(t.children())
            rest = []
            while ch:
                a = ch.pop()
                m = [i for i, x in enumerate(ch) if x.eq(a)]
                if m:
                    ch.pop(m[0])
                    rest.append(max(1, sign(a)))
                else:
                    rest.append(sign(a))
            if 0 in rest:
                return 0
            return min(rest)
        if k == z3.Z3_OP_DIV:
            a, b = sign(t.arg(0)), sign(t.arg(1))
            return a if b == 2 else (0 if b == 0 else min(a, 1))
        if k == z3.Z3_OP_ADD:
            s = [sign(x) for x in t.children()]
            if 0 in s:
                c = [T._rat(x) for x in t.children() if T._rat(x) is not None]
                if UNITS and len(s) == 2 and c and c[0] >= 1 and negunit([x for x in t.children() if T._rat(x) is None]):
                    return 1
                return 0
            return max(s)
        if k == z3.Z3_OP_SUB and UNITS and t.num_args() == 2 and (T._rat(t.arg(0)) or 0) >= 1 and unit(t.arg(1)):
            return 1
        if k == z3.Z3_OP_ITE:
            return min(sign(t.arg(1)), sign(t.arg(2)))
        if k == z3.Z3_OP_POWER:
            e = T._rat(t.arg(1))
            if e is not None and e.denominator == 1 and e % 2 == 0:
                return max(1, sign(t.arg(0)))
            return sign(t.arg(0)) if sign(t.arg(0)) else 0
    return 0


# ---- checking --------------------------------------------------------------
def check(fs, timeout=10000, rounds=3, ints=()):
    """z3 on the conjunction of fs with instances: 'unsat' | 'sat' | 'unknown', model"""
    STATS["queries"] += 1
    t0 = time.time()
    fs = [f for f in fs if f is not True]
    if any(f is False for f in fs):
        return "unsat", None
    i = Inst(fs, ints=ints)
    s = z3.Solver()
    nadd = 0
    r = None
    for k in range(rounds):
        more = i.step()
        if k == rounds - 1 or not more:
            break
        s.add(*i.out[nadd:])
        nadd = len(i.out)
        s.set("timeout", 250)
        if k and s.check() == z3.unsat:
            r = z3.unsat
            break
    if r is None:
        s = z3.Solver()
        s.set("timeout", int(timeout))
        s.add(*i.out)
        r = s.check()
    STATS["z3_s"] += time.time() - t0
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", s.model()
    return "unknown", s


def cvc5_check(fs, timeout=10000, rounds=3):
    import subprocess
    inst = instantiate([f for f in fs if f is not True], rounds=rounds)
    s = z3.Solver()
    s.add(*inst)
    txt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
    t0 = time.time()
    STATS["cvc5_queries"] += 1
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, "--lang=smt2", "-"], input=txt, capture_output=True, text=True,
                           timeout=timeout / 1000 + 5)
        r = p.stdout.strip().splitlines()
        r = r[-1] if r else "unknown"
    except Exception:
        r = "unknown"
    STATS["cvc5_s"] += time.time() - t0
    return r if r in ("sat", "unsat") else "unknown"


def theory_incomplete(fs):
    for t in subterms([f for f in fs if not isinstance(f, bool)]):
        if z3.is_app(t):
            n = t.decl().name()
            if n in INCOMPLETE or n in T.SumReg.by_decl or n in TH.anys or n in TH.schemas:
                return True
    return False
