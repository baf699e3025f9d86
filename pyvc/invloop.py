"""Loops by invariant: establish, havoc what the body modifies, assume, run the body once, re-establish, cut; or leave.

A LoopSpec says which loops it covers, how the modified state looks under the invariant (havoc + assume)
and which obligations re-establish it (check)."""
import z3
from .term import *  # noqa
from . import term as T
from . import solver as S
from .values import *  # noqa
from .ctx import fresh_name
from .ops import *  # noqa
from .index import *  # noqa


class LoopSpec:
    name = "loop"

    def covers(self, L):
        return True

    def enter(self, L):
        pass

    def value(self, L, owner, key, old):
        """Value of a modified variable / attribute under the invariant; NotImplemented: an arbitrary value of its type."""
        return NotImplemented

    def contents(self, L, arr):
        """Contents (index -> value) of an array modified in place; NotImplemented: arbitrary."""
        return NotImplemented

    def assume(self, L):
        pass

    def check(self, L, where):
        pass

    def iterate(self, L):
        """Called at the start of the arbitrary iteration."""

    def leave(self, L):
        """Called when the loop is left because it is over."""


class Loop:
    def __init__(self, U, spec, ctx, st, it, env):
        self.U, self.E, self.spec, self.ctx, self.st, self.it, self.env = U, U.E, spec, ctx, st, it, env
        self.n = self.item = None
        self.k = z3.IntVal(0)
        self.mods = {}
        self.data = {}

    def prove(self, name, goal, **kw):
        return self.U.prove(self.ctx, "%s: %s" % (self.spec.name, name), goal, **kw)

    def arrays(self):
        """Arrays modified in place that existed before the loop."""
        return [o for (o, a, ks) in self.mods.values() if isinstance(o, Arr)]

    def names(self):
        """Names of local variables the body rebinds."""
        out = []
        for (o, a, ks) in self.mods.values():
            if o is self.env:
                out += sorted(ks)
        return out


def reachable(env):
    seen, stack = {}, []
    e = env
    while e is not None:
        stack.append(e)
        e = e.parent
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        if isinstance(o, Arr):
            seen[id(o)] = o
            if o.base is not None:
                stack.append(o.base)
        elif isinstance(o, Env):
            seen[id(o)] = o
            if o.parent is None and o is not env:
                continue          # module level
            stack += list(o.vars.values())
        elif isinstance(o, ObjVal):
            seen[id(o)] = o
            stack += list(o.attrs.values())
        elif isinstance(o, PyDict):
            seen[id(o)] = o
            stack += list(o.d.values())
        elif isinstance(o, PyList):
            seen[id(o)] = o
            stack += list(o.items)
            if getattr(o, "sym", None) is not None:
                stack.append(o.sym)
        elif isinstance(getattr(o, "o", None), ObjVal):
            stack.append(o.o)
        elif isinstance(o, (PySet, SymList)):
            seen[id(o)] = o
        elif isinstance(o, tuple):
            stack += list(o)
        elif isinstance(o, Bound):
            stack.append(o.obj)
        elif isinstance(o, FuncVal) and isinstance(o.env, Env):
            stack.append(o.env)
    return seen


def arbitrary(ctx, v, name="hv"):
    if isinstance(v, Arr):
        return Arr(v.shape, ctx.sym_arr(name, v.shape, v.dt, flags=v.dt == "f").fn, v.dt, lib=v.lib)
    if is_bool(v):
        return ctx.fbool(name)
    if is_int(v):
        return ctx.fint(name)
    if isinstance(v, (XF, float)) or (is_z3(v) and z3.is_real(v)):
        return ctx.sym_xf(name, flags=True)
    return Poison("modified in a loop: %s" % type(v).__name__)


def apply_havoc(L, generic=False):
    ctx, spec = L.ctx, L.spec
    for (o, a, ks) in list(L.mods.values()):
        if isinstance(o, Arr):
            f = NotImplemented if generic else spec.contents(L, o)
            if f is NotImplemented:
                f = ctx.sym_arr("hv", o.shape, o.dt, flags=o.dt == "f").fn
            ctx.set(o, "fn", f if isinstance(f, Fn) else Fn(f))
        elif isinstance(o, (Env, ObjVal, PyDict)):
            d = dict(getattr(o, a))
            for k in ks:
                old = d.get(k, None)
                v = NotImplemented if generic else spec.value(L, o, k, old)
                if v is NotImplemented:
                    if k in d:
                        v = arbitrary(ctx, old, str(k))
                    else:
                        continue
                d[k] = v
            ctx.set(o, a, d)
        elif isinstance(o, PyList):
            f = NotImplemented if generic else spec.value(L, o, a, o)
            if f is NotImplemented:
                raise Unsupported("list modified in a loop without an invariant for it")
            ctx.set(o, "sym", f)
        elif isinstance(o, SymList):
            f = NotImplemented if generic else spec.value(L, o, a, o)
            if f is NotImplemented:
                raise Unsupported("list modified in a loop without an invariant for it")
            ctx.set(o, "st", f.st)
        else:
            raise Unsupported("loop modifies %r" % (o,))


def access(env, o):
    """A local name through which o is reached, or None."""
    for k, v in env.vars.items():
        if v is o or (isinstance(v, Arr) and isinstance(o, Arr) and v.root() is o):
            return k
    return None


def save_mods(L):
    out = []
    for (o, a, ks) in L.mods.values():
        if o is L.env:
            out.append(("env", a, ks))
        else:
            nm = access(L.env, o)
            if nm is None:
                return
            out.append((nm, a, ks))
    L.E.__dict__.setdefault("loopmods", {})[id(L.st)] = (L.st, out)


def load_mods(L):
    c = L.E.__dict__.setdefault("loopmods", {}).get(id(L.st))
    if c is None:
        return False
    for nm, a, ks in c[1]:
        if nm == "env":
            o = L.env
        else:
            if nm not in L.env.vars:
                return False
            o = L.env.vars[nm]
            if isinstance(o, Arr):
                o = o.root()
        L.mods[(id(o), a)] = (o, a, ks)
    return True


def verify_mods(L, mark, reach):
    """Everything the body changed was havocked."""
    lists = {id(o.sym) for (o, a, ks) in L.mods.values() if isinstance(o, PyList) and o.sym is not None}
    for key, (o, a, old, new) in L.ctx.effects(mark).items():
        if o is L.ctx.events or id(o) not in reach or id(o) in lists:
            continue
        if key not in L.mods:
            raise Unsupported("the loop body modifies state that was not accounted for")
        if isinstance(o, (Env, ObjVal, PyDict)):
            ks = {k for k in new if k not in old or new[k] is not old[k]} | {k for k in old if k not in new}
            if not ks <= L.mods[key][2]:
                raise Unsupported("the loop body modifies %s, which was not accounted for" % sorted(ks - L.mods[key][2]))


def discover(L):
    if load_mods(L):
        return
    L.mods = {}
    discover1(L)
    save_mods(L)


def discover1(L):
    ctx, ip = L.ctx, L.E.ip
    reach = reachable(L.env)
    L.U.muted += 1
    L.U.discovering += 1
    L.E.coarse = getattr(L.E, "coarse", 0) + 1
    T.COARSE[0] += 1
    bc, L.E.bounds_checks = L.E.bounds_checks, False
    try:
        for _ in range(5):
            def thunk():
                apply_havoc(L, generic=not L.data.get("typed"))
                if L.data.get("typed"):
                    L.spec.assume(L)
                if L.n is not None:
                    ctx.assume(z3.And(L.k >= 0, L.k < iv(L.n)))
                    ip.assign(ctx, L.st.target, L.item(L.k), L.env)
                else:
                    t = ip.truth(ctx, ip.ev(ctx, L.st.test, L.env))
                    if not ctx.branch(t):
                        raise Infeasible()
                try:
                    ip.block(ctx, L.st.body, L.env)
                except ContinueSig:
                    pass
            k0, L.k = L.k, ctx.fint("kd")
            outs = ctx.sub_explore(thunk)
            L.k = k0
            new = False
            for conds, eff, oc in outs:
                for key, (o, a, old, nw) in eff.items():
                    if o is ctx.events or id(o) not in reach:
                        continue
                    ks = set()
                    if isinstance(o, (Env, ObjVal, PyDict)):
                        base = getattr(o, a)
                        ks = {k for k in nw if k not in base or nw[k] is not base[k]} | {k for k in base if k not in nw}
                    if key not in L.mods:
                        L.mods[key] = (o, a, ks)
                        new = True
                    elif not ks <= L.mods[key][2]:
                        L.mods[key] = (o, a, L.mods[key][2] | ks)
                        new = True
            if not new:
                return
    finally:
        L.U.muted -= 1
        L.U.discovering -= 1
        L.E.coarse -= 1
        T.COARSE[0] -= 1
        L.E.bounds_checks = bc
    raise Unsupported("modified state of the loop does not settle")


def run(U, spec, ctx, st, it, env, tries=False):
    """Execute a loop by its invariant.  Returns True when the loop has been left."""
    E, ip = U.E, U.E.ip
    L = Loop(U, spec, ctx, st, it, env)
    if it is not None:
        L.n, L.item, dom = ip.iter_spec(ctx, it)
        if dom is not None:
            raise Unsupported("invariant loop over a set")
    if not spec.covers(L):
        return False
    spec.before(L) if hasattr(spec, "before") else None
    discover(L)
    if U.discovering:
        # inside the discovery run of an enclosing loop only the set of modified locations matters
        apply_havoc(L, generic=True)
        return True
    spec.enter(L)
    L.k = z3.IntVal(0)
    spec.check(L, "on entry")
    L.k = ctx.fint("k")
    ctx.assume(L.k >= 0)
    if L.n is not None:
        ctx.assume(L.k <= iv(L.n))
    apply_havoc(L)
    spec.assume(L)
    if L.n is not None:
        go = ctx.branch(L.k < iv(L.n))
    else:
        go = ctx.branch(ip.truth(ctx, ip.ev(ctx, st.test, env)))
    if go:
        spec.iterate(L)
        reach = reachable(env)
        mark = ctx.mark()
        if L.n is not None:
            ip.assign(ctx, st.target, L.item(L.k), env)
        try:
            ip.block(ctx, st.body, env)
        except ContinueSig:
            pass
        except BreakSig:
            verify_mods(L, mark, reach)
            if hasattr(spec, "broke"):
                spec.broke(L)
            return True
        verify_mods(L, mark, reach)
        L.k = z3.simplify(L.k + 1)
        spec.check(L, "preserved")
        raise Infeasible()
    if L.n is not None:
        ctx.assume(L.k == iv(L.n))
    spec.leave(L)
    ip.block(ctx, st.orelse, env)
    return True


def handler(U, specs):
    """A loop handler for the engine that applies the first spec covering the loop."""
    def h(ctx, st, it, env):
        import ast
        if isinstance(st, ast.For) and it is not None:
            items = None
            try:
                items = U.E.ip.iterate_concrete(ctx, it)
            except Unsupported:
                return None
            if items is not None:
                return None
        for s in specs:
            L = Loop(U, s, ctx, st, it, env)
            if it is not None:
                L.n, L.item, dom = U.E.ip.iter_spec(ctx, it)
                if dom is not None:
                    continue
            if s.covers(L):
                return lambda: run(U, s, ctx, st, it, env)
        return None
    return h
