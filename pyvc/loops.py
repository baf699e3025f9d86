"""Loops over symbolic ranges: map / fold summaries, and invariant-based loops."""
import ast
import z3
from .term import *  # noqa
from . import term as T
from . import solver as S
from .values import *  # noqa
from .ctx import Ctx, merge, same_dim, fresh_name
from .ops import *  # noqa
from .index import *  # noqa
from .interp import IterVal, elem


class NotMap(Exception):
    pass


class Loops:
    def __init__(self, eng):
        self.eng = eng
        self.log = []

    # ---- for -------------------------------------------------------------------
    def for_loop(self, ctx, st, it, env):
        ip = self.eng.ip
        h = self.eng.loop_handler(ctx, st, it, env)
        if h is not None and h():
            return
        items = ip.iterate_concrete(ctx, it)
        if items is not None:
            broke = False
            for x in items:
                ip.assign(ctx, st.target, x, env)
                try:
                    ip.block(ctx, st.body, env)
                except ContinueSig:
                    continue
                except BreakSig:
                    broke = True
                    break
            if not broke:
                ip.block(ctx, st.orelse, env)
            return
        n, item, dom = ip.iter_spec(ctx, it)
        if st.orelse:
            raise Unsupported("for-else over a symbolic range")
        q = ctx.quick(iv(n) <= 0)
        if q is True:
            return
        try:
            self.map_loop(ctx, n, item, dom, lambda v: ip.assign(ctx, st.target, v, env),
                          lambda: ip.block(ctx, st.body, env), env, st)
        except NotMap as e:
            raise Unsupported("loop at line %d is not a map or fold: %s" % (st.lineno, e))

    def generic(self, ctx, n, dom):
        k = z3.Int(fresh_name("k"))
        if dom is not None:
            return k, dom(k)
        return k, z3.And(k >= 0, k < iv(n))

    def run_body(self, ctx, k, inr, item, bind, body, dom):
        base = len(ctx.path)
        ctx.path.append(inr)
        ctx.loopidx.append(k)
        try:
            def thunk():
                bind(item(k) if dom is None else k)
                try:
                    body()
                except ContinueSig:
                    pass
            return ctx.sub_explore(thunk)
        finally:
            ctx.loopidx.pop()
            del ctx.path[base:]

    def map_loop(self, ctx, n, item, dom, bind, body, env, st=None):
        k, inr = self.generic(ctx, n, dom)
        q = ctx.quick(Not(inr))
        if q is True:
            return
        outs = self.run_body(ctx, k, inr, item, bind, body, dom)
        if not outs:
            return
        for conds, eff, oc in outs:
            if oc[0] == "raise":
                raise NotMap("an iteration may raise %s" % oc[1].cls)
            if oc[0] != "ok":
                raise NotMap("%s inside the body" % oc[0])
        written = {}
        for conds, eff, oc in outs:
            for key, (o, a, old, new) in eff.items():
                written[key] = (o, a, old)
        # placeholders for the state that iterations may carry
        mark = ctx.mark()
        ph = {}
        for key, (o, a, old) in written.items():
            if isinstance(o, Arr):
                ph[key] = self.ph_array(ctx, o, old)
                ctx.set(o, "fn", ph[key][0])
            elif isinstance(o, (Env, ObjVal, PyDict)):
                d = dict(getattr(o, a))
                keys = set()
                for conds, eff, oc in outs:
                    if key in eff:
                        new = eff[key][3]
                        for kk in new:
                            if kk not in old or new[kk] is not old[kk]:
                                keys.add(kk)
                phs = {}
                for kk in keys:
                    if kk in d:
                        phs[kk] = self.ph_scalar(ctx, d[kk])
                        d[kk] = phs[kk][0]
                ph[key] = (phs, keys)
                ctx.set(o, a, d)
            elif isinstance(o, PyList):
                mk = Opaque("loopmark")
                ph[key] = mk
                ctx.set(o, "items", [mk])
            elif isinstance(o, SymList):
                raise NotMap("symbolic list written")
            else:
                raise NotMap("writes %r" % (o,))
        try:
            outs = self.run_body(ctx, k, inr, item, bind, body, dom)
            for conds, eff, oc in outs:
                if oc[0] != "ok":
                    raise NotMap("outcome %s" % oc[0])
            sub = ctx.mark()
            if len(outs) > 1:
                ctx.apply_merged(outs)
            else:
                for kk, (o, a, old, new) in outs[0][1].items():
                    ctx.set(o, a, new)
            finals = {key: getattr(o, a) for key, (o, a, old) in written.items()}
            ctx.rollback(sub)
        finally:
            ctx.rollback(mark)
        phdecls = set()
        for key, p in ph.items():
            o = written[key][0]
            if isinstance(o, Arr):
                phdecls |= p[2]
            elif isinstance(o, (Env, ObjVal, PyDict)):
                for s in p[0].values():
                    phdecls |= s[2]
        has_ph = lambda v: any_decl(v, phdecls)
        todo = []
        for key, (o, a, old) in written.items():
            new = finals[key]
            if isinstance(o, Arr):
                todo.append((o, "fn", self.sum_array(ctx, o, old, new, ph[key], k, n, dom, inr, has_ph)))
            elif isinstance(o, (Env, ObjVal, PyDict)):
                d = dict(old)
                phs, keys = ph[key]
                for kk in keys:
                    nv = new.get(kk)
                    if kk in phs:
                        d[kk] = self.sum_scalar(ctx, old[kk], nv, phs[kk], k, n, dom, has_ph, inr)
                    else:
                        d[kk] = Poison("loop temporary %s" % (kk,))
                todo.append((o, a, d))
            elif isinstance(o, PyList):
                if not (len(new) >= 1 and new[0] is ph[key]):
                    raise NotMap("list not appended to")
                if len(new) != 2 or dom is not None:
                    raise NotMap("list grows by %d" % (len(new) - 1))
                if len(old) != 0:
                    raise NotMap("non-empty list appended to")
                v = new[1]
                if has_ph(v):
                    raise NotMap("appended value is loop-carried")
                todo.append((o, "__symlist__", SymList(n, generalise(v, k))))
        for o, a, v in todo:
            if a == "__symlist__":
                self.eng.become_symlist(ctx, o, v)
            else:
                ctx.set(o, a, v)
        self.log.append(("map", getattr(st, "lineno", None)))

    def ph_array(self, ctx, o, old):
        nd = o.ndim
        nm = fresh_name("PH")
        if o.dt == "f":
            f = [z3.Function(nm + s, *([I] * nd + [R if s == "" else B])) for s in ("", "_nan", "_pi", "_ni")]
            decls = {d.name() for d in f}

            def fn(idx):
                a = [iv(i) for i in idx]
                return XF(f[0](*a), f[1](*a), f[2](*a), f[3](*a)) if nd else XF(z3.Real(nm))
            return Fn(fn), f, decls
        rng = {"i": I, "b": B, "o": Obj}[o.dt]
        f = z3.Function(nm, *([I] * nd + [rng]))
        return Fn(lambda idx: f(*[iv(i) for i in idx])), [f], {f.name()}

    def ph_scalar(self, ctx, v):
        nm = fresh_name("PS")
        if isinstance(v, Arr):
            # the variable is rebound to arrays: only read-before-write matters
            return Poison("loop-carried rebinding"), v, set()
        if is_bool(v):
            c = z3.Bool(nm)
            return c, v, {nm}
        if is_int(v):
            c = z3.Int(nm)
            return c, v, {nm}
        if is_num(v):
            c = XF(z3.Real(nm), z3.Bool(nm + "_nan"), z3.Bool(nm + "_pi"), z3.Bool(nm + "_ni"))
            return c, v, {nm, nm + "_nan", nm + "_pi", nm + "_ni"}
        return Poison("loop-carried value of %s" % type(v).__name__), v, set()

    def ph_const(self, v, p):
        return v

    def sum_scalar(self, ctx, old, new, p, k, n, dom, has_ph, inr):
        c = p[0]
        if isinstance(new, Poison) or isinstance(c, Poison):
            return Poison("loop temporary")
        if not has_ph(new):
            return Poison("last value of a loop temporary")
        if is_int(new) and is_z3(c) and z3.is_int(c):
            g = z3.simplify(iv(new) - c)
            if has_ph(g) or dom is not None:
                raise NotMap("loop-carried scalar is not a sum")
            if not contains(g, k):
                return z3.simplify(iv(old) + g * iv(n))
            s = mk_sum(iv(n), lambda b: toreal(subst(g, [(k, b)])))
            r = z3.ToInt(s)
            return z3.simplify(iv(old) + r)
        if isinstance(new, XF) or is_num(new):
            nv = xf(new)
            cz = c if isinstance(c, XF) else xf(c)
            g = self.additive(ctx, nv, cz, has_ph)
            if g is None or dom is not None:
                raise NotMap("loop-carried scalar is not a sum")
            return xadd(xf(old), sum_xf(n, lambda b: xsubst(g, [(k, b)])))
        raise NotMap("loop-carried scalar")

    def additive(self, ctx, nv, c, has_ph):
        """nv == c + g with g free of placeholders -> g"""
        r = canon(nv.r - c.r)
        if has_ph(r):
            r = z3.simplify(z3.simplify(nv.r - c.r), som=True)
            if has_ph(r):
                return None
        pairs = [(f, z3.BoolVal(False)) for f in c.flags() if is_z3(f)]
        fl = []
        for f in nv.flags():
            f2 = subst(f, pairs) if is_z3(f) else f
            if is_z3(f2):
                f2 = z3.simplify(f2)
                f2 = True if z3.is_true(f2) else (False if z3.is_false(f2) else f2)
            fl.append(f2)
        g = XF(r, *fl)
        if any(has_ph(f) for f in fl):
            return None
        chk = xadd(c, g)
        for a, b in zip(nv.flags(), chk.flags()):
            e = Iff(a, b)
            if e is True:
                continue
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(z3.Not(zb(e)))
            if s.check() != z3.unsat:
                return None
        return g

    def sum_array(self, ctx, o, old, new, p, k, n, dom, inr, has_ph):
        nd = o.ndim
        js = [z3.Int(fresh_name("j")) for _ in range(nd)]
        t = new(tuple(js))
        phv = p[0](tuple(js))
        # (b) fold: adds a placeholder-free amount everywhere
        if isinstance(t, XF) and dom is None:
            g = self.additive(ctx, t, phv, has_ph)
            if g is not None and not isinstance(g, type(None)):
                if not (T._rat(g.r) == 0 and g.pure):
                    oldf = old

                    def fn(idx):
                        pr = [(a, iv(b)) for a, b in zip(js, idx)]
                        gg = xsubst(g, pr)
                        return xadd(oldf(idx), sum_xf(n, lambda b: xsubst(gg, [(k, b)])))
                    return Fn(fn)
        # (a) map: iteration k touches only the cells whose p-th index is k
        inside = lambda q: subst(inr, [(k, q)])
        for pos in range(nd):
            same = self.same_val(t, phv)
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(js[pos] != k, z3.Not(zb(same)))
            if s.check() != z3.unsat:
                continue
            t2 = xsubst(t, [(k, js[pos])]) if not isinstance(t, (bool, int, float)) else t
            t2 = simp_val(t2, [])
            # remaining placeholders must be of the cell itself (same pos index)
            ok, apps = ph_apps(t2, p[2])
            if not ok:
                continue
            if any(not a.arg(pos).eq(js[pos]) for a in apps if a.num_args()):
                continue
            if any_decl(t2, self.other_ph(has_ph, p[2])):
                continue
            # reads of other written arrays at the same index are resolved by the caller's has_ph check
            rest = replace_ph(t2, p[1], old)
            if has_ph(rest):
                continue

            def fn(idx, rest=rest, pos=pos):
                pr = [(a, iv(b)) for a, b in zip(js, idx)]
                v = xsubst(rest, pr)
                c = z3.simplify(inside(iv(idx[pos])))
                c = True if z3.is_true(c) else (False if z3.is_false(c) else c)
                ov = old(idx)
                if c is True:
                    return v
                return merge(c, v, ov)
            return Fn(fn)
        raise NotMap("array written in a pattern that is neither map nor fold")

    def other_ph(self, has_ph, own):
        return set()

    def same_val(self, a, b):
        if isinstance(a, XF):
            return And(a.r == b.r, *[Iff(x, y) for x, y in zip(a.flags(), b.flags())])
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if is_bool(a) or is_bool(b):
            return Iff(a, b)
        return iv(a) == iv(b) if is_int(a) else a == b

    # ---- comprehensions ----------------------------------------------------------
    def sym_comp(self, ctx, e, g, it, env, mk):
        ip = self.eng.ip
        n, item, dom = ip.iter_spec(ctx, it)
        if dom is not None:
            raise Unsupported("comprehension over a set")
        k, inr = self.generic(ctx, n, None)
        base = len(ctx.path)
        ctx.path.append(inr)
        ctx.loopidx.append(k)
        try:
            def thunk():
                env2 = Env(env, env.module)
                ip.assign(ctx, g.target, item(k), env2)
                for c in g.ifs:
                    t = ip.truth(ctx, ip.ev(ctx, c, env2))
                    if not ctx.branch(t):
                        return ("filtered",)
                return ("item", mk(env2))
            outs = ctx.sub_explore(thunk)
        finally:
            ctx.loopidx.pop()
            del ctx.path[base:]
        for conds, eff, oc in outs:
            if oc[0] == "raise":
                # a raise on every element is a raise if there is an element
                if len(outs) == 1:
                    if ctx.branch(iv(n) > 0):
                        raise oc[1]
                    return PyList([])
                raise Unsupported("an element of the comprehension may raise")
            if oc[0] != "ok":
                raise Unsupported("comprehension outcome")
            for key, (o, a, old, new) in eff.items():
                if not (isinstance(o, Env)):
                    self.eng.comp_effect(ctx, o, a, old, new, k, n)
        if any(oc[1][0] == "filtered" for _, _, oc in outs):
            if all(oc[1][0] == "filtered" for _, _, oc in outs):
                return PyList([])
            raise Unsupported("filtering comprehension over a symbolic list")
        v = outs[-1][2][1][1]
        for conds, eff, oc in reversed(outs[:-1]):
            v = merge(And(*conds), oc[1][1], v)
        return SymList(n, generalise(v, k), src=("comp", k, v))

    # ---- while --------------------------------------------------------------------
    def while_loop(self, ctx, st, env):
        ip = self.eng.ip
        h = self.eng.loop_handler(ctx, st, None, env)
        if h is not None and h():
            return
        # unroll while the condition is decided
        for _ in range(self.eng.unroll):
            c = ip.truth(ctx, ip.ev(ctx, st.test, env))
            if not isinstance(c, bool):
                c = ctx.quick(c)
            if c is False:
                ip.block(ctx, st.orelse, env)
                return
            if c is None:
                break
            try:
                ip.block(ctx, st.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        raise Unsupported("while loop at line %d has no invariant" % st.lineno)


# ---- helpers ---------------------------------------------------------------------
def any_decl(v, names):
    if not names:
        return False
    for t in terms_of(v):
        for s in subterms([t]):
            if z3.is_app(s) and s.decl().name() in names:
                return True
    return False


def terms_of(v):
    if isinstance(v, XF):
        return [t for t in (v.r, v.nan, v.pi, v.ni) if is_z3(t)]
    if is_z3(v):
        return [v]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in terms_of(x)]
    if isinstance(v, Arr):
        js = tuple(z3.Int("jj!%d" % i) for i in range(v.ndim))
        return terms_of(v.get(js))
    if isinstance(v, PyList):
        return [t for x in v.items for t in terms_of(x)]
    return []


def ph_apps(v, names):
    out = []
    for t in terms_of(v):
        for s in subterms([t]):
            if z3.is_app(s) and s.decl().name() in names:
                out.append(s)
    return True, out


def replace_ph(v, decls, old):
    """Replace PH(idx) by old(idx)."""
    names = [d.name() for d in decls]
    for _ in range(20):
        _, apps = ph_apps(v, set(names))
        if not apps:
            return v
        pairs = []
        for a in apps:
            idx = tuple(a.children())
            if any(any_decl(x, set(names)) for x in idx):
                continue
            ov = old(idx)
            if isinstance(ov, XF):
                comp = [ov.r, zb(ov.nan), zb(ov.pi), zb(ov.ni)][names.index(a.decl().name())]
            else:
                comp = zb(ov) if is_bool(ov) else iv(ov) if is_int(ov) else ov
            pairs.append((a, comp))
        v = simp_val(xsubst(v, pairs), [])
    return v


def simp_val(v, _):
    if isinstance(v, XF):
        fl = []
        for f in v.flags():
            if is_z3(f):
                f = z3.simplify(f)
                f = True if z3.is_true(f) else (False if z3.is_false(f) else f)
            fl.append(f)
        return XF(z3.simplify(v.r), *fl)
    if is_z3(v):
        s = z3.simplify(v)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return s
    return v


def generalise(v, k):
    """v is a value built at generic index k: return the function index -> value."""
    def at(v, q):
        if isinstance(v, (XF,)) or is_z3(v):
            return xsubst(v, [(k, iv(q))])
        if isinstance(v, tuple):
            return tuple(at(x, q) for x in v)
        if isinstance(v, Arr):
            g = snapshot(v)
            shp = tuple(d if isinstance(d, int) else z3.simplify(subst(d, [(k, iv(q))])) for d in v.shape)
            return Arr(shp, lambda idx: at(g(idx), q), v.dt, lib=v.lib)
        if isinstance(v, PyList):
            return PyList([at(x, q) for x in v.items])
        if isinstance(v, SymList):
            n, it = v.st
            return SymList(n if isinstance(n, int) else subst(n, [(k, iv(q))]), lambda j: at(it(j), q))
        if isinstance(v, GenVal):
            return v.at(k, q)
        return v
    return lambda q: at(v, q)


class GenVal:
    pass


def sum_xf(n, lam):
    """Sum over 0<=b<n of lam(b): XF."""
    if T.COARSE[0]:
        return coarse_xf()
    b = z3.Int("sb!%d" % SB[0])
    SB[0] += 1
    try:
        v = lam(b)
    finally:
        SB[0] -= 1
    r = mk_sum(n if isinstance(n, int) else iv(n), lambda q: subst(v.r, [(b, q)]))
    if v.pure:
        return XF(r)
    nan, pi, ni = [S.any_atom(n, lambda q, f=f: subst(f, [(b, q)])) for f in v.flags()]
    nn = Or(nan, And(pi, ni))
    return XF(r, nn, And(Not(nn), pi), And(Not(nn), ni))


SB = [0]


def coarse_xf():
    """An arbitrary number (only while discovering what a loop modifies)."""
    f = [z3.Bool(fresh_name("cf")) for _ in range(3)]
    return XF(z3.Real(fresh_name("csum")), f[0], And(Not(f[0]), f[1]), And(Not(f[0]), Not(f[1]), f[2]))
