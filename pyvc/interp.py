"""A symbolic interpreter for the Python that pocomc is written in."""
import ast
import os
import time
import z3
from .term import *  # noqa
from . import term as T
from . import solver as S
from .values import *  # noqa
from .ctx import Ctx, merge, same_dim, fresh_name
from .ops import *  # noqa
from .index import *  # noqa

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


class Interp:
    def __init__(self, eng):
        self.eng = eng

    # ---- statements --------------------------------------------------------
    def block(self, ctx, body, env):
        for st in body:
            self.stmt(ctx, st, env)

    def stmt(self, ctx, st, env):
        ctx.cur = st
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        return m(ctx, st, env)

    def s_Expr(self, ctx, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(ctx, st.value, env)

    def s_Pass(self, ctx, st, env):
        pass

    def s_Return(self, ctx, st, env):
        raise ReturnSig(self.ev(ctx, st.value, env) if st.value is not None else None)

    def s_Break(self, ctx, st, env):
        raise BreakSig()

    def s_Continue(self, ctx, st, env):
        raise ContinueSig()

    def s_Global(self, ctx, st, env):
        env.globals_decl |= set(st.names)

    def s_Nonlocal(self, ctx, st, env):
        env.nonlocals |= set(st.names)

    def s_Import(self, ctx, st, env):
        for a in st.names:
            m = self.eng.import_module(a.name, env.module)
            name = a.asname or a.name.split(".")[0]
            if not a.asname and "." in a.name:
                m = self.eng.import_module(a.name.split(".")[0], env.module)
            self.setvar(ctx, env, name, m)

    def s_ImportFrom(self, ctx, st, env):
        m = self.eng.import_module(st.module or "", env.module, st.level)
        for a in st.names:
            self.setvar(ctx, env, a.asname or a.name, self.eng.mod_attr(ctx, m, a.name))

    def s_FunctionDef(self, ctx, st, env):
        self.setvar(ctx, env, st.name, self.mkfunc(ctx, st, env))

    def mkfunc(self, ctx, st, env, cls=None):
        decs = []
        for d in st.decorator_list:
            n = ast.unparse(d)
            decs.append(n)
        qual = (cls.name + "." if cls else "") + st.name
        f = FuncVal(st, env, env.module, "%s:%s" % (env.module, qual), cls, decs)
        f.defaults = [self.ev(ctx, d, env) for d in st.args.defaults]
        f.kwdefaults = {a.arg: self.ev(ctx, d, env) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        for n in decs:
            if n in ("property", "staticmethod", "classmethod", "torch.no_grad()", "torch.no_grad", "torch.inference_mode()"):
                continue
            raise Unsupported("decorator %s" % n)
        return f

    def s_ClassDef(self, ctx, st, env):
        bases = [self.ev(ctx, b, env) for b in st.bases]
        ns = {}
        c = ClassVal(st.name, env.module, st, bases, ns)
        cenv = Env(env, env.module)
        for b in st.body:
            if isinstance(b, ast.FunctionDef):
                ns[b.name] = self.mkfunc(ctx, b, env, c)
            elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                pass
            elif isinstance(b, (ast.Assign, ast.AnnAssign, ast.Pass)):
                self.stmt(ctx, b, cenv)
            else:
                raise Unsupported("class body %s" % type(b).__name__)
        ns.update(cenv.vars)
        self.setvar(ctx, env, st.name, c)

    def s_Assign(self, ctx, st, env):
        v = self.ev(ctx, st.value, env)
        for t in st.targets:
            self.assign(ctx, t, v, env)

    def s_AnnAssign(self, ctx, st, env):
        if st.value is not None:
            self.assign(ctx, st.target, self.ev(ctx, st.value, env), env)

    def s_AugAssign(self, ctx, st, env):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            old = self.ev(ctx, ast.Name(id=t.id, ctx=ast.Load()), env)
            self.assign(ctx, t, self.inplace(ctx, op, old, self.ev(ctx, st.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(ctx, t.value, env)
            old = self.getattr(ctx, o, t.attr)
            self.setattr(ctx, o, t.attr, self.inplace(ctx, op, old, self.ev(ctx, st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(ctx, t.value, env)
            k = self.key(ctx, t.slice, env)
            old = self.subscript(ctx, o, k)
            new = self.inplace(ctx, op, old, self.ev(ctx, st.value, env))
            if not (isinstance(old, Arr) and new is old and isinstance(o, Arr) and old.base is not None):
                self.setsub(ctx, o, k, new)
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, ctx, op, old, v):
        if isinstance(old, Arr) and old.ndim > 0:
            r = self.binop(ctx, op, frozen(old), v)
            if isinstance(r, Arr) and r.ndim > old.ndim:
                raise PyExc(self.eng.exc("ValueError"), ("non-broadcastable output",))
            if old.dt == "i" and dt_of(r) == "f":
                raise PyExc(self.eng.exc("TypeError"), ("cannot cast float to int in place",))
            assign_all(ctx, old, r)
            return old
        if isinstance(old, PyList) and op == "+":
            items = self.iterate_concrete(ctx, v)
            ctx.set(old, "items", old.items + items)
            return old
        return self.binop(ctx, op, old, v)

    def s_Delete(self, ctx, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(ctx, t.value, env)
                k = self.key(ctx, t.slice, env)
                if isinstance(o, PyDict):
                    if k not in o.d:
                        raise PyExc(self.eng.exc("KeyError"), (k,))
                    d = dict(o.d)
                    del d[k]
                    ctx.set(o, "d", d)
                    continue
            elif isinstance(t, ast.Name):
                e = env.owner(t.id)
                d = dict(e.vars)
                del d[t.id]
                ctx.set(e, "vars", d)
                continue
            elif isinstance(t, ast.Attribute):
                o = self.ev(ctx, t.value, env)
                if isinstance(o, ObjVal):
                    d = dict(o.attrs)
                    d.pop(t.attr, None)
                    ctx.set(o, "attrs", d)
                    continue
            raise Unsupported("del target")

    def s_If(self, ctx, st, env):
        c = self.truth(ctx, self.ev(ctx, st.test, env))
        if isinstance(c, bool):
            self.block(ctx, st.body if c else st.orelse, env)
            return
        if ctx.branch(c):
            self.block(ctx, st.body, env)
        else:
            self.block(ctx, st.orelse, env)

    def s_Raise(self, ctx, st, env):
        if st.exc is None:
            raise ctx.eng.current_exc[-1]
        v = self.ev(ctx, st.exc, env)
        if isinstance(v, ExcCls):
            raise PyExc(v)
        if isinstance(v, ObjVal) and isinstance(v.cls, ExcCls):
            raise PyExc(v.cls, v.attrs.get("args", ()), v)
        raise Unsupported("raise %r" % (v,))

    def s_Assert(self, ctx, st, env):
        if not ctx.branch(self.truth(ctx, self.ev(ctx, st.test, env))):
            raise PyExc(self.eng.exc("AssertionError"))

    def s_Try(self, ctx, st, env):
        try:
            try:
                self.block(ctx, st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.ev(ctx, h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        match = any(isinstance(x, ExcCls) and e.cls.issub(x) for x in ts)
                    if match:
                        if h.name:
                            self.setvar(ctx, env, h.name, ObjVal(e.cls, {"args": tuple(e.eargs)}))
                        self.eng.current_exc.append(e)
                        try:
                            self.block(ctx, h.body, env)
                        finally:
                            self.eng.current_exc.pop()
                        break
                else:
                    raise
            else:
                self.block(ctx, st.orelse, env)
        finally:
            if st.finalbody:
                self.block(ctx, st.finalbody, env)

    def s_With(self, ctx, st, env):
        exits = []
        for it in st.items:
            m = self.ev(ctx, it.context_expr, env)
            v, ex = self.enter(ctx, m)
            if it.optional_vars is not None:
                self.assign(ctx, it.optional_vars, v, env)
            exits.append(ex)
        try:
            self.block(ctx, st.body, env)
        except PyExc:
            for ex in reversed(exits):
                ex()
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            for ex in reversed(exits):
                ex()
            raise
        else:
            for ex in reversed(exits):
                ex()

    def enter(self, ctx, m):
        if isinstance(m, ObjVal) and isinstance(m.cls, ClassVal):
            v = self.call(ctx, self.getattr(ctx, m, "__enter__"), [], {})
            return v, lambda: self.call(ctx, self.getattr(ctx, m, "__exit__"), [None, None, None], {})
        if isinstance(m, ObjVal) and "__exit__" in m.attrs:
            v = self.call(ctx, m.attrs["__enter__"], [], {}) if "__enter__" in m.attrs else m
            return v, lambda: self.call(ctx, m.attrs["__exit__"], [None, None, None], {})
        if isinstance(m, Opaque) and m.name == "nullcontext":
            return m, lambda: None
        if type(m).__name__ == "FileVal":
            return m, lambda: m.fs.close(ctx, m)
        raise Unsupported("with %r" % (m,))

    # ---- loops ---------------------------------------------------------------
    def s_While(self, ctx, st, env):
        self.eng.loops.while_loop(ctx, st, env)

    def s_For(self, ctx, st, env):
        it = self.ev(ctx, st.iter, env)
        self.eng.loops.for_loop(ctx, st, it, env)

    def iterate_concrete(self, ctx, v):
        """Items of an iterable of known length, else None."""
        if isinstance(v, PyList):
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v) if len(v) <= 64 else None
        if isinstance(v, PyDict):
            return list(v.d.keys())
        if isinstance(v, PySet):
            return list(v.d.keys())
        if isinstance(v, Arr):
            if v.ndim and isinstance(v.shape[0], int) and v.shape[0] <= 64:
                return [getitem(ctx, v, j) for j in range(v.shape[0])]
            return None
        if isinstance(v, IterVal):
            if isinstance(v.n, int) and v.n <= 64:
                return [v.item(j) for j in range(v.n)]
            return None
        if isinstance(v, SymList):
            if isinstance(v.n, int) and v.n <= 64:
                return [v.item(j) for j in range(v.n)]
            return None
        raise Unsupported("iteration over %r" % (v,))

    def iter_spec(self, ctx, v):
        """(n, item(k), dom) of an iterable of symbolic length."""
        if isinstance(v, IterVal):
            return v.n, v.item, v.dom
        if isinstance(v, SymList):
            return v.n, v.item, v.dom
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyExc(self.eng.exc("TypeError"), ("iteration over a 0-d array",))
            return v.shape[0], lambda k: elem(ctx, v, k), None
        items = self.iterate_concrete(ctx, v)
        if items is not None:
            return len(items), lambda k: items[k], None
        raise Unsupported("iteration over %r" % (v,))

    # ---- expressions ---------------------------------------------------------
    def ev(self, ctx, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(ctx, e, env)

    def e_Constant(self, ctx, e, env):
        return e.value

    def e_Name(self, ctx, e, env):
        try:
            if e.id in env.globals_decl:
                v = self.eng.module_env(env.module).vars[e.id]
            else:
                v = env.lookup(e.id)
        except KeyError:
            b = self.eng.builtins.get(e.id)
            if b is None and e.id not in self.eng.builtins:
                loc = env.parent is not None
                raise PyExc(self.eng.exc("UnboundLocalError" if loc else "NameError"), (e.id,))
            return b
        if isinstance(v, Poison):
            raise Unsupported("value of %s is not tracked: %s" % (e.id, v.why))
        if isinstance(v, PyList) and v.sym is not None:
            return v.sym
        return v

    def e_Tuple(self, ctx, e, env):
        return tuple(self.elts(ctx, e.elts, env))

    def e_List(self, ctx, e, env):
        return PyList(self.elts(ctx, e.elts, env))

    def e_Set(self, ctx, e, env):
        return PySet({x: None for x in self.elts(ctx, e.elts, env)})

    def elts(self, ctx, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                items = self.iterate_concrete(ctx, self.ev(ctx, x.value, env))
                if items is None:
                    raise Unsupported("starred symbolic iterable")
                out += items
            else:
                out.append(self.ev(ctx, x, env))
        return out

    def e_Dict(self, ctx, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(ctx, v, env)
                if isinstance(o, AttrsDict):
                    o = PyDict(o.obj.attrs)
                if not isinstance(o, PyDict):
                    raise Unsupported("** of %r" % (o,))
                d.update(o.d)
            else:
                d[self.hashable(self.ev(ctx, k, env))] = self.ev(ctx, v, env)
        return PyDict(d)

    def hashable(self, k):
        if isinstance(k, (str, int, float, bool, type(None), tuple)):
            return k
        raise Unsupported("symbolic dictionary key")

    def e_JoinedStr(self, ctx, e, env):
        parts = []
        sym = False
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                w = self.ev(ctx, v.value, env)
                if isinstance(w, (str, int, float)) and not sym:
                    parts.append(str(w))
                else:
                    sym = True
                    parts.append(w)
        if not sym:
            return "".join(parts)
        return Opaque("fstr", parts=tuple(parts))

    def e_FormattedValue(self, ctx, e, env):
        return self.ev(ctx, e.value, env)

    def e_Lambda(self, ctx, e, env):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body)], decorator_list=[])
        return self.mkfunc(ctx, node, env)

    def e_IfExp(self, ctx, e, env):
        c = self.truth(ctx, self.ev(ctx, e.test, env))
        if ctx.branch(c):
            return self.ev(ctx, e.body, env)
        return self.ev(ctx, e.orelse, env)

    def e_NamedExpr(self, ctx, e, env):
        v = self.ev(ctx, e.value, env)
        self.assign(ctx, e.target, v, env)
        return v

    def e_BoolOp(self, ctx, e, env):
        isand = isinstance(e.op, ast.And)
        # scalar booleans without side effects are combined, otherwise short-circuit
        vals = []
        for i, x in enumerate(e.values):
            v = self.ev(ctx, x, env)
            if i == len(e.values) - 1:
                vals.append(v)
                break
            t = self.truth(ctx, v)
            if isinstance(t, bool):
                if t != isand:
                    if vals:
                        vals.append(t)
                        break
                    return v
                if not vals and False:
                    pass
                continue
            # symbolic: is the rest free of effects?
            if all(simple_expr(y) for y in e.values[i + 1:]):
                vals.append(t)
                continue
            if ctx.branch(t):
                if not isand:
                    return True
            else:
                if isand:
                    return False
        if len(vals) == 1:
            return vals[0]
        ts = [self.truth(ctx, v) for v in vals]
        return And(*ts) if isand else Or(*ts)

    def e_UnaryOp(self, ctx, e, env):
        v = self.ev(ctx, e.operand, env)
        if isinstance(e.op, ast.Not):
            return Not(self.truth(ctx, v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.USub):
            return self.neg(ctx, v)
        if isinstance(e.op, ast.Invert):
            def inv(x):
                if is_bool(x):
                    if isinstance(x, bool) and not isinstance(v, (Arr, NpBool)):
                        return ~x
                    return Not(x)
                if isinstance(x, int):
                    return ~x
                raise Unsupported("~ of a number")
            if isinstance(v, Arr):
                return elementwise(ctx, inv, [v], "b")
            return Not(v) if is_bool(v) and not isinstance(v, bool) else (Not(v) if isinstance(v, bool) else inv(v))
        raise Unsupported("unary operator")

    def neg(self, ctx, v):
        if concrete(v):
            return -v
        if isinstance(v, Arr):
            return elementwise(ctx, lambda x: self.neg(ctx, x), [v], "i" if v.dt == "i" else "f")
        if is_int(v):
            return z3.simplify(-v)
        return xneg(xf(v))

    def e_BinOp(self, ctx, e, env):
        a = self.ev(ctx, e.left, env)
        b = self.ev(ctx, e.right, env)
        return self.binop(ctx, BINOPS[type(e.op)], a, b)

    def binop(self, ctx, op, a, b):
        if isinstance(a, (Arr,)) or isinstance(b, (Arr,)):
            if op == "@":
                return self.eng.np_dot(ctx, a, b)
            if isinstance(a, (PyList, tuple)):
                a = self.eng.np_array(ctx, a)
            if isinstance(b, (PyList, tuple)):
                b = self.eng.np_array(ctx, b)
            dt = None
            if op in ("&", "|", "^"):
                dt = "b"
            elif op == "/":
                dt = "f"
                if not isinstance(b, Arr) and is_num(b) and not concrete(b):
                    y = xf(b)
                    if S.sign(y.r) != 2 or not y.pure:
                        if ctx.provable(zb(And(y.fin, y.r > 0)), timeout=1500):
                            w = XF(rv(1) / y.r)
                            return elementwise(ctx, lambda x: xmul(xf(x), w), [a], "f")
            return elementwise(ctx, lambda x, y: arith(ctx, op, x, y), [a, b], dt)
        if isinstance(a, str) and isinstance(b, str) and op == "+":
            return a + b
        if isinstance(a, str) and op == "%":
            return Opaque("fstr", parts=(a, b))
        if isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)) and op == "+":
            return Opaque("fstr", parts=(a, b))
        if isinstance(a, PyList) and isinstance(b, PyList) and op == "+":
            return PyList(a.items + b.items)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, PyList) and op == "*":
            if isinstance(b, int):
                return PyList(a.items * b)
            if len(a.items) == 1:
                v = a.items[0]
                return SymList(iv(b), lambda k: v)
        if isinstance(a, PathVal) and op == "/":
            return PathVal(("/", a.key, path_key(b)))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if (isinstance(a, Opaque) and a.name == "number") or (isinstance(b, Opaque) and b.name == "number"):
                return Opaque("number")
        if is_num(a) and is_num(b):
            return ctx.resolve(arith(ctx, op, a, b))
        if a is None or b is None:
            raise PyExc(self.eng.exc("TypeError"), ("unsupported operand None",))
        if isinstance(a, (PyDict,)) and isinstance(b, PyDict) and op == "|":
            return PyDict({**a.d, **b.d})
        raise Unsupported("operator %s on %r and %r" % (op, a, b))

    def e_Compare(self, ctx, e, env):
        left = self.ev(ctx, e.left, env)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(ctx, r, env)
            out.append(self.compare(ctx, op, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        if any(isinstance(o, Arr) for o in out):
            raise Unsupported("chained comparison of arrays")
        return And(*out)

    def compare(self, ctx, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(ctx, a, b)
            return r if isinstance(op, ast.In) else Not(r)
        o = CMPOPS[type(op)]
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None:
                return o == "!="
            return elementwise(ctx, lambda x, y: cmp_scalar(o, x, y), [a, b], "b")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                r = False
            else:
                r = And(*[cmp_scalar("==", x, y) for x, y in zip(a, b)])
            if o == "==":
                return r
            if o == "!=":
                return Not(r)
        if isinstance(a, tuple) != isinstance(b, tuple) and o in ("==", "!=") and not is_z3(a) and not is_z3(b):
            return o == "!="
        if isinstance(a, PyList) and isinstance(b, PyList) and o in ("==", "!="):
            r = len(a.items) == len(b.items) and And(*[cmp_scalar("==", x, y) for x, y in zip(a.items, b.items)])
            return r if o == "==" else Not(r)
        if isinstance(a, (Opaque, ClassVal, Model, ModVal)) or isinstance(b, (Opaque, ClassVal, Model, ModVal)):
            f = self.eng.opaque_eq(ctx, a, b)
            return f if o == "==" else (Not(f) if o == "!=" else self.unsup_cmp(a, b))
        return cmp_scalar(o, a, b)

    def unsup_cmp(self, a, b):
        raise Unsupported("ordering of %r and %r" % (a, b))

    def is_(self, a, b):
        if a is None or b is None:
            if isinstance(a, MaybeNone) or isinstance(b, MaybeNone):
                raise Unsupported("maybe None")
            return a is None and b is None
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if is_z3(a) and z3.is_bool(a) and isinstance(b, bool):
            return a if b else Not(a)
        if isinstance(a, (Obj_, ClassVal, FuncVal, Model, ModVal, Opaque, ExcCls)) or isinstance(b, (Obj_, ClassVal, FuncVal, Model, ModVal, Opaque, ExcCls)):
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if type(a) is type(b) and concrete(a):
            return a == b
        return False

    def contains(self, ctx, a, b):
        if isinstance(b, (PyList, tuple, PySet)):
            items = b.items if isinstance(b, PyList) else (list(b) if isinstance(b, tuple) else list(b.d))
            if isinstance(a, str) or a is None:
                return any(isinstance(x, str) and x == a or (a is None and x is None) for x in items)
            return Or(*[self.compare(ctx, ast.Eq(), a, x) for x in items]) if items else False
        if isinstance(b, (PyDict, KeysView)):
            d = b.d if isinstance(b, PyDict) else b.dct.d
            return self.hashable(a) in d
        if isinstance(b, AttrsDict):
            return self.hashable(a) in b.obj.attrs
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        if isinstance(b, SymList) and b.dom is not None:
            return b.dom(iv(a))
        raise Unsupported("membership in %r" % (b,))

    def truth(self, ctx, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float)):
            return bool(v)
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, PyList):
            return len(v.items) > 0
        if isinstance(v, SymList):
            return iv(v.n) > 0
        if isinstance(v, (PyDict, PySet)):
            return len(v.d) > 0
        if isinstance(v, XF):
            return Not(xeq(v, XF(ZERO)))
        if is_z3(v):
            if z3.is_bool(v):
                return v
            if z3.is_int(v):
                return v != 0
        if isinstance(v, Arr):
            if v.ndim == 0:
                return self.truth(ctx, v.get(()))
            if all(isinstance(d, int) and d == 1 for d in v.shape):
                return self.truth(ctx, v.get((0,) * v.ndim))
            raise PyExc(self.eng.exc("ValueError"), ("truth value of an array is ambiguous",))
        if isinstance(v, GhostSet):
            return v.nonempty()
        if isinstance(v, (ObjVal, FuncVal, Bound, Model, ClassVal, ModVal)):
            return True
        if isinstance(v, Opaque):
            if "truth" in v.kw:
                return v.kw["truth"]
        if hasattr(v, "pytruth"):
            return v.pytruth(ctx)
        raise Unsupported("truth of %r" % (v,))

    def e_Attribute(self, ctx, e, env):
        return self.getattr(ctx, self.ev(ctx, e.value, env), e.attr)

    def getattr(self, ctx, o, name):
        r = self.getattr0(ctx, o, name)
        if isinstance(r, Poison):
            raise Unsupported("value of .%s is not tracked: %s" % (name, r.why))
        if isinstance(r, PyList) and r.sym is not None:
            return r.sym
        return r

    def getattr0(self, ctx, o, name):
        if isinstance(o, ObjVal):
            if name == "__dict__":
                return AttrsDict(o)
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(o.cls, ClassVal):
                f = class_lookup(o.cls, name)
                if f is not None:
                    if isinstance(f, FuncVal):
                        if "property" in f.decorators:
                            return self.call(ctx, f, [o], {})
                        if "staticmethod" in f.decorators:
                            return f
                        return Bound(o, f)
                    return f
            h = self.eng.obj_attr(ctx, o, name)
            if h is not None:
                return h
            if isinstance(o.cls, ExcCls) and name == "args":
                return o.attrs.get("args", ())
            if name == "__class__":
                return o.cls
            raise PyExc(self.eng.exc("AttributeError"), (name,))
        if isinstance(o, ModVal):
            return o.get(name)
        if isinstance(o, RepoMod):
            return self.eng.mod_attr(ctx, o, name)
        if isinstance(o, ClassVal):
            f = class_lookup(o, name)
            if f is not None:
                return f
            if name == "__name__":
                return o.name
            raise PyExc(self.eng.exc("AttributeError"), (name,))
        if isinstance(o, FuncVal) and name == "__name__":
            return o.node.name
        r = self.eng.value_attr(ctx, o, name)
        if r is NotImplemented:
            raise PyExc(self.eng.exc("AttributeError"), ("%s has no attribute %s" % (type(o).__name__, name),)) \
                if o is None else Unsupported("attribute %s of %r" % (name, o))
        return r

    def setattr(self, ctx, o, name, v):
        if isinstance(o, ObjVal):
            if name == "__dict__":
                if isinstance(v, PyDict):
                    ctx.set(o, "attrs", dict(v.d))
                    return
                raise Unsupported("assigning __dict__")
            d = dict(o.attrs)
            d[name] = v
            ctx.set(o, "attrs", d)
            return
        raise Unsupported("attribute assignment on %r" % (o,))

    def e_Subscript(self, ctx, e, env):
        o = self.ev(ctx, e.value, env)
        return self.subscript(ctx, o, self.key(ctx, e.slice, env))

    def key(self, ctx, s, env):
        if isinstance(s, ast.Slice):
            return slice(self.ev(ctx, s.lower, env) if s.lower else None, self.ev(ctx, s.upper, env) if s.upper else None,
                         self.ev(ctx, s.step, env) if s.step else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.key(ctx, x, env) for x in s.elts)
        return self.ev(ctx, s, env)

    def subscript(self, ctx, o, k):
        r = self.subscript0(ctx, o, k)
        if isinstance(r, PyList) and r.sym is not None:
            return r.sym
        return r

    def subscript0(self, ctx, o, k):
        if isinstance(o, Arr):
            return getitem(ctx, o, k)
        if isinstance(o, (PyList, tuple, str)):
            items = o.items if isinstance(o, PyList) else o
            if isinstance(k, slice):
                if any(is_z3(x) for x in (k.start, k.stop, k.step)):
                    raise Unsupported("symbolic slice of a list")
                r = items[k]
                return PyList(r) if isinstance(o, PyList) else r
            if isinstance(k, (int, bool)):
                if not -len(items) <= k < len(items):
                    raise PyExc(self.eng.exc("IndexError"), ("list index out of range",))
                return items[k]
            if is_z3(k) and z3.is_int(k) and items:
                if not ctx.branch(z3.And(k >= 0, k < len(items))):
                    raise Unsupported("list index")
                for j in range(len(items) - 1):
                    if ctx.branch(k == j):
                        return items[j]
                return items[-1]
            if isinstance(k, (str, tuple, type(None))):
                raise PyExc(self.eng.exc("TypeError"), ("list indices must be integers",))
            raise Unsupported("list index %r" % (k,))
        if isinstance(o, SymList):
            if is_int(k):
                j = norm_index(ctx, k, o.n)
                check_bounds(ctx, k, o.n)
                return o.item(iv(j))
            if isinstance(k, slice):
                p = slice_params(ctx, (k.start, k.stop, k.step), o.n)
                if p[0] == "fwd":
                    it, st = o.item, p[1]
                    return SymList(p[2], lambda j: it(iv(add_i(st, j))))
            raise Unsupported("index into a symbolic list")
        if isinstance(o, PyDict):
            k = self.hashable(k)
            if k not in o.d:
                raise PyExc(self.eng.exc("KeyError"), (k,))
            v = o.d[k]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if isinstance(o, AttrsDict):
            if k not in o.obj.attrs:
                raise PyExc(self.eng.exc("KeyError"), (k,))
            return o.obj.attrs[k]
        if o is None:
            raise PyExc(self.eng.exc("TypeError"), ("NoneType is not subscriptable",))
        if is_num(o):
            raise PyExc(self.eng.exc("TypeError"), ("number is not subscriptable",))
        r = self.eng.value_sub(ctx, o, k)
        if r is NotImplemented:
            raise Unsupported("subscript of %r" % (o,))
        return r

    def setsub(self, ctx, o, k, v):
        if isinstance(o, Arr):
            return setitem(ctx, o, k, v)
        if isinstance(o, PyDict):
            d = dict(o.d)
            d[self.hashable(k)] = v
            ctx.set(o, "d", d)
            return
        if isinstance(o, PyList) and isinstance(k, int):
            items = list(o.items)
            if not -len(items) <= k < len(items):
                raise PyExc(self.eng.exc("IndexError"), ("list assignment index out of range",))
            items[k] = v
            ctx.set(o, "items", items)
            return
        if isinstance(o, SymList) and is_int(k):
            n, it = o.st
            check_bounds(ctx, k, n)
            j = iv(norm_index(ctx, k, n))
            ctx.set(o, "st", (n, lambda q: merge(z3.simplify(iv(q) == j) if not z3.simplify(iv(q) == j).eq(z3.BoolVal(True)) else True, v, it(q))))
            return
        if isinstance(o, AttrsDict):
            return self.setattr(ctx, o.obj, k, v)
        raise Unsupported("item assignment on %r" % (o,))

    def e_ListComp(self, ctx, e, env):
        return self.comp(ctx, e, env, lambda env2: self.ev(ctx, e.elt, env2))

    def e_GeneratorExp(self, ctx, e, env):
        return self.comp(ctx, e, env, lambda env2: self.ev(ctx, e.elt, env2))

    def e_SetComp(self, ctx, e, env):
        r = self.comp(ctx, e, env, lambda env2: self.ev(ctx, e.elt, env2))
        if isinstance(r, PyList):
            return PySet({self.hashable(x): None for x in r.items})
        raise Unsupported("symbolic set comprehension")

    def e_DictComp(self, ctx, e, env):
        def kv(env2):
            return (self.ev(ctx, e.key, env2), self.ev(ctx, e.value, env2))
        r = self.comp(ctx, e, env, kv)
        if isinstance(r, PyList):
            return PyDict({self.hashable(k): v for k, v in r.items})
        raise Unsupported("symbolic dict comprehension")

    def comp(self, ctx, e, env, mk):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        it = self.ev(ctx, g.iter, env)
        items = self.iterate_concrete(ctx, it)
        if items is not None:
            out = []
            for x in items:
                env2 = Env(env, env.module)
                self.assign(ctx, g.target, x, env2)
                ok = True
                for c in g.ifs:
                    if not ctx.branch(self.truth(ctx, self.ev(ctx, c, env2))):
                        ok = False
                        break
                if ok:
                    out.append(mk(env2))
            return PyList(out)
        return self.eng.loops.sym_comp(ctx, e, g, it, env, mk)

    def e_Starred(self, ctx, e, env):
        raise Unsupported("starred expression")

    def e_Call(self, ctx, e, env):
        f = self.ev(ctx, e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(ctx, a.value, env)
                if isinstance(v, StarArgs):
                    args.append(v)
                    continue
                items = self.iterate_concrete(ctx, v)
                if items is None:
                    raise Unsupported("starred symbolic argument")
                args += items
            else:
                args.append(self.ev(ctx, a, env))
        kw = {}
        for k in e.keywords:
            v = self.ev(ctx, k.value, env)
            if k.arg is None:
                if isinstance(v, StarArgs):
                    kw["**"] = v
                    continue
                if not isinstance(v, PyDict):
                    raise Unsupported("** of %r" % (v,))
                kw.update(v.d)
            else:
                kw[k.arg] = v
        return self.call(ctx, f, args, kw, node=e)

    # ---- calls -----------------------------------------------------------------
    def call(self, ctx, f, args, kw, node=None):
        if isinstance(f, Model):
            return ctx.resolve(f.f(ctx, args, kw))
        if isinstance(f, Bound):
            return self.call(ctx, f.fn, [f.obj] + list(args), kw, node)
        if isinstance(f, FuncVal):
            h = self.eng.active.get(f.qual)
            if h is not None:
                r = h(ctx, f, args, kw)
                if r is not NotImplemented:
                    return r
            return self.apply(ctx, f, args, kw)
        if isinstance(f, ClassVal):
            h = self.eng.active.get("%s:%s" % (f.module, f.name))
            if h is not None:
                return h(ctx, f, args, kw)
            o = ObjVal(f)
            init = class_lookup(f, "__init__")
            if init is not None:
                self.call(ctx, init, [o] + list(args), kw)
            return o
        if isinstance(f, ExcCls):
            return ObjVal(f, {"args": tuple(args)})
        if isinstance(f, ObjVal):
            if "__call__" in f.attrs:
                return self.call(ctx, f.attrs["__call__"], args, kw)
            if isinstance(f.cls, ClassVal):
                c = class_lookup(f.cls, "__call__")
                if c is not None:
                    return self.call(ctx, c, [f] + list(args), kw)
        if isinstance(f, ModVal):
            c = f.get("__call__")
            if c is not None:
                return self.call(ctx, c, args, kw)
        if f is None:
            raise PyExc(self.eng.exc("TypeError"), ("NoneType is not callable",))
        if hasattr(f, "pycall"):
            return f.pycall(ctx, args, kw)
        raise Unsupported("call of %r" % (f,))

    def bind(self, ctx, f, args, kw):
        a = f.node.args
        env = Env(f.env, f.module)
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names) and a.vararg is None:
            raise PyExc(self.eng.exc("TypeError"), ("too many positional arguments",))
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    raise PyExc(self.eng.exc("TypeError"), ("multiple values for %s" % k,))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc(self.eng.exc("TypeError"), ("unexpected keyword argument %s" % k,))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PyDict(extra)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            vals.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            vals.setdefault(n, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                raise PyExc(self.eng.exc("TypeError"), ("missing argument %s" % n,))
        env.vars = vals
        return env

    def apply(self, ctx, f, args, kw):
        ctx.depth += 1
        if ctx.depth > 40:
            raise Unsupported("recursion")
        self.eng.touched.add(f.qual)
        env = self.bind(ctx, f, args, kw)
        try:
            self.block(ctx, f.node.body, env)
            return None
        except ReturnSig as r:
            return r.value
        finally:
            ctx.depth -= 1

    # ---- assignment ------------------------------------------------------------
    def setvar(self, ctx, env, name, v):
        e = env
        if name in env.globals_decl:
            e = self.eng.module_env(env.module)
        elif name in env.nonlocals:
            e = env.parent.owner(name)
        d = dict(e.vars)
        d[name] = v
        ctx.set(e, "vars", d)

    def assign(self, ctx, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(ctx, env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(ctx, self.ev(ctx, t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setsub(ctx, self.ev(ctx, t.value, env), self.key(ctx, t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(ctx, v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(ctx, x, y, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, ctx, v, n):
        items = self.iterate_concrete(ctx, v)
        if items is None:
            if isinstance(v, Arr):
                d = v.shape[0]
                if ctx.branch(iv(d) == n):
                    return [elem(ctx, v, j) for j in range(n)]
                raise PyExc(self.eng.exc("ValueError"), ("unpack",))
            raise Unsupported("unpacking a symbolic sequence")
        if len(items) != n:
            raise PyExc(self.eng.exc("ValueError"), ("unpack: wrong number of values",))
        return items


class MaybeNone:
    pass


class NpBool:
    pass


class GhostSet(Obj_):
    pass


class StarArgs:
    """Opaque extra positional / keyword arguments."""
    def __init__(self, name):
        self.name = name


class AttrsDict:
    """obj.__dict__"""
    def __init__(self, obj):
        self.obj = obj


class KeysView:
    def __init__(self, dct):
        self.dct = dct


class IterVal:
    def __init__(self, n, item, dom=None):
        self.n, self.item, self.dom = n, item, dom


class PathVal:
    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return "Path%r" % (self.key,)


def path_key(v):
    if isinstance(v, PathVal):
        return v.key
    if isinstance(v, str):
        return v
    if isinstance(v, Opaque) and v.name == "pathname":
        return v.kw["key"]
    if isinstance(v, Opaque) and v.name == "fstr":
        return ("fstr",) + tuple(path_key(p) for p in v.kw["parts"])
    if is_z3(v):
        return ("z", v.sexpr())
    if isinstance(v, Opaque):
        return ("op", v.name)
    return ("v", repr(v))


class RepoMod:
    def __init__(self, name):
        self.name = name


def class_lookup(c, name):
    if name in c.ns:
        return c.ns[name]
    for b in c.bases:
        if isinstance(b, ClassVal):
            r = class_lookup(b, name)
            if r is not None:
                return r
    return None


def elem(ctx, arr, k):
    """arr[k] with k known to be in range."""
    sv = ctx.eng.bounds_checks
    ctx.eng.bounds_checks = False
    try:
        return getitem(ctx, arr, k)
    finally:
        ctx.eng.bounds_checks = sv


PURE_CALLS = {"len", "isinstance", "abs", "float", "int", "min", "max", "np.isfinite", "np.isnan", "np.isinf", "np.any", "np.all",
              "np.abs", "np.sum", "np.max", "np.min", "np.shape", "hasattr", "callable", "bool"}


def simple_expr(e):
    """An expression that can be evaluated eagerly although Python would short-circuit."""
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if ast.unparse(n.func) not in PURE_CALLS:
                return False
        elif isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.Subscript, ast.Div, ast.FloorDiv, ast.Mod)):
            return False
    return True
