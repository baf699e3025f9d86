"""Engine: modules, library tables, obligations, units."""
import ast
import os
import time
import traceback
import z3
from .term import *  # noqa
from . import term as T
from . import solver as S
from . import prover as P
from .values import *  # noqa
from .ctx import Ctx, merge, same_dim, fresh_name
from .ops import *  # noqa
from .index import *  # noqa
from .index import RowReg
from .interp import *  # noqa
from .interp import Interp, IterVal, AttrsDict, KeysView, PathVal, path_key, RepoMod, StarArgs, elem, class_lookup
from .loops import Loops, sum_xf, generalise, terms_of, GenVal
from .npmodel import NP, DT, Dtype, dtype_code, arg, only
from . import libmodel, par

REPO = os.environ.get("VERIF_REPO", "/repo")


class Engine:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.ip = Interp(self)
        self.loops = Loops(self)
        self.np = NP(self)
        self.mods = {}
        self.active = {}
        self.handlers = []
        self.mask_reg = {}
        self.generic_names = set()
        self.touched = set()
        self.current_exc = []
        self.bounds_checks = True
        self.unroll = 32
        self.excs = {}
        self.results = []
        self.tasks = []
        self.forking, self.root_pending = False, None
        self.children, self.outlet, self.on_split = [], None, None
        self.trusted = set()
        self.timeout = 8.0
        self.hooks = {}
        self._mk_exc()
        libmodel.install(self)
        from . import fs
        fs.install(self)

    # -- exceptions ---------------------------------------------------------------
    def _mk_exc(self):
        def mk(n, *ps):
            self.excs[n] = ExcCls(n, [self.excs[p] for p in ps])
        mk("BaseException")
        mk("Exception", "BaseException")
        for n in ("ValueError", "TypeError", "LookupError", "AttributeError", "RuntimeError", "AssertionError", "ArithmeticError",
                  "NameError", "ImportError", "OSError"):
            mk(n, "Exception")
        mk("KeyError", "LookupError")
        mk("IndexError", "LookupError")
        mk("ZeroDivisionError", "ArithmeticError")
        mk("OverflowError", "ArithmeticError")
        mk("UnboundLocalError", "NameError")
        mk("NotImplementedError", "RuntimeError")
        mk("LinAlgError", "ValueError")
        mk("KeyboardInterrupt", "BaseException")
        mk("DeprecationWarning", "Exception")
        mk("UserWarning", "Exception")
        mk("RuntimeWarning", "Exception")
        self.excs["IOError"] = self.excs["OSError"]

    def exc(self, n):
        return self.excs[n]

    # -- modules --------------------------------------------------------------------
    def module_env(self, name):
        return self.mods[name]

    def load(self, name):
        """Load a module of the repository from its current source."""
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.repo, *name.split(".")) + ".py"
        if not os.path.exists(path):
            path = os.path.join(self.repo, *name.split("."), "__init__.py")
        src = open(path).read()
        tree = ast.parse(src)
        env = Env(None, name)
        self.mods[name] = env
        ctx = Ctx(self)
        for st in tree.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            try:
                self.ip.stmt(ctx, st, env)
            except (Unsupported, PyExc) as e:
                for n in assigned_names(st):
                    env.vars[n] = Poison("module level: %s" % e)
        return env

    def import_module(self, name, frm, level=0):
        if level:
            pkg = ".".join(frm.split(".")[:-level])
            name = pkg + ("." + name if name else "")
        if name.split(".")[0] == "pocomc":
            return RepoMod(name)
        return self.ext_module(name)

    def ext_module(self, name):
        if name in self.extmods:
            return self.extmods[name]
        top = name.split(".")
        if top[0] in self.extmods:
            m = self.extmods[top[0]]
            for p in top[1:]:
                m = m.get(p) if isinstance(m, ModVal) else m
            if isinstance(m, ModVal):
                return m
        return ModVal(name, lambda a: Poison("%s.%s is not modelled" % (name, a)))

    def mod_attr(self, ctx, m, name):
        if isinstance(m, RepoMod):
            env = self.load(m.name)
            if name in env.vars:
                v = env.vars[name]
                return v
            try:
                self.load(m.name + "." + name)
                return RepoMod(m.name + "." + name)
            except FileNotFoundError:
                raise PyExc(self.exc("ImportError"), (name,))
        return m.get(name)

    def func(self, qual):
        """'pocomc.scaler:Reparameterize.inverse' -> FuncVal"""
        mod, name = qual.split(":")
        env = self.load(mod)
        parts = name.split(".")
        if parts[0] not in env.vars:
            raise Unsupported("%s is not defined" % qual)
        v = env.vars[parts[0]]
        for p in parts[1:]:
            v = class_lookup(v, p)
            if v is None:
                raise Unsupported("%s is not defined" % qual)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    # -- hooks used by the interpreter -------------------------------------------------
    def np_array(self, ctx, v):
        return self.np.array(ctx, v)

    def np_dot(self, ctx, a, b):
        return self.np.dot(ctx, a, b)

    def mask_alias(self, ctx, a, b):
        return False

    def index_array_use(self, ctx, k, n):
        h = self.hooks.get("index_use")
        if h:
            h(ctx, k, n)

    def choice_p(self, ctx, p):
        h = self.hooks.get("choice_p")
        if h:
            h(ctx, p)

    def event(self, ctx, ev):
        if ctx.loopidx:
            return
        d = dict(ctx.events.attrs)
        d["trace"] = d["trace"] + (ev,)
        ctx.set(ctx.events, "attrs", d)

    def trace(self, ctx):
        return ctx.events.attrs["trace"]

    def comp_effect(self, ctx, o, a, old, new, k, n):
        if o is ctx.events:
            return
        h = self.hooks.get("comp_effect")
        if h and h(ctx, o, a, old, new, k, n):
            return
        raise Unsupported("comprehension with side effects")

    def generic_fact(self, ctx, key, ground, forall):
        if key in ctx.__dict__.setdefault("_gf", set()):
            pass
        ctx._gf.add(key)
        ctx.fact(ground)
        S.TH.defs.append((key[1], forall))

    def become_symlist(self, ctx, lst, sym):
        """A list that grew by one element per iteration."""
        ctx.set(lst, "sym", sym)

    def loop_handler(self, ctx, st, it, env):
        for h in self.handlers:
            r = h(ctx, st, it, env)
            if r is not None:
                return r
        return None

    def opaque_eq(self, ctx, a, b):
        return a is b

    def obj_attr(self, ctx, o, name):
        h = self.hooks.get("obj_attr")
        return h(ctx, o, name) if h else None

    def value_attr(self, ctx, o, name):
        return libmodel.value_attr(self, ctx, o, name)

    def value_sub(self, ctx, o, k):
        return libmodel.value_sub(self, ctx, o, k)

    # -- exploration ----------------------------------------------------------------------
    def paths(self, fn, limit=400):
        """Run fn(ctx) on every feasible path; yields (ctx, outcome)."""
        stack = [[]]
        self.root_pending = stack
        n = 0
        while stack:
            dec = stack.pop()
            n += 1
            if n > limit:
                raise Unsupported("more than %d paths" % limit)
            ctx = Ctx(self, dec, stack)
            try:
                try:
                    oc = ("ok", fn(ctx))
                except PyExc as e:
                    oc = ("raise", e)
            except Infeasible:
                ctx.rollback(0)
                continue
            yield ctx, oc
            ctx.rollback(0)

    # -- obligations --------------------------------------------------------------------------
    def obligation(self, ctx, name, goal, timeout=None, extra=(), hint=(), note="", sync=False):
        """Decide one obligation; unless sync, in a process of its own (then True is returned and the answer collected later)."""
        if par.on() and not sync and not isinstance(goal, bool):
            if len(self.tasks) >= 24:
                self.collect(1)

            def fn():
                b = dict(S.STATS)
                rec = self.decide(ctx, name, goal, timeout, extra, hint, note)
                return rec, {k: S.STATS[k] - b[k] for k in b}
            rec = dict(name=name, status="unknown", backend=None, time=0, note=note, goal="", sat=False, taint=[])
            self.results.append(rec)
            self.tasks.append((par.Task(fn), rec))
            return True
        rec = self.decide(ctx, name, goal, timeout, extra, hint, note)
        self.results.append(rec)
        return rec["status"] == "proved"

    def split(self):
        """Explore the other branch in a process of its own; True there."""
        child, h = par.split()
        if child:
            self.children, self.outlet = [], h
            self.results, self.tasks = [], []
            if self.on_split:
                self.on_split()
            return True
        self.children.append(h)
        return False

    def collect(self, n=None):
        """Wait for the obligations still being decided."""
        if not self.tasks:
            return
        par.release()
        while self.tasks and (n is None or n > 0):
            t, rec = self.tasks.pop(0)
            r = t.get()
            if r is None:
                rec["goal"] = "the prover process died"
            else:
                rec.update(r[0])
                for k, v in r[1].items():
                    S.STATS[k] += v
            n = None if n is None else n - 1
        par.acquire()

    def decide(self, ctx, name, goal, timeout, extra, hint, note):
        t0 = time.time()
        hyps = ctx.hyps() + [h for h in extra] + [h for h in hint]
        st, info = P.prove(hyps, goal, timeout or self.timeout)
        rec = dict(name=name, status=st, backend=info.get("backend"), time=round(time.time() - t0, 3), note=note)
        if st != "proved":
            rec["goal"] = str(info.get("goal"))[:1500]
            if info.get("model") is not None:
                rec["model"] = str(info["model"])[:3000]
            rec["sat"] = bool(info.get("sat"))
            rec["taint"] = list(ctx.taint)
            if (ctx.taint or note == "witness") and st == "refuted":
                rec["status"] = "unknown"
        return rec


def assigned_names(st):
    out = []
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append(n.name)
        elif isinstance(n, ast.alias):
            out.append((n.asname or n.name).split(".")[0])
    return out
