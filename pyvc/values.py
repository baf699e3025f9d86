"""Values of the symbolic interpreter.

Every mutable object keeps its state in one Python attribute that is replaced,
never mutated in place, so that the journal (see Ctx.set) can undo and merge.
"""
import z3
from .term import *  # noqa


class Fn:
    """Memoised content of an array: index tuple -> scalar value."""
    __slots__ = ("f", "memo")

    def __init__(self, f):
        self.f = f
        self.memo = {}

    def __call__(self, idx):
        key = tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in idx)
        if key in self.memo:
            return self.memo[key][0]
        v = self.f(idx)
        self.memo[key] = (v, idx)
        return v


class Obj_:
    pass


class Arr(Obj_):
    """A numpy array (or torch tensor) of symbolic shape."""
    kind = "arr"

    def __init__(self, shape, fn, dt="f", base=None, fwd=None, inv=None, lib="np", tag=None):
        self.shape = tuple(shape)
        self.dt = dt
        self.base = base
        self.fwd = fwd
        self.inv = inv
        self.lib = lib
        self.tag = tag or {}
        if base is None:
            self.fn = fn if isinstance(fn, Fn) else Fn(fn)
        else:
            self.fn = None

    def get(self, idx):
        if self.base is not None:
            return self.base.get(self.fwd(idx))
        return self.fn(idx)

    @property
    def ndim(self):
        return len(self.shape)

    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    def __repr__(self):
        return "Arr%s:%s" % (self.shape, self.dt)


class PyList(Obj_):
    kind = "list"

    def __init__(self, items):
        self.items = list(items)
        self.sym = None          # SymList once grown in a symbolic loop


class SymList(Obj_):
    """List of symbolic length: item(k) gives the k-th value."""
    kind = "symlist"

    def __init__(self, n, item, dom=None, src=None):
        self.st = (n, item)
        self.dom = dom          # for lists of distinct ints: membership predicate
        self.src = src

    @property
    def n(self):
        return self.st[0]

    @property
    def item(self):
        return self.st[1]


class PyDict(Obj_):
    kind = "dict"

    def __init__(self, d):
        self.d = dict(d)


class PySet(Obj_):
    kind = "set"

    def __init__(self, d):
        self.d = dict(d)


class ObjVal(Obj_):
    kind = "obj"

    def __init__(self, cls, attrs=None, name=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.name = name


class ClassVal:
    def __init__(self, name, module, node, bases, ns):
        self.name, self.module, self.node, self.bases, self.ns = name, module, node, bases, ns


class FuncVal:
    def __init__(self, node, env, module, qual, cls=None, decorators=()):
        self.node, self.env, self.module, self.qual, self.cls, self.decorators = node, env, module, qual, cls, decorators
        self.defaults = []
        self.kwdefaults = {}


class Bound:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class Model:
    """A modelled (external) function: f(ctx, args, kwargs) -> value."""
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "<model %s>" % self.name


class ModVal:
    """A modelled external module or namespace."""
    def __init__(self, name, get):
        self.name, self.get = name, get

    def __repr__(self):
        return "<module %s>" % self.name


class ExcCls:
    def __init__(self, name, parents=()):
        self.name, self.parents = name, parents

    def issub(self, other):
        if self.name == other.name:
            return True
        return any(p.issub(other) for p in self.parents)

    def __repr__(self):
        return self.name


class Opaque:
    """A concrete but uninteresting value (string made from symbols, dtype...)."""
    def __init__(self, name, **kw):
        self.name = name
        self.kw = kw

    def __repr__(self):
        return "<%s>" % self.name


class Poison:
    def __init__(self, why):
        self.why = why


class Env(Obj_):
    kind = "env"

    def __init__(self, parent=None, module=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.globals_decl = set()
        self.nonlocals = set()

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        raise KeyError(name)

    def owner(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


# ---- exceptions used by the interpreter -----------------------------------
class PyExc(Exception):
    def __init__(self, cls, args=(), obj=None):
        Exception.__init__(self, cls.name if isinstance(cls, ExcCls) else str(cls))
        self.cls, self.eargs, self.obj = cls, args, obj


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Infeasible(Exception):
    """This path cannot happen (or is cut off after a loop body)."""
