from .lib import *
from pyvc.invloop import LoopSpec, handler
import ast

O = T.Obj
F = uf("F", I, O)          # the function applied to task t
ANYTAG, ANYSRC = Opaque("ANY_TAG"), Opaque("ANY_SOURCE")


class GSet:
    """A set of workers: pred(w) says whether w is in it."""
    def __init__(self, U, st):
        self.U, self.o = U, ObjVal(None, dict(pred=st))

    def pyattr(self, E, ctx, name):
        o, U = self.o, self.U
        if name == "copy":
            return Model("copy", lambda c, a, k: GSet(U, o.attrs["pred"]))
        if name == "pop":
            def pop(c, a, k):
                w = c.fint("w")
                U.prove(c, "a worker is taken only if one is free", self.some(c))
                c.assume(o.attrs["pred"](w))
                p = o.attrs["pred"]
                c.set(o, "attrs", dict(pred=lambda v: And(p(v), iv(v) != w)))
                return w
            return Model("pop", pop)
        if name in ("add", "discard", "remove"):
            def ch(c, a, k):
                x = iv(a[0])
                p = o.attrs["pred"]
                c.set(o, "attrs", dict(pred=(lambda v: Or(p(v), iv(v) == x)) if name == "add" else (lambda v: And(p(v), iv(v) != x))))
            return Model(name, ch)
        return NotImplemented

    def some(self, ctx):
        """Whether it has an element: e => pred(witness) (a set said to be empty may be any set: more behaviours, never fewer)."""
        p = self.o.attrs["pred"]
        for e, w, q in self.U.nonempty:
            if q is p:
                break
        else:
            e, w = ctx.fbool("some"), ctx.fint("wit")
            self.U.nonempty.append((e, w, p))
        ctx.assume(Implies(e, p(w)))
        return e

    def pytruth(self, ctx):
        return self.some(ctx)


class Pool(LoopSpec):
    name = "map"

    def __init__(self, W):
        self.W = W

    def covers(self, L):
        return L.n is None

    def value(self, L, owner, key, old):
        W, c = self.W, L.ctx
        D = L.data
        if owner is W.G:
            if "fns" not in D:
                self.fresh(L)
            return D["fns"][key]
        if W.ws is not None and owner is W.ws.o:
            if "fns" not in D:
                self.fresh(L)
            b = D["fns"]["busy"]
            return lambda v: And(W.isw(v), Not(b(v)))
        if isinstance(owner, SymList):
            if "fns" not in D:
                self.fresh(L)
            if owner is W.tl:
                return SymList(D["m"], W.item0)
            r = D["res"]
            return SymList(W.N, lambda t: r(iv(t)))
        if owner is L.env and key == W.pend:
            if "fns" not in D:
                self.fresh(L)
            return z3.simplify(D["m"] + D["fns"]["nb"])
        return NotImplemented

    def fresh(self, L):
        """The invariant, as axioms on fresh functions."""
        W, c, D = self.W, L.ctx, L.data
        busy, _ = c.ffunc("BUSY", [I], B)
        task, _ = c.ffunc("TASK", [I], I)
        done, _ = c.ffunc("DONE", [I], B)
        owner, _ = c.ffunc("OWNER", [I], I)
        res, _ = c.ffunc("RES", [I], O)
        nb, m = c.fint("nb"), c.fint("m")
        D["fns"] = dict(busy=busy, task=task, done=done, owner=owner, nb=nb)
        D["res"], D["m"] = res, m
        N = W.N
        i0 = z3.Int("i0")
        c.assume(And(nb >= 0, m >= 0, m <= N))
        S.TH.schema(busy(i0).decl(), lambda w: [Implies(busy(w), And(W.isw(w), task(w) >= m, task(w) < N, Not(done(task(w))), owner(task(w)) == w)), Implies(nb == 0, Not(busy(w)))])
        def tasks(t):
            return [Implies(And(t >= m, t < N), Or(done(t), And(busy(owner(t)), task(owner(t)) == t))), Implies(done(t), And(t >= m, t < N, res(t) == F(t)))]
        S.TH.schema(done(i0).decl(), tasks)
        S.TH.schema(res(i0).decl(), tasks)

    def enter(self, L):
        L.data.pop("fns", None)

    def check(self, L, where):
        W, c = self.W, L.ctx
        A = W.G.attrs
        busy, task, done, owner, nb = A["busy"], A["task"], A["done"], A["owner"], iv(A["nb"])
        N = W.N
        m = iv(W.tl.n)
        w, t = c.fint("w"), c.fint("t")
        L.prove("the tasks left are the first ones", And(m >= 0, m <= N))
        L.prove("pending counts the tasks left and those being worked on", iv(L.env.vars[W.pend]) == m + nb)
        L.prove("a busy worker works on one task that is not done, nobody else's", Implies(busy(w), And(W.isw(w), task(w) >= m, task(w) < N, Not(done(task(w))), owner(task(w)) == w)))
        L.prove("a task given out is done or worked on", Implies(And(t >= m, t < N), Or(done(t), And(busy(owner(t)), task(owner(t)) == t))))
        L.prove("a worker is free exactly if it has no task", Iff(W.ws.o.attrs["pred"](w), And(W.isw(w), Not(busy(w)))))
        if where == "preserved":
            L.prove("a result is kept under its task", Implies(done(t), And(t >= m, t < N, W.rl.item(t) == F(t))))
        else:
            L.prove("nothing is done yet", Not(done(t)))


def mapunit(U):
    def run(ctx):
        E = U.E
        U.nonempty = []
        W = type("W", (), {})()
        W.N = N = ctx.fint("n_tasks")
        ctx.assume(N >= 0)
        W.size = ctx.pint("n_workers")
        W.isw = lambda v: And(iv(v) >= 1, iv(v) <= W.size)
        W.G = ObjVal(None, dict(busy=lambda v: z3.BoolVal(False), task=lambda v: z3.IntVal(0), done=lambda v: z3.BoolVal(False), owner=lambda v: z3.IntVal(0), nb=z3.IntVal(0)))
        W.ws = W.tl = W.rl = None
        W.pend = None
        func = Opaque("func")
        ARG = uf("ARG", I, O)
        G = W.G

        def send(c, a, k):
            msg, dest, tag = arg(a, k, 0, "obj"), iv(arg(a, k, 1, "dest")), iv(arg(a, k, 2, "tag", 0))
            A = G.attrs
            U.prove(c, "a task goes to a worker without a task", And(W.isw(dest), Not(A["busy"](dest))))
            ok = isinstance(msg, tuple) and len(msg) == 2 and msg[0] is func and is_z3(msg[1]) and is_app_of(msg[1], ARG)
            if not ok and not U.muted:
                raise Unsupported("message %r" % (msg,))
            U.prove(c, "a task is sent with the number it has in the list", And(inrange(tag, N), msg[1] == ARG(tag)) if ok else False)
            U.prove(c, "a task is sent once", And(Not(A["done"](tag)), Not(And(A["busy"](A["owner"](tag)), A["task"](A["owner"](tag)) == tag))))
            b, t, o = A["busy"], A["task"], A["owner"]
            c.set(G, "attrs", dict(A, busy=lambda v: Or(b(v), iv(v) == dest), task=lambda v: z3.If(iv(v) == dest, tag, t(v)), owner=lambda q: z3.If(iv(q) == tag, dest, o(q)), nb=z3.simplify(iv(A["nb"]) + 1)))

        def some_busy(c, what):
            U.prove(c, "%s waits only if a worker owes an answer" % what, iv(G.attrs["nb"]) > 0)

        def probe(c, a, k):
            some_busy(c, "Probe")
            return True

        def iprobe(c, a, k):
            f = c.fbool("message")
            c.assume(Implies(f, iv(G.attrs["nb"]) > 0))
            return f

        def recv(c, a, k):
            src, tg = arg(a, k, 1, "source", ANYSRC), arg(a, k, 2, "tag", ANYTAG)
            st = k.get("status")
            some_busy(c, "recv")
            A = G.attrs
            s = c.fint("s")
            b, t, d = A["busy"], A["task"], A["done"]
            c.assume(b(s))
            tag = t(s)
            if src is not ANYSRC:
                U.prove(c, "recv waits only for a worker that owes an answer", b(iv(src)))
                c.assume(s == iv(src))
            if tg is not ANYTAG:
                U.prove(c, "recv waits only for an answer that comes", t(s) == iv(tg))
            if st is not None:
                c.set(st, "attrs", dict(st.attrs, source=s, tag=tag))
            r = c.fconst("answer", O) if hasattr(c, "fconst") else F(tag)
            r = F(tag)
            c.set(G, "attrs", dict(A, busy=lambda v: And(b(v), iv(v) != s), done=lambda q: Or(d(q), iv(q) == tag), nb=z3.simplify(iv(A["nb"]) - 1)))
            return r
        status = lambda c, a, k: ObjVal(None, dict(source=c.fint("src"), tag=c.fint("tg"), Get_source=None, Get_tag=None))
        env = E.load("pocomc.parallel")
        env.vars["MPI"] = ObjVal(None, dict(Status=Model("Status", status), ANY_TAG=ANYTAG, ANY_SOURCE=ANYSRC))
        cls = env.vars["MPIPool"]
        P = ObjVal(cls, dict(rank=0, master=0, size=W.size, workers=GSet(U, lambda v: W.isw(v)), _ghost=G,
                             comm=ObjVal(None, dict(send=Model("send", send), ssend=Model("ssend", send), Probe=Model("Probe", probe), Iprobe=Model("Iprobe", iprobe), recv=Model("recv", recv)))))

        class H(Pool):
            def before(self, L):
                """Find the free set, the tasks left, the results and the pending count by what they are on entry."""
                W.ws = W.tl = W.rl = None
                W.pend = None
                L.data["typed"] = True
                for nm, v in L.env.vars.items():
                    if isinstance(v, PyList) and v.sym is not None:
                        v = v.sym
                    if isinstance(v, GSet) and v is not P.attrs["workers"]:
                        W.ws = v
                    elif isinstance(v, SymList):
                        x = v.item(z3.Int("i0"))
                        if isinstance(x, tuple):
                            W.tl = v
                            W.item0 = v.item
                        elif x is None:
                            W.rl = v
                    elif is_int(v) and not isinstance(v, bool):
                        W.pend = nm
                if W.ws is None or W.tl is None or W.rl is None or W.pend is None:
                    raise Unsupported("the pool keeps its tasks differently")

        def symattr(c, o, name):
            if name == "pop":
                def pop(c2, a, k):
                    n, it = o.st
                    if a:
                        raise Unsupported("pop(index)")
                    U.prove(c2, "a task is taken only if one is left", iv(n) > 0)
                    v = it(z3.simplify(iv(n) - 1))
                    c2.set(o, "st", (z3.simplify(iv(n) - 1), it))
                    return v
                return Model("list.pop", pop)
        E.hooks["symlist_attr"] = symattr
        E.handlers[:] = [handler(U, [H(W)])]
        tasks = SymList(N, lambda t: ARG(iv(t)))
        try:
            W.r = E.ip.call(ctx, E.ip.getattr(ctx, P, "map"), [func, tasks], {})
        finally:
            E.handlers[:] = []
        return W
    for ctx, oc in U.paths(run):
        if not U.reach(ctx) or not U.no_raise(ctx, oc):
            continue
        W = oc[1]
        r = W.r
        if isinstance(r, PyList) and r.sym is not None:
            r = r.sym
        if not isinstance(r, SymList):
            U.prove(ctx, "a list of results", False)
            continue
        t = ctx.fint("t")
        ctx.assume(inrange(t, W.N))
        U.prove(ctx, "one result per task", iv(r.n) == W.N)
        U.prove(ctx, "every result is the function applied to its task, in order", r.item(t) == F(t))


class Serve(LoopSpec):
    name = "wait"

    def __init__(self, W):
        self.W = W

    def covers(self, L):
        return True

    def value(self, L, owner, key, old):
        if owner is self.W.G:
            return {"owed": None, "quit": False}.get(key, NotImplemented)
        return NotImplemented

    def check(self, L, where):
        L.prove("no task is left unanswered, none answered twice", self.W.G.attrs["owed"] is None)
        L.prove("goes on until told to quit", self.W.G.attrs["quit"] is False)


def wait(U):
    def run(ctx):
        E = U.E
        W = type("W", (), {})()
        G = W.G = ObjVal(None, dict(owed="none yet", quit="no"))
        ARG = uf("ARG", I, O)
        AP = uf("APPLY", I, O)

        def recv(c, a, k):
            src = arg(a, k, 1, "source", None)
            src = k.get("source", a[1] if len(a) > 1 else a[0] if a else None)
            U.prove(c, "listens to the master", src == 0)
            if not isinstance(G.attrs["owed"], str):
                U.prove(c, "the last task is answered before the next is taken", G.attrs["owed"] is None)
            tag = c.fint("tag")
            st = k.get("status")
            if st is not None:
                c.set(st, "attrs", dict(st.attrs, tag=tag, source=0))
            if c.branch(c.fbool("quit")):
                c.set(G, "attrs", dict(owed=None, quit=True))
                return None
            c.set(G, "attrs", dict(owed=(tag, None), quit=False))
            return (Model("func", func), ARG(tag))

        def func(c, a, k):
            o = G.attrs["owed"]
            U.prove(c, "the function is applied to the task received, once", isinstance(o, tuple) and o[1] is None and len(a) == 1 and is_z3(a[0]) and a[0] == ARG(o[0]))
            if isinstance(o, tuple):
                c.set(G, "attrs", dict(G.attrs, owed=(o[0], True)))
                return AP(o[0])
            return AP(z3.IntVal(-1))

        def send(c, a, k):
            msg, dest, tag = arg(a, k, 0, "obj"), arg(a, k, 1, "dest"), arg(a, k, 2, "tag", 0)
            o = G.attrs["owed"]
            U.prove(c, "the answer is the result, sent to the master with the task's tag", isinstance(o, tuple) and o[1] is True and And(iv(dest) == 0, iv(tag) == o[0], msg == AP(o[0])))
            c.set(G, "attrs", dict(G.attrs, owed=None))
        env = E.load("pocomc.parallel")
        env.vars["MPI"] = ObjVal(None, dict(Status=Model("Status", lambda c, a, k: ObjVal(None, dict(source=c.fint("src"), tag=c.fint("tg")))), ANY_TAG=ANYTAG, ANY_SOURCE=ANYSRC))
        rank = ctx.pint("rank")
        P = ObjVal(env.vars["MPIPool"], dict(rank=rank, master=0, _ghost=G, comm=ObjVal(None, dict(recv=Model("recv", recv), ssend=Model("ssend", send), send=Model("send", send)))))
        E.handlers[:] = [handler(U, [Serve(W)])]
        ctx.set(G, "attrs", dict(owed=None, quit=False)) if False else None
        G.attrs = dict(owed=None, quit=False)
        try:
            E.ip.call(ctx, E.ip.getattr(ctx, P, "wait"), [], {})
        finally:
            E.handlers[:] = []
        return W
    for ctx, oc in U.paths(run):
        if not U.reach(ctx) or not U.no_raise(ctx, oc):
            continue
        U.prove(ctx, "a worker stops only when told to quit", oc[1].G.attrs["quit"] is True)


class Tell(LoopSpec):
    """The first k workers have been told to quit, once."""
    name = "close"

    def __init__(self, W):
        self.W = W

    def covers(self, L):
        return L.n is not None

    def value(self, L, owner, key, old):
        if owner is self.W.G:
            g = uf(fresh_name("told"), I, I)
            return lambda v: g(iv(v))
        return NotImplemented

    def assume(self, L):
        W, told = self.W, self.W.G.attrs["told"]
        L.ctx.assume(told(W.w) == self.count(L))

    def count(self, L):
        W = self.W
        return z3.If(zb(And(W.isw(W.w), W.rk(W.w) < iv(L.k))), 1, 0)

    def check(self, L, where):
        L.prove("the workers passed were told to quit once, the others not yet", self.W.G.attrs["told"](self.W.w) == self.count(L), note="witness")


def close(how, master):
    def unit(U):
        def run(ctx):
            E = U.E
            W = type("W", (), {})()
            N = W.N = ctx.pint("workers")
            wk, rk = uf("WK", I, I), uf("RK", I, I)
            W.rk = rk
            W.isw = lambda v: And(iv(v) >= 1, iv(v) <= N)
            # the set of workers 1 .. N in some order
            S.TH.schema(wk(z3.Int("i0")).decl(), lambda k: [Implies(inrange(k, N), And(wk(k) >= 1, wk(k) <= N, rk(wk(k)) == k))])
            S.TH.schema(rk(z3.Int("i0")).decl(), lambda v: [Implies(And(v >= 1, v <= N), And(inrange(rk(v), N), wk(rk(v)) == v))])
            W.w = ctx.fint("w")
            G = W.G = ObjVal(None, dict(told=lambda v: z3.IntVal(0)))

            def send(c, a, k):
                msg, dest, tag = arg(a, k, 0, "obj"), arg(a, k, 1, "dest"), arg(a, k, 2, "tag", 0)
                U.prove(c, "only the quit message is sent, to a worker", And(msg is None, W.isw(dest)))
                t = G.attrs["told"]
                c.set(G, "attrs", dict(told=lambda v: t(v) + z3.If(iv(v) == iv(dest), 1, 0)))
            rank = 0 if master else ctx.pint("rank")
            mod = E.load("pocomc.parallel")
            P = ObjVal(mod.vars["MPIPool"], dict(rank=rank, master=0, size=N, workers=SymList(N, lambda k: wk(iv(k))), _ghost=G,
                                                 comm=ObjVal(None, dict(send=Model("send", send), ssend=Model("ssend", send)))))
            E.handlers[:] = [handler(U, [Tell(W)])]
            try:
                if how == "close":
                    E.ip.call(ctx, E.ip.getattr(ctx, P, "close"), [], {})
                else:
                    r = E.ip.call(ctx, E.ip.getattr(ctx, P, "__enter__"), [], {})
                    U.prove(ctx, "the pool itself is managed", r is P)
                    E.ip.call(ctx, E.ip.getattr(ctx, P, "__exit__"), [None, None, None], {})
            finally:
                E.handlers[:] = []
            return W
        for ctx, oc in U.paths(run):
            if not U.reach(ctx) or not U.no_raise(ctx, oc):
                continue
            W = oc[1]
            told = W.G.attrs["told"](W.w)
            if master:
                U.prove(ctx, "every worker is told to quit exactly once, nobody else", told == z3.If(zb(W.isw(W.w)), 1, 0), note="witness")
            else:
                U.prove(ctx, "a worker tells nobody", told == 0)
    return unit


def prove():
    q = "pocomc.parallel.MPIPool."
    us = [Unit("map", [q + "map"], mapunit), Unit("wait", [q + "wait"], wait)]
    us += [Unit("close", [q + "close", q + "is_worker"], close("close", True)), Unit("close (worker)", [q + "close", q + "is_worker"], close("close", False)),
           Unit("with statement", [q + "__enter__", q + "__exit__"], close("with", True))]
    return run_units("C19", us, assumptions=["MPI: messages are delivered; a worker that was sent a task answers once, with its tag (proved for wait); Iprobe is true only if a message is there",
                                             "the number of busy workers is zero exactly if none is busy (finite sets)",
                                             "termination: pending falls with every answer received; that answers keep coming is MPI's part",
                                             "the pool's set of workers is 1..size-1 (its constructor): run-time contracts"])
