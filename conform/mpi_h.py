"""C19: MPI pool driven through a simulated communicator; every interleaving of small cases, random larger ones."""
import types
from .common import *
import pocomc.parallel as par

ANY = -1


class Status:
    def __init__(self):
        self.source = None
        self.tag = None

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Deadlock(Exception):
    pass


class Protocol(Exception):
    pass


class MasterComm:
    """Simulated workers: a worker holds at most one task; the schedule decides when it finishes."""

    def __init__(self, size, choose):
        self.size = size
        self.choose = choose
        self.running = {}           # worker -> (tag, task)
        self.done = []              # finished, result waiting to be received: (worker, tag, result)
        self.quit = []
        self.spins = 0
        self.evaluated = []

    def Get_rank(self):
        return 0

    def Get_size(self):
        return self.size

    @property
    def rank(self):
        return 0

    def send(self, obj, dest=None, tag=0):
        if not 1 <= dest < self.size:
            raise Protocol("message to a rank that is not a worker: %r" % dest)
        if obj is None:
            self.quit.append(dest)
            return
        if dest in self.running or any(w == dest for w, _, _ in self.done):
            raise Protocol("busy worker %d was given a second task" % dest)
        f, arg = obj
        self.running[dest] = (tag, f, arg)

    ssend = send

    def isend(self, *a, **k):
        self.send(*a, **k)
        return types.SimpleNamespace(wait=lambda: None, Wait=lambda: None)

    def _progress(self, force):
        opts = sorted(self.running)
        if not opts:
            return
        k = self.choose(len(opts) + (0 if force else 1))
        if k < len(opts):
            w = opts[k]
            tag, f, arg = self.running.pop(w)
            self.evaluated.append(tag)
            self.done.append((w, tag, f(arg)))

    def Iprobe(self, source=ANY, tag=ANY, status=None):
        self._progress(False)
        if not self.done and not self.running:
            self.spins += 1
            if self.spins > 50:
                raise Deadlock("polling for a message that cannot come")
        elif not self.done:
            self.spins += 1
            if self.spins > 200:
                self._progress(True)
        return bool(self.done)

    iprobe = Iprobe

    def Probe(self, source=ANY, tag=ANY, status=None):
        self._progress(False)
        while not self.done:
            if not self.running:
                raise Deadlock("waiting for a message that cannot come")
            self._progress(True)
        return True

    probe = Probe

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        c = [i for i, m in enumerate(self.done) if source in (ANY, m[0]) and tag in (ANY, m[1])]
        while not c:
            if not self.running:
                raise Deadlock("receiving a message that cannot come")
            self._progress(True)
            c = [i for i, m in enumerate(self.done) if source in (ANY, m[0]) and tag in (ANY, m[1])]
        i = c[self.choose(len(c))]
        w, t, r = self.done.pop(i)
        if status is not None:
            status.source, status.tag = w, t
        return r


def with_mpi(fn):
    old = par.MPI
    par.MPI = types.SimpleNamespace(Status=Status, ANY_SOURCE=ANY, ANY_TAG=ANY, COMM_WORLD=None)
    reg = []
    olda = par.atexit.register
    par.atexit.register = lambda f, *a, **k: reg.append(f)
    try:
        return fn()
    finally:
        par.MPI = old
        par.atexit.register = olda


class DFS:
    """Enumerate every sequence of choices."""

    def __init__(self):
        self.path = []
        self.pos = 0

    def __call__(self, n):
        if n <= 1:
            return 0
        if self.pos == len(self.path):
            self.path.append([0, n])
        k = self.path[self.pos][0]
        if self.path[self.pos][1] != n:
            k = min(k, n - 1)
        self.pos += 1
        return k

    def next(self):
        while self.path and self.path[-1][0] + 1 >= self.path[-1][1]:
            self.path.pop()
        if not self.path:
            return False
        self.path[-1][0] += 1
        self.pos = 0
        return True


def one(rep, nt, size, choose, label, results=None):
    res = results or (lambda v: ("r", v * 3 + 1))
    comm = MasterComm(size, choose)
    tasks = [10 + 7 * i for i in range(nt)]
    info = dict(tasks=nt, processes=size, schedule=label)
    try:
        pool = par.MPIPool(comm=comm)
        out = pool.map(res, tasks)
        out2 = pool.map(lambda v: -v, list(range(3)))
    except (Deadlock, Protocol) as e:
        rep.fail("MPI pool: %s" % e, **info)
        return False
    except Exception as e:
        rep.fail("MPI pool map failed: %s: %s" % (type(e).__name__, e), **info)
        return False
    ok = rep.check(list(out) == [res(t) for t in tasks], "map does not return f(task) in task order", got=out, want=[res(t) for t in tasks], **info)
    ok &= rep.check(list(out2) == [0, -1, -2], "a second map on the same pool is wrong", got=out2, **info)
    ok &= rep.check(not comm.running and not comm.done, "map returned with tasks still in flight", **info)
    pool.close()
    ok &= rep.check(sorted(set(comm.quit)) == list(range(1, size)), "close does not tell every worker to quit", got=comm.quit, **info)
    return ok


def c19(rep):
    rng = np.random.default_rng(SEED)

    def exhaustive(rep):
        for size in (2, 3, 4):
            for nt in range(0, 5 if size < 4 else 4):
                d = DFS()
                k = 0
                lim = 4000 if THOROUGH else 1200
                while k < lim:
                    k += 1
                    d.pos = 0
                    rep.case((size, nt, k), dict(processes=size, tasks=nt, choices=[c[0] for c in d.path]))
                    if not one(rep, nt, size, d, [c[0] for c in d.path]):
                        return
                    if not d.next():
                        break

    def rand(rep):
        for t in range(400 if THOROUGH else 120):
            size, nt = int(rng.integers(2, 9)), int(rng.integers(0, 40))
            r = np.random.default_rng(t)
            bias = rng.random()

            def ch(n):
                return int(r.integers(n)) if r.random() < bias else n - 1
            rep.case(("rand", t))
            if not one(rep, nt, size, ch, "random %d" % t, results=[None, lambda v: v, lambda v: None if v % 2 else 0, lambda v: [v]][t % 4]):
                return

    def worker(rep):
        for tags in ([], [0], [3, 1, 2], [5] * 3, list(range(8))):
            sent = []
            ev = []
            msgs = [(t, (lambda a: (ev.append(a), a * 2)[1], 100 + i)) for i, t in enumerate(tags)] + [(0, None)]

            class WComm:
                size = 4

                def Get_rank(self):
                    return 2

                def Get_size(self):
                    return 4

                def recv(self, buf=None, source=ANY, tag=ANY, status=None):
                    if not msgs:
                        raise Deadlock("worker keeps waiting after being told to quit")
                    t, m = msgs.pop(0)
                    if status is not None:
                        status.source, status.tag = 0, t
                    return m

                def send(self, obj, dest=None, tag=0):
                    sent.append((obj, dest, tag))
                ssend = send

                def Probe(self, *a, **k):
                    return True
                Iprobe = Probe
            rep.case(("worker", str(tags)))
            try:
                par.MPIPool(comm=WComm())
                rep.fail("a worker process returned from the constructor", tags=tags)
            except SystemExit:
                pass
            except Deadlock as e:
                rep.fail(str(e), tags=tags)
                continue
            rep.check(ev == [100 + i for i in range(len(tags))], "worker did not evaluate each task once", got=ev, tags=tags)
            rep.check(sent == [((100 + i) * 2, 0, t) for i, t in enumerate(tags)], "worker did not answer the master with the task's tag", got=sent, tags=tags)
            rep.check(not msgs, "worker quit early", tags=tags)

    def misc(rep):
        class One(MasterComm):
            pass
        try:
            par.MPIPool(comm=MasterComm(1, lambda n: 0))
            rep.fail("a pool with a single process was accepted")
        except ValueError:
            rep.case("single")
        comm = MasterComm(4, lambda n: 0)
        with par.MPIPool(comm=comm) as p:
            rep.check(p.size == 3, "number of workers", got=p.size)
            out = p.map(lambda v: v + 1, (i for i in range(5)))
        rep.check(list(out) == [1, 2, 3, 4, 5] and sorted(set(comm.quit)) == [1, 2, 3], "context manager", got=(out, comm.quit))

    for n, f in (("exhaustive", exhaustive), ("random", rand), ("worker", worker), ("misc", misc)):
        rep.run(n, lambda rep, f=f: with_mpi(lambda: f(rep)))
