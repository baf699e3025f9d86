"""pathlib, os, open and dill over a ghost file system.

The ghost state maps a path to (content, on_disk): content is 'absent', 'old', 'partial' or ('pickle', object); on_disk says that the
bytes were forced to disk.  Every operation may fail with OSError unless told otherwise."""
from .term import *  # noqa
from .values import *  # noqa
from .interp import PathVal, path_key, AttrsDict
from .npmodel import arg


def flat(k):
    """Normal form of a path key: concatenations flattened, siblings recognised."""
    if isinstance(k, tuple) and k and k[0] == "fstr":
        out = []
        for p in k[1:]:
            p = flat(p)
            ps = list(p[1:]) if isinstance(p, tuple) and p and p[0] == "fstr" else [p]
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != "":
                    out.append(q)
        if len(out) == 1:
            return out[0]
        if out and all(isinstance(o, str) for o in out):
            return "".join(out)
        return ("fstr",) + tuple(out)
    if isinstance(k, tuple) and k and k[0] == "/":
        a, b = flat(k[1]), flat(k[2])
        if isinstance(a, tuple) and a[0] == "parent":
            return flat(("sib", a[1], b))
        return ("/", a, b)
    if isinstance(k, tuple) and k and k[0] == "sib":
        a, b = flat(k[1]), flat(k[2])
        return a if b == ("name", a) else ("sib", a, b)
    return k


def distinct(a, b):
    """Two paths surely differ (True), are the same (False), or None."""
    a, b = flat(a), flat(b)
    if a == b:
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, tuple) and x[0] == "sib" and x[1] == y:
            n = x[2]
            if isinstance(n, tuple) and n[0] == "fstr" and ("name", y) in n and any(isinstance(p, str) for p in n[1:]):
                return True
        if isinstance(x, tuple) and x[0] == "fstr" and y in x[1:] and len(x) > 2 and any(isinstance(p, str) for p in x[1:]):
            return True
    return None


class FileVal:
    def __init__(self, fs, key, mode):
        self.fs, self.key, self.mode = fs, key, mode

    def pyattr(self, E, ctx, name):
        fs = self.fs
        if name == "flush":
            return Model("flush", lambda c, a, kw: fs.flush(c, self))
        if name == "fileno":
            return Model("fileno", lambda c, a, kw: Opaque("fd", file=self))
        if name == "close":
            return Model("close", lambda c, a, kw: fs.close(c, self))
        if name == "name":
            return PathVal(self.key)
        if name == "closed":
            return fs.st.attrs["files"].get(self.key, {}).get("closed", False)
        return NotImplemented


class FS:
    def __init__(self, E, on_change=None, fails=True):
        self.E = E
        self.st = ObjVal(None, dict(files={}, failed=False, loads=0))
        self.on_change = on_change
        self.fails = fails
        self.loaded = None
        self.opened = []

    # files: key -> dict(content=, flushed=, synced=)
    def get(self, key):
        return self.st.attrs["files"].get(flat(key), dict(content="other", flushed=True, synced=True))

    def put(self, ctx, key, what, **kw):
        key = flat(key)
        f = dict(self.st.attrs["files"])
        f[key] = dict(self.get(key), **kw)
        ctx.set(self.st, "attrs", dict(self.st.attrs, files=f))
        if self.on_change:
            self.on_change(ctx, key, what)

    def drop(self, ctx, key, what):
        key = flat(key)
        f = dict(self.st.attrs["files"])
        f[key] = dict(content="absent", flushed=True, synced=True)
        ctx.set(self.st, "attrs", dict(self.st.attrs, files=f))
        if self.on_change:
            self.on_change(ctx, key, what)

    def may_fail(self, ctx, what):
        if self.fails and ctx.branch(ctx.fbool("fails_" + what)):
            ctx.set(self.st, "attrs", dict(self.st.attrs, failed=True))
            raise PyExc(self.E.exc("OSError"), (what,))

    def open(self, ctx, a, kw):
        key = flat(path_key(arg(a, kw, 0, "file")))
        mode = arg(a, kw, 1, "mode", "r")
        self.may_fail(ctx, "open")
        f = FileVal(self, key, mode)
        if "r" in mode and "+" not in mode:
            self.opened.append(key)
            return f
        if "a" in mode or "+" in mode:
            raise Unsupported("open(%r)" % mode)
        if "x" in mode and self.get(key)["content"] != "absent":
            raise Unsupported("open(%r)" % mode)
        self.put(ctx, key, "opened for writing", content="partial", flushed=True, synced=False)
        return f

    def dump(self, ctx, a, kw):
        obj, f = arg(a, kw, 0, "obj"), arg(a, kw, 1, "file")
        if not isinstance(f, FileVal):
            raise Unsupported("dump to %r" % (f,))
        self.put(ctx, f.key, "being written", content="partial", flushed=False, synced=False)
        self.may_fail(ctx, "write")
        snap = dict(obj.d) if isinstance(obj, PyDict) else dict(obj.obj.attrs) if isinstance(obj, AttrsDict) else obj
        self.put(ctx, f.key, "written", content=("pickle", snap), flushed=False, synced=False)

    def load(self, ctx, a, kw):
        f = arg(a, kw, 0, "file")
        if not isinstance(f, FileVal) or self.loaded is None:
            raise Unsupported("load from %r" % (f,))
        self.may_fail(ctx, "read")
        return self.loaded(ctx, f.key)

    def flush(self, ctx, f):
        self.may_fail(ctx, "flush")
        self.put(ctx, f.key, "flushed", flushed=True)

    def close(self, ctx, f):
        if "r" not in f.mode:
            self.put(ctx, f.key, "closed", flushed=True)

    def fsync(self, ctx, a, kw):
        fd = a[0]
        if isinstance(fd, Opaque) and fd.name == "fd":
            fd = fd.kw["file"]
        if not isinstance(fd, FileVal):
            if isinstance(fd, Opaque) and fd.name == "dirfd":
                return None
            raise Unsupported("fsync(%r)" % (fd,))
        self.may_fail(ctx, "fsync")
        if self.get(fd.key)["flushed"]:
            self.put(ctx, fd.key, "forced to disk", synced=True)

    def rename(self, ctx, a, kw):
        s, t = flat(path_key(a[0])), flat(path_key(arg(a, kw, 1, "dst") if len(a) > 1 or "dst" in kw else kw["target"]))
        self.may_fail(ctx, "rename")
        self.put(ctx, t, "replaced", **self.get(s))
        self.drop(ctx, s, "moved away")

    def remove(self, ctx, a, kw):
        key = flat(path_key(a[0]))
        self.may_fail(ctx, "remove")
        self.drop(ctx, key, "removed")


def path_attr(E, p, name):
    fs = E.__dict__.get("fs")
    k = p.key
    if name == "name":
        return Opaque("pathname", key=("name", flat(k)))
    if name == "parent":
        return PathVal(("parent", flat(k)))
    if name == "with_name":
        return Model("with_name", lambda c, a, kw: PathVal(flat(("sib", k, path_key(a[0])))))
    if name == "with_suffix":
        return Model("with_suffix", lambda c, a, kw: PathVal(("suffix", flat(k), path_key(a[0]))))
    if name == "joinpath":
        return Model("joinpath", lambda c, a, kw: PathVal(flat(("/", k, path_key(a[0])))))
    if name in ("mkdir", "touch") and fs is not None and name == "mkdir":
        def mkdir(c, a, kw):
            fs.may_fail(c, "mkdir")
        return Model("mkdir", mkdir)
    if name == "open" and fs is not None:
        return Model("open", lambda c, a, kw: fs.open(c, [p] + list(a), kw))
    if name in ("rename", "replace") and fs is not None:
        return Model(name, lambda c, a, kw: fs.rename(c, [p] + list(a), kw))
    if name == "unlink" and fs is not None:
        return Model(name, lambda c, a, kw: fs.remove(c, [p], kw))
    if name in ("exists", "is_file", "is_dir"):
        return Model(name, lambda c, a, kw: c.fbool("exists"))
    if name in ("resolve", "absolute", "expanduser"):
        raise Unsupported("Path.%s" % name)
    return NotImplemented


PathVal.pyattr = lambda self, E, ctx, name: path_attr(E, self, name)


def need(E):
    fs = E.__dict__.get("fs")
    if fs is None:
        raise Unsupported("file access without a file system contract")
    return fs


def install(E):
    E.extmods["pathlib"] = ModVal("pathlib", lambda n: Model("Path", lambda c, a, kw: PathVal(flat(path_key(a[0])))) if n in ("Path", "PurePath") else Poison("pathlib." + n))
    op = ModVal("os.path", lambda n: {"join": Model("join", lambda c, a, kw: PathVal(flat(("/", path_key(a[0]), path_key(a[1]))))),
                                      "dirname": Model("dirname", lambda c, a, kw: PathVal(("parent", flat(path_key(a[0]))))),
                                      "exists": Model("exists", lambda c, a, kw: c.fbool("exists"))}.get(n) or Poison("os.path." + n))
    tbl = {"rename": Model("os.rename", lambda c, a, kw: need(E).rename(c, a, kw)), "replace": Model("os.replace", lambda c, a, kw: need(E).rename(c, a, kw)),
           "fsync": Model("os.fsync", lambda c, a, kw: need(E).fsync(c, a, kw)), "remove": Model("os.remove", lambda c, a, kw: need(E).remove(c, a, kw)),
           "unlink": Model("os.unlink", lambda c, a, kw: need(E).remove(c, a, kw)), "fspath": Model("os.fspath", lambda c, a, kw: a[0]),
           "makedirs": Model("os.makedirs", lambda c, a, kw: need(E).may_fail(c, "mkdir")), "mkdir": Model("os.mkdir", lambda c, a, kw: need(E).may_fail(c, "mkdir")), "path": op}
    E.extmods["os"] = ModVal("os", lambda n: tbl.get(n) or Poison("os." + n))
    E.extmods["os.path"] = op
    dl = {"dump": Model("dill.dump", lambda c, a, kw: need(E).dump(c, a, kw)), "load": Model("dill.load", lambda c, a, kw: need(E).load(c, a, kw))}
    for m in ("dill", "pickle"):
        E.extmods[m] = ModVal(m, lambda n: dl.get(n) or Poison("dill." + n))
    E.builtins["open"] = Model("open", lambda c, a, kw: need(E).open(c, a, kw))
    torch = {"no_grad": Model("torch.no_grad", lambda c, a, kw: Opaque("nullcontext")), "inference_mode": Model("torch.inference_mode", lambda c, a, kw: Opaque("nullcontext"))}
    E.torchtbl = torch
    E.extmods["torch"] = ModVal("torch", lambda n: torch[n] if n in torch else Poison("torch.%s is not modelled" % n))
