"""Obligations and units in forked processes, at most `slots` at work at a time."""
import os, pickle, sys

_js = None          # (read end, write end) of the token pipe
_held = False


def start(slots):
    global _js, _held
    _js = os.pipe()
    os.write(_js[1], b"t" * slots)
    _held = False


def on():
    return _js is not None


def acquire():
    global _held
    if _js and not _held:
        os.read(_js[0], 1)
        _held = True


def release():
    global _held
    if _js and _held:
        os.write(_js[1], b"t")
        _held = False


class Task:
    """fn() in a child process; its picklable result is read by get()."""

    def __init__(self, fn, group=False):
        global _held
        r, w = os.pipe()
        sys.stdout.flush(), sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(r)
                _held = False
                if group:
                    os.setpgid(0, 0)
                acquire()
                data = pickle.dumps(fn())
                release()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                try:
                    release()
                finally:
                    os._exit(code)
        os.close(w)
        self.r, self.group = r, group

    def get(self, deadline=None):
        """The result; None when the child died or the deadline has passed."""
        if deadline is not None:
            import select, signal, time
            while not select.select([self.r], [], [], max(0.0, min(5.0, deadline - time.time())))[0]:
                if time.time() >= deadline:
                    (os.killpg if self.group else os.kill)(self.pid, signal.SIGKILL)
                    os.waitpid(self.pid, 0)
                    return None
        with os.fdopen(self.r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(self.pid, 0)
        if os.WIFSIGNALED(st) and _js:
            os.write(_js[1], b"t")         # its token died with it
        try:
            return pickle.loads(data) if data else None
        except Exception:
            return None


def split():
    """Fork the exploration: True in the new process (which waits for a slot), a Task-like handle in the old one."""
    global _held
    r, w = os.pipe()
    sys.stdout.flush(), sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _held = False
        acquire()
        return True, w
    os.close(w)
    t = Task.__new__(Task)
    t.pid, t.r, t.group = pid, r, False
    return False, t


def deliver(w, obj):
    """End of a split-off process: hand over its result."""
    code = 1
    try:
        data = pickle.dumps(obj)
        release()
        with os.fdopen(w, "wb") as f:
            f.write(data)
        code = 0
    finally:
        os._exit(code)
