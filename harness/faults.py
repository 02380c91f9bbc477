"""Crashes and I/O errors at every point of an operation of the real code.

The operation runs in a forked child.  A crash is os._exit at the n-th call of a
C function (so Python's own buffers are lost like in a killed process) or a kill
by the kernel in the middle of a write (file size limit, SIGXFSZ); an I/O error
is an OSError raised at the n-th audited file-system event or EFBIG from a write
beyond the limit.  Everything happens in scratch directories.
"""
import os
import resource
import signal
import sys

FS_EVENTS = ("open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.listdir",
             "os.scandir", "os.truncate", "os.link", "os.symlink", "os.chmod", "os.utime",
             "shutil.rmtree", "shutil.move", "shutil.copyfile", "tempfile.mkstemp")


def _child(f):
    """Run f in a forked child; returns (how it ended, what it reported)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            res = f()
            os.write(w, str(res).encode())
        except BaseException as x:      # noqa: B902
            try:
                os.write(w, ("exc:" + type(x).__name__ + ":" + str(x)[:200]).encode())
            except Exception:
                pass
            code = 3
        os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return st, data.decode()


class _Counter:
    def __init__(self, at=None):
        self.n = 0
        self.at = at

    def profile(self, frame, event, arg):
        if event == "c_call":
            self.n += 1
            if self.n == self.at:
                os._exit(77)


class _Audit:
    def __init__(self, at=None):
        self.n, self.at, self.on = 0, at, False

    def hook(self, name, args):
        if self.on and name in FS_EVENTS:
            if name == "open" and (isinstance(args[0], int) or str(args[0]).endswith((".py", ".pyc", ".so"))):
                return
            self.n += 1
            if self.n == self.at:
                raise OSError(28, "No space left on device (injected at %s)" % name)


def count_points(prep, act, kinds):
    obj = prep()

    def f():
        if kinds == "call":
            c = _Counter()
            sys.setprofile(c.profile)
            try:
                act(obj)
            finally:
                sys.setprofile(None)
            return c.n
        a = _Audit()
        sys.addaudithook(a.hook)
        a.on = True
        try:
            act(obj)
        finally:
            a.on = False
        return a.n
    st, out = _child(f)
    if not out.isdigit():
        raise RuntimeError("cannot count the points of an operation: " + out)
    return int(out)


def run_crash(obj, act, k):
    """True if the child died at point k."""
    def f():
        c = _Counter(k)
        sys.setprofile(c.profile)
        act(obj)
        sys.setprofile(None)
        return "done"
    st, out = _child(f)
    return os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77


def run_fault(obj, act, k):
    def f():
        a = _Audit(k)
        sys.addaudithook(a.hook)
        a.on = True
        try:
            return act(obj)
        finally:
            a.on = False
    st, out = _child(f)
    return out or "died"


def run_limit(obj, act, k, kill):
    """Limit every file the child writes to k bytes."""
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
        return act(obj)
    st, out = _child(f)
    if os.WIFSIGNALED(st):
        return "crash"
    return out or "died"
