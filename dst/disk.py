"""A disk under the simulator's control: every open, write and close of the files below a directory, by whatever
program code, goes through here, and may fail, be cut short, or be the last thing the process does."""
import builtins
import contextlib
import errno
import io
import os

from .world import Crash

ERRNO = dict(enospc=errno.ENOSPC, eio=errno.EIO, eacces=errno.EACCES, emfile=errno.EMFILE, edquot=errno.EDQUOT)


class Disk:
    """plan: [dict(op="open"|"write"|"close", n=.., kind=.., keep=..)]; op and n say which call is hit"""

    def __init__(self, root, plan=(), fire=None):
        self.root = os.path.realpath(root)
        self.plan = {(p["op"], p["n"]): p for p in plan}
        self.counts = {}
        self.fired = []
        self.dead = False
        self.fire = fire
        self.reads = any(p["op"] == "read" for p in plan)

    def owns(self, path):
        return isinstance(path, (str, bytes, os.PathLike)) and \
            os.path.realpath(os.fspath(path)).startswith(self.root + os.sep)

    def meet(self, op):
        n = self.counts.get(op, 0)
        self.counts[op] = n + 1
        return self.plan.get((op, n))

    def hit(self, op, f):
        self.fired.append((op, f["n"], f["kind"]))
        if self.fire:
            self.fire(f"{op}:{f['kind']}")

    def die(self):
        self.dead = True
        raise Crash("disk")

    def fail(self, f, path):
        if f["kind"] == "crash":
            self.die()
        raise OSError(ERRNO[f["kind"]], os.strerror(ERRNO[f["kind"]]), path)

    @contextlib.contextmanager
    def mounted(self):
        real = builtins.open

        def fake(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not self.owns(file):
                return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if not any(c in mode for c in "wax+"):
                f = self.meet("ropen")
                if f is not None:
                    self.hit("ropen", f)
                    self.fail(f, file)
                if buffering == 0 or self.reads:
                    raw = Reader(self, os.fspath(file))
                    if buffering == 0:
                        return raw
                    buf = io.BufferedReader(raw, 512)
                    return buf if "b" in mode else io.TextIOWrapper(buf, encoding, errors, newline)
                return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
            f = self.meet("open")
            if f is not None and f["kind"] != "short":
                self.hit("open", f)
                self.fail(f, file)
            raw = Raw(self, os.fspath(file), mode.replace("t", "").replace("b", ""))
            if buffering == 0:
                return raw
            buf = (io.BufferedRandom if "+" in mode else io.BufferedWriter)(raw)
            if "b" in mode:
                return buf
            return io.TextIOWrapper(buf, encoding, errors, newline)
        builtins.open = fake
        try:
            yield self
        finally:
            builtins.open = real


class Raw(io.FileIO):
    def __init__(self, disk, path, mode):
        super().__init__(path, mode)
        self.disk = disk
        self.path = path
        self.next = None

    def write(self, b):
        if self.disk.dead:
            return len(b)            # nothing a dead process does has an effect
        if self.next is not None:
            f, self.next = self.next, None if self.next["kind"] == "eio" else self.next
            self.disk.hit("write", f)
            self.disk.fail(f, self.path)
        f = self.disk.meet("write")
        if f is None:
            return super().write(b)
        b = bytes(b)
        k = f.get("keep", 0) % (len(b) + 1)
        if f["kind"] == "short":
            self.disk.hit("write", f)
            return super().write(b[:max(1, k)])
        if f["kind"] == "crash":
            if k:
                super().write(b[:k])
            self.disk.hit("write", f)
            self.disk.die()
        # the system accepts a part, and reports the error at the next call; a full disk stays full
        self.next = f
        return super().write(b[:k]) if k else self.write(b)

    def truncate(self, size=None):
        if self.disk.dead:
            return size
        f = self.disk.meet("truncate")
        if f is not None and f["kind"] != "short":
            self.disk.hit("truncate", f)
            self.disk.fail(f, self.path)
        return super().truncate(size)

    def close(self):
        if self.closed or self.disk.dead:
            return super().close()
        f = self.disk.meet("close")
        super().close()
        if f is not None and f["kind"] != "short":
            self.disk.hit("close", f)
            self.disk.fail(f, self.path)


class Reader(io.FileIO):
    def __init__(self, disk, path):
        super().__init__(path, "r")
        self.disk = disk
        self.path = path

    def _fault(self):
        f = self.disk.meet("read")
        if f is not None:
            self.disk.hit("read", f)
            if f["kind"] != "short":
                self.disk.fail(f, self.path)
        return f

    def readinto(self, b):
        f = self._fault()
        if f is None:
            return super().readinto(b)
        n = max(1, f.get("keep", 1) % max(1, len(b)))
        return super().readinto(memoryview(b)[:n])      # fewer bytes than asked for

    def read(self, n=-1):
        self._fault()
        return super().read(n)

    def readall(self):
        self._fault()
        return super().readall()
