"""The file system as the code under test sees it.

Files of a run exist in a scratch directory, and what opening and reading
them delivers is decided by the plan: sizes of reads, errors at any read, at
opening, at closing and at looking the file up, another version of the file at
each open.  Streams are the real buffered reader and text decoder of Python on
top of a raw stand-in.  Nothing can be written: attempts are recorded and
refused.
"""
import builtins
import errno
import io
import os
import shutil
import sys
import tempfile

ERR = {"EIO": errno.EIO, "ENOENT": errno.ENOENT, "EACCES": errno.EACCES,
       "EMFILE": errno.EMFILE, "ENFILE": errno.ENFILE, "ESTALE": errno.ESTALE,
       "EISDIR": errno.EISDIR, "ENOMEM": errno.ENOMEM, "ELOOP": errno.ELOOP,
       "ENODEV": errno.ENODEV, "EINTR": errno.EINTR}

WRITE_EVENTS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chmod",
                "os.chown", "os.truncate", "os.utime", "os.link",
                "os.symlink", "os.setxattr", "os.removexattr", "os.mknod",
                "shutil.rmtree", "shutil.copyfile", "shutil.move",
                "shutil.copymode", "shutil.copystat", "shutil.copytree",
                "shutil.make_archive", "tempfile.mkstemp", "tempfile.mkdtemp",
                "subprocess.Popen", "os.system", "os.exec", "os.posix_spawn",
                "os.fork", "os.forkpty", "socket.connect", "sqlite3.connect",
                "os.chflags"}


class _Raw(io.RawIOBase):
    """Bytes of one opened file."""

    def __init__(self, disk, path, data, plan):
        super().__init__()
        self._disk = disk
        self._path = path
        self._data = data
        self._pos = 0
        self._n = 0              # number of read calls so far
        self._plan = plan
        self._chunks = list(plan.get("chunks", []))
        self._intr = dict.fromkeys(plan.get("eintr", []), 1)
        self.name = path
        self.mode = "rb"

    def readable(self):
        return True

    def seekable(self):
        return not self._plan.get("pipe", False)

    def tell(self):
        if self._plan.get("pipe"):
            raise OSError(errno.ESPIPE, "Illegal seek")
        return self._pos

    def seek(self, pos, whence=0):
        if self._plan.get("pipe"):
            raise OSError(errno.ESPIPE, "Illegal seek")
        base = {0: 0, 1: self._pos, 2: len(self._data)}[whence]
        self._pos = max(0, base + pos)
        return self._pos

    def isatty(self):
        return False

    def readinto(self, buf):
        self._n += 1
        err = self._plan.get("read_err")
        if err is not None:
            here = ("call" in err and self._n >= err["call"]
                    or "at" in err and self._pos >= err["at"])
            if here:
                self._disk.hit("read", err["do"])
                self._disk.raise_it(err["do"], self._path)
        if self._intr.pop(self._n, None):
            self._disk.world.fault("read interrupted EINTR")
            raise InterruptedError(errno.EINTR, "Interrupted system call")
        n = len(buf)
        if self._chunks:
            n = min(n, max(1, self._chunks[(self._n - 1)
                                           % len(self._chunks)]))
            self._disk.world.fault("short read")
        if err is not None and "at" in err:
            n = min(n, max(0, err["at"] - self._pos))
        got = self._data[self._pos:self._pos + n]
        buf[:len(got)] = got
        self._pos += len(got)
        return len(got)

    def close(self):
        if self.closed:
            return
        super().close()
        err = self._plan.get("close_err")
        if err is not None:
            self._disk.hit("close", err)
            self._disk.raise_it(err, self._path)


class Disk:
    """Registered files and the faults in force."""

    def __init__(self, world, root):
        self.world = world
        self.root = root         # exists, and is removed by the coordinator
        self.data = {}           # path -> list of versions (bytes or None)
        self.plans = {}          # path -> list of plans of successive opens
        self.opens = {}          # path -> number of opens since arm()
        self.handles = []        # (path, every stream object of that open)
        self.fired = []          # faults that fired since arm()
        self.writes = []         # attempts to change something
        self.delivered = []      # (path, bytes) per open since arm()
        self.watch = False       # a load is being executed
        self._stat_err = None
        self.virtual = {}        # path outside the scratch directory -> twin
        self._open = io.open
        self._stat = os.stat

    # -- set up ------------------------------------------------------------
    def path(self, name):
        return os.path.join(self.root, name)

    def put(self, path, versions, twin=None):
        """Register versions of a file; None is a missing file."""
        path = os.path.abspath(path)
        self.data[path] = list(versions)
        real = path
        if twin is not None:
            real = self.path(twin)
            self.virtual[path] = real
        first = versions[0]
        if first is None:
            if os.path.exists(real):
                os.unlink(real)
            return
        with self._open(real, "wb") as f:
            f.write(first)
        os.utime(real, (1000000000, 1000000000))

    def arm(self, plans=None, stat_err=None):
        """Set faults; plans: path -> list of plans of successive opens."""
        self.plans = {os.path.abspath(k): v for k, v in (plans or {}).items()}
        self.opens = {}
        self.fired = []
        self.writes = []
        self.delivered = []
        self.handles = []
        self._stat_err = stat_err

    def hit(self, where, what):
        self.fired.append((where, what))
        self.world.fault(f"{where} {what}")

    @staticmethod
    def raise_it(do, path):
        if do in ERR:
            raise OSError(ERR[do], os.strerror(ERR[do]), path)
        raise {"MemoryError": MemoryError, "KeyboardInterrupt":
               KeyboardInterrupt, "TimeoutError": TimeoutError,
               "ValueError": ValueError, "EOFError": EOFError}[do](
                   "injected while reading")

    # -- what the code under test calls --------------------------------------
    def _find(self, file):
        if isinstance(file, int) or not self.watch:
            return None
        try:
            name = os.fsdecode(os.fspath(file))
        except TypeError:
            return None
        path = os.path.abspath(name)
        return path if path in self.data else None

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        """Replacement of the built-in open."""
        if self.watch and any(c in mode for c in "wax+"):
            self.writes.append(f"open {file!r} mode {mode}")
            raise OSError(errno.EROFS, os.strerror(errno.EROFS), str(file))
        path = self._find(file)
        if path is None:
            f = self._open(file, mode, buffering, encoding, errors, newline,
                           closefd, opener)
            if self.watch:
                self.handles.append((str(file), [f]))
            return f
        k = self.opens.get(path, 0)
        self.opens[path] = k + 1
        plans = self.plans.get(path, [])
        plan = plans[min(k, len(plans) - 1)] if plans else {}
        if plan.get("open_err"):
            self.hit("open", plan["open_err"])
            self.raise_it(plan["open_err"], path)
        vers = self.data[path]
        data = vers[min(k, len(vers) - 1)]
        if data is None:
            self.hit("open", "ENOENT")
            self.raise_it("ENOENT", path)
        self.delivered.append((path, data))
        raw = _Raw(self, path, data, plan)
        streams = [raw]
        self.handles.append((path, streams))
        if "b" in mode and buffering == 0:
            return raw
        size = plan.get("buffer", 8192 if buffering in (-1, 1) else buffering)
        buf = io.BufferedReader(raw, size)
        streams.append(buf)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline,
                                buffering == 1)
        text.mode = mode
        streams.append(text)
        return text

    def stat(self, path, *args, **kw):
        """Replacement of os.stat."""
        found = None
        if not isinstance(path, int) and kw.get("dir_fd") is None:
            found = self._find(path)
        if found is None:
            return self._stat(path, *args, **kw)
        if self._stat_err:
            self.hit("stat", self._stat_err)
            self.raise_it(self._stat_err, found)
        if self.data[found][0] is None:
            self.raise_it("ENOENT", found)
        return self._stat(self.virtual.get(found, found), *args, **kw)

    def _audit(self, event, args):
        if not self.watch:
            return
        if event == "open":
            path, mode, flags = args
            writing = (isinstance(flags, int) and flags & (
                os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC
                | os.O_APPEND)) or (isinstance(mode, str)
                                    and any(c in mode for c in "wax+"))
            if writing:
                self.writes.append(f"open {path!r} {mode} {flags}")
                raise OSError(errno.EROFS, "read-only file system")
        elif event in WRITE_EVENTS:
            self.writes.append(f"{event} {args!r}"[:200])
            raise OSError(errno.EROFS, "read-only file system")

    def install(self):
        """Patch this process."""
        builtins.open = self.open
        io.open = self.open
        os.stat = self.stat
        sys.addaudithook(self._audit)
        return self

    # -- afterwards ----------------------------------------------------------
    def open_handles(self):
        """Return paths of files which are still open."""
        return [p for p, streams in self.handles
                if not all(s.closed for s in streams)]

    def snapshot(self):
        """Return what is in the scratch directory."""
        out = []
        for base, dirs, names in sorted(os.walk(self.root)):
            dirs.sort()
            for n in sorted(names + dirs):
                p = os.path.join(base, n)
                st = self._stat(p)
                out.append((os.path.relpath(p, self.root), st.st_size,
                            st.st_mode, st.st_mtime_ns))
        return out


def scratch(fn):
    """Return fn(path of a scratch directory), which is removed afterwards."""
    root = tempfile.mkdtemp(prefix="ibl-sim-")
    try:
        return fn(root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
