"""The storage seam: every call that could touch a file below the scratch directory goes through
here, is counted, may fail the way storage fails, and is journalled so that the states a power loss
could leave can be computed. The scratch directory itself is real."""
import builtins
import errno
import hashlib
import io
import os
import stat

from .steps import S


class SimCrash(BaseException):
    """The simulated process is gone; nothing it does has an effect any more."""


class Node:
    def __init__(self, data=b""):
        self.base = bytes(data)  # on the platter
        self.pend = []  # writes and truncations not known to be there
        self.lost = False  # a failed fsync: pending data may be gone for good
        self.failed = None

    def apply(self, base, ops):
        d = bytearray(base)
        for o in ops:
            if o[0] == "t":
                if len(d) > o[1]:
                    del d[o[1]:]
                else:
                    d.extend(b"\0" * (o[1] - len(d)))
            else:
                off, b = o[1], o[2]
                if len(d) < off:
                    d.extend(b"\0" * (off - len(d)))
                d[off:off + len(b)] = b
        return bytes(d)

    def states(self):
        """Contents a power loss can leave."""
        out = {self.apply(self.base, self.pend): "all written"}
        out.setdefault(self.base, "nothing since the last fsync")
        for i, o in enumerate(self.pend):
            d = self.apply(self.base, self.pend[:i])
            out.setdefault(d, f"first {i} changes")
            if o[0] == "w":
                h = len(o[2]) // 2
                out.setdefault(self.apply(d, [("w", o[1], o[2][:h])]), f"change {i} torn")
                out.setdefault(self.apply(d, [("w", o[1], b"\0" * len(o[2]))]), f"size but not data of change {i}")
        return out

    def sync(self):
        if self.lost:
            return
        self.base = self.apply(self.base, self.pend)
        self.pend = []


class FS:
    def __init__(self):
        self.root = None
        self.reset()

    def reset(self):
        self.nodes = {}  # ino -> Node
        self.names = {}  # durable: path -> Node | ("link", target)
        self.journal = []  # metadata changes not known to be durable
        self.fds = {}  # fd -> [path, Node or None for directories, append]
        self.count = 0
        self.trace = None
        self.faults = []
        self.fired = []
        self.full = False
        self.dead = False
        self.after = None
        self.enc = None
        self.short = None
        self.busy = False
        self.lastname = None
        self.rnd = 0

    # ------------------------------------------------------------------ set-up
    def start(self, root):
        self.reset()
        self.root = os.path.realpath(root)
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.islink(p):
                    self.names[p] = ("link", os.readlink(p))
                elif os.path.isfile(p):
                    ino = _stat(p).st_ino
                    if ino not in self.nodes:
                        with _open(p, "rb") as h:
                            self.nodes[ino] = Node(h.read())
                    self.names[p] = self.nodes[ino]

    def stop(self):
        self.root = None

    def owns(self, p):
        if self.root is None or self.busy:
            return False
        if isinstance(p, int):
            return p in self.fds
        try:
            q = os.path.abspath(os.fsdecode(p))
        except TypeError:
            return False
        if q == self.root or q.startswith(self.root + "/"):
            return True
        return False

    def path(self, p):
        return os.path.abspath(os.fsdecode(p))

    # ------------------------------------------------------------------ one system call
    def sys(self, name, path=None, fd=None):
        """Before the call takes effect."""
        if self.dead:
            raise SimCrash()
        S.count += 1
        if S.count >= S.next:
            S.slow(None, name)
        if self.dead:
            raise SimCrash()
        k = self.count
        self.count += 1
        self.lastname = name
        if self.trace is not None:
            self.trace.append(name)
        self.short = None
        self.post = None
        for f in self.faults:
            if "call" in f:  # the n-th call of a kind, and if it lasts all later ones
                if name != f["call"]:
                    continue
                f["seen"] = f.get("seen", 0) + 1
                if f["seen"] <= f["n"] or f["seen"] > f["n"] + 1 and not f.get("lasting"):
                    continue
            elif f["k"] != k:
                continue
            if f["kind"] == "crash":
                self.fired.append("crash")
                self.dead = True
                raise SimCrash()
            if f["kind"] == "exc":
                self.fired.append("interrupt " + f.get("when", "before"))
                if f.get("when") == "after":
                    self.post = f["exc"]
                else:
                    raise f["exc"]
            if f["kind"] == "short" and name == "write":
                self.fired.append("short write")
                self.short = f.get("part", 0.5)
                if f.get("full"):
                    self.full = True
            if f["kind"] == "err":
                e = f["err"]
                self.fired.append(f"{name} {e}")
                if f.get("sticky") and e in ("ENOSPC", "EDQUOT"):
                    self.full = True
                self.fail(name, e, path, fd)
        if self.full and name in ("write", "create"):
            self.fired.append(f"{name} ENOSPC (still full)")
            self.fail(name, "ENOSPC", path, fd)

    def fail(self, name, e, path, fd):
        if fd is not None and fd in self.fds and self.fds[fd][1] is not None:
            n = self.fds[fd][1]
            if name == "fsync":
                n.lost = True
                n.failed = "fsync"
            if name == "close":
                n.failed = "close"
        if name == "close" and fd is not None:
            self.fds.pop(fd, None)
            _close(fd)
        self.done()
        raise OSError(getattr(errno, e), os.strerror(getattr(errno, e)), path)

    def done(self):
        """After the call took effect."""
        if self.after and not self.dead:
            self.busy = True
            try:
                self.after()
            finally:
                self.busy = False
        p, self.post = self.__dict__.get("post"), None
        if p is not None:
            raise p

    # ------------------------------------------------------------------ crash states
    def disks(self, limit=400):
        """(directory, description) pairs a power loss now could leave; a directory maps path ->
        Node or link."""
        for m in range(len(self.journal), -1, -1):
            d = dict(self.names)
            for j in self.journal[:m]:
                if j[0] == "set":
                    d[j[1]] = j[2]
                elif j[0] == "del":
                    d.pop(j[1], None)
                else:
                    if j[1] in d:
                        d[j[2]] = d.pop(j[1])
            yield d, f"{m} of {len(self.journal)} directory changes"

    def lookup(self, d, p, n=0):
        x = d.get(p)
        if isinstance(x, tuple) and n < 5:
            return self.lookup(d, os.path.normpath(os.path.join(os.path.dirname(p), x[1])), n + 1)
        return x

    def losses(self, p):
        """(content or None, description) of file p after a power loss now."""
        seen = set()
        for d, what in self.disks():
            x = self.lookup(d, p)
            if x is None:
                if None not in seen:
                    seen.add(None)
                    yield None, what
                continue
            for c, w in x.states().items():
                if c not in seen:
                    seen.add(c)
                    yield c, what + ", " + w

    def node(self, path):
        return self.nodes.get(_stat(path).st_ino)


F = FS()
_open = io.open
_os = {}
_stat, _lstat, _close = os.stat, os.lstat, os.close


def R(name):
    return _os[name]


def sim_osopen(path, flags, mode=0o777, *, dir_fd=None):
    if dir_fd is not None or not F.owns(path):
        return R("open")(path, flags, mode, dir_fd=dir_fd)
    p = F.path(path)
    real = os.path.realpath(p)
    exists = os.path.exists(real)
    creating = bool(flags & os.O_CREAT) and not exists
    F.sys("create" if creating else ("open" if not flags & os.O_TRUNC else "truncate"), p)
    fd = R("open")(path, flags, mode)
    st = os.fstat(fd)
    if stat.S_ISREG(st.st_mode):
        if creating:
            F.nodes[st.st_ino] = Node()  # (inode numbers may be re-used)
            F.journal.append(("set", real, F.nodes[st.st_ino]))
        n = F.nodes.setdefault(st.st_ino, Node())
        if flags & os.O_TRUNC and not creating:
            n.pend.append(("t", 0))
        F.fds[fd] = [p, n, bool(flags & os.O_APPEND)]
    else:
        F.fds[fd] = [p, None, False]
    F.done()
    return fd


def sim_write(fd, data):
    if F.root is None or fd not in F.fds:
        return R("write")(fd, data)
    p, n, app = F.fds[fd]
    F.sys("write", p, fd)
    b = bytes(data)
    if F.short is not None and len(b) > 1:
        b = b[:max(1, min(len(b) - 1, int(len(b) * F.short)))]
    off = os.fstat(fd).st_size if app else R("lseek")(fd, 0, os.SEEK_CUR)
    i = 0
    while i < len(b):
        i += R("write")(fd, b[i:])
    if n is not None:
        n.pend.append(("w", off, b))
    F.done()
    return len(b)


def sim_pwrite(fd, data, offset, *a):
    if F.root is None or fd not in F.fds:
        return R("pwrite")(fd, data, offset, *a)
    p, n, app = F.fds[fd]
    F.sys("write", p, fd)
    b = bytes(data)
    if F.short is not None and len(b) > 1:
        b = b[:max(1, int(len(b) * F.short))]
    k = R("pwrite")(fd, b, offset)
    if n is not None:
        n.pend.append(("w", offset, b[:k]))
    F.done()
    return k


def sim_writev(fd, bufs):
    if F.root is None or fd not in F.fds:
        return R("writev")(fd, bufs)
    return sim_write(fd, b"".join(bytes(b) for b in bufs))


def sim_close(fd):
    if F.root is None or fd not in F.fds:
        return R("close")(fd)
    if F.dead:
        F.fds.pop(fd, None)
        R("close")(fd)
        raise SimCrash()
    F.sys("close", F.fds[fd][0], fd)
    F.fds.pop(fd, None)
    R("close")(fd)
    F.done()


def sim_fsync(fd):
    k = fd if isinstance(fd, int) else fd.fileno()
    if F.root is None or k not in F.fds:
        return R("fsync")(fd)
    p, n, _ = F.fds[k]
    F.sys("fsync", p, k)
    if n is None:
        settle()
    else:
        n.sync()
    F.done()


def settle():
    for d, _ in F.disks():
        F.names = d
        break
    F.journal = []


def sim_ossync():
    if F.root is None:
        return
    F.sys("sync")
    settle()
    for n in F.nodes.values():
        n.sync()
    F.done()


def sim_ftruncate(fd, n):
    if F.root is None or fd not in F.fds:
        return R("ftruncate")(fd, n)
    p, nd, _ = F.fds[fd]
    F.sys("truncate", p, fd)
    R("ftruncate")(fd, n)
    if nd is not None:
        nd.pend.append(("t", n))
    F.done()


def sim_truncate(path, n):
    if isinstance(path, int):
        return sim_ftruncate(path, n)
    if not F.owns(path):
        return R("truncate")(path, n)
    F.sys("truncate", F.path(path))
    R("truncate")(path, n)
    nd = F.nodes.get(_stat(path).st_ino)
    if nd:
        nd.pend.append(("t", n))
    F.done()


def _parent(p):
    p = F.path(p)
    return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))


def _mover(name):
    def mv(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        if not (F.owns(src) or F.owns(dst)):
            return R(name)(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        F.sys("rename", F.path(src))
        a, b = _parent(src), _parent(dst)
        ina, inb = F.owns(src), F.owns(dst)
        if ina != inb:
            # another file system as far as the simulation goes
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), a, None, b)
        same = os.path.lexists(b) and os.path.samestat(_lstat(a), _lstat(b))
        R(name)(src, dst)
        if not same:
            F.journal.append(("mv", a, b))
        F.done()
    return mv


def sim_link(src, dst, **kw):
    if not F.owns(dst):
        return R("link")(src, dst, **kw)
    F.sys("create", F.path(dst))
    R("link")(src, dst, **kw)
    n = F.nodes.get(_stat(dst).st_ino)
    if n:
        F.journal.append(("set", _parent(dst), n))
    F.done()


def sim_symlink(src, dst, *a, **kw):
    if not F.owns(dst):
        return R("symlink")(src, dst, *a, **kw)
    F.sys("create", F.path(dst))
    R("symlink")(src, dst, *a, **kw)
    F.journal.append(("set", _parent(dst), ("link", os.fsdecode(src))))
    F.done()


def _unlinker(name):
    def rm(path, *, dir_fd=None):
        if dir_fd is not None or not F.owns(path):
            return R(name)(path, dir_fd=dir_fd)
        F.sys("unlink", F.path(path))
        p = _parent(path)
        R(name)(path)
        F.journal.append(("del", p))
        F.done()
    return rm


def _plain(name, ev):
    def f(path, *a, **kw):
        if not F.owns(path):
            return R(name)(path, *a, **kw)
        F.sys(ev, F.path(path) if not isinstance(path, int) else None)
        out = R(name)(path, *a, **kw)
        F.done()
        return out
    return f


class Raw(io.RawIOBase):
    def __init__(self, fd, mode, name, closefd=True):
        self._fd, self.mode, self.name, self._closefd = fd, mode, name, closefd
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        if "a" in mode:
            R("lseek")(fd, 0, os.SEEK_END)

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def readinto(self, b):
        d = R("read")(self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation("write")
        return sim_write(self._fd, b)

    def seek(self, pos, whence=0):
        return R("lseek")(self._fd, pos, whence)

    def tell(self):
        return R("lseek")(self._fd, 0, os.SEEK_CUR)

    def truncate(self, size=None):
        n = self.tell() if size is None else size
        sim_ftruncate(self._fd, n)
        return n

    def close(self):
        if not self.closed:
            try:
                if self._closefd:
                    sim_close(self._fd)
            finally:
                super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not F.owns(file):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    text = "b" not in mode
    kind = [c for c in mode if c in "rwax"]
    if len(kind) != 1 or mode.count("+") > 1 or set(mode) - set("rwaxbt+U"):
        raise ValueError(f"invalid mode: {mode!r}")
    if "t" in mode and "b" in mode:
        raise ValueError("can't have text and binary mode at once")
    if not text and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding argument")
    k = kind[0]
    plus = "+" in mode
    flags = os.O_RDWR if plus else (os.O_RDONLY if k == "r" else os.O_WRONLY)
    flags |= {"r": 0, "w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND, "x": os.O_CREAT | os.O_EXCL}[k]
    flags |= os.O_CLOEXEC
    if isinstance(file, int):
        fd = file
    elif opener is not None:
        fd = opener(file, flags)
    else:
        if os.path.isdir(file):
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
        fd = sim_osopen(file, flags, 0o666)
    raw = Raw(fd, mode.replace("t", "").replace("b", "") + "b", file, closefd)
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line = buffering == 1 and text
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buf = io.BufferedRandom(raw, size) if plus else io.BufferedReader(raw, size) if k == "r" else io.BufferedWriter(raw, size)
    if not text:
        return buf
    t = io.TextIOWrapper(buf, encoding if encoding not in (None, "locale") else F.enc, errors, newline, line_buffering=line)
    t.mode = mode
    return t


_urandom = os.urandom


def sim_urandom(n):
    if F.root is None:
        return _urandom(n)
    F.rnd += 1
    return hashlib.shake_128(F.rnd.to_bytes(8, "big")).digest(n)


def install():
    """Before cq_cam (and anything it could use) binds the names."""
    for n in ("open", "write", "pwrite", "writev", "close", "fsync", "fdatasync", "ftruncate", "truncate", "rename",
              "replace", "link", "symlink", "unlink", "remove", "chmod", "mkdir", "rmdir", "utime", "chown", "lseek", "read",
              "sync", "fchmod", "fchown"):
        _os[n] = getattr(os, n)
    os.open, os.write, os.pwrite, os.writev, os.close = sim_osopen, sim_write, sim_pwrite, sim_writev, sim_close
    os.fsync = os.fdatasync = sim_fsync
    os.ftruncate, os.truncate = sim_ftruncate, sim_truncate
    os.rename, os.replace = _mover("rename"), _mover("replace")
    os.link, os.symlink = sim_link, sim_symlink
    os.unlink, os.remove = _unlinker("unlink"), _unlinker("remove")
    os.sync = sim_ossync
    for n, e in (("chmod", "chmod"), ("mkdir", "mkdir"), ("rmdir", "rmdir"), ("utime", "utime"), ("chown", "chown"),
                 ("fchmod", "chmod"), ("fchown", "chown")):
        setattr(os, n, _plain(n, e))
    for n in ("sendfile", "copy_file_range", "posix_fallocate"):
        if hasattr(os, n):
            def no(*a, _n=n, _f=getattr(os, n), **kw):
                if F.root is not None and any(x in F.fds for x in a[:2] if isinstance(x, int)):
                    raise OSError(errno.ENOSYS, "not simulated")
                return _f(*a, **kw)
            setattr(os, n, no)
    os.urandom = sim_urandom
    io.open = builtins.open = sim_open
    os.supports_follow_symlinks = set(os.supports_follow_symlinks) | {os.chmod, os.utime, os.chown, os.link}
    import shutil
    import tempfile  # noqa: F401 (binds os functions at import)
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, "_USE_CP_COPY_FILE_RANGE"):
        shutil._USE_CP_COPY_FILE_RANGE = False


ERRS = {"open": ["EACCES", "EMFILE", "EIO"], "create": ["EACCES", "ENOSPC", "EROFS", "EMFILE"],
        "truncate": ["EACCES", "EIO", "EROFS"], "write": ["ENOSPC", "EIO", "EDQUOT"], "close": ["EIO", "EDQUOT"],
        "fsync": ["EIO", "ENOSPC", "EINVAL"], "rename": ["EACCES", "EIO", "ENOSPC", "EBUSY", "EXDEV"], "unlink": ["EACCES", "EIO"],
        "chmod": ["EPERM"], "utime": ["EPERM"], "chown": ["EPERM"], "mkdir": ["EACCES"], "rmdir": ["EACCES"],
        "sync": ["EIO"]}
