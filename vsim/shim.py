"""Runs one framework tool under simulated storage.

    python shim.py PLAN.json SCRIPT ARGS...

The plan says which directory tree is simulated, the order in which listings
come back, the clock which stamps written files, and at most one fault: the
n-th operation of a class fails, the disk fills up from the n-th write on, or
the process dies at that operation (what it had not handed to the storage by
then is lost, and of what was in flight only a part arrives)."""
import builtins
import errno
import glob
import io
import json
import os
import random
import runpy
import shlex
import shutil
import sys

with io.open(sys.argv[1], "r", encoding="utf-8") as _fh:
    PLAN = json.load(_fh)
ROOT = os.path.realpath(PLAN["root"])
FAULT = PLAN.get("fault")
LISTING = PLAN.get("listing")
CLOCK = PLAN.get("clock")
REPORT = PLAN.get("report")

_open = io.open
_os = {n: getattr(os, n) for n in
       ("replace", "rename", "remove", "unlink", "mkdir", "rmdir", "listdir",
        "scandir", "utime", "link", "symlink", "truncate")}
_exit = os._exit                # pylint: disable=protected-access
SCRATCH = os.path.realpath(PLAN.get("scratch", PLAN["root"]))
counts = {}
escaped = []
state = {"full": False, "fired": False, "now": (CLOCK or {}).get("start", 0)}
inflight = []


def inside(path):
    """Is <path> part of the simulated storage?"""
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not isinstance(path, (str, os.PathLike)):
        return False
    return os.path.abspath(os.fspath(path)).startswith(ROOT + os.sep)


def escapes(path):
    """Would changing <path> change something which is not this run's?  The
    change is then not made but recorded."""
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not isinstance(path, (str, os.PathLike)):
        return False
    path = os.path.abspath(os.fspath(path))
    real = os.path.join(os.path.realpath(os.path.dirname(path)),
                        os.path.basename(path))
    if real.startswith(SCRATCH + os.sep) or real.startswith("/dev/"):
        return False
    escaped.append(real)
    return True


def report():
    """Leave what was counted where the simulator finds it"""
    if REPORT:
        with _open(REPORT, "w", encoding="utf-8") as fh:
            json.dump({"counts": counts, "fired": state["fired"],
                       "escaped": escaped}, fh)


def die():
    """The process is killed; parts of what was in flight arrive"""
    for wrf in list(inflight):
        wrf.torn(FAULT.get("cut", 0.5))
    report()
    _exit(137)


def op(cls, path):
    """One storage operation: may fail here"""
    counts[cls] = counts.get(cls, 0) + 1
    if state["full"] and cls in ("write", "close", "open-w", "mkdir"):
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), str(path))
    if FAULT and not state["fired"] and FAULT["cls"] in (cls, "any"):
        num = counts[cls] if FAULT["cls"] == cls else sum(counts.values())
        if num == FAULT["n"]:
            state["fired"] = True
            kind = FAULT["kind"]
            if kind == "crash":
                die()
            if kind == "enospc":
                state["full"] = True
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC),
                              str(path))
            code = {"eio": errno.EIO, "eacces": errno.EACCES}[kind]
            raise OSError(code, os.strerror(code), str(path))


def stamp(path):
    """Give a written file the simulated time"""
    if CLOCK:
        _os["utime"](path, ns=(state["now"], state["now"]))
        state["now"] += CLOCK["tick"]


class Writer:
    """A file open for writing: what is written arrives at the latest with
    close"""

    def __init__(self, path, mode, encoding=None, errors=None, newline=None):
        self.name = path
        self.mode = mode
        self.binary = "b" in mode
        self.encoding = encoding or "utf-8"
        self.errors = errors
        self.newline = newline
        self.closed = False
        self.chunks = []
        self.arrived = 0
        keep = mode.replace("t", "").replace("b", "").replace("+", "")
        self.file = _open(path, keep + "b", buffering=0)
        inflight.append(self)

    def data(self):
        """Everything written so far and not yet handed on"""
        if self.binary:
            return b"".join(self.chunks)
        text = "".join(self.chunks)
        if self.newline in (None, "") and os.linesep != "\n":
            text = text.replace("\n", os.linesep)
        elif self.newline not in (None, "", "\n"):
            text = text.replace("\n", self.newline)
        return text.encode(self.encoding, self.errors or "strict")

    def torn(self, cut):
        """Only a part arrives"""
        data = self.data()
        self.file.write(data[:int(len(data) * cut)])

    def write(self, text):
        """Write some text"""
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if isinstance(text, str) == self.binary:
            raise TypeError("a bytes-like object is required" if self.binary
                            else "write() argument must be str")
        op("write", self.name)
        self.chunks.append(bytes(text) if self.binary else text)
        return len(text)

    def writelines(self, lines):
        """Write lines"""
        for line in lines:
            self.write(line)

    def flush(self):
        """Hand everything to the storage"""
        data = self.data()
        self.chunks = []
        self.file.write(data)
        self.arrived += len(data)

    def close(self):
        """Hand the rest to the storage"""
        if self.closed:
            return
        self.closed = True
        try:
            op("close", self.name)
            self.flush()
        except OSError:
            self.torn(0.5)
            raise
        finally:
            if self in inflight:
                inflight.remove(self)
            self.file.close()
            stamp(self.name)

    def tell(self):
        """Position"""
        return self.arrived + len(self.data())

    def seekable(self):
        """No"""
        return False

    def readable(self):
        """No"""
        return False

    def writable(self):
        """Yes"""
        return True

    def isatty(self):
        """No"""
        return False

    def fileno(self):
        """Not offered"""
        raise io.UnsupportedOperation("fileno")

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
        return False

    def __del__(self):
        try:
            self.close()
        except OSError:
            pass


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    """Replacement of open()"""
    if opener is None and ("w" in mode or "x" in mode or "a" in mode or
                           "+" in mode) and escapes(file):
        raise PermissionError(errno.EACCES, "not simulated", str(file))
    if opener is None and inside(file):
        if "w" in mode or "x" in mode or "a" in mode:
            op("open-w", file)
            if "+" not in mode:
                return Writer(os.fspath(file), mode, encoding, errors, newline)
        else:
            op("open-r", file)
    return _open(file, mode, buffering, encoding, errors, newline, closefd,
                 opener)


def one(name, cls):
    """Wrap os.<name>(path)"""
    def func(path, *args, **kwargs):
        if kwargs.get("dir_fd") is None:
            if escapes(path):
                return None
            if inside(path):
                op(cls, path)
        return _os[name](path, *args, **kwargs)
    return func


def two(name):
    """Wrap os.<name>(src, dst)"""
    def func(src, dst, *args, **kwargs):
        if escapes(dst) or escapes(src):
            return None
        if inside(dst):
            op("replace", dst)
        return _os[name](src, dst, *args, **kwargs)
    return func


class Listing:
    """scandir's result in another order"""

    def __init__(self, entries):
        self.iter = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.iter)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def close(self):
        """Nothing is open"""


def order(path, items, key):
    """The order of this run's listings"""
    items = sorted(items, key=key)
    if LISTING is not None:
        rel = os.path.relpath(os.path.abspath(os.fsdecode(path)), ROOT)
        random.Random(f"{LISTING}/{rel}").shuffle(items)
    return items


def outlisting(path):
    """Does a failing listing of <path> count?  (glob hides those of inputs)"""
    rel = os.path.relpath(os.path.abspath(os.fsdecode(path)), ROOT)
    return rel.split(os.sep)[0] in PLAN.get("outdirs", [])


def sim_listdir(path="."):
    """os.listdir"""
    if isinstance(path, int) or not inside(path):
        return _os["listdir"](path)
    if outlisting(path):
        op("list", path)
    return order(path, _os["listdir"](path), lambda x: x)


def sim_scandir(path="."):
    """os.scandir"""
    if isinstance(path, int) or not inside(path):
        return _os["scandir"](path)
    if outlisting(path):
        op("list", path)
    with _os["scandir"](path) as itr:
        return Listing(order(path, list(itr), lambda e: e.name))


builtins.open = sim_open
io.open = sim_open
for _n in ("remove", "unlink"):
    setattr(os, _n, one(_n, "remove"))
os.mkdir = one("mkdir", "mkdir")
os.rmdir = one("rmdir", "rmdir")
os.replace = two("replace")
os.rename = two("rename")
os.listdir = sim_listdir
os.scandir = sim_scandir

import subprocess                       # noqa: E402

_popen_init = subprocess.Popen.__init__


def shell(command):
    """Do what a shell command does, inside the scratch directory: only
    removing files is known"""
    words = shlex.split(command)
    if words[0] != "rm" or any(c in command for c in ";|&$`"):
        escaped.append("command: " + command)
        return ""
    flags = "".join(x[1:] for x in words[1:] if x.startswith("-"))
    said = []
    for word in words[1:]:
        if word.startswith("-"):
            continue
        for path in sorted(glob.glob(word)):
            if escapes(path):
                continue
            if os.path.isdir(path):
                if "r" in flags.lower():
                    shutil.rmtree(path)
            else:
                op("remove", path)
                _os["remove"](path)
            said.append(f"removed '{path}'")
    return "\n".join(said)


def sim_popen(self, args, *rest, **kwargs):
    """A child process may be impossible to start, or end badly"""
    if isinstance(args, str):
        return _popen_init(self, [sys.executable, "-S", "-c",
                                  f"print({shell(args)!r})"],
                           **{k: v for k, v in kwargs.items()
                              if k not in ("shell", "args")})
    counts["spawn"] = counts.get("spawn", 0) + 1
    if FAULT and FAULT["cls"] == "spawn" and not state["fired"] and \
            counts["spawn"] == FAULT["n"]:
        state["fired"] = True
        if FAULT["kind"] == "crash":
            die()
        if FAULT["kind"] == "missing":
            self.returncode = 127
            self._child_created = False
            raise FileNotFoundError(errno.ENOENT,
                                    os.strerror(errno.ENOENT), "xmllint")
        if FAULT["kind"] == "fork":
            self.returncode = 127
            self._child_created = False
            raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
        if FAULT["kind"] == "killed":
            kwargs.pop("shell", None)
            return _popen_init(self, [sys.executable, "-S", "-c",
                                      "import os; os.kill(os.getpid(), 9)"],
                               **{k: v for k, v in kwargs.items()
                                  if k != "args"})
    return _popen_init(self, args, *rest, **kwargs)


subprocess.Popen.__init__ = sim_popen

script = sys.argv[2]
sys.argv = sys.argv[2:]
sys.path[0] = os.path.dirname(os.path.abspath(script))
code = 0
try:
    runpy.run_path(script, run_name="__main__")
except SystemExit as exc:
    code = exc.code
    if code is None:
        code = 0
    elif not isinstance(code, int):
        sys.stderr.write(str(code) + "\n")
        code = 1
except BaseException:                   # pylint: disable=broad-except
    import traceback
    traceback.print_exc()
    code = 1
for _w in list(inflight):
    try:                                # the interpreter's end closes files
        _w.close()
    except OSError:
        pass
report()
sys.stdout.flush()
sys.stderr.flush()
_exit(code & 255)
