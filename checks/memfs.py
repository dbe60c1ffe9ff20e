"""An in-memory file system behind the framework's file system interface.

Files are lists of committed text; a file opened for writing is empty until it
is written, and what has been written counts as soon as write() returns.  The
order in which glob lists a directory is chosen by `order` (a permutation
function), as real file systems promise none.
"""
import fnmatch
import io
import posixpath

from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_wrapper_base import FilesystemWrapperBase


class Crash(BaseException):
    """The process stops at a write."""


class _Writer(io.StringIO):
    """A text stream that writes through to the file system."""

    def __init__(self, fs, path, append):
        io.StringIO.__init__(self)
        self.fs, self.path = fs, path
        if not append:
            fs.event("truncate", path)
            fs.files[path] = ""

    def write(self, s):
        self.fs.append_text(self.path, s)
        return len(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def tell(self):
        return len(self.fs.files[self.path])


class MemFS(FilesystemWrapperBase):
    def __init__(self, order=None):
        self.files = {}
        self.dirs = {"/"}
        self.order = order or (lambda xs: xs)
        self.on_event = None
        self.log = []

    # --- hooks
    def event(self, kind, path, data=None):
        self.log.append((kind, path))
        if self.on_event is not None:
            self.on_event(kind, path, data)

    def append_text(self, path, s):
        if self.on_event is not None:
            s = self.on_event("write", path, s) or s
        self.log.append(("write", path))
        self.files[path] += s

    # --- interface
    @staticmethod
    def _p(path):
        p = posixpath.normpath(str(path))
        return p if p.startswith("/") else "/" + p

    def name(self, path):
        return posixpath.basename(self._p(path))

    def parent(self, path):
        return posixpath.dirname(self._p(path))

    def glob(self, path, pattern):
        base = self._p(path)
        out = []
        for p in list(self.files) + list(self.dirs):
            if p != base and posixpath.dirname(p) == base and fnmatch.fnmatchcase(posixpath.basename(p), pattern):
                out.append(p)
        out = self.order(sorted(out))
        for p in out:
            yield p

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        p = self._p(path)
        if "r" in mode and "+" not in mode:
            if p not in self.files:
                raise FileNotFoundError(p)
            return io.StringIO(self.files[p])
        if posixpath.dirname(p) not in self.dirs:
            raise FileNotFoundError(posixpath.dirname(p))
        if "x" in mode and p in self.files:
            raise FileExistsError(p)
        return _Writer(self, p, "a" in mode and p in self.files)

    def write_text(self, path, data, encoding=None, errors=None, newline=None):
        with self.open(path, "w") as f:
            f.write(data)

    def mkdir(self, path, mode=0o777, parents=False, exist_ok=False):
        p = self._p(path)
        if p in self.dirs or p in self.files:
            if p in self.files or not exist_ok:
                raise FileExistsError(p)
            return
        parent = posixpath.dirname(p)
        if parent not in self.dirs:
            if not parents:
                raise FileNotFoundError(parent)
            self.mkdir(parent, parents=True, exist_ok=True)
        self.event("mkdir", p)
        self.dirs.add(p)

    def unlink(self, path, missing_ok=False):
        p = self._p(path)
        if p not in self.files:
            if missing_ok:
                return
            raise FileNotFoundError(p)
        self.event("unlink", p)
        del self.files[p]

    def exists(self, path):
        p = self._p(path)
        return p in self.files or p in self.dirs

    def is_dir(self, path):
        return self._p(path) in self.dirs

    def is_file(self, path):
        return self._p(path) in self.files

    def joinpath(self, *args):
        return posixpath.join(*[str(a) for a in args])
