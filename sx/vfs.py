"""In-memory text files under /sxvfs/: stand-in for the file system, contents may be symbolic."""
import builtins
import os

ROOT = "/sxvfs/"
FILES = {}
_exists, _isfile = os.path.exists, os.path.isfile


def name_of(path):
    if type(path) is str:
        return path if path.startswith(ROOT) else None
    if isinstance(path, os.PathLike):
        p = os.fspath(path)
        return p if p.startswith(ROOT) else None
    return None


class VFile:
    def __init__(self, path, mode, newline):
        self.path = path
        self.mode = mode
        self.closed = False
        self.pos = 0
        if "r" in mode:
            if path not in FILES:
                raise FileNotFoundError(2, "No such file or directory: '%s'" % path)
            t = FILES[path]
            if newline is None:
                t = t.replace("\r\n", "\n").replace("\r", "\n")
            self.text = t
        elif "w" in mode:
            FILES[path] = ""
        elif "x" in mode:
            if path in FILES:
                raise FileExistsError(17, "File exists: '%s'" % path)
            FILES[path] = ""
        elif path not in FILES:
            FILES[path] = ""
        if "b" in mode or "+" in mode:
            raise NotImplementedError("file mode " + mode)

    def read(self, n=-1):
        if n is not None and n >= 0:
            raise NotImplementedError("partial read")
        t = self.text[self.pos:]
        self.pos = len(self.text)
        return t

    def readlines(self, hint=-1):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def write(self, s):
        if "r" in self.mode:
            raise OSError("not writable")
        FILES[self.path] = FILES[self.path] + s
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


def v_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = name_of(file)
    if p is None:
        return builtins.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    return VFile(p, mode, newline)


def exists(path):
    p = name_of(path)
    return p in FILES if p is not None else _exists(path)


def isfile(path):
    p = name_of(path)
    return p in FILES if p is not None else _isfile(path)


def install():
    os.path.exists = exists
    os.path.isfile = isfile
    from . import rt
    rt.BUILTINS["open"] = v_open
