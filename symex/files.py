"""A file system in memory whose files may be there or not, and whose contents hold blocks that are symbolic.

A content is a list of pieces: bytes, or (number, kind, size, from, to): bytes from..to of the block of that size which stands for the number. Blocks of
different numbers differ, and no block is a part of other text. Digests are those of a hash without collisions: equal exactly if the contents are."""
import io
import posixpath
import hashlib as _hashlib
import json as _json
import os as _os
import shutil as _shutil
import errno
from pathlib import PurePosixPath
from . import core as C
from .core import SymNum, SymBool, s_and


def size(p):
    return len(p) if isinstance(p, (bytes, bytearray)) else p[4] - p[3]


def cut(pieces, a, b):
    out, at = [], 0
    for p in pieces:
        n = size(p)
        i, j = max(a - at, 0), min(b - at, n)
        if i < j:
            out.append(p[i:j] if isinstance(p, bytes) else (p[0], p[1], p[2], p[3] + i, p[3] + j))
        at += n
    return out


def join(pieces):
    out = []
    for p in pieces:
        if not size(p):
            continue
        if out and isinstance(p, bytes) and isinstance(out[-1], bytes):
            out[-1] += p
        elif out and not isinstance(p, bytes) and not isinstance(out[-1], bytes) and out[-1][0] is p[0] and out[-1][1:3] == p[1:3] and out[-1][4] == p[3]:
            out[-1] = out[-1][:4] + (p[4],)
        else:
            out.append(p)
    return out


def alike(x, y):
    """bool or SymBool: the contents are equal"""
    x, y = join(x), join(y)
    if sum(map(size, x)) != sum(map(size, y)):
        return False
    ends = set()
    for z in (x, y):
        at = 0
        for p in z:
            at += size(p)
            ends.add(at)
    at, cond = 0, []
    for e in sorted(ends):
        p, q = cut(x, at, e)[0], cut(y, at, e)[0]
        at = e
        if isinstance(p, bytes) and isinstance(q, bytes):
            if p != q:
                return False
        elif isinstance(p, bytes) or isinstance(q, bytes):
            return False
        elif p[1:] != q[1:]:
            return False
        elif p[0] is not q[0]:
            c = p[0] == q[0]
            if c is False:
                return False
            if c is not True:
                cond.append(c)
    return s_and(*cond) if cond else True


class Chunk:
    """bytes some of which are symbolic"""
    def __init__(self, pieces):
        self.pieces = join(pieces)

    def __len__(self):
        return sum(map(size, self.pieces))

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, Chunk)):
            return NotImplemented
        return alike(self.pieces, pieces(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else C.s_not(r) if isinstance(r, SymBool) else not r

    __hash__ = None

    def __add__(self, o):
        return Chunk(self.pieces + pieces(o))

    def __radd__(self, o):
        return Chunk(pieces(o) + self.pieces)

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step not in (None, 1):
            raise C.Unsupported("a byte of a symbolic block")
        return chunk(cut(self.pieces, *i.indices(len(self))[:2]))

    def decode(self, *a, **k):
        return plain(self.pieces)


def pieces(b):
    if isinstance(b, Chunk):
        return b.pieces
    if isinstance(b, (bytes, bytearray, memoryview)):
        return [bytes(b)]
    if isinstance(b, str):
        return [b.encode("utf-8")]
    raise TypeError("a bytes-like object is required, not %r" % type(b).__name__)


def chunk(ps):
    ps = join(ps)
    if all(isinstance(p, bytes) for p in ps):
        return b"".join(ps)
    return Chunk(ps)


def plain(ps):
    """text: blocks of blanks are blanks"""
    out = []
    for p in join(ps):
        if isinstance(p, bytes):
            out.append(p)
        elif p[1] == "blank":
            out.append(b" " * (p[4] - p[3]))
        else:
            raise C.Unsupported("text of a symbolic block")
    return b"".join(out).decode("utf-8")


class JText:
    """text with numbers that are symbolic"""
    def __init__(self, ps):
        self.ps = join(ps)

    def encode(self, *a, **k):
        return chunk(self.ps)

    def __add__(self, o):
        return JText(self.ps + (o.ps if isinstance(o, JText) else pieces(o)))

    def __radd__(self, o):
        return JText(pieces(o) + self.ps)


def symbolic(x):
    if isinstance(x, (SymNum, SymBool)):
        return True
    if isinstance(x, dict):
        return any(symbolic(k) or symbolic(v) for k, v in x.items())
    return isinstance(x, (list, tuple)) and any(symbolic(v) for v in x)


class Json:
    def __getattr__(self, n):
        return getattr(_json, n)

    @staticmethod
    def dumps(x, *, sort_keys=False, separators=None, indent=None, **kw):
        if not symbolic(x):
            return _json.dumps(x, sort_keys=sort_keys, separators=separators, indent=indent, **kw)
        if indent is not None:
            raise C.Unsupported("indented text of symbolic numbers")
        comma, colon = separators or (", ", ": ")
        atom = lambda v: _json.dumps(v, **kw).encode()

        def go(v):
            if isinstance(v, SymNum):
                return [(v, "num", 1, 0, 1)]
            if isinstance(v, SymBool):
                return atom(bool(v))
            if isinstance(v, dict):
                out = [b"{"]
                for i, k in enumerate(sorted(v) if sort_keys else v):
                    out += [comma.encode()] * (i > 0) + [atom(k), colon.encode()] + go(v[k])
                return out + [b"}"]
            if isinstance(v, (list, tuple)):
                out = [b"["]
                for i, w in enumerate(v):
                    out += [comma.encode()] * (i > 0) + go(w)
                return out + [b"]"]
            return [atom(v)]
        return JText(go(x))

    @staticmethod
    def dump(x, fp, **kw):
        fp.write(Json.dumps(x, **kw))


class Yaml:
    """documents with symbolic numbers are kept as they are"""
    def __init__(self, fs):
        self.fs = fs

    def __getattr__(self, n):
        import yaml
        return getattr(yaml, n)

    def safe_load(self, f):
        d = getattr(f, "doc", None)
        if d is not None:
            return copied(d)
        import yaml
        return yaml.safe_load(f)

    def load(self, f, *a, **k):
        return self.safe_load(f)

    def safe_dump(self, data, stream=None, sort_keys=True, **kw):
        if not symbolic(data) or stream is None:
            import yaml
            return yaml.safe_dump(data, stream, sort_keys=sort_keys, **kw)
        stream.doc = ordered(data) if sort_keys else copied(data)

    dump = safe_dump


def copied(x):
    if isinstance(x, dict):
        return {k: copied(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [copied(v) for v in x]
    return x


def ordered(x):
    if isinstance(x, dict):
        return {k: ordered(x[k]) for k in sorted(x)}
    if isinstance(x, (list, tuple)):
        return [ordered(v) for v in x]
    return x


class Hash:
    def __init__(self, fs, name, data=b""):
        self.fs, self.name, self.ps = fs, name, list(pieces(data))

    def update(self, b):
        self.ps += pieces(b)

    def copy(self):
        h = Hash(self.fs, self.name)
        h.ps = list(self.ps)
        return h

    def digest(self):
        t = self.fs.digests.setdefault(self.name, [])
        ps = join(self.ps)
        for q, d in t:
            if alike(ps, q):
                return d
        d = _hashlib.new(self.name, b"content %d" % len(t)).digest()
        t.append((ps, d))
        return d

    def hexdigest(self):
        return self.digest().hex()

    @property
    def block_size(self):
        return 64

    @property
    def digest_size(self):
        return _hashlib.new(self.name).digest_size


class Hashlib:
    def __init__(self, fs):
        self.fs = fs

    def new(self, name, data=b"", **k):
        _hashlib.new(name)
        return Hash(self.fs, name.lower(), data)

    def file_digest(self, f, name):
        h = self.new(name)
        h.update(f.read())
        return h

    def __getattr__(self, n):
        if n in _hashlib.algorithms_available:
            return lambda data=b"", **k: Hash(self.fs, n, data)
        return getattr(_hashlib, n)


class Raw(io.IOBase):
    """an open binary file"""
    def __init__(self, fs, key, mode, ps):
        self.fs, self.key, self.mode, self.ps, self.at = fs, key, mode, list(ps), 0
        self.name = key

    def read(self, n=-1):
        total = sum(map(size, self.ps))
        e = total if n is None or n < 0 else min(total, self.at + n)
        r = chunk(cut(self.ps, self.at, e))
        self.at = e
        return r

    def write(self, b):
        ps = pieces(b)
        n = sum(map(size, ps))
        self.ps = join(cut(self.ps, 0, self.at) + ps + cut(self.ps, self.at + n, 1 << 60))
        self.at += n
        return n

    def seek(self, at, whence=0):
        self.at = at + (0, self.at, sum(map(size, self.ps)))[whence]
        return self.at

    def tell(self):
        return self.at

    def close(self):
        if not self.closed and self.mode[0] in "wax+" or "+" in self.mode:
            self.fs.files[self.key] = [True, join(self.ps), None]
        super().close()


class Text(io.StringIO):
    """an open text file"""
    def __init__(self, fs, key, mode, ps, doc):
        super().__init__(plain(ps) if doc is None and ps else "")
        self.fs, self.key, self.mode, self.doc, self.name = fs, key, mode, doc, key
        self.extra = None
        if mode[0] == "a":
            self.seek(0, 2)

    def write(self, s):
        if isinstance(s, JText):
            self.extra = (self.extra or []) + s.ps
            return 0
        return super().write(s)

    def close(self):
        if not self.closed and (self.mode[0] in "wax" or "+" in self.mode):
            self.fs.files[self.key] = [True, [self.getvalue().encode("utf-8")] + (self.extra or []), self.doc]
        super().close()


def makepath(fs):
    class Path(PurePosixPath):
        def _k(self):
            return posixpath.normpath(posixpath.join("/proc/nofs/cwd", str(self)))

        def exists(self):
            return fs.there(self._k())

        def is_file(self):
            return fs.isfile(self._k())

        def is_dir(self):
            return fs.isdir(self._k())

        def is_symlink(self):
            return False

        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            k = self._k()
            if fs.there(k):
                if not exist_ok:
                    raise FileExistsError(k)
                return
            if not parents and not fs.isdir(posixpath.dirname(k)):
                raise FileNotFoundError(k)
            fs.dirs.add(k)
            while k != "/":
                k = posixpath.dirname(k)
                fs.dirs.add(k)

        def iterdir(self):
            k = self._k()
            out = []
            for n in sorted(fs.files) + sorted(fs.dirs):
                if posixpath.dirname(n) == k and n != k and fs.there(n):
                    out.append(self / posixpath.basename(n))
            return iter(out)

        def glob(self, pat):
            k = self._k()
            for n in sorted(fs.files) + sorted(fs.dirs):
                if n.startswith(k + "/") and ("**" in pat or posixpath.dirname(n) == posixpath.dirname(posixpath.join(k, pat))) and PurePosixPath(n).match(pat.replace("**/", "")) and fs.there(n):
                    yield self / n[len(k) + 1:]

        def rglob(self, pat):
            return self.glob("**/" + pat)

        def open(self, mode="r", *a, **k):
            return fs.open(self, mode)

        def read_text(self, *a, **k):
            with fs.open(self, "r") as f:
                return f.read()

        def read_bytes(self):
            with fs.open(self, "rb") as f:
                return f.read()

        def write_text(self, t, *a, **k):
            with fs.open(self, "w") as f:
                f.write(t)

        def write_bytes(self, b):
            with fs.open(self, "wb") as f:
                f.write(b)

        def unlink(self, missing_ok=False):
            k = self._k()
            if not fs.isfile(k):
                if missing_ok:
                    return
                raise FileNotFoundError(errno.ENOENT, "no such file", k)
            fs.files[k][0] = False

        def rename(self, to):
            fs.copy(self, to)
            self.unlink()

        replace = rename

        def stat(self):
            k = self._k()
            if not fs.there(k):
                raise FileNotFoundError(errno.ENOENT, "no such file", k)
            return C_stat(sum(map(size, fs.files[k][1])) if k in fs.files else 0)

        def resolve(self, strict=False):
            return type(self)(self._k())

        absolute = resolve

        def expanduser(self):
            return self
    return Path


class C_stat:
    def __init__(self, n):
        self.st_size, self.st_mtime, self.st_mode = n, 0.0, 0o100644


class Shutil:
    def __init__(self, fs):
        self.fs = fs

    def __getattr__(self, n):
        raise C.Unsupported("shutil." + n)

    def copy2(self, a, b, **k):
        return self.fs.copy(a, b)

    copy = copyfile = copy2

    def move(self, a, b):
        self.fs.copy(a, b)
        self.fs.Path(a).unlink()
        return b

    def copyfileobj(self, a, b, *k):
        b.write(a.read())


class OsPath:
    def __init__(self, fs):
        self.fs = fs

    def __getattr__(self, n):
        return getattr(posixpath, n)

    def exists(self, p):
        return self.fs.Path(p).exists()

    def isfile(self, p):
        return self.fs.Path(p).is_file()

    def isdir(self, p):
        return self.fs.Path(p).is_dir()

    def getsize(self, p):
        return self.fs.Path(p).stat().st_size

    def realpath(self, p):
        return self.fs.Path(p)._k()

    abspath = realpath


class Os:
    def __init__(self, fs):
        self.fs, self.path = fs, OsPath(fs)

    def __getattr__(self, n):
        if n in ("sep", "linesep", "environ", "fspath", "getcwd", "getenv", "PathLike", "name"):
            return getattr(_os, n)
        raise C.Unsupported("os." + n)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        self.fs.Path(p).mkdir(parents=True, exist_ok=exist_ok)

    def remove(self, p):
        self.fs.Path(p).unlink()

    unlink = remove

    def listdir(self, p):
        return [q.name for q in self.fs.Path(p).iterdir()]


class Named:
    """tempfile"""
    def __init__(self, fs):
        self.fs, self.n = fs, 0

    def NamedTemporaryFile(self, mode="w+b", delete=True, suffix="", prefix="tmp", **k):
        self.n += 1
        f = self.fs.open("/proc/nofs/tmp/%s%d%s" % (prefix, self.n, suffix), "wb" if "b" in mode else "w")
        return f

    def __getattr__(self, n):
        raise C.Unsupported("tempfile." + n)


class Files:
    """what a harness has of it"""
    def __init__(self):
        self.files = {}      # name -> [there, pieces, document or None]
        self.dirs = {"/", "/proc", "/proc/nofs", "/proc/nofs/tmp", "/proc/nofs/a/b", "/proc/nofs/a", "/proc/nofs/src"}
        self.digests = {}
        self.Path = makepath(self)
        self.root = self.Path("/proc/nofs/a/b/pkg")
        self.src = self.Path("/proc/nofs/src")

    # -- what the code is given
    def use(self, *mods, yaml=False, **names):
        import hashlib, json, os, shutil, tempfile, pathlib
        new = {id(pathlib.Path): self.Path, id(hashlib): Hashlib(self), id(shutil): Shutil(self), id(os): Os(self), id(tempfile): Named(self)}
        for m in mods:
            was = m.__dict__.setdefault("_sx_was", {})
            for k, v in list(vars(m).items()):
                v = was.setdefault(k, v)
                if id(v) in new:
                    setattr(m, k, new[id(v)])
                if v is json and yaml:
                    setattr(m, k, Json())
            m.open = self.open
            if yaml:
                m.yaml = Yaml(self)
            for k, v in names.items():
                setattr(m, k, v)

    def there(self, k):
        return self.isfile(k) or k in self.dirs

    def isfile(self, k):
        f = self.files.get(k)
        return bool(f is not None and f[0])

    def isdir(self, k):
        return k in self.dirs

    def open(self, path, mode="r", *a, **kw):
        k = self.Path(path)._k()
        if self.isdir(k):
            raise IsADirectoryError(errno.EISDIR, "is a directory", k)
        if mode[0] == "r" and not self.isfile(k):
            raise FileNotFoundError(errno.ENOENT, "no such file", k)
        if mode[0] == "x" and self.isfile(k):
            raise FileExistsError(errno.EEXIST, "file exists", k)
        if mode[0] != "r" and not self.isdir(posixpath.dirname(k)):
            raise FileNotFoundError(errno.ENOENT, "no such folder", k)
        f = self.files.get(k)
        ps, doc = (f[1], f[2]) if f and mode[0] in "ra" and self.isfile(k) else ([], None)
        if "b" in mode:
            if doc is not None:
                raise C.Unsupported("bytes of a symbolic document")
            r = Raw(self, k, mode, ps)
            if mode[0] == "a":
                r.seek(0, 2)
        else:
            r = Text(self, k, mode, ps, doc)
        if mode[0] in "wx":
            self.files[k] = [True, [], None]
        return r

    def copy(self, a, b):
        a, b = self.Path(a)._k(), self.Path(b)._k()
        if self.isdir(b):
            b = posixpath.join(b, posixpath.basename(a))
        if not self.isfile(a):
            raise FileNotFoundError(errno.ENOENT, "no such file", a)
        if not self.isdir(posixpath.dirname(b)):
            raise FileNotFoundError(errno.ENOENT, "no such folder", b)
        if a == b:
            raise _shutil.SameFileError(a)
        self.files[b] = [True, list(self.files[a][1]), self.files[a][2]]
        return b

    # -- what the harness does
    def block(self, v, n, kind="block"):
        return (v, kind, n, 0, n)

    def content(self, parts):
        return join([p.encode("utf-8") if isinstance(p, str) else p for p in parts])

    def put(self, path, *parts):
        k = self.Path(self.root, path)._k()
        self.Path(k).parent.mkdir(parents=True, exist_ok=True)
        self.files[k] = [True, self.content(parts), None]

    def text(self, path):
        return plain(self.files[self.Path(self.root, path)._k()][1])

    def parts(self, path):
        return list(self.files[self.Path(self.root, path)._k()][1])

    def drop(self, path, if_=True):
        f = self.files[self.Path(self.root, path)._k()]
        f[0] = C.s_not(if_) if isinstance(if_, SymBool) else not if_

    def digest(self, algorithm, *parts):
        return Hash(self, algorithm, Chunk(self.content(parts))).hexdigest()

    def doc(self, path, data):
        k = self.Path(self.root, path)._k()
        self.Path(k).parent.mkdir(parents=True, exist_ok=True)
        self.files[k] = [True, [], copied(data)]

    def getdoc(self, path):
        f = self.files[self.Path(self.root, path)._k()]
        if f[2] is not None:
            return copied(f[2])
        import yaml
        return yaml.safe_load(plain(f[1]))

    def holds(self, path, *parts):
        """bool or SymBool: the file is there and holds exactly that"""
        f = self.files.get(self.Path(self.root, path)._k())
        if f is None:
            return False
        c = alike(f[1], self.content(parts))
        return s_and(f[0], c) if isinstance(f[0], SymBool) or isinstance(c, SymBool) else bool(f[0] and c)

    def names(self):
        """all files, those of the package by their name within it"""
        r = str(self.root) + "/"
        return sorted(n[len(r):] if n.startswith(r) else n.replace("/proc/nofs", "") for n, f in self.files.items() if f[0] is True or f[0] is not False and bool(f[0]))
