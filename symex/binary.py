"""Files of bytes of which some belong to numbers that are symbolic: a byte is an int, or (number, format, index of the byte within the number)."""
import struct as _struct
import re
from . import core as C
from .core import SymNum, SymBool


def wrap(cells):
    return bytes(cells) if all(isinstance(c, int) for c in cells) else SymBytes(cells)


class SymBytes:
    def __init__(self, cells):
        self.cells = list(cells)

    def __len__(self):
        return len(self.cells)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return wrap(self.cells[i])
        c = self.cells[i]
        if not isinstance(c, int):
            raise C.Unsupported("a byte of a symbolic number")
        return c

    def __add__(self, o):
        return wrap(self.cells + list(cells(o)))

    def __radd__(self, o):
        return wrap(list(cells(o)) + self.cells)

    def find(self, what, start=0, end=None):
        """bytes of symbolic numbers are taken not to spell what is looked for"""
        e = len(self.cells) if end is None else min(end, len(self.cells))
        for i in range(start, e - len(what) + 1):
            if all(isinstance(c, int) and c == w for c, w in zip(self.cells[i:], what)):
                return i
        return -1

    def __contains__(self, what):
        return self.find(what) >= 0

    def startswith(self, what):
        return self.find(what, 0, len(what)) == 0

    def decode(self, *a, **k):
        raise C.Unsupported("text of a binary file")


def cells(b):
    return b.cells if isinstance(b, SymBytes) else list(b)


def parts(fmt):
    """[(code, size or count, bytes)] and the byte order"""
    m = re.fullmatch(r"([@=<>!]?)((?:\s*\d*[a-zA-Z?])*)\s*", fmt)
    if m is None:
        raise _struct.error("bad format")
    o, out = m.group(1), []
    if o in ("", "@"):
        o = "="     # no padding is modelled; the formats of files state their order
    for n, c in re.findall(r"(\d*)([a-zA-Z?])", m.group(2)):
        if c in "sp":
            out.append((c, int(n or 1), _struct.calcsize(o + (n or "1") + c)))
        else:
            out += [(c, 1, _struct.calcsize(o + c))] * int(n or 1)
    return o, out


class Struct:
    def __init__(self, fmt):
        self.format = fmt if isinstance(fmt, str) else fmt.decode()
        self.order, self.parts = parts(self.format)
        self.size = sum(p[2] for p in self.parts)

    def pack(self, *a):
        want = [p for p in self.parts if p[0] != "x"]
        if len(a) != len(want):
            raise _struct.error("pack expected %d items for packing (got %d)" % (len(want), len(a)))
        out, a = [], list(a)
        for c, n, size in self.parts:
            if c == "x":
                out += [0] * size
                continue
            v = a.pop(0)
            if isinstance(v, SymNum) and v.const() is not None:
                v = int(v.const()) if v.isint else float(v.const())
            if isinstance(v, SymNum):
                if c not in "fd":
                    v = int(v)
                else:
                    out += [(v, self.order + c, i) for i in range(size)]
                    continue
            out += list(_struct.pack(self.order + (str(n) if c in "sp" else "") + c, v))
        return wrap(out)

    def unpack(self, b):
        b = cells(b)
        if len(b) != self.size:
            raise _struct.error("unpack requires a buffer of %d bytes" % self.size)
        out, i = [], 0
        for c, n, size in self.parts:
            q = b[i:i + size]
            i += size
            if c == "x":
                continue
            if all(isinstance(x, int) for x in q):
                out.append(_struct.unpack(self.order + (str(n) if c in "sp" else "") + c, bytes(q))[0])
            elif all(isinstance(x, tuple) and x[0] is q[0][0] and x[1] == self.order + c and x[2] == k for k, x in enumerate(q)):
                out.append(q[0][0])
            else:
                C.CTX().check(False, "numbers are read where they were written")
                raise C.PathEnd()
        return tuple(out)

    def unpack_from(self, b, offset=0):
        return self.unpack(wrap(cells(b)[offset:offset + self.size]))

    def iter_unpack(self, b):
        if len(b) % self.size:
            raise _struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % self.size)
        for i in range(0, len(b), self.size):
            yield self.unpack_from(b, i)


class struct:
    error = _struct.error
    Struct = Struct
    pack = staticmethod(lambda f, *a: Struct(f).pack(*a))
    unpack = staticmethod(lambda f, b: Struct(f).unpack(b))
    unpack_from = staticmethod(lambda f, b, offset=0: Struct(f).unpack_from(b, offset))
    iter_unpack = staticmethod(lambda f, b: Struct(f).iter_unpack(b))
    calcsize = staticmethod(lambda f: Struct(f).size)


class File:
    def __init__(self, b=b""):
        self.cells = cells(b)
        self.at = 0

    def write(self, b):
        b = cells(b)
        self.cells[self.at:self.at + len(b)] = b
        self.at += len(b)
        return len(b)

    def read(self, n=-1):
        e = len(self.cells) if n is None or n < 0 else self.at + n
        r = wrap(self.cells[self.at:e])
        self.at += len(r)
        return r

    def seek(self, at, whence=0):
        self.at = at + (0, self.at, len(self.cells))[whence]

    def tell(self):
        return self.at

    def getvalue(self):
        return wrap(self.cells)

    def flush(self):
        pass

    def close(self):
        pass


def patch(mods):
    for m in mods:
        for k, v in list(vars(m).items()):
            if v is _struct:
                setattr(m, k, struct)
            elif isinstance(v, _struct.Struct):
                f = v.format
                setattr(m, k, Struct(f))
    return File
