"""The same harness API on plain numbers: replays run here, on the unpatched repository."""
import importlib, math


class Skip(BaseException):
    pass


class CCtx:
    mode = "concrete"

    def __init__(self, inputs):
        self.inp = inputs
        self.failed = []
        self.checked = 0
        self.used = {}

    def _get(self, name, lo, hi, dflt=0.0):
        v = self.inp.get(name)
        if v is None:
            v = dflt
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
            return v
        if lo is not None and v < lo:
            if v > lo - 1e-9 * (1 + abs(lo)):
                v = lo
            else:
                raise Skip("range %s" % name)
        if hi is not None and v > hi:
            if v < hi + 1e-9 * (1 + abs(hi)):
                v = hi
            else:
                raise Skip("range %s" % name)
        return v

    def real(self, name, lo=None, hi=None):
        v = float(self._get(name, lo, hi))
        self.used[name] = v
        return v

    def angle(self, name, lo=None, hi=None, den=1):
        return self.real(name, lo, hi)

    def int(self, name, lo=None, hi=None):
        v = int(self._get(name, lo, hi, 0))
        self.used[name] = v
        return v

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def choice(self, name, opts):
        opts = list(opts)
        if len(opts) == 1:
            return opts[0]
        return opts[self.int(name, 0, len(opts) - 1)]

    def string(self, name, n, **k):
        v = self.inp.get(name)
        if v is None:
            v = " " * n
        self.used[name] = v
        return v

    def assume(self, c):
        if not c:
            raise Skip("assumption")

    def cover(self, label):
        pass

    def check(self, cond, label, timeout=None, soft=None):
        self.checked += 1
        ok = bool(cond) or (soft is not None and bool(soft))
        if not ok:
            self.failed.append(label)
        return ok

    def eq(self, a, b, label, tol=1e-6):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if a == b:
                return self.check(True, label)
            return self.check(abs(a - b) <= tol * (1 + abs(a) + abs(b)), label)
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            return self.check(a == b, label)
        return self.eq(fa, fb, label, tol)

    def eqs(self, a, b, label, tol=1e-6, n=None):
        a, b = list(a), list(b)
        if n is None and len(a) != len(b):
            return self.check(False, label + " [length]")
        for i in range(n if n is not None else len(a)):
            x, y = a[i], b[i]
            if isinstance(x, (list, tuple)) or (hasattr(x, "shape") and x.shape != ()):
                self.eqs(x, y, label, tol)
            else:
                self.eq(x, y, "%s[%d]" % (label, i), tol)

    def le(self, a, b, label, tol=1e-6):
        return self.check(a <= b + tol * (1 + abs(a) + abs(b)), label)

    def mod(self, name):
        return importlib.import_module(name)

    def texts(self):
        pass

    def binary(self, *mods):
        import io, struct

        class File(io.BytesIO):
            Struct = struct.Struct
        return File

    def files(self):
        from . import disk
        return disk.Files()

    def numeral(self, t):
        return float(t)

    def implies(self, a, b):
        return (not a) or b

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def sqrt(self, x):
        return math.sqrt(x)

    def cosd(self, x):
        return math.cos(math.radians(x))

    def sind(self, x):
        return math.sin(math.radians(x))

    def cosh(self, x):
        return math.cosh(x)

    def sinh(self, x):
        return math.sinh(x)

    def abs(self, x):
        return abs(x)

    def feasible(self, c):
        return bool(c)

    def valid(self, c):
        return bool(c)

    pi = math.pi
