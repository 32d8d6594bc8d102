"""Replacements for builtins, math and numpy inside the code under test."""
import builtins, math, types, sys, operator, numbers
from fractions import Fraction
import numpy as _np
from . import core as C
from .core import SymNum, SymBool, SymAbs, lift, Unsupported

issym = lambda x: isinstance(x, (SymNum, SymBool))

# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, float):
            return True
        return isinstance(x, SymNum) and not x.isint

    def __subclasscheck__(cls, k):
        return issubclass(k, float) or k is cls

    def __call__(cls, *a):
        if not a:
            return 0.0
        x = a[0]
        if isinstance(x, SymNum):
            return C.s_float(x)
        if isinstance(x, SymBool):
            return float(bool(x))
        if isinstance(x, _np.ndarray) and x.dtype == object:
            if x.size == 1:
                return cls(x.reshape(-1)[0])
        if hasattr(x, "__sx_float__"):
            return x.__sx_float__()
        if C.TEXTS and isinstance(x, str) and x.strip() in C.TEXTS:
            return C.s_float(C.TEXTS[x.strip()])
        return float(*a)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __getattr__(cls, n):
        return getattr(float, n)

    def __repr__(cls):
        return "<class 'float'>"


class sfloat(metaclass=_FloatMeta):
    pass


sfloat.__name__ = "float"


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, int):
            return True
        return isinstance(x, SymNum) and bool(x.isint)

    def __subclasscheck__(cls, k):
        return issubclass(k, int) or k is cls

    def __call__(cls, *a, **k):
        if not a:
            return 0
        x = a[0]
        if isinstance(x, SymNum):
            return C.s_trunc(x)
        if isinstance(x, SymBool):
            return int(bool(x))
        if hasattr(x, "__sx_int__"):
            return x.__sx_int__(*a[1:], **k)
        return int(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __getattr__(cls, n):
        return getattr(int, n)

    def __repr__(cls):
        return "<class 'int'>"


class sint(metaclass=_IntMeta):
    pass


sint.__name__ = "int"


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __subclasscheck__(cls, k):
        return k is bool or k is cls

    def __call__(cls, *a):
        if a and isinstance(a[0], SymBool):
            return a[0]
        if a and isinstance(a[0], SymNum):
            return a[0]._cmp(0, "!=")
        return bool(*a)

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)

    def __repr__(cls):
        return "<class 'bool'>"


class sbool(metaclass=_BoolMeta):
    pass


sbool.__name__ = "bool"


def s_isinstance(x, t):
    return isinstance(x, t)


def s_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, SymNum):
        return sint if x.isint else sfloat
    if isinstance(x, SymBool):
        return sbool
    k = type(x)
    if k is float:
        return sfloat
    if k is int:
        return sint
    if k is bool:
        return sbool
    f = getattr(x, "__sx_type__", None)
    if f is not None:
        return f
    return k


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __subclasscheck__(cls, k):
        return issubclass(k, type)

    def __call__(cls, *a, **k):
        return s_type(*a, **k)

    def __getitem__(cls, k):
        return type[k]

    def __eq__(cls, o):
        return o is cls or o is type

    def __hash__(cls):
        return hash(type)


class stype(metaclass=_TypeMeta):
    pass


def s_round(x, n=None):
    if isinstance(x, SymNum):
        return C.s_round(x, n)
    return round(x) if n is None else round(x, n)


def s_abs(x):
    return abs(x)


def s_sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def s_pow(a, b, *m):
    return pow(a, b, *m)


def _mm(args, kw, less):
    key = kw.get("key")
    if len(args) == 1:
        args = list(args[0])
        if not args:
            if "default" in kw:
                return kw["default"]
            raise ValueError("max() arg is an empty sequence")
    best = args[0]
    kb = key(best) if key else best
    for x in args[1:]:
        kx = key(x) if key else x
        if less(kx, kb):
            best, kb = x, kx
    return best


def s_min(*a, **k):
    return _mm(a, k, lambda x, y: x < y)


def s_max(*a, **k):
    return _mm(a, k, lambda x, y: x > y)


def s_divmod(a, b):
    return (a // b, a % b)


def s_any(it):
    for x in it:
        if x:
            return True
    return False


def s_all(it):
    for x in it:
        if not x:
            return False
    return True


def s_range(*a):
    return range(*[C.concretize_int(x) if isinstance(x, SymNum) else x for x in a])


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, range)

    def __call__(cls, *a):
        return s_range(*a)


class srange(metaclass=_RangeMeta):
    pass


# ------------------------------------------------------------------ math
def _guard(symf, realf):
    def f(*a):
        for x in a:
            if isinstance(x, (SymNum, SymBool)):
                return symf(*a)
        return realf(*a)
    return f


smath = types.ModuleType("math")
for _k in dir(math):
    setattr(smath, _k, getattr(math, _k))
PI = C.SymNum(C.P_PI, None, False)
smath.pi = PI
smath.tau = PI * 2
smath.sqrt = C.s_sqrt
smath.sin = C.s_sin
smath.cos = C.s_cos
smath.tan = C.s_tan
smath.acos = C.s_acos
smath.asin = C.s_asin
smath.atan = C.s_atan
smath.atan2 = C.s_atan2
smath.hypot = C.s_hypot
smath.sinh = C.s_sinh
smath.cosh = C.s_cosh


def m_radians(x):
    if isinstance(x, SymNum) or C.CTXV is not None:
        return C.deg2rad(lift(x)) if isinstance(x, SymNum) or x != 0 else 0.0
    return math.radians(x)


def m_degrees(x):
    if isinstance(x, SymNum):
        return C.rad2deg(x)
    return math.degrees(x)


smath.radians = m_radians
smath.degrees = m_degrees
smath.floor = _guard(C.s_floor, math.floor)
smath.ceil = _guard(C.s_ceil, math.ceil)
smath.trunc = _guard(C.s_trunc, math.trunc)
smath.fabs = lambda x: abs(x) if isinstance(x, SymNum) else math.fabs(x)
smath.isnan = _guard(lambda x: False, math.isnan)
smath.isinf = _guard(lambda x: False, math.isinf)
smath.isfinite = _guard(lambda x: True, math.isfinite)
smath.fsum = s_sum


def m_prod(it, start=1):
    t = start
    for x in it:
        t = t * x
    return t


smath.prod = m_prod


def m_dist(a, b):
    return C.s_hypot(*[x - y for x, y in zip(a, b)])


smath.dist = m_dist


def m_copysign(x, y):
    if not isinstance(x, SymNum) and not isinstance(y, SymNum):
        return math.copysign(x, y)
    a = abs(x)
    if isinstance(y, SymNum):
        return a if y >= 0 else -a
    return a if math.copysign(1, y) > 0 else -a


smath.copysign = m_copysign


def m_fmod(x, y):
    if not issym(x) and not issym(y):
        return math.fmod(x, y)
    return x - y * C.s_trunc(lift(x) / y)


smath.fmod = m_fmod


def m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not issym(a) and not issym(b):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    return C.s_or(d <= abs(lift(a)) * rel_tol, d <= abs(lift(b)) * rel_tol, d <= abs_tol)


smath.isclose = m_isclose


def m_modf(x):
    if not issym(x):
        return math.modf(x)
    t = C.s_trunc(x)
    return (x - t, C.s_float(t))


smath.modf = m_modf


def m_pow(a, b):
    return lift(a) ** b if issym(a) or issym(b) else math.pow(a, b)


smath.pow = m_pow


def _mfail(n):
    def f(*a):
        for x in a:
            if isinstance(x, SymNum):
                a2 = [float(y) if isinstance(y, SymNum) else y for y in a]
                return getattr(math, n)(*a2)
        return getattr(math, n)(*a)
    return f


for _k in ("exp", "log", "log10", "log2", "tanh", "expm1", "log1p", "erf", "gamma", "cbrt"):
    if hasattr(math, _k):
        setattr(smath, _k, _mfail(_k))

# ------------------------------------------------------------------ numpy
FLOATS = (float, sfloat, _np.float64, _np.float32, _np.floating, _np.float16, "float", "f8", "float64", "d", "f")


def _dt(dtype):
    if dtype is None:
        return None
    if dtype is sint:
        return int
    if dtype is sbool:
        return bool
    for f in FLOATS:
        if dtype is f or (isinstance(f, str) and dtype == f):
            return object
    try:
        if _np.issubdtype(_np.dtype(dtype), _np.floating):
            return object
    except TypeError:
        pass
    return dtype


class SArr(_np.ndarray):
    """object array whose conversions keep symbolic entries"""

    def astype(self, dtype, *a, **k):
        d = _dt(dtype)
        if self.dtype == object and d is object:
            return self.copy()
        if self.dtype == object and d is int:
            return wrap(_np.array([sint(x) for x in self.reshape(-1)], dtype=object).reshape(self.shape))
        return _np.ndarray.astype(self, d, *a, **k)

    def tolist(self):
        return _np.ndarray.tolist(self)

    def _flat(self):
        return list(_np.asarray(self).reshape(-1))

    def any(self, axis=None, **k):
        if self.dtype == object and axis is None:
            return C.s_or(*[_truth(x) for x in self._flat()])
        return _np.ndarray.any(self, axis=axis, **k)

    def all(self, axis=None, **k):
        if self.dtype == object and axis is None:
            return C.s_and(*[_truth(x) for x in self._flat()])
        return _np.ndarray.all(self, axis=axis, **k)

    def min(self, axis=None, **k):
        return _red(self, axis, s_min)

    def max(self, axis=None, **k):
        return _red(self, axis, s_max)

    def sum(self, axis=None, **k):
        return _red(self, axis, s_sum)

    def mean(self, axis=None, **k):
        return _red(self, axis, lambda v: s_sum(v) / len(list(v)))

    def dot(self, o):
        return n_dot(self, o)

    def item(self, *a):
        if not a:
            return self.reshape(-1)[0] if self.size == 1 else _np.ndarray.item(self)
        return _np.ndarray.item(self, *a)


def _truth(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return x._cmp(0, "!=")
    return bool(x)


def _red(a, axis, f):
    a = n_asarray(a)
    if a.dtype != object:
        return {s_min: _np.ndarray.min, s_max: _np.ndarray.max, s_sum: _np.ndarray.sum}.get(f, _np.ndarray.mean)(_np.asarray(a), axis=axis)
    if axis is None:
        return f(list(_np.asarray(a).reshape(-1)))
    b = _np.moveaxis(_np.asarray(a), axis, -1)
    sh = b.shape[:-1]
    out = _np.empty(sh, dtype=object)
    for i in _np.ndindex(*sh):
        out[i] = f(list(b[i]))
    return wrap(out)


def wrap(a):
    if isinstance(a, _np.ndarray):
        if a.dtype.kind == "f":
            a = a.astype(object)
        return a.view(SArr)
    if isinstance(a, _np.floating):
        return float(a)
    return a


def n_array(x, dtype=None, copy=True, **k):
    k.pop("order", None)
    d = _dt(dtype)
    r = _np.array(x, dtype=object if _hassym(x) and d in (None, object) else d, **k)
    if d is object:
        r = _np.array([_tofloat(v) for v in r.reshape(-1)] + [None], dtype=object)[:-1].reshape(r.shape)
    return wrap(r)


def _tofloat(v):
    if isinstance(v, (bool, int)) or isinstance(v, _np.number):
        return float(v)
    if isinstance(v, SymNum) or isinstance(v, float):
        return v
    if isinstance(v, str):
        return float(v)
    return sfloat(v)


def _hassym(x):
    if isinstance(x, (SymNum, SymBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_hassym(y) for y in x)
    return False


def n_asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and (dtype is None or (_dt(dtype) is object and x.dtype == object)):
        return x
    return n_array(x, dtype)


def _obj(a):
    return n_asarray(a)


def emap(f):
    def g(a, *r, **k):
        if isinstance(a, (_np.ndarray, list, tuple)):
            a = n_asarray(a)
            out = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(*a.shape):
                out[i] = f(a[i])
            return wrap(out)
        return f(a)
    return g


def emap2(f):
    def g(a, b, *r, **k):
        if isinstance(a, (_np.ndarray, list, tuple)) or isinstance(b, (_np.ndarray, list, tuple)):
            a, b = _np.broadcast_arrays(_np.asarray(n_asarray(a)), _np.asarray(n_asarray(b)))
            out = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(*a.shape):
                out[i] = f(a[i], b[i])
            return wrap(out)
        return f(a, b)
    return g


def n_dot(a, b):
    a, b = n_asarray(a), n_asarray(b)
    r = _np.dot(_np.asarray(a).astype(object) if a.dtype != object else _np.asarray(a), _np.asarray(b))
    return wrap(r)


def n_cross(a, b, **k):
    a, b = n_asarray(a), n_asarray(b)
    if a.ndim == 1 and b.ndim == 1 and len(a) == 3 and len(b) == 3:
        return wrap(_np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], None], dtype=object)[:3])
    if a.ndim == 1 and b.ndim == 1 and len(a) == 2:
        return a[0] * b[1] - a[1] * b[0]
    a2, b2 = _np.broadcast_arrays(_np.asarray(a), _np.asarray(b))
    out = _np.empty(a2.shape, dtype=object)
    for i in _np.ndindex(*a2.shape[:-1]):
        out[i] = n_cross(a2[i], b2[i])
    return wrap(out)


def n_norm(x, ord=None, axis=None, keepdims=False):
    x = n_asarray(x)
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm ord")
    if axis is not None:
        b = _np.moveaxis(_np.asarray(x), axis, -1)
        sh = b.shape[:-1]
        out = _np.empty(sh, dtype=object)
        for i in _np.ndindex(*sh):
            out[i] = C.s_hypot(*list(b[i]))
        r = wrap(out)
        if keepdims:
            r = _np.expand_dims(r, axis)
        return r
    return C.s_hypot(*list(_np.asarray(x).reshape(-1)))


def n_det(m):
    m = [list(r) for r in n_asarray(m)]
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    t = 0.0
    for j in range(n):
        if not issym(m[0][j]) and m[0][j] == 0:
            continue
        sub = [r[:j] + r[j + 1:] for r in m[1:]]
        t = t + (-1) ** j * m[0][j] * n_det(sub)
    return t


def n_inv(m):
    m = [list(r) for r in n_asarray(m)]
    n = len(m)
    d = n_det(m)
    if d == 0:
        raise _np.linalg.LinAlgError("Singular matrix")
    out = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = [r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]
            cof = n_det(sub) if n > 1 else 1.0
            out[j, i] = (-1) ** (i + j) * cof / d
    return wrap(out)


def n_solve(a, b):
    return wrap(_np.dot(_np.asarray(n_inv(a)), _np.asarray(n_asarray(b))))


def n_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = _np.broadcast_arrays(_np.asarray(n_asarray(a)), _np.asarray(n_asarray(b)))
    return C.s_and(*[_close1(x, y, rtol, atol) for x, y in zip(a.reshape(-1), b.reshape(-1))])


def _close1(x, y, rtol, atol):
    return abs(x - y) <= atol + rtol * abs(y)


def n_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return emap2(lambda x, y: _close1(x, y, rtol, atol))(a, b)


def n_clip(x, lo, hi, **k):
    def f(v):
        if lo is not None and v < lo:
            return lo
        if hi is not None and v > hi:
            return hi
        return v
    return emap(f)(x)


def _creator(name):
    real = getattr(_np, name)

    def f(*a, **k):
        dt = k.get("dtype", None)
        r = real(*a, **{**k, "dtype": float if _dt(dt) in (None, object) else _dt(dt)}) if dt is not None else real(*a, **k)
        return wrap(r)
    return f


def _passw(name):
    real = getattr(_np, name)

    def f(*a, **k):
        a = [(_np.asarray(n_asarray(x)) if isinstance(x, (list, tuple)) and name not in ("vstack", "hstack", "concatenate", "stack", "column_stack") else x) for x in a]
        if "dtype" in k:
            k["dtype"] = _dt(k["dtype"])
        return wrap(real(*a, **k))
    return f


class NP(types.ModuleType):
    def __getattr__(self, n):
        v = getattr(_np, n)
        if callable(v) and not isinstance(v, type):
            return _passw(n) if not isinstance(v, _np.ufunc) else _uf(n, v)
        return v


def _uf(n, v):
    def f(*a, **k):
        if any(_hassym(x) for x in a):
            return wrap(v(*[n_asarray(x) if isinstance(x, (list, tuple, _np.ndarray)) else x for x in a], **k))
        r = v(*[_np.asarray(x, dtype=float) if isinstance(x, _np.ndarray) and x.dtype == object else x for x in a], **k)
        return wrap(r)
    f.__name__ = n
    return f


snp = NP("numpy")
snp.__path__ = []
for _n in ("zeros", "ones", "eye", "identity", "empty", "full", "linspace", "arange", "zeros_like", "ones_like", "diag"):
    setattr(snp, _n, _creator(_n))


def n_full(shape, v, dtype=None):
    r = _np.empty(shape, dtype=object)
    r[...] = v
    return wrap(r)


snp.full = n_full
snp.zeros_like = lambda a, dtype=None: wrap(_np.zeros(n_asarray(a).shape))
snp.ones_like = lambda a, dtype=None: wrap(_np.ones(n_asarray(a).shape))


def n_diag(a, k=0):
    return wrap(_np.diag(_np.asarray(n_asarray(a)), k))


snp.diag = n_diag


def n_linspace(a, b, num=50, endpoint=True, **k):
    num = int(num)
    d = (num - 1) if endpoint else num
    return n_array([a + (b - a) * Fraction(i, d) if d else a for i in range(num)], dtype=float) if issym(a) or issym(b) else wrap(_np.linspace(a, b, num, endpoint=endpoint))


snp.linspace = n_linspace
snp.array = n_array
snp.asarray = n_asarray
snp.asanyarray = n_asarray
snp.ascontiguousarray = n_asarray
snp.dot = n_dot
snp.matmul = lambda a, b: wrap(_np.matmul(_np.asarray(n_asarray(a)), _np.asarray(n_asarray(b))))
snp.inner = n_dot
snp.vdot = n_dot
snp.cross = n_cross
snp.pi = PI
snp.sqrt = emap(C.s_sqrt)
snp.sin = emap(C.s_sin)
snp.cos = emap(C.s_cos)
snp.tan = emap(C.s_tan)
snp.arccos = emap(C.s_acos)
snp.arcsin = emap(C.s_asin)
snp.arctan = emap(C.s_atan)
snp.arctan2 = emap2(C.s_atan2)
snp.hypot = emap2(C.s_hypot)
snp.radians = snp.deg2rad = emap(m_radians)
snp.degrees = snp.rad2deg = emap(m_degrees)
snp.abs = snp.absolute = snp.fabs = emap(abs)
snp.floor = emap(lambda x: C.s_float(C.s_floor(x)))
snp.ceil = emap(lambda x: C.s_float(C.s_ceil(x)))
snp.sign = emap(lambda x: (1.0 if x > 0 else (-1.0 if x < 0 else 0.0)))
snp.square = emap(lambda x: x * x)
snp.isnan = emap(lambda x: False if issym(x) else math.isnan(x))
snp.isinf = emap(lambda x: False if issym(x) else math.isinf(x))
snp.isfinite = emap(lambda x: True if issym(x) else math.isfinite(x))
snp.round = snp.around = lambda a, decimals=0: emap(lambda x: s_round(x, decimals))(a)
snp.minimum = emap2(lambda a, b: s_min(a, b))
snp.maximum = emap2(lambda a, b: s_max(a, b))
snp.min = snp.amin = lambda a, axis=None: _red(a, axis, s_min)
snp.max = snp.amax = lambda a, axis=None: _red(a, axis, s_max)
snp.sum = lambda a, axis=None, **k: _red(a, axis, s_sum)
snp.mean = lambda a, axis=None, **k: _red(a, axis, lambda v: s_sum(v) / len(list(v)))
snp.prod = lambda a, axis=None, **k: _red(a, axis, m_prod)


def n_arg(cmp):
    def f(a, axis=None):
        v = list(_np.asarray(n_asarray(a)).reshape(-1))
        b = 0
        for i in range(1, len(v)):
            if cmp(v[i], v[b]):
                b = i
        return b
    return f


snp.argmin = n_arg(lambda x, y: x < y)
snp.argmax = n_arg(lambda x, y: x > y)
snp.clip = n_clip
snp.allclose = n_allclose
snp.isclose = n_isclose
snp.array_equal = lambda a, b: n_asarray(a).shape == n_asarray(b).shape and C.s_and(*[x == y for x, y in zip(_np.asarray(n_asarray(a)).reshape(-1), _np.asarray(n_asarray(b)).reshape(-1))])
snp.any = lambda a, axis=None: n_asarray(a).any()
snp.all = lambda a, axis=None: n_asarray(a).all()
snp.where = lambda *a: _np.where(*a) if len(a) == 1 else emapw(*a)


def emapw(c, a, b):
    c, a, b = _np.broadcast_arrays(_np.asarray(n_asarray(c)), _np.asarray(n_asarray(a)), _np.asarray(n_asarray(b)))
    out = _np.empty(c.shape, dtype=object)
    for i in _np.ndindex(*c.shape):
        out[i] = a[i] if c[i] else b[i]
    return wrap(out)


snp.ndarray = _np.ndarray
snp.isscalar = lambda x: issym(x) or _np.isscalar(x)
snp.trace = lambda m: s_sum(n_asarray(m)[i][i] for i in range(len(m)))
snp.outer = lambda a, b: wrap(_np.array([[x * y for y in n_asarray(b)] for x in n_asarray(a)], dtype=object))
linalg = types.ModuleType("numpy.linalg")


def _lag(n):
    v = getattr(_np.linalg, n)
    return v


linalg.__getattr__ = _lag
linalg.norm = n_norm
linalg.det = n_det
linalg.inv = n_inv
linalg.solve = n_solve
linalg.LinAlgError = _np.linalg.LinAlgError
snp.linalg = linalg

# ------------------------------------------------------------------ mpmath (extended precision: exact reals here)
smpm = types.ModuleType("mpmath")
for _k in ("sqrt", "sin", "cos", "tan", "acos", "asin", "atan", "atan2", "hypot", "floor", "ceil", "fabs", "pi"):
    setattr(smpm, _k, getattr(smath, _k))
smpm.mpf = lambda x=0.0: sfloat(x)
smpm.mp = types.SimpleNamespace(dps=15, prec=53)


# ------------------------------------------------------------------ import
_real_import = builtins.__import__


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name == "math":
            return smath
        if name == "numpy":
            return snp
        if name == "mpmath":
            return smpm
        if name == "numpy.linalg":
            return linalg if fromlist else snp
    return _real_import(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(builtins.__dict__)
    d.update({
        "float": sfloat, "int": sint, "bool": sbool, "isinstance": s_isinstance, "type": stype,
        "round": s_round, "sum": s_sum, "min": s_min, "max": s_max, "divmod": s_divmod,
        "any": s_any, "all": s_all, "range": srange, "__import__": s_import,
    })
    return d
