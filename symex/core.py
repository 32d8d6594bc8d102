"""Symbolic values, path exploration and solver queries.

The real code runs natively on SymNum/SymBool proxies.  A branch on a symbolic
condition asks z3 which sides are feasible and forks; the explorer re-executes
the harness for every feasible decision sequence.  `check` asks z3 for a value
assignment that follows the path and violates the condition.
"""
import sys, math, time, numbers, itertools
from fractions import Fraction
import z3
from .poly import Poly, VT, ZERO, ONE, exact_div, poly_sqrt, isqrt_frac, TooBig

_float, _int, _abs, _round, _isinstance, _format = float, int, abs, round, isinstance, format


class Steer(BaseException):
    """base of engine control flow (never caught by code under test)"""


class PathEnd(Steer):
    pass


class Infeasible(Steer):
    pass


class Unsupported(Steer):
    pass


class Inconclusive(Steer):
    pass


# ---------------------------------------------------------------- variables
_sqrt_memo = {}
_fresh_memo = {}


def zvar(i):
    v = VT.vars[i]
    if v.z3 is None:
        nm = "%s#%d" % (v.name, v.idx)
        v.z3 = z3.Int(nm) if v.sort == "Int" else z3.Real(nm)
    return v.z3


def newvar(name, sort="Real"):
    return VT.new(name, sort)


def zq(q):
    if type(q) is _int:
        return z3.RealVal(q)
    return z3.RealVal(q.numerator) / z3.RealVal(q.denominator) if q.denominator != 1 else z3.RealVal(q.numerator)


_z3memo = {}


def pz(p):
    """Poly -> z3 real term"""
    r = _z3memo.get(p)
    if r is not None:
        return r
    terms = []
    for m, c in p.t.items():
        f = []
        if c != 1 or not m:
            f.append(zq(c))
        neg = []
        for v, e in m:
            zv = zvar(v)
            if VT.vars[v].sort == "Int":
                zv = z3.ToReal(zv)
            if e > 0:
                f.extend([zv] * e)
            else:
                neg.extend([zv] * (-e))
        t = f[0] if len(f) == 1 else (z3.Product(*f) if f else z3.RealVal(1))
        for n in neg:
            t = t / n
        terms.append(t)
    r = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(*terms))
    _z3memo[p] = r
    return r


def plinear(p):
    for m in p.t:
        if len(m) > 1 or (m and m[0][1] != 1):
            return False
    return True


PI = newvar("pi")
PI.laurent = True
PI.axioms = [(z3.And(zvar(PI.idx) > z3.Q(314159265358979, 10 ** 14), zvar(PI.idx) < z3.Q(314159265358980, 10 ** 14)), frozenset([PI.idx]), None)]
P_PI = Poly.var(PI)


# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("e", "vars", "lin", "atom")

    def __init__(self, e, vars, lin, atom=None):
        self.e = e
        self.vars = vars
        self.lin = lin
        self.atom = atom            # (canon poly, op) for sign memo, op in '<','<=','==', '!=','>','>='

    def __bool__(self):
        return CTX().branch(self)

    def neg(self):
        a = self.atom
        if a is not None:
            return SymBool(z3.Not(self.e), self.vars, self.lin, (a[0], _NEG[a[1]]))
        return SymBool(z3.Not(self.e), self.vars, self.lin)

    def __and__(self, o):
        return s_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return s_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return self.neg()

    def __xor__(self, o):
        if _isinstance(o, SymBool):
            return SymBool(z3.Xor(self.e, o.e), self.vars | o.vars, self.lin and o.lin)
        return self.neg() if o else self
    __rxor__ = __xor__

    def __eq__(self, o):
        if _isinstance(o, SymBool):
            return SymBool(self.e == o.e, self.vars | o.vars, self.lin and o.lin)
        if _isinstance(o, (bool, _int, _float)):
            if o == 1:
                return self
            if o == 0:
                return self.neg()
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return s_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # arithmetic on bools (sum of flags ...): fork
    def __add__(self, o):
        return bool(self) + o

    def __radd__(self, o):
        return o + bool(self)

    def __mul__(self, o):
        return bool(self) * o
    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "<symbool>"

    def all(self):
        return self

    def any(self):
        return self

    def item(self):
        return self


_NEG = {"<": ">=", "<=": ">", "==": "!=", "!=": "==", ">": "<=", ">=": "<"}


def s_not(a):
    return a.neg() if _isinstance(a, SymBool) else (not a)


def s_and(*xs):
    es = []
    vs = frozenset()
    lin = True
    one = None
    for x in xs:
        if _isinstance(x, SymBool):
            es.append(x.e); vs |= x.vars; lin = lin and x.lin; one = x
        elif not x:
            return False
    if not es:
        return True
    if len(es) == 1:
        return one
    return SymBool(z3.And(*es), vs, lin)


def s_or(*xs):
    es = []
    vs = frozenset()
    lin = True
    one = None
    for x in xs:
        if _isinstance(x, SymBool):
            es.append(x.e); vs |= x.vars; lin = lin and x.lin; one = x
        elif x:
            return True
    if not es:
        return False
    if len(es) == 1:
        return one
    return SymBool(z3.Or(*es), vs, lin)


def s_implies(a, b):
    return s_or(s_not(a), b)


_ALLS = {"<": frozenset("-"), "<=": frozenset("-0"), "==": frozenset("0"),
         "!=": frozenset("-+"), ">": frozenset("+"), ">=": frozenset("0+")}


def atom(p, op):
    """SymBool/bool for  p op 0"""
    if p.is_const():
        c = p.cval()
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0, ">": c > 0, ">=": c >= 0}[op]
    # clear laurent
    if any(e < 0 for m in p.t for _, e in m):
        k = min(e for m in p.t for v, e in m if v == PI.idx)
        p = p * Poly({((PI.idx, -k),): 1})
    u, q = p.canon()
    if u < 0:
        op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
    # drop single-signed monomial content (sqrt vars known nonneg are handled by solver/memo)
    s = CTX().signs(q)
    t = _ALLS[op]
    if s <= t:
        return True
    if not (s & t):
        return False
    z = pz(q)
    zero = z3.RealVal(0)
    e = {"<": z < zero, "<=": z <= zero, "==": z == zero, "!=": z != zero, ">": z > zero, ">=": z >= zero}[op]
    return SymBool(e, q.vars(), plinear(q), (q, op))


# ---------------------------------------------------------------- numbers
def _tofrac(x):
    if type(x) is _int:
        return x
    if _isinstance(x, bool):
        return _int(x)
    if _isinstance(x, _int):
        return _int(x)
    if _isinstance(x, Fraction):
        return x
    f = Fraction(_float(x))
    return f.numerator if f.denominator == 1 else f


def mk(num, den=None, isint=False):
    """normalise; returns python number when the value is a representable constant"""
    if not num.t:
        return 0 if isint else 0.0
    if den:
        # cancel
        d2 = {}
        for f, e in den.items():
            if f.is_const():
                num = num.scale(Fraction(1) / (Fraction(f.cval()) ** e))
                continue
            while e > 0 and len(f.t) <= 12:
                q = exact_div(num, f)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                d2[f] = e
        den = d2
    if not den:
        if num.is_const():
            c = num.cval()
            if isint and type(c) is _int:
                return c
            if type(c) is _int:
                if -(1 << 53) <= c <= (1 << 53):
                    return _float(c)
            else:
                try:
                    f = c.numerator / c.denominator
                except OverflowError:
                    f = None
                if f is not None and Fraction(f) == c:
                    return f
        return SymNum(num, None, isint)
    return SymNum(num, den, False)


def lift(x):
    if _isinstance(x, SymNum):
        return x
    if _isinstance(x, (bool, _int)) :
        return SymNum(Poly.const(_int(x)), None, True)
    if _isinstance(x, _float) or _isinstance(x, Fraction):
        return SymNum(Poly.const(_tofrac(x)), None, False)
    if _isinstance(x, SymBool):
        return SymNum(Poly.const(_int(bool(x))), None, True)
    if hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        return lift(x.item())
    return None


def _special(x):
    return _isinstance(x, _float) and (x != x or x in (math.inf, -math.inf))


def _den_mul(a, b):
    if not a:
        return dict(b) if b else {}
    r = dict(a)
    if b:
        for f, e in b.items():
            r[f] = r.get(f, 0) + e
    return r


def _den_poly(d):
    p = ONE
    if d:
        for f, e in d.items():
            for _ in range(e):
                p = p * f
    return p


def split_den(p):
    """poly -> (const, {canonical factor: exp}) ; p nonzero on this path"""
    u, q = p.canon()
    den = {}
    mc = q.mono_content()
    if mc:
        q = q.div_mono(mc)
        for v, e in mc.items():
            if e < 0:
                continue
            vv = VT.vars[v]
            f = Poly.var(vv)
            if vv.rule is not None and e >= 2:
                raise AssertionError
            den[f] = e
    if not q.is_const():
        den[q] = den.get(q, 0) + 1
    else:
        u = u * q.cval()
    return u, den


def _norm_den(num, d):
    """collapse r**2 for ruled vars"""
    out = {}
    c = 1
    for f, e in d.items():
        if len(f.t) == 1:
            (m, k), = f.t.items()
            if len(m) == 1 and m[0][1] == 1 and VT.vars[m[0][0]].rule is not None and e >= 2:
                rule = VT.vars[m[0][0]].rule
                h = e // 2
                if e % 2:
                    out[f] = out.get(f, 0) + 1
                u, dd = split_den(rule)
                c = c * Fraction(u) ** h
                for g, ge in dd.items():
                    out[g] = out.get(g, 0) + ge * h
                continue
        out[f] = out.get(f, 0) + e
    if c != 1:
        num = num.scale(Fraction(1) / c)
    return num, out


class SymNum(numbers.Real):
    __slots__ = ("num", "den", "isint")

    def __init__(self, num, den, isint):
        self.num = num
        self.den = den or None
        self.isint = isint

    # numpy interop: never let numpy coerce us silently
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic number")

    # ---- arithmetic
    def __add__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        if _special(o):
            return o
        if self.den == b.den:
            return mk(self.num + b.num, self.den, self.isint and b.isint)
        # lcm
        da, db = self.den or {}, b.den or {}
        ma = ONE
        mb = ONE
        l = dict(da)
        for f, e in db.items():
            x = l.get(f, 0)
            if e > x:
                l[f] = e
        for f, e in l.items():
            for _ in range(e - da.get(f, 0)):
                ma = ma * f
            for _ in range(e - db.get(f, 0)):
                mb = mb * f
        return mk(self.num * ma + b.num * mb, l)
    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return SymNum(-self.num, self.den, self.isint)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if _special(o):
            return -o
        b = lift(o)
        if b is None:
            return NotImplemented
        return self.__add__(-b)

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __mul__(self, o):
        if _special(o):
            if o != o:
                return o
            if self > 0:
                return o
            if self < 0:
                return -o
            return math.nan
        b = lift(o)
        if b is None:
            return NotImplemented
        num = self.num * b.num
        if not num.t:
            return 0 if self.isint and b.isint else 0.0
        if self.den or b.den:
            num, d = _norm_den(num, _den_mul(self.den, b.den))
            return mk(num, d)
        return mk(num, None, self.isint and b.isint)
    def __rmul__(self, o):
        return self.__mul__(o)

    def inv(self):
        """1/self; caller has established self != 0 on this path"""
        u, den = split_den(self.num)
        num = _den_poly(self.den).scale(Fraction(1) / u)
        num, den = _norm_den(num, den)
        return mk(num, den)

    def __truediv__(self, o):
        if _special(o):
            return 0.0 if o == o else o
        b = lift(o)
        if b is None:
            return NotImplemented
        return _div(self, b)

    def __rtruediv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return _div(b, self)

    def __floordiv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        q = _div(self, b)
        f = s_floor(q)
        if self.isint and b.isint:
            return f
        return s_float(f)

    def __rfloordiv__(self, o):
        b = lift(o)
        return NotImplemented if b is None else b.__floordiv__(self)

    def __mod__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        q = _div(self, b)
        r = self - b * s_floor(q)
        if not (self.isint and b.isint) and _isinstance(r, SymNum):
            r = SymNum(r.num, r.den, False)
        return r

    def __rmod__(self, o):
        b = lift(o)
        return NotImplemented if b is None else b.__mod__(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, mod=None):
        if _isinstance(o, SymNum):
            c = o.const()
            if c is None:
                o = concretize_int(o)
            else:
                o = c
        if o == 0.5:
            return s_sqrt(self)
        if o == -0.5:
            return 1 / s_sqrt(self)
        if o != _int(o):
            if 2 * o == _int(2 * o):
                k = _int(2 * o)
                return s_sqrt(self) ** k
            raise Unsupported("pow %r" % (o,))
        isf = _isinstance(o, _float)
        n = _int(o)
        if n == 0:
            return 1 if self.isint and not isf else 1.0
        neg = n < 0
        n = _abs(n)
        r = None
        b = self
        while n:
            if n & 1:
                r = b if r is None else r * b
            n >>= 1
            if n:
                b = b * b
        if neg:
            r = 1.0 / r
        return r

    def __rpow__(self, o):
        if self.isint:
            return o ** concretize_int(self)
        raise Unsupported("rpow")

    def __abs__(self):
        c = self.const()
        if c is not None:
            return self if c >= 0 else -self
        s = self.known_signs()
        if s <= frozenset("0+"):
            return self
        if s <= frozenset("-0"):
            return -self
        return SymAbs(self)

    # ---- comparisons
    def _cmp(self, o, op):
        if _special(o):
            if o != o:
                return op == "!="
            if o > 0:
                return op in ("<", "<=", "!=")
            return op in (">", ">=", "!=")
        if _isinstance(o, SymAbs):
            return SymAbs._cmp(o, self, {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op])
        b = lift(o)
        if b is None:
            return NotImplemented
        d = self - b
        if not _isinstance(d, SymNum):
            return {"<": d < 0, "<=": d <= 0, "==": d == 0, "!=": d != 0, ">": d > 0, ">=": d >= 0}[op]
        return d.sgn(op)

    def sgn(self, op):
        p = self.num
        if self.den and op not in ("==", "!="):
            for f, e in self.den.items():
                if e % 2:
                    s = CTX().decide_sign(f)
                    if s == "+":
                        continue
                    if s == "-":
                        p = -p
                    else:
                        p = p * f
        return atom(p, op)

    def known_signs(self):
        try:
            r = self.sgn(">=")
            if r is True:
                return frozenset("0+")
            if r is False:
                return frozenset("-")
            r = self.sgn("<=")
            if r is True:
                return frozenset("-0")
        except TooBig:
            pass
        return frozenset("-0+")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        return 0

    def __bool__(self):
        r = self._cmp(0, "!=")
        return r if _isinstance(r, bool) else bool(r)

    # ---- conversions
    def const(self):
        if not self.den and self.num.is_const():
            return self.num.cval()
        return None

    def approx(self):
        """float value if self only involves constants (pi, roots of rationals)"""
        def val(p):
            t = 0.0
            for m, c in p.t.items():
                x = _float(c)
                for v, e in m:
                    cv = VT.vars[v].meta
                    if v == PI.idx:
                        x *= math.pi ** e
                    elif _isinstance(cv, tuple) and cv[0] == "const":
                        x *= cv[1] ** e
                    else:
                        return None
                t += x
            return t
        n = val(self.num)
        if n is None:
            return None
        if self.den:
            d = val(_den_poly(self.den))
            if d is None:
                return None
            return n / d
        return n

    def __float__(self):
        a = self.approx()
        if a is not None:
            return a
        return _float(CTX().concretize(self, "float"))

    def __int__(self):
        return concretize_int(s_trunc(self))

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize_int(self)

    def __trunc__(self):
        return s_trunc(self)

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def __round__(self, n=None):
        return s_round(self, n)

    def __complex__(self):
        raise Unsupported("complex")

    def is_integer(self):
        return self == s_floor(self)

    def as_integer_ratio(self):
        raise Unsupported("as_integer_ratio")

    def item(self):
        return self

    def tolist(self):
        return self

    def conjugate(self):
        return self
    @property
    def real(self):
        return self
    @property
    def imag(self):
        return 0.0
    @property
    def shape(self):
        return ()
    @property
    def ndim(self):
        return 0

    def sqrt(self):
        return s_sqrt(self)

    def sin(self):
        return s_sin(self)

    def cos(self):
        return s_cos(self)

    def __format__(self, spec):
        return "<sym>" if TEXTS is None else text_of(self, spec)

    def __repr__(self):
        return "<sym>" if TEXTS is None else text_of(self, "")

    __str__ = __repr__

    def show(self):
        return "(%r)/%r" % (self.num, self.den)


# Numbers written as text: a harness may ask that each symbolic number be written as a numeral of its own, with as many digits as the
# format asks for, which reads back as that number.
TEXTS = None


def text_of(x, spec):
    import re
    c = x.const()
    if c is not None:
        return _format(int(c) if x.isint else _float(c), spec)
    m = re.fullmatch(r"[+ -]?0?\d*(?:\.(\d+))?([eEfFgG]?)", spec)
    if m is None:
        raise Unsupported("format %r" % spec)
    k = len(TEXTS)
    n = _int(m.group(1)) if m.group(1) else 6
    z = ("." + "0" * n) if n else ""
    t = m.group(2).lower()
    if t == "e":
        r = "7%se+%d" % (z, 1000 + k)
    elif t == "f":
        r = "%d%s" % (10 ** 40 + k, z)
    else:
        r = "7%se+%d" % ("." + "0" * (n - 1) if m.group(1) else "." + "0" * 15, 1000 + k)
    TEXTS[r] = x
    return r


class SymAbs(SymNum):
    """|x| kept unexpanded so that comparisons do not fork on the sign of x"""
    __slots__ = ("x", "_forced")

    def __init__(self, x):
        self.x = x
        self._forced = None

    @property
    def isint(self):
        return self.x.isint

    def force(self):
        if self._forced is None:
            self._forced = self.x if (self.x >= 0) else -self.x
        return self._forced

    @property
    def num(self):
        f = self.force()
        return f.num if _isinstance(f, SymNum) else Poly.const(_tofrac(f))

    @property
    def den(self):
        f = self.force()
        return f.den if _isinstance(f, SymNum) else None

    def __abs__(self):
        return self

    def __neg__(self):
        return -lift(self.force())

    def __pos__(self):
        return self

    def __pow__(self, o, mod=None):
        if _isinstance(o, (_int, _float)) and o == 2:
            return self.x * self.x
        return SymNum.__pow__(lift(self.force()), o)

    def __mul__(self, o):
        if o is self:
            return self.x * self.x
        if _isinstance(o, (_int, _float)) and not _special(o):
            if o > 0:
                r = self.x * o
                return _abs(r)
            if o == 0:
                return 0.0
        return lift(self.force()) * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        if _isinstance(o, (_int, _float)) and not _special(o) and o > 0:
            return _abs(self.x / o)
        return lift(self.force()) / o

    def _cmp(self, o, op):
        if self._forced is not None or _special(o):
            return SymNum._cmp(self, o, op) if _special(o) else lift(self._forced)._cmp(o, op)
        x = self.x
        if _isinstance(o, SymAbs):
            o = o.force() if o._forced is not None else o
        if _isinstance(o, SymAbs):
            # |x| op |y|  <=> x^2 op y^2
            a = x * x - o.x * o.x
            if _isinstance(a, SymNum):
                return a.sgn(op)
            return {"<": a < 0, "<=": a <= 0, "==": a == 0, "!=": a != 0, ">": a > 0, ">=": a >= 0}[op]
        b = o
        if lift(o) is None:
            return NotImplemented
        if op == "<":
            return s_and(x < b, -x < b)
        if op == "<=":
            return s_and(x <= b, -x <= b)
        if op == ">":
            return s_or(x > b, -x > b)
        if op == ">=":
            return s_or(x >= b, -x >= b)
        if op == "==":
            if not _isinstance(b, SymNum) and b == 0:
                return x == 0
            return s_and(b >= 0, s_or(x == b, -x == b))
        if not _isinstance(b, SymNum) and b == 0:
            return x != 0
        return s_not(s_and(b >= 0, s_or(x == b, -x == b)))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")
    __hash__ = SymNum.__hash__

    def __bool__(self):
        return bool(self.x)


def _div(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return mk(a.num.scale(Fraction(1) / c), a.den)
    if len(b.num.t) == 1 and b.den is None:
        (m, k), = b.num.t.items()
        if all(VT.vars[v].laurent for v, _ in m):
            inv = Poly({tuple((v, -e) for v, e in m): Fraction(1) / k})
            return mk(a.num * inv, a.den)
    z = b._cmp(0, "==")
    if (z if _isinstance(z, bool) else bool(z)):
        raise ZeroDivisionError("float division by zero")
    return lift(a * b.inv())


# ---------------------------------------------------------------- functions
def s_float(x):
    if _isinstance(x, SymNum):
        if x.isint:
            x = SymNum(x.num, x.den, False)
        return x
    return _float(x)


def concretize_int(x):
    """fork over the feasible values of a symbolic integer"""
    if not _isinstance(x, SymNum):
        return _int(x)
    c = x.const()
    if c is not None:
        return _int(c)
    return CTX().concretize_int(x)


def _fresh(kind, key, build, sort="Real"):
    k = (kind, key)
    v = _fresh_memo.get(k)
    if v is None:
        v = newvar(kind, sort)
        _fresh_memo[k] = v
        build(v)
    return v


def _nz(x):
    """z3 term of SymNum"""
    n = pz(x.num)
    if x.den:
        return n / pz(_den_poly(x.den))
    return n


def _key(x):
    return (x.num, frozenset(x.den.items()) if x.den else None)


def _nvars(x):
    s = x.num.vars()
    if x.den:
        for f in x.den:
            s = s | f.vars()
    return s


def s_floor(x):
    if not _isinstance(x, SymNum):
        return math.floor(x)
    x = lift(x.force()) if _isinstance(x, SymAbs) else x
    if x.isint:
        return x
    c = x.const()
    if c is not None:
        return math.floor(c)

    # split off integer-valued part with int variables
    def build(v):
        zx = _nz(x)
        zk = z3.ToReal(zvar(v.idx))
        if not x.den and plinear(x.num):
            v.meta = "linax"
        v.axioms.append((z3.And(zk <= zx, zx < zk + 1), _nvars(x) | {v.idx}, None))
    v = _fresh("floor", _key(x), build, "Int")
    k = SymNum(Poly.var(v), None, True)
    if CTX().fork_floor:
        r = CTX().maybe_concretize_int(k, CTX().fork_floor)
        if not _isinstance(r, SymNum) and ("fl", k.num) not in CTX().memo:
            # state the range on the operands too: later queries need not mention k
            CTX().memo[("fl", k.num)] = 1
            for b in (x >= r, x < r + 1):
                if _isinstance(b, SymBool):
                    CTX().add(b)
        return r
    return k


def s_ceil(x):
    if not _isinstance(x, SymNum):
        return math.ceil(x)
    return -s_floor(-x)


def s_trunc(x):
    if not _isinstance(x, SymNum):
        return _int(x)
    if x.isint:
        return x
    if x >= 0:
        return s_floor(x)
    return -s_floor(-x)


def s_round(x, n=None):
    if not _isinstance(x, SymNum):
        return _round(x) if n is None else _round(x, n)
    if x.isint and (n is None or n >= 0):
        return x
    nn = 0 if n is None else _int(n)
    y = lift(x) * (Fraction(10) ** nn if nn >= 0 else Fraction(1, 10 ** -nn))
    if not _isinstance(y, SymNum):
        y = lift(y)

    def build(v):
        zx = _nz(y)
        zk = z3.ToReal(zvar(v.idx))
        if not y.den and plinear(y.num):
            v.meta = "linax"
        v.axioms.append((z3.And(zk <= zx + z3.Q(1, 2), zx <= zk + z3.Q(1, 2)), _nvars(y) | {v.idx}, None))
    v = _fresh("round", _key(y), build, "Int")
    k = SymNum(Poly.var(v), None, True)
    if n is None:
        return k
    r = k * (Fraction(1, 10 ** nn) if nn >= 0 else Fraction(10 ** -nn))
    return SymNum(r.num, r.den, False)


# constants only: take the double nearest to a root or cosine of a constant instead of its exact algebraic value
# (properties are compared with tolerances then)
FLOATC = False


def sqrt_const(q):
    """SymNum/number sqrt of a nonneg rational"""
    if FLOATC:
        return mk(Poly.const(Fraction(math.sqrt(q))))
    s = isqrt_frac(q)
    if s is not None:
        return mk(Poly.const(s))
    q = Fraction(q)
    # sqrt(n/d) = sqrt(n*d)/d ; strip squares
    n = q.numerator * q.denominator
    out = 1
    f = 2
    m = n
    while f * f <= m and f < 2000:
        while m % (f * f) == 0:
            m //= f * f
            out *= f
        f += 1
    v = _sqrt_memo.get(("c", m))
    if v is None:
        v = newvar("sqrt%d" % m)
        VT.set_rule(v, Poly.const(m))
        a = math.sqrt(m)
        v.meta = ("const", a)
        z = zvar(v.idx)
        i = math.isqrt(m * 10 ** 30)
        lo, hi = Fraction(i - 1, 10 ** 15), Fraction(i + 1, 10 ** 15)
        v.axioms.append((z3.And(z > 0, z * z == m, z > zq(lo), z < zq(hi)), frozenset([v.idx]), None))
        _sqrt_memo[("c", m)] = v
    return SymNum(Poly.var(v).scale(Fraction(out, q.denominator)), None, False)


def s_sqrt(x):
    if not _isinstance(x, SymNum):
        if _isinstance(x, (_int, _float, Fraction)) and not _special(_float(x)):
            if x < 0:
                raise ValueError("math domain error")
            s = isqrt_frac(_tofrac(x))
            if s is not None:
                return _float(s)
            return math.sqrt(x)
        return math.sqrt(x)
    if _isinstance(x, SymAbs):
        x = lift(x.force())
    c = x.const()
    if c is not None:
        if c < 0:
            raise ValueError("math domain error")
        return sqrt_const(c)
    if x.den:
        # sqrt(n/d) = sqrt(n*d)/|d|
        d = _den_poly({f: (e + 1) // 2 for f, e in x.den.items()})
        n = x * mk(d) * mk(d)
        r = s_sqrt(n)
        return r / _abs(mk(d))
    p = x.num
    q = poly_sqrt(p)
    if q is not None:
        return _abs(mk(q))
    u, pr = p.canon()
    if u < 0:
        pr = -pr
        u = -u
    # pull even monomial content
    mc = pr.mono_content()
    ev = {v: (e // 2) * 2 for v, e in mc.items() if e >= 2}
    outer = 1.0
    if ev:
        pr = pr.div_mono(ev)
        for v, e in ev.items():
            outer = outer * _abs(mk(Poly.var(VT.vars[v]) ** (e // 2)))
    if pr.is_const():
        return outer * sqrt_const(Fraction(pr.cval()) * u)
    neg = atom(pr, "<")
    if (neg if _isinstance(neg, bool) else bool(neg)):
        raise ValueError("math domain error")
    key = ("p", pr)
    v = _sqrt_memo.get(key)
    if v is None:
        v = newvar("r")
        VT.set_rule(v, pr)
        z = zvar(v.idx)
        v.meta = ("sqrt", pr)
        v.axioms.append((z3.And(z >= 0, z * z == pz(pr)), pr.vars() | {v.idx}, None))
        _sqrt_memo[key] = v
    rv = Poly.var(v)
    CTX().note(rv, frozenset("0+"))
    r = SymNum(rv, None, False)
    if u != 1:
        r = r * sqrt_const(u)
    if outer != 1.0 or _isinstance(outer, SymNum):
        r = r * outer
    return r


# ---- hyperbolic functions --------------------------------------------------
def _hyp(x):
    """(cosh, sinh) of a polynomial argument: C*C = 1 + S*S, C >= 1, S has the
    argument's sign and at least its size; the same argument (up to sign)
    gives the same values"""
    x = lift(x.force()) if _isinstance(x, SymAbs) else x
    if x.den:
        raise Unsupported("cosh of a quotient")
    p = x.num
    neg = p.t[p.lead()] < 0
    if neg:
        p = p.scale(-1)
    key = ("h", p)
    v = _sqrt_memo.get(key)
    if v is None:
        sv = newvar("sh")
        ps = Poly.var(sv)
        cv = newvar("ch")
        VT.set_rule(cv, ps * ps + ONE)
        zs, zc, z = zvar(sv.idx), zvar(cv.idx), pz(p)
        sv.axioms.append((z3.And(z3.Implies(z > 0, zs >= z), z3.Implies(z < 0, zs <= z), z3.Implies(z == 0, zs == 0)), p.vars() | {sv.idx}, None))
        cv.axioms.append((z3.And(zc >= 1, zc * zc == 1 + zs * zs), frozenset((sv.idx, cv.idx)), None))
        cv.meta, sv.meta = ("cosh", p), ("sinh", p)
        v = _sqrt_memo[key] = (cv, sv)
    c, s = SymNum(Poly.var(v[0]), None, False), SymNum(Poly.var(v[1]), None, False)
    CTX().note(Poly.var(v[0]), frozenset("+"))
    return c, (-s if neg else s)


def s_cosh(x):
    if _isinstance(x, SymNum) and x.const() is None:
        return _hyp(x)[0]
    return math.cosh(x)


def s_sinh(x):
    if _isinstance(x, SymNum) and x.const() is None:
        return _hyp(x)[1]
    return math.sinh(x)


# ---- angles -------------------------------------------------------------
class AngleBase:
    __slots__ = ("mono", "gran", "c", "s", "multi")

    def __init__(self, mono, gran, c, s):
        self.mono = mono
        self.gran = gran
        self.c = c
        self.s = s
        self.multi = {}

    def multiple(self, n):
        """(cos, sin) of n*gran*mono"""
        if n < 0:
            c, s = self.multiple(-n)
            return c, -s
        r = self.multi.get(n)
        if r is None:
            if n == 0:
                r = (1.0, 0.0)
            elif n == 1:
                r = (self.c, self.s)
            else:
                h = n // 2
                r = addang(self.multiple(h), self.multiple(n - h))
            self.multi[n] = r
        return r


def addang(a, b):
    c1, s1 = a
    c2, s2 = b
    return (c1 * c2 - s1 * s2, s1 * c2 + c1 * s2)


_principal = set()  # angles made by atan2: already in (-pi, pi]
_angles = {}       # mono -> AngleBase (global, for declared variables)
_constang = {}


def sub_expr_deg(mono, gran):
    """SymNum in degrees for gran*mono (mono in radians)"""
    p = Poly({mono: gran}) * Poly({((PI.idx, -1),): 180})
    return mk(p)


def quadrant_axioms(t, c, s, lo=-3, hi=3):
    """z3 implications tying t (z3 term, degrees) to the signs of c, s"""
    out = []
    for k in range(lo, hi):
        b = 360 * k
        out.append(z3.Implies(z3.And(t > b, t < b + 180), s > 0))
        out.append(z3.Implies(z3.And(t > b + 180, t < b + 360), s < 0))
        out.append(z3.Implies(z3.And(t > b - 90, t < b + 90), c > 0))
        out.append(z3.Implies(z3.And(t > b + 90, t < b + 270), c < 0))
        out.append(z3.Implies(t == b, z3.And(c == 1, s == 0)))
        out.append(z3.Implies(t == b + 90, z3.And(c == 0, s == 1)))
        out.append(z3.Implies(t == b + 180, z3.And(c == -1, s == 0)))
        out.append(z3.Implies(t == b + 270, z3.And(c == 0, s == -1)))
        # octants
        out.append(z3.Implies(z3.And(t > b - 45, t < b + 45), z3.And(c > s, c > -s)))
        out.append(z3.Implies(z3.And(t > b + 45, t < b + 135), z3.And(s > c, s > -c)))
        out.append(z3.Implies(z3.And(t > b + 135, t < b + 225), z3.And(c < s, c < -s)))
        out.append(z3.Implies(z3.And(t > b + 225, t < b + 315), z3.And(s < c, s < -c)))
    return z3.And(*out)


def angle_base(mono, coef):
    if CTXV is not None:
        CTXV.abases[mono] = True
    b = _angles.get(mono)
    if b is None:
        gran = Fraction(1, 180) if any(v == PI.idx for v, _ in mono) else Fraction(1)
        n = Fraction(coef) / gran
        if n.denominator != 1:
            gran = gran / n.denominator
        b = make_angle(mono, gran)
    n = Fraction(coef) / b.gran
    if n.denominator != 1:
        # refine granularity: new base at gran/den, linked to the old by axioms
        old = b
        b = make_angle(mono, old.gran / n.denominator)
        k = _int(old.gran / b.gran)
        cc, ss = b.multiple(k)
        if _isinstance(old.c, SymNum) and _isinstance(cc, SymNum):
            for ov, nv in ((old.c, cc), (old.s, ss)):
                e = _nz(ov) == _nz(nv)
                vs = _nvars(ov) | _nvars(nv)
                for i in _nvars(old.c) | _nvars(b.c):
                    VT.vars[i].axioms.append((e, vs, None))
        n = Fraction(coef) / b.gran
    return b, _int(n)


def make_angle(mono, gran):
    nm = "*".join(VT.vars[v].name for v, _ in mono)
    cv = newvar("cos[%s/%s]" % (nm, 1 / gran))
    sv = newvar("sin[%s/%s]" % (nm, 1 / gran))
    c = SymNum(Poly.var(cv), None, False)
    s = SymNum(Poly.var(sv), None, False)
    VT.set_rule(sv, ONE - Poly.var(cv) * Poly.var(cv))
    zc, zs = zvar(cv.idx), zvar(sv.idx)
    ax = (z3.And(zc * zc + zs * zs == 1, zc <= 1, zc >= -1, zs <= 1, zs >= -1), frozenset([cv.idx, sv.idx]), None)
    cv.axioms.append(ax)
    sv.axioms.append(ax)
    deg = sub_expr_deg(mono, gran)
    if _isinstance(deg, SymNum) and not deg.den:
        dv = deg.num.vars()
        q = quadrant_axioms(_nz(deg), zc, zs)
        qa = (q, dv | {cv.idx, sv.idx}, dv)
        cv.axioms.append(qa)
        for i in dv:
            VT.vars[i].axioms.append((q, dv | {cv.idx, sv.idx}, frozenset([cv.idx])))
    b = AngleBase(mono, gran, c, s)
    cv.meta = ("cos", mono, gran)
    sv.meta = ("sin", mono, gran)
    _angles[mono] = b
    return b


def const_angle(q):
    """exact (cos, sin) of q*pi, q rational"""
    q = Fraction(q)
    q = q - 2 * math.floor(q / 2)
    if FLOATC and (q * 2).denominator != 1:
        return (math.cos(_float(q) * math.pi), math.sin(_float(q) * math.pi))
    r = _constang.get(q)
    if r is not None:
        return r
    d = q * 12
    if d.denominator == 1:
        d = _int(d)
        h = Fraction(1, 2)
        s2 = sqrt_const(2) * h
        s3 = sqrt_const(3) * h
        s6 = sqrt_const(6) * Fraction(1, 4)
        s2q = sqrt_const(2) * Fraction(1, 4)
        first = {0: (1.0, 0.0), 1: (s6 + s2q, s6 - s2q), 2: (s3, 0.5), 3: (s2, s2), 4: (0.5, s3), 5: (s6 - s2q, s6 + s2q)}
        quad, rem = divmod(d, 6)
        c, s = first[rem]
        for _ in range(quad):
            c, s = -s, c
        r = (c, s)
    elif q >= Fraction(1, 2):
        quad, rem = divmod(q, Fraction(1, 2))
        c, s = const_angle(rem)
        for _ in range(_int(quad)):
            c, s = -s, c
        r = (c, s)
    else:
        a = _float(q) * math.pi
        cv = newvar("cosk")
        sv = newvar("sink")
        VT.set_rule(sv, ONE - Poly.var(cv) * Poly.var(cv))
        zc, zs = zvar(cv.idx), zvar(sv.idx)
        fc, fs = math.cos(a), math.sin(a)
        eps = Fraction(1, 10 ** 14)
        ax = (z3.And(zc * zc + zs * zs == 1, zc > zq(Fraction(fc) - eps), zc < zq(Fraction(fc) + eps),
                     zs > zq(Fraction(fs) - eps), zs < zq(Fraction(fs) + eps)), frozenset([cv.idx, sv.idx]), None)
        cv.axioms.append(ax)
        sv.axioms.append(ax)
        cv.meta = ("const", fc)
        sv.meta = ("const", fs)
        r = (SymNum(Poly.var(cv), None, False), SymNum(Poly.var(sv), None, False))
    _constang[q] = r
    return r


def sincos(x):
    """(cos, sin) of a symbolic number in radians"""
    if _isinstance(x, SymAbs):
        c, s = sincos(x.x)
        if s == 0:
            return c, s
        return c, (s if x.x >= 0 else -s)
    if not _isinstance(x, SymNum):
        q = _float(x) / math.pi * 12
        if _abs(q) < 1e6 and _abs(q - _round(q)) < 1e-9:
            return const_angle(Fraction(_round(q), 12))
        return (math.cos(x), math.sin(x))
    if x.den:
        # cannot expand: treat as an opaque angle
        v = _fresh("ang", _key(x), lambda v: v.axioms.append((zvar(v.idx) == _nz(x), _nvars(x) | {v.idx}, None)))
        b, n = angle_base(((v.idx, 1),), 1)
        return b.multiple(n)
    acc = (1.0, 0.0)
    for m, co in sorted(x.num.t.items()):
        if m == ((PI.idx, 1),):
            acc = addang(acc, const_angle(co))
            continue
        if m == ():
            q = _float(co) / math.pi
            q24 = q * 24
            if _abs(q24 - _round(q24)) < 1e-10:
                acc = addang(acc, const_angle(Fraction(_round(q24), 24)))
            else:
                acc = addang(acc, (math.cos(co), math.sin(co)))
            continue
        mv = dict(m)
        # integer multiples of a full turn vanish
        if mv.get(PI.idx) == 1 and all(VT.vars[v].sort == "Int" for v in mv if v != PI.idx) and Fraction(co) % 2 == 0:
            continue
        b, n = angle_base(m, co)
        acc = addang(acc, b.multiple(n))
    return acc


def s_cos(x):
    if not _isinstance(x, SymNum):
        if CTXV is None:
            return math.cos(x)
        q = _float(x) / math.pi * 2
        if _abs(q) < 1e6 and _abs(q - _round(q)) < 1e-9:
            return const_angle(Fraction(_round(q), 2))[0]
        return math.cos(x)
    return _reg(x)[0]


def _reg(x):
    r = sincos(x)
    reg = CTX().trig_reg
    if _isinstance(x, SymNum) and not _isinstance(x, SymAbs) and not x.den and len(reg) < 100:
        k = x.num
        if k not in reg and len(k.t) > 1:
            reg[k] = (x, r[0], r[1])
    return r


def s_sin(x):
    if not _isinstance(x, SymNum):
        if CTXV is None:
            return math.sin(x)
        q = _float(x) / math.pi * 2
        if _abs(q) < 1e6 and _abs(q - _round(q)) < 1e-9:
            return const_angle(Fraction(_round(q), 2))[1]
        return math.sin(x)
    return _reg(x)[1]


def s_tan(x):
    if not _isinstance(x, SymNum):
        return math.tan(x)
    c, s = sincos(x)
    return s / c


RAD = None


def deg2rad(d):
    return d * SymNum(P_PI, None, False) / 180


def rad2deg(r):
    return r * 180 / SymNum(P_PI, None, False)


def _sameform(a, b):
    d = a - b
    return (not _isinstance(d, SymNum)) and d == 0


def _ratio_const(y, x):
    """y*y/(x*x) when it is a constant and x is not zero on this path"""
    a, b = y * y, x * x
    if not _isinstance(a, SymNum) or not _isinstance(b, SymNum) or (a.den or {}) != (b.den or {}):
        return None
    t = next(iter(b.num.t.items()), None)
    if t is None or t[0] not in a.num.t or len(a.num.t) != len(b.num.t):
        return None
    k = Fraction(a.num.t[t[0]]) / Fraction(t[1])
    if (a.num - b.num.scale(k)).t:
        return None
    if not (x != 0):
        return None
    return k


def s_atan2(y, x):
    if not _isinstance(x, SymNum) and not _isinstance(y, SymNum):
        if CTXV is not None:
            for (yy, xx, q) in ((0, 1, 0), (1, 0, Fraction(1, 2)), (0, -1, 1), (-1, 0, Fraction(-1, 2))):
                if (y > 0) - (y < 0) == yy and (x > 0) - (x < 0) == xx:
                    return mk(P_PI.scale(q)) if q else 0.0
        return math.atan2(y, x)
    x = lift(x)
    y = lift(y)
    if _isinstance(x, SymAbs):
        x = lift(x.force())
    if _isinstance(y, SymAbs):
        y = lift(y.force())
    pi = SymNum(P_PI, None, False)
    # constant zero components
    if y.num.is_zero():
        if x > 0:
            return 0.0
        if x < 0:
            return pi
        return 0.0
    if x.num.is_zero():
        if y > 0:
            return pi / 2
        if y < 0:
            return -pi / 2
        return 0.0
    # a ratio of 1, 3 or 1/3 between the squares: a constant angle
    q2 = _ratio_const(y, x)
    if q2 is not None:
        deg = {1: 45, 3: 60, Fraction(1, 3): 30}.get(q2)
        if deg is not None:
            if x > 0:
                deg = deg if y > 0 else -deg
            else:
                deg = 180 - deg if y > 0 else deg - 180
            return deg2rad(lift(deg))
    r2 = x * x + y * y
    r = s_sqrt(r2)
    rz = lift(r) == 0
    if (rz if _isinstance(rz, bool) else bool(rz)):
        return 0.0
    c = lift(x / r)
    s = lift(y / r)
    return angle_from_cs(c, s, y, x)


def angle_from_cs(c, s, y=None, x=None):
    """angle in (-pi, pi] with the given cosine and sine"""
    # a known base angle?
    cx = CTX()
    for mono_ in list(cx.abases):
        b = _angles[mono_]
        if mono_ in _principal and _sameform(c, b.c) and _sameform(s, b.s):
            return SymNum(Poly({mono_: Fraction(1, 180)}), None, False)
        full = Fraction(1, 180) / b.gran
        ns = (1, -1) if full.denominator != 1 or full == 1 else (_int(full), -_int(full), 1, -1)
        for n in ns:
            cc, ss = b.multiple(n)
            for qk in range(4):
                if _sameform(c, cc) and _sameform(s, ss):
                    deg = sub_expr_deg(b.mono, b.gran * n) + 90 * qk
                    k = s_ceil((deg - 180) / 360)
                    return deg2rad(deg - 360 * k)
                cc, ss = -ss, cc
    for E, cc, ss in list(cx.trig_reg.values()):
        for n in (1, -1):
            for qk in range(4):
                if _sameform(c, cc) and _sameform(s, ss):
                    deg = E * (180 * n) / SymNum(P_PI, None, False) + 90 * qk
                    k = s_ceil((deg - 180) / 360)
                    return deg2rad(deg - 360 * k)
                cc, ss = -ss, cc
            ss = -ss
    if y is None:
        y, x = s, c
    key = (_key(lift(y)), _key(lift(x)))
    vy, vx = _nz(y), _nz(x)

    def build(v):
        t = zvar(v.idx)
        vs = _nvars(y) | _nvars(x) | {v.idx}
        v.axioms.append((z3.And(t > -180, t <= 180,
            z3.Implies(vy > 0, z3.And(t > 0, t < 180)), z3.Implies(vy < 0, t < 0),
            z3.Implies(vx > 0, z3.And(t > -90, t < 90)), z3.Implies(vx < 0, z3.Or(t > 90, t < -90)),
            z3.Implies(z3.And(vy == 0, vx > 0), t == 0), z3.Implies(z3.And(vy == 0, vx < 0), t == 180),
            z3.Implies(z3.And(vx == 0, vy > 0), t == 90), z3.Implies(z3.And(vx == 0, vy < 0), t == -90),
            z3.Implies(z3.And(vx > 0, vy > 0), z3.And((t < 45) == (vy < vx), (t > 45) == (vy > vx))),
            ), vs, None))
    v = _fresh("theta", key, build)
    mono = ((PI.idx, 1), (v.idx, 1)) if PI.idx < v.idx else ((v.idx, 1), (PI.idx, 1))
    if mono not in _angles:
        b = AngleBase(mono, Fraction(1, 180), c, s)
        _angles[mono] = b
    _principal.add(mono)
    cx.abases[mono] = True
    return SymNum(Poly({mono: Fraction(1, 180)}), None, False)


def s_acos(x):
    if not _isinstance(x, SymNum):
        if CTXV is not None:
            for v, q in ((1, 0), (0, Fraction(1, 2)), (-1, 1), (0.5, Fraction(1, 3)), (-0.5, Fraction(2, 3))):
                if x == v:
                    return mk(P_PI.scale(q)) if q else 0.0
        return math.acos(x)
    x = lift(x)
    bad = s_or(x > 1, x < -1)
    if (bad if _isinstance(bad, bool) else bool(bad)):
        raise ValueError("math domain error")
    s = None
    cx = CTX()
    for b in [_angles[m] for m in cx.abases] + [None]:
        if b is None:
            break
        for u, w in ((b.c, b.s), (b.s, b.c)):
            if _sameform(x, u) or _sameform(x, -u):
                s = _abs(w)
                break
        if s is not None:
            break
    if s is None:
        for E, cc, ss in list(cx.trig_reg.values()):
            if _sameform(x, cc) or _sameform(x, -cc):
                s = _abs(ss)
            elif _sameform(x, ss) or _sameform(x, -ss):
                s = _abs(cc)
            if s is not None:
                break
    if s is None:
        s = s_sqrt(1 - x * x)
    if _isinstance(s, SymAbs):
        s = s.force()
    return angle_from_cs(x, lift(s))


def s_asin(x):
    if not _isinstance(x, SymNum):
        return math.asin(x)
    return SymNum(P_PI, None, False) / 2 - s_acos(x)


def s_atan(x):
    if not _isinstance(x, SymNum):
        return math.atan(x)
    return s_atan2(x, 1.0)


def s_hypot(*a):
    t = 0
    for x in a:
        t = t + x * x
    return s_sqrt(t)


# ---------------------------------------------------------------- context
CTXV = None


def CTX():
    if CTXV is None:
        raise Unsupported("no symbolic context")
    return CTXV


def set_ctx(c):
    global CTXV, TEXTS
    CTXV = c
    TEXTS = None


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.checks = 0
        self.forks = 0
        self.concretised = 0
        self.max_depth = 0
        self.trivial = 0


class Constraint:
    __slots__ = ("e", "vars", "lin")

    def __init__(self, e, vars, lin):
        self.e = e
        self.vars = vars
        self.lin = lin


_qcache = {}
_keep = []


def run_solver(es, lin, hasint, timeout_ms, want_model):
    """returns (status, model). Tries several z3 configurations."""
    tries = []
    if lin:
        tries = [("smt", timeout_ms)]
    elif hasint:
        tries = [("smt", timeout_ms), ("nra", timeout_ms)]
    else:
        tries = [("nra", max(300, timeout_ms // 3)), ("smt", max(300, timeout_ms // 3)), ("nlsat", max(300, timeout_ms // 3))]
    for kind, to in tries:
        if kind == "smt":
            s = z3.Solver()
        elif kind == "nra":
            s = z3.SolverFor("QF_NRA")
        else:
            s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-uncnstr", "qfnra-nlsat").solver()
        s.set("timeout", _int(to))
        s.add(*es)
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.sat:
            return "sat", (s.model() if want_model else None)
        if r == z3.unsat:
            return "unsat", None
    return "unknown", None


class Ctx:
    """one symbolic execution path"""
    mode = "symbolic"

    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.abases = {}    # angle expressions used on this path, in order (atan2 recognises them)
        self.trig_reg = {}
        self.cons = []
        self.memo = {}
        self.inputs = {}
        self.ranges = {}
        self.fork_floor = 8
        self.labels = []
        self.stats = eng.stats

    # ---- sign memo
    def note(self, q, signs):
        old = self.memo.get(q, frozenset("-0+"))
        self.memo[q] = old & signs

    def signs(self, q):
        s = self.memo.get(q)
        if s is None:
            s = frozenset("-0+")
            # even monomials only with one sign
            if len(q.t) == 1:
                (m, c), = q.t.items()
                sg = 1
                ok = True
                zero = False
                for v, e in m:
                    if v == PI.idx:
                        continue
                    sv = self.memo.get(Poly.var(VT.vars[v]))
                    if e % 2 == 0:
                        if sv is None or "0" in sv:
                            zero = True
                        continue
                    if sv is None:
                        ok = False
                        break
                    if sv <= frozenset("0+"):
                        pass
                    elif sv <= frozenset("-0"):
                        sg = -sg
                    else:
                        ok = False
                        break
                    if "0" in sv:
                        zero = True
                if ok:
                    s = frozenset(("+" if sg > 0 else "-") + ("0" if zero else ""))
        return s

    def decide_sign(self, f):
        s = self.signs(f)
        if s <= frozenset("0+"):
            return "+"
        if s <= frozenset("-0"):
            return "-"
        key = ("ds", f)
        got = self.memo.get(key)
        if got is not None and got[1] == len(self.cons):
            return got[0]
        # the answer is part of the path: solver timeouts must not make a re-run diverge
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            if not _isinstance(v, str):
                raise Inconclusive("replay mismatch")
            self.pos += 1
            self.trace.append((v, forced))
            if v == "+":
                self.note(f, frozenset("0+"))
            elif v == "-":
                self.note(f, frozenset("-0"))
            else:
                self.memo[key] = (v, len(self.cons))
            return v
        self.pos += 1
        z = pz(f)
        r = "?"
        if self.query(SymBool(z < 0, f.vars(), plinear(f)), timeout=1500)[0] == "unsat":
            self.note(f, frozenset("0+"))
            r = "+"
        elif self.query(SymBool(z > 0, f.vars(), plinear(f)), timeout=1500)[0] == "unsat":
            self.note(f, frozenset("-0"))
            r = "-"
        if r == "?":
            self.memo[key] = (r, len(self.cons))
        self.trace.append((r, True))
        return r

    # ---- solver
    def closure(self, vs, all_=False):
        """constraints and axioms relevant to variable set vs"""
        es = []
        lin = True
        vs = set(vs)
        pending = list(self.cons)
        done_ax = set()
        changed = True
        processed = set()
        while changed:
            changed = False
            rest = []
            for c in pending:
                if all_ or not c.vars or (c.vars & vs):
                    es.append(c.e)
                    lin = lin and c.lin
                    if not c.vars <= vs:
                        vs |= c.vars
                    changed = True
                else:
                    rest.append(c)
            pending = rest
            for i in list(vs):
                for k, (e, avs, trig) in enumerate(VT.vars[i].axioms):
                    if (i, k) in done_ax:
                        continue
                    if trig is not None and not trig <= vs:
                        continue
                    done_ax.add((i, k))
                    es.append(e)
                    lin = lin and VT.vars[i].meta == "linax"
                    if not avs <= vs:
                        vs |= avs
                    changed = True
        # dedupe
        seen = {}
        for e in es:
            seen[e.get_id()] = e
        return list(seen.values()), vs, lin

    def query(self, b, timeout=None, want_model=False, extra=(), all_=False):
        """satisfiability of path & b"""
        if timeout is None:
            timeout = self.eng.fork_timeout
        if _isinstance(b, bool):
            if not b:
                return "unsat", None
            es, vs, lin = self.closure(set(), all_)
        else:
            es, vs, lin = self.closure(b.vars, all_)
            es.append(b.e)
            lin = lin and b.lin
        for x in extra:
            es.append(x)
        key = frozenset(e.get_id() for e in es)
        if not want_model:
            r = _qcache.get(key)
            if r is not None and (r != "unknown" or timeout <= 3000):
                return r, None
        hasint = any(VT.vars[i].sort == "Int" for i in vs)
        t = time.time()
        r, m = run_solver(es, lin, hasint, timeout, want_model)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == "unknown":
            self.stats.unknown += 1
        _keep.append(es)
        _qcache[key] = r
        return r, m

    def add(self, b):
        if _isinstance(b, SymBool):
            self.cons.append(Constraint(b.e, b.vars, b.lin))
            if b.atom is not None:
                self.note(b.atom[0], _ALLS[b.atom[1]])
        elif not b:
            raise Infeasible()

    def branch(self, b):
        if self.eng.deadline and time.time() > self.eng.deadline:
            raise Inconclusive("time budget exhausted")
        a = b.atom
        if a is not None:
            s = self.signs(a[0])
            t = _ALLS[a[1]]
            if s <= t:
                return True
            if not (s & t):
                return False
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            if v is not True and v is not False:
                raise Inconclusive("replay mismatch")
            self.pos += 1
            self.trace.append((v, forced))
            if not forced:
                self.add(b if v else b.neg())
            elif a is not None:
                self.note(a[0], _ALLS[a[1] if v else _NEG[a[1]]])
            return v
        self.pos += 1
        r1, _ = self.query(b)
        if r1 == "unsat":
            self.trace.append((False, True))
            if a is not None:
                self.note(a[0], _ALLS[_NEG[a[1]]])
            return False
        r2, _ = self.query(b.neg())
        if r2 == "unsat":
            self.trace.append((True, True))
            if a is not None:
                self.note(a[0], _ALLS[a[1]])
            return True
        self.stats.forks += 1
        self.eng.push(self.trace + [(False, False)])
        self.trace.append((True, False))
        self.add(b)
        self.stats.max_depth = max(self.stats.max_depth, len(self.trace))
        if len(self.trace) > self.eng.max_depth:
            raise Inconclusive("decision depth bound %d" % self.eng.max_depth)
        return True

    def _model_value(self, x):
        r, m = self.query(SymBool(z3.BoolVal(True), _nvars(x), True), want_model=True, timeout=5000)
        if r != "sat":
            return None
        v = m.eval(_nz(x), model_completion=True)
        return z3frac(v)

    def concretize_int(self, x):
        if _isinstance(x, SymAbs):
            x = lift(x.force())
        n = 0
        while True:
            if self.pos < len(self.prefix):
                # value recorded in trace as tuple
                v, forced = self.prefix[self.pos]
                if _isinstance(v, tuple):
                    val = v[1]
                    self.pos += 1
                    self.trace.append((v, forced))
                    b = x == val
                    if v[0]:
                        self.add(b)
                        return val
                    self.add(s_not(b))
                    n += 1
                    continue
                raise Inconclusive("replay mismatch")
            self.pos += 1
            v = self._model_value(x)
            if v is None:
                raise Inconclusive("no model for integer concretisation")
            if v.denominator != 1:
                raise Inconclusive("non integer")
            v = _int(v)
            b = x == v
            if _isinstance(b, bool):
                return v
            r, _ = self.query(b.neg())
            if r != "unsat":
                self.eng.push(self.trace + [((False, v), False)])
                self.stats.forks += 1
            self.trace.append(((True, v), False))
            self.add(b)
            n += 1
            if len(self.trace) > self.eng.max_depth:
                raise Inconclusive("integer range too large")
            return v

    def maybe_concretize_int(self, k, limit):
        """fork over k if it has at most `limit` feasible values, else keep symbolic"""
        key = ("mci", k.num)
        if key in self.memo:
            v = self.memo[key]
            return k if v is None else v
        # decision recorded: ('range', bool)
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((v, forced))
            ok = v
        else:
            self.pos += 1
            ok = True
            vals = []
            b = SymBool(z3.BoolVal(True), _nvars(k), True)
            while True:
                r, m = self.query(b, want_model=True)
                if r == "unsat":
                    break
                if r != "sat" or len(vals) >= limit:
                    ok = False
                    break
                v = z3frac(m.eval(_nz(k), model_completion=True))
                vals.append(v)
                b = s_and(b, SymBool(_nz(k) != zq(v), _nvars(k), True))
            self.trace.append((ok, True))
        if not ok:
            self.memo[key] = None
            return k
        v = self.concretize_int(k)
        self.memo[key] = v
        return v

    def concretize(self, x, why):
        """last resort at a C boundary: pick one value (recorded as incompleteness)"""
        self.stats.concretised += 1
        self.eng.conc_sites.add(why + " @ " + caller_site())
        if not self.eng.allow_concretise:
            raise Inconclusive("concretisation at " + caller_site())
        v = self._model_value(x)
        if v is None:
            raise Inconclusive("no model for concretisation")
        f = _float(v)
        self.add(x == f)
        return f

    # ---- harness API -----------------------------------------------------
    def _inp(self, name, sort, lo, hi, isint):
        key = ("in", name, sort)
        v = _fresh_memo.get(key)
        if v is None:
            v = newvar(name, sort)
            _fresh_memo[key] = v
        x = SymNum(Poly.var(v), None, isint)
        if name not in self.inputs:
            self.inputs[name] = ("num", v, isint)
            self.ranges[v.idx] = (lo if _isinstance(lo, (_int, _float)) else None, hi if _isinstance(hi, (_int, _float)) else None)
            if lo is not None:
                self.add(x >= lo)
            if hi is not None:
                self.add(x <= hi)
        return x

    def real(self, name, lo=None, hi=None):
        return self._inp(name, "Real", lo, hi, False)

    def int(self, name, lo=None, hi=None):
        return self._inp(name, "Int", lo, hi, True)

    def angle(self, name, lo=None, hi=None, den=1):
        """an angle in degrees; den: also reason about its 1/den part"""
        x = self._inp(name, "Real", lo, hi, False)
        self.inputs[name] = ("ang", self.inputs[name][1], False, lo, hi)
        v = self.inputs[name][1]
        mono = ((PI.idx, 1), (v.idx, 1))
        if mono not in _angles:
            make_angle(mono, Fraction(1, 180 * den))
        self.abases[mono] = True
        return x

    def bool(self, name):
        v = self.int(name, 0, 1)
        return bool(v == 1)

    def choice(self, name, opts):
        opts = list(opts)
        if len(opts) == 1:
            return opts[0]
        k = concretize_int(self.int(name, 0, len(opts) - 1))
        return opts[k]

    def assume(self, c):
        if _isinstance(c, SymBool):
            if not self.branch_assume(c):
                raise Infeasible()
        elif not c:
            raise Infeasible()

    def branch_assume(self, b):
        a = b.atom
        if a is not None:
            s = self.signs(a[0])
            if s <= _ALLS[a[1]]:
                return True
            if not (s & _ALLS[a[1]]):
                return False
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((v, forced))
            if v:
                self.add(b)
            return v
        self.pos += 1
        r, _ = self.query(b)
        ok = r != "unsat"
        self.trace.append((ok, False))
        if ok:
            self.add(b)
        return ok

    def cover(self, label):
        self.eng.covered[label] = self.eng.covered.get(label, 0) + 1

    def check(self, cond, label, timeout=None, soft=None):
        """cond must hold; `soft` is an optional weaker condition (with float
        tolerance) used to pick a counterexample that survives rounding"""
        self.stats.checks += 1
        self.cover(label)
        if not _isinstance(cond, SymBool):
            if cond or soft is True:
                self.stats.trivial += 1
                return True
            if _isinstance(soft, SymBool):
                return self.check(soft, label, timeout)
            self.fail(label, None)
            raise PathEnd()
        n = cond.neg()
        to = timeout or self.eng.check_timeout
        r, _ = self.query(n, timeout=to)
        if r == "unsat":
            return True
        tgt = n
        if soft is not None:
            if not _isinstance(soft, SymBool):
                if soft:
                    return True
                tgt = n
            else:
                r2, _ = self.query(soft.neg(), timeout=to)
                if r2 == "unsat":
                    return True
                if r2 == "sat":
                    tgt = soft.neg()
                elif r == "unknown":
                    r = "unknown"
                if r2 == "unknown":
                    r = "unknown"
        if r == "unknown":
            if self.fail(label, tgt, unknown=True) == "unsat":
                self.add(cond)
                return True
            self.eng.unknown_checks.append((label, self.show_path()))
            self.add(cond)
            return None
        if self.fail(label, tgt) == "unsat":
            self.add(cond)
            return True
        # continue under the assumption that it held
        r, _ = self.query(cond)
        if r == "unsat":
            raise PathEnd()
        self.add(cond)
        return False

    def show_path(self):
        return "".join("T" if t is True else "F" if t is False else str(t) for t, _ in self.trace)[:200]

    def fail(self, label, tgt, unknown=False):
        return self.eng.candidates(self, label, tgt, unknown)

    # ---- bounding a polynomial from the ranges of its variables
    def vbound(self, i):
        """an upper bound of |variable| on every path, or None"""
        v = VT.vars[i]
        m = v.meta
        if i == PI.idx:
            return 3.2
        if m is not None:
            if m[0] in ("cos", "sin"):
                return 1.0
            if m[0] == "const":
                return _abs(m[1]) * (1 + 1e-9) + 1e-12
            if m[0] == "sqrt":
                b = self.pbound(m[1])
                return None if b is None else math.sqrt(b) * (1 + 1e-9)
            if m[0] in ("sinh", "cosh"):
                b = self.pbound(m[1])
                return None if b is None or b > 20 else math.cosh(b) * (1 + 1e-9)
            return None
        r = self.ranges.get(i)
        if r is None or r[0] is None or r[1] is None:
            return None
        return _float(max(_abs(r[0]), _abs(r[1])))

    def vlow(self, i):
        if i == PI.idx:
            return 3.1
        r = self.ranges.get(i)
        return _float(r[0]) if r is not None and r[0] is not None and r[0] > 0 else None

    def mbound(self, mono):
        q = 1.0
        for i, e in mono:
            b = self.vbound(i) if e > 0 else self.vlow(i)
            if b is None:
                return None
            q *= b ** e
        return q

    def pbound(self, p):
        t = 0.0
        for m, c in p.t.items():
            b = self.mbound(m)
            if b is None:
                return None
            t += b * _abs(_float(c))
        return t * (1 + 1e-9)

    def small(self, d, tol):
        """the solver shows |d| <= tol from the ranges of the variables alone,
        each monomial bounded on its own (linear)"""
        if not _isinstance(d, SymNum) or d.den or _isinstance(d, SymAbs) or len(d.num.t) > 400:
            return False
        g = {}
        for m, c in d.num.t.items():
            k, val, n = [], Fraction(c), 0
            for i, e in m:
                mt = VT.vars[i].meta
                if mt is not None and mt[0] == "const" and e > 0:
                    val *= Fraction(mt[1]) ** e
                    n = 1
                else:
                    k.append((i, e))
            k = tuple(k)
            a, er = g.get(k, (Fraction(0), 0.0))
            g[k] = (a + val, er + (_abs(_float(val)) * 1e-12 if n else 0.0))
        es, tot = [], []
        rough = 0.0
        for k, (a, er) in g.items():
            b = self.mbound(k)
            if b is None:
                return False
            b = b * (_abs(_float(a)) * (1 + 1e-9) + er)
            rough += b
            z = z3.Real("e!%d" % len(es))
            tot.append(z)
            q = zq(Fraction(b))
            es.append(z3.And(z <= q, z >= -q))
        if rough > tol:
            return False
        sm = z3.Sum(*tot) if len(tot) > 1 else tot[0]
        es.append(z3.Or(sm > zq(Fraction(tol)), sm < -zq(Fraction(tol))))
        t = time.time()
        r, _ = run_solver(es, True, False, 3000, False)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r == "unsat"

    def eq(self, a, b, label, tol=1e-6):
        if a is b:
            self.stats.checks += 1
            self.cover(label)
            return True
        if not _isinstance(a, SymNum) and not _isinstance(b, SymNum):
            if lift(a) is None or lift(b) is None:
                return self.check(a == b, label)
            return self.check(_abs(a - b) <= tol * (1 + _abs(a) + _abs(b)), label)
        d = a - b
        if not _isinstance(d, SymNum):
            if d == 0:
                # identical normal forms: still put to the solver (cheap)
                la, lb = lift(a), lift(b)
                q = SymBool(_nz(la) == _nz(lb), _nvars(la) | _nvars(lb), False)
                if self.query(q.neg(), timeout=500)[0] == "unsat":
                    self.stats.checks += 1
                    self.cover(label)
                    return True
            return self.check(_abs(d) <= tol, label)
        if self.small(d, tol):
            self.stats.checks += 1
            self.cover(label)
            return True
        return self.check(d == 0, label, soft=s_and(d <= tol, -d <= tol))

    def eqs(self, a, b, label, tol=1e-6, n=None):
        a = list(a)
        b = list(b)
        if n is None and len(a) != len(b):
            return self.check(False, label + " [length]")
        for i in range(n if n is not None else len(a)):
            x, y = a[i], b[i]
            if _isinstance(x, (list, tuple)) or (hasattr(x, "shape") and x.shape != ()):
                self.eqs(x, y, label, tol)
            else:
                self.eq(x, y, "%s[%d]" % (label, i), tol)

    def le(self, a, b, label, tol=1e-6):
        c = a <= b
        if _isinstance(c, SymBool):
            return self.check(c, label, soft=(a <= b + tol))
        return self.check(c or (a <= b + tol), label)

    def mod(self, name):
        return self.eng.loader.load(name)

    def texts(self):
        """from here on numbers are written as numerals that read back as themselves"""
        global TEXTS
        TEXTS = {}

    def binary(self, *mods):
        """the modules pack and unpack numbers as they are; returns what makes a file to be written or read"""
        from . import binary
        f = binary.patch([self.mod(m) for m in mods])
        f.Struct = binary.Struct
        return f

    def files(self):
        """files in memory: see symex/files.py"""
        from . import files
        return files.Files()

    def numeral(self, t):
        """the number that a text stands for"""
        return TEXTS[t] if TEXTS and t in TEXTS else _float(t)

    def implies(self, a, b):
        return s_implies(a, b)

    def And(self, *a):
        return s_and(*a)

    def Or(self, *a):
        return s_or(*a)

    def Not(self, a):
        return s_not(a)

    def sqrt(self, x):
        return s_sqrt(x)

    def cosd(self, x):
        return s_cos(deg2rad(lift(x)))

    def sind(self, x):
        return s_sin(deg2rad(lift(x)))

    def cosh(self, x):
        return s_cosh(x)

    def sinh(self, x):
        return s_sinh(x)

    def abs(self, x):
        return _abs(x)

    def feasible(self, c):
        """is c possible on this path (no fork)"""
        if not _isinstance(c, SymBool):
            return c
        return self.query(c)[0] != "unsat"

    def valid(self, c):
        if not _isinstance(c, SymBool):
            return bool(c)
        return self.query(c.neg())[0] == "unsat"

    @property
    def pi(self):
        return SymNum(P_PI, None, False)


def z3frac(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Inconclusive("model value %s" % v)


def caller_site():
    f = sys._getframe(1)
    while f is not None:
        fn = f.f_code.co_filename
        if "/symex/" not in fn and "fractions" not in fn and "numbers" not in fn:
            return "%s:%d" % (fn.split("/repo/")[-1], f.f_lineno)
        f = f.f_back
    return "?"
