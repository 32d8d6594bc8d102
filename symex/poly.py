"""Exact sparse multivariate polynomials over Q with quadratic rewrite rules.

A monomial is a sorted tuple of (var_index, exponent).  Exponents may be
negative only for variables flagged `laurent` (pi).  A variable may carry a
rule  v**2 -> Poly  (square roots, sines); every product is kept reduced, so
equality modulo the rules is syntactic for most terms met here.
"""
from fractions import Fraction
import math


def _nrm(q):
    if type(q) is Fraction and q.denominator == 1:
        return q.numerator
    return q


class Var:
    __slots__ = ("idx", "name", "sort", "rule", "laurent", "axioms", "meta", "z3", "deps", "axdone")

    def __init__(self, idx, name, sort):
        self.idx = idx
        self.name = name
        self.sort = sort            # 'Real' | 'Int'
        self.rule = None            # Poly for v**2
        self.laurent = False
        self.axioms = []            # list of callables / z3 formulas, filled by core
        self.meta = None
        self.z3 = None
        self.deps = ()
        self.axdone = False


class VarTable:
    def __init__(self):
        self.vars = []
        self.ruled = {}

    def new(self, name, sort="Real"):
        v = Var(len(self.vars), name, sort)
        self.vars.append(v)
        return v

    def set_rule(self, v, poly):
        v.rule = poly
        self.ruled[v.idx] = poly


VT = VarTable()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            out.append(x); i += 1
        elif x[0] > y[0]:
            out.append(y); j += 1
        else:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1; j += 1
    out.extend(a[i:]); out.extend(b[j:])
    return tuple(out)


def _needs(m):
    r = VT.ruled
    if r:
        for v, e in m:
            if e >= 2 and v in r:
                return v
    return -1


class TooBig(Exception):
    pass


LIMIT = 60000


class Poly:
    __slots__ = ("t", "_h", "_vars")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._vars = None

    # -- constructors
    @staticmethod
    def const(q):
        q = _nrm(q)
        return Poly({(): q}) if q else ZERO

    @staticmethod
    def var(v):
        return Poly({((v.idx, 1),): 1})

    # -- predicates
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def cval(self):
        return self.t.get((), 0)

    def is_zero(self):
        return not self.t

    def vars(self):
        if self._vars is None:
            s = set()
            for m in self.t:
                for v, _ in m:
                    s.add(v)
            self._vars = frozenset(s)
        return self._vars

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    # -- arithmetic
    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = x + c
                if x:
                    r[m] = _nrm(x)
                else:
                    del r[m]
        return Poly(r)

    def __sub__(self, o):
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            x = r.get(m)
            if x is None:
                r[m] = -c
            else:
                x = x - c
                if x:
                    r[m] = _nrm(x)
                else:
                    del r[m]
        return Poly(r)

    def scale(self, q):
        if not q:
            return ZERO
        if q == 1:
            return self
        return Poly({m: _nrm(c * q) for m, c in self.t.items()})

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        if len(a) * len(b) > 4000000:
            raise TooBig()
        r = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                m = mono_mul(ma, mb)
                c = ca * cb
                x = r.get(m)
                r[m] = c if x is None else x + c
        if len(r) > LIMIT:
            raise TooBig()
        return reduce_dict(r)

    def __pow__(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    # -- helpers
    def lead(self):
        return max(self.t)          # any fixed total order

    def content(self):
        g = 0
        l = 1
        for c in self.t.values():
            if type(c) is int:
                n, d = c, 1
            else:
                n, d = c.numerator, c.denominator
            g = math.gcd(g, n)
            l = l * d // math.gcd(l, d)
        return Fraction(g, l)

    def canon(self):
        """(unit, primitive) with self == unit*primitive, primitive's lead coeff > 0."""
        if not self.t:
            return 0, self
        c = self.content()
        if self.t[self.lead()] < 0:
            c = -c
        if c == 1:
            return 1, self
        inv = 1 / Fraction(c)
        return c, self.scale(inv)

    def mono_content(self):
        it = iter(self.t)
        m0 = dict(next(it))
        for m in it:
            d = dict(m)
            for v in list(m0):
                e = d.get(v, 0)
                if e < m0[v]:
                    m0[v] = e
            if not m0:
                break
        return {v: e for v, e in m0.items() if e}

    def div_mono(self, mc):
        inv = tuple(sorted((v, -e) for v, e in mc.items()))
        return Poly({mono_mul(m, inv): c for m, c in self.t.items()})

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items()):
            s = "*".join(VT.vars[v].name + ("" if e == 1 else "^%d" % e) for v, e in m)
            out.append(("%s*%s" % (c, s)) if s else str(c))
            if len(out) > 12:
                out.append("...")
                break
        return " + ".join(out)


def reduce_dict(r):
    if VT.ruled:
        todo = [m for m in r if _needs(m) >= 0]
        while todo:
            acc = {}
            for m in todo:
                c = r.pop(m, 0)
                if not c:
                    continue
                v = _needs(m)
                if v < 0:
                    acc[m] = acc.get(m, 0) + c
                    continue
                rule = VT.ruled[v]
                rest = mono_mul(m, ((v, -2),))
                for mm, cc in rule.t.items():
                    k = mono_mul(rest, mm)
                    acc[k] = acc.get(k, 0) + c * cc
            todo = []
            for k, c in acc.items():
                x = r.get(k, 0) + c
                r[k] = x
                if _needs(k) >= 0:
                    todo.append(k)
            if len(r) > LIMIT:
                raise TooBig()
    out = {}
    for m, c in r.items():
        if c:
            out[m] = _nrm(c)
    return Poly(out)


ZERO = Poly({})
ONE = Poly({(): 1})


def isqrt_frac(q):
    """exact sqrt of a nonnegative Fraction or None"""
    q = Fraction(q)
    n, d = q.numerator, q.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def exact_div(p, q):
    """p / q if q divides p exactly (ignoring rules), else None. Multivariate
    division with the lex order induced by tuple comparison of dense exponents."""
    if q.is_const():
        return p.scale(Fraction(1) / q.cval())
    if len(p.t) > 400 or len(q.t) > 60 or not p.t:
        return None if p.t else ZERO
    if not q.vars() <= p.vars():
        return None
    order = sorted(p.vars() | q.vars())
    pos = {v: i for i, v in enumerate(order)}
    n = len(order)

    def dense(m):
        d = [0] * n
        for v, e in m:
            d[pos[v]] = e
        return tuple(d)

    P = {dense(m): c for m, c in p.t.items()}
    Q = {dense(m): c for m, c in q.t.items()}
    if any(min(m) < 0 for m in P) or any(min(m) < 0 for m in Q):
        return None
    lq = max(Q)
    cq = Q[lq]
    res = {}
    steps = 0
    while P:
        lp = max(P)
        m = tuple(a - b for a, b in zip(lp, lq))
        if min(m) < 0:
            return None
        c = Fraction(P[lp]) / cq
        res[m] = c
        for k, v in Q.items():
            kk = tuple(a + b for a, b in zip(k, m))
            x = P.get(kk, 0) - c * v
            if x:
                P[kk] = x
            else:
                P.pop(kk, None)
        steps += 1
        if steps > 2000:
            return None
    return Poly({tuple((order[i], e) for i, e in enumerate(m) if e): _nrm(c) for m, c in res.items()})


def poly_sqrt(p):
    """polynomial q with q*q == p (in the plain ring), or None"""
    if not p.t:
        return ZERO
    if len(p.t) > 200:
        return None
    order = sorted(p.vars())
    n = len(order)
    pos = {v: i for i, v in enumerate(order)}

    def dense(m):
        d = [0] * n
        for v, e in m:
            d[pos[v]] = e
        return tuple(d)
    P = {dense(m): c for m, c in p.t.items()}
    if any(n and min(m) < 0 for m in P):
        return None
    lead = max(P)
    if any(e % 2 for e in lead):
        return None
    if P[lead] < 0:
        return None
    c0 = isqrt_frac(P[lead])
    if c0 is None:
        return None
    l0 = tuple(e // 2 for e in lead)
    Q = {l0: c0}
    R = dict(P)
    del R[lead]
    steps = 0
    while R:
        lr = max(R)
        m = tuple(a - b for a, b in zip(lr, l0))
        if m and min(m) < 0:
            return None
        if m >= l0:
            return None
        c = Fraction(R[lr]) / (2 * c0)
        # R -= 2*c*m*Q + (c*m)^2
        for k, v in list(Q.items()) :
            kk = tuple(a + b for a, b in zip(k, m))
            x = R.get(kk, 0) - 2 * c * v
            if x:
                R[kk] = x
            else:
                R.pop(kk, None)
        kk = tuple(2 * a for a in m)
        x = R.get(kk, 0) - c * c
        if x:
            R[kk] = x
        else:
            R.pop(kk, None)
        Q[m] = c
        steps += 1
        if steps > 60:
            return None
    return Poly({tuple((order[i], e) for i, e in enumerate(m) if e): _nrm(c) for m, c in Q.items()})
