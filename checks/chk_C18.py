"""DSL expressions: meaning and precedence (lexer, parser, checker and interpreter run on a
fixed text; the values of the parameters are symbolic)."""
from symex.harness import harness
import math
from symex.dsl import D, run, value, same


# ---- an expression family with its own evaluator -------------------------------------------
LEVEL = {"or": 1, "and": 2, "==": 3, "!=": 3, "<": 4, ">": 4, "<=": 4, ">=": 4, "+": 5, "-": 5, "*": 6, "/": 6, "//": 6, "%": 6, "**": 7}


def ap(h, op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        h.assume(h.Or(b > 0.01, b < -0.01))
        return a / b
    if op == "<":
        return bool(a < b)
    if op == ">":
        return bool(a > b)
    if op == "<=":
        return bool(a <= b)
    if op == ">=":
        return bool(a >= b)
    if op == "==":
        return bool(a == b)
    if op == "!=":
        return bool(a != b)
    if op == "**":
        r = 1.0
        for _ in range(b):
            r = r * a
        return r
    if op == "and":
        return a and b
    if op == "or":
        return a or b


def climb(h, vals, ops):
    """value of vals[0] ops[0] vals[1] ops[1] ... by the stated levels, left to right"""
    vals, ops = list(vals), list(ops)
    for lv in (7, 6, 5, 4, 3, 2, 1):
        i = len(ops) - 1 if lv == 7 else 0
        while 0 <= i < len(ops):
            if LEVEL[ops[i]] == lv:
                vals[i:i + 2] = [ap(h, ops[i], vals[i], vals[i + 1])]
                del ops[i]
                if lv == 7:
                    i -= 1
            else:
                i += -1 if lv == 7 else 1
    return vals[0]


ARITH = [(o, p) for o in ("+", "-", "*", "/") for p in ("+", "-", "*", "/")]


@harness("all values of three operands of every pair of arithmetic operators, bare and with either pair in brackets", each=[("%s%s" % (o, p), dict(o=o, p=p)) for o, p in ARITH])
def pairs(h, o, p):
    a, b, c = (h.real(n, -100, 100) for n in "abc")
    P = dict(a=("float", a), b=("float", b), c=("float", c))
    how = h.choice("brackets", ("none", "left", "right"))
    if how == "none":
        want = climb(h, (a, b, c), (o, p))
        t = "a %s b %s c" % (o, p)
    elif how == "left":
        want = ap(h, p, ap(h, o, a, b), c)
        t = "(a %s b) %s c" % (o, p)
    else:
        want = ap(h, o, a, ap(h, p, b, c))
        t = "a %s (b %s c)" % (o, p)
    same(h, value(h, "emit " + t, P, "float"), want, "the value follows the stated precedence")


FOUR = [("+", "*", "-"), ("*", "+", "*"), ("-", "-", "-"), ("-", "*", "+"), ("*", "-", "*"), ("/", "*", "/"), ("-", "+", "-"), ("+", "-", "*")]


@harness("all values of four operands", each=[("".join(o), dict(o=o)) for o in FOUR])
def four(h, o):
    v = [h.real(n, -100, 100) for n in "abcd"]
    t = "a %s b %s c %s d" % o
    want = climb(h, v, o)
    same(h, value(h, "emit " + t, {n: ("float", x) for n, x in zip("abcd", v)}, "float"), want, "the value follows the stated precedence")


@harness("arithmetic beside a comparison, all values", each=[("%s%d" % (c, s), dict(c=c, s=s)) for c in ("<", ">", "<=", ">=", "==", "!=") for s in (0, 1, 2)])
def compare(h, c, s):
    a, b, d = (h.real(n, -100, 100) for n in "abd")
    P = dict(a=("float", a), b=("float", b), d=("float", d))
    t, want = [("a %s b + d", lambda: ap(h, c, a, b + d)), ("a * 2.0 - d %s b", lambda: ap(h, c, a * 2 - d, b)), ("a %s b", lambda: ap(h, c, a, b))][s]
    same(h, value(h, "emit " + t % c, P, "bool"), want(), "true exactly when the comparison holds")


LOGIC = ["p or q and r", "p and q or r", "(p or q) and r", "not p and q", "not (p and q)", "not p or not q", "p and not q and r", "not p == q", "p == q and r", "p != q or r", "p and (q or r) and not (p and r)", "not not p", "p or q or r", "p and q and r"]


def logic_value(t, p, q, r):
    T = {"p or q and r": p or (q and r), "p and q or r": (p and q) or r, "(p or q) and r": (p or q) and r, "not p and q": (not p) and q, "not (p and q)": not (p and q),
         "not p or not q": (not p) or (not q), "p and not q and r": p and (not q) and r, "not p == q": (not p) == q, "p == q and r": (p == q) and r, "p != q or r": (p != q) or r,
         "p and (q or r) and not (p and r)": p and (q or r) and not (p and r), "not not p": p, "p or q or r": p or q or r, "p and q and r": p and q and r}
    return bool(T[t])


@harness("all truth values", each=[(str(i), dict(t=t)) for i, t in enumerate(LOGIC)])
def logic(h, t):
    x, y, z = (h.real(n, -10, 10) for n in "xyz")
    # truth values as the outcome of comparisons
    pre = "command L(p: bool, q: bool, r: bool) -> bool:\n    emit " + t + "\n"
    got = value(h, "emit L(x > 1.0, y > x, z < 2.0)", dict(x=("float", x), y=("float", y), z=("float", z)), "bool", pre)
    same(h, got, logic_value(t, bool(x > 1), bool(y > x), bool(z < 2)), "the truth value is that of the formula")


@harness("comparisons joined by and / or, all values", each=[("%s/%s/%s" % (c, l, e), dict(c=c, l=l, e=e)) for c in ("<", ">=") for l in ("and", "or") for e in (">", "==")])
def mixed(h, c, l, e):
    a, b, d = (h.real(n, -100, 100) for n in "abd")
    P = dict(a=("float", a), b=("float", b), d=("float", d))
    x, y = ap(h, c, a + 1, b), ap(h, e, b * 2, d)
    want = (x and y) if l == "and" else (x or y)
    same(h, value(h, "emit a + 1.0 %s b %s b * 2.0 %s d" % (c, l, e), P, "bool"), want, "true exactly when the formula holds")


UN = {"-a + b": lambda a, b: b - a, "a - -b": lambda a, b: a + b, "-a * -b": lambda a, b: a * b, "--a": lambda a, b: a, "-(a - b)": lambda a, b: b - a,
      "a ** 2 + b": lambda a, b: a * a + b, "b * a ** 3": lambda a, b: b * a * a * a, "-a ** 2": lambda a, b: a * a, "a ** 2 * b": lambda a, b: a * a * b, "2.0 * -a - b": lambda a, b: -2 * a - b,
      "a - (b - (a - b))": lambda a, b: a - (b - (a - b)), "((a))": lambda a, b: a, "a * (b + 1.5)": lambda a, b: a * (b + 1.5), "0.5 - a": lambda a, b: 0.5 - a, "a / 4": lambda a, b: a / 4, "a ** 1 ** 2": lambda a, b: a, "a * 2.0 ** 3 ** 2": lambda a, b: 512 * a, "a ** 2 ** 1 + b": lambda a, b: a * a + b, "a - b ** 2 - a": lambda a, b: 0 - b * b, "-a - -b - a": lambda a, b: b - 2 * a, "-2 * a": lambda a, b: -2 * a, "a - 2 * 3 - b": lambda a, b: a - 6 - b, "1e2 * a": lambda a, b: 100 * a}


@harness("signs, powers and brackets, all values", each=[(str(i), dict(t=t)) for i, t in enumerate(UN)])
def unary(h, t):
    a, b = h.real("a", -20, 20), h.real("b", -20, 20)
    same(h, value(h, "emit " + t, dict(a=("float", a), b=("float", b)), "float"), UN[t](a, b), "the value is that of the formula")


def fdiv(h, a, k):
    """floor of a / k for an integer a and a positive k, by its definition"""
    q = a // k
    return q


INT = ["i + j * 2", "i - j - 1", "i * j", "-i + j", "i // 3", "i % 3", "i // 3 * 3 + i % 3", "(i + j) % 4", "i * 2 // 4", "7 - i % 5 * 2"]


@harness("integers, all values", each=[(str(k), dict(t=t)) for k, t in enumerate(INT)])
def integers(h, t):
    i, j = h.int("i", -50, 50), h.int("j", -50, 50)
    r = run(h, "emit " + t, dict(i=("int", i), j=("int", j)), "int")
    h.check(r is not None and r.success is True, "the command succeeds")
    g = r.emit_result.data
    ty = h.mod(D + "types")
    h.check(r.emit_result.type == ty.INT, "the value is an integer")
    if t in ("i + j * 2", "i - j - 1", "i * j", "-i + j"):
        h.check(g == {"i + j * 2": i + j * 2, "i - j - 1": i - j - 1, "i * j": i * j, "-i + j": j - i}[t], "the value is that of the formula")
    elif t == "i // 3":
        h.check(h.And(3 * g <= i, i < 3 * g + 3), "the quotient is rounded down")
    elif t == "i % 3":
        k = (i - g) // 3
        h.check(h.And(g >= 0, g < 3, 3 * k == i - g), "the remainder is between nought and the divisor")
    elif t == "i // 3 * 3 + i % 3":
        h.check(g == i, "quotient and remainder make up the number")
    elif t == "(i + j) % 4":
        k = (i + j - g) // 4
        h.check(h.And(g >= 0, g < 4, 4 * k == i + j - g), "the remainder is between nought and the divisor")
    elif t == "i * 2 // 4":
        h.check(h.And(2 * g <= i, i < 2 * g + 2), "operators of one level apply from the left")
    else:
        k = (7 - g) // 2
        m = (i - k) // 5
        h.check(h.And(2 * k == 7 - g, k >= 0, k < 5, 5 * m == i - k), "remainder and product come first, from the left")


@harness("mixed numbers and division, all values", each=[(str(k), dict(k=k)) for k in range(6)])
def numbers(h, k):
    i, x = h.int("i", -50, 50), h.real("x", -50, 50)
    t = ["i / 4", "i + x", "x * i", "i / 2 * 2", "x - i / 2", "i ** 2 + x"][k]
    want = [i / 4, i + x, x * i, i, x - i / 2, i * i + x][k]
    r = run(h, "emit " + t, dict(i=("int", i), x=("float", x)), "float")
    h.check(r is not None and r.success is True, "the command succeeds")
    h.eq(r.emit_result.data, want, "the value is that of the formula")
    h.check(r.emit_result.type == h.mod(D + "types").FLOAT, "the value is a float")


COND = {"a if a > b else b": lambda a, b: a if a > b else b, "1.0 if a > 2.0 else 2.0 if a > 1.0 else 3.0": lambda a, b: 1.0 if a > 2 else (2.0 if a > 1 else 3.0),
        "(a if a < b else b) + 1.0": lambda a, b: (a if a < b else b) + 1, "a + 1.0 if b > 0.0 else a - 1.0": lambda a, b: a + 1 if b > 0 else a - 1,
        "a / b if b > 0.5 or b < -0.5 else 0.0": lambda a, b: a / b if (b > 0.5 or b < -0.5) else 0.0,
        "1.0 if b != 0.0 and a / b > 1.0 else 0.0": lambda a, b: (1.0 if a / b > 1 else 0.0) if b != 0 else 0.0,
        "1.0 if b == 0.0 or a / b > 1.0 else 0.0": lambda a, b: (1.0 if a / b > 1 else 0.0) if b != 0 else 1.0}


@harness("conditional expressions and short-circuit operators, all values", each=[(str(k), dict(t=t)) for k, t in enumerate(COND)])
def conditional(h, t):
    a, b = h.real("a", -20, 20), h.real("b", -20, 20)
    same(h, value(h, "emit " + t, dict(a=("float", a), b=("float", b)), "float"), COND[t](a, b), "the value is that of the branch the condition selects")


@harness("a division by an arbitrary number, nought included", each=[(o, dict(o=o)) for o in ("/", "%", "//")])
def by_zero(h, o):
    i = h.int("i", -3, 3)
    a = h.int("a", -20, 20)
    r = run(h, "b: int = i * i\nemit 1 + a %s b" % o, dict(i=("int", i), a=("int", a)), "float")
    h.assume(r is not None)
    if i == 0:
        h.check(r.success is False, "a division by nought is reported")
        h.check(isinstance(r.error_message, str) and len(r.error_message) > 0, "with a message")
    else:
        h.check(r.success is True, "any other division succeeds")


def listof(h, n):
    xs = [h.real("x%d" % k, -50, 50) for k in range(n)]
    return xs, {"x%d" % k: ("float", v) for k, v in enumerate(xs)}, "[%s]" % ", ".join("x%d" % k for k in range(n))


LIST = ("index", "sum", "product", "min_of", "max_of", "any", "all", "reverse", "concat", "plus", "map", "filter", "nested", "dependent", "len", "min", "max")


@harness("lists of up to three arbitrary numbers", each=[("%s/%d" % (k, n), dict(k=k, n=n)) for k in LIST for n in (1, 2, 3)])
def lists(h, k, n):
    xs, P, L = listof(h, n)
    c = h.real("c", -50, 50)
    P = dict(P, c=("float", c))
    if k == "index":
        i = h.choice("i", range(n))
        same(h, value(h, "v: list<float> = %s\nemit v[%d]" % (L, i), P, "float"), xs[i], "the element at the index")
    elif k == "sum":
        t = 0.0
        for x in xs:
            t = t + x
        same(h, value(h, "emit sum(%s)" % L, P, "float"), t, "the sum")
    elif k == "product":
        t = 1.0
        for x in xs:
            t = t * x
        same(h, value(h, "emit product(%s)" % L, P, "float"), t, "the product")
    elif k in ("min_of", "max_of", "min", "max"):
        if k in ("min", "max"):
            g = value(h, "emit %s(%s, c)" % (k, L[1:-1]), P, "float")
            xs = xs + [c]
        else:
            g = value(h, "emit %s(%s)" % (k, L), P, "float")
        h.check(h.And(*[(g <= x) if k[:3] == "min" else (g >= x) for x in xs]), "no element is beyond it")
        h.check(h.Or(*[g == x for x in xs]), "it is an element")
    elif k in ("any", "all"):
        b = [bool(x > c) for x in xs]
        g = value(h, "emit %s_true([y > c for y in %s])" % (k, L), P, "bool")
        same(h, g, any(b) if k == "any" else all(b), "the truth value of the list")
    elif k == "reverse":
        same(h, value(h, "emit reverse(%s)" % L, P, "list<float>"), xs[::-1], "the list backwards")
    elif k == "concat":
        same(h, value(h, "emit concat(%s, [c, 1.0])" % L, P, "list<float>"), xs + [c, 1.0], "one list after the other")
    elif k == "plus":
        same(h, value(h, "emit [c] + %s + []" % L, P, "list<float>"), [c] + xs, "one list after the other")
    elif k == "map":
        same(h, value(h, "emit [y * c - 1.0 for y in %s]" % L, P, "list<float>"), [x * c - 1 for x in xs], "each element transformed, in order")
    elif k == "filter":
        same(h, value(h, "emit [y + 1.0 for y in %s if y > c]" % L, P, "list<float>"), [x + 1 for x in xs if x > c], "the elements that meet the condition, in order")
    elif k == "nested":
        same(h, value(h, "emit [y + 2.0 * z for y in %s if y > c for z in [c, x0]]" % L, P, "list<float>"), [x + 2 * z for x in xs if x > c for z in (c, xs[0])], "every pair, the first clause outermost")
    elif k == "dependent":
        same(h, value(h, "emit [y + j for j in range(2) for y in %s if y > j]" % L, P, "list<float>"), [x + j for j in range(2) for x in xs if x > j], "conditions may use the outer variables")
    else:
        same(h, value(h, "emit len([y for y in %s if y < c])" % L, P, "int"), len([x for x in xs if x < c]), "the number of elements")


@harness("ranges between arbitrary small integers", each=[(k, dict(k=k)) for k in ("one", "two", "up", "down", "flatten", "index")])
def ranges(h, k):
    i, j = h.int("i", -2, 4), h.int("j", -2, 4)
    P = dict(i=("int", i), j=("int", j))
    a, b = next(v for v in range(-2, 5) if i == v), next(v for v in range(-2, 5) if j == v)
    if k == "one":
        same(h, value(h, "emit range(i)", P, "list<int>"), list(range(a)), "the numbers below the end")
    elif k == "two":
        same(h, value(h, "emit range(i, j)", P, "list<int>"), list(range(a, b)), "from the start to below the end")
    elif k == "up":
        same(h, value(h, "emit range(i, j, 2)", P, "list<int>"), list(range(a, b, 2)), "in steps")
    elif k == "down":
        same(h, value(h, "emit range(i, j, -1)", P, "list<int>"), list(range(a, b, -1)), "backwards")
    elif k == "flatten":
        same(h, value(h, "emit flatten([range(i), range(j), [7]])", P, "list<int>"), list(range(a)) + list(range(b)) + [7], "the lists one after the other")
    else:
        h.assume(h.And(i >= 0, i < 3))
        same(h, value(h, "v: list<int> = [10, 20, 30]\nemit v[i] + v[0]", P, "int"), (10, 20, 30)[a] + 10 if 0 <= a < 3 else 0, "the element at the index")


@harness("numeric built-ins, all values", each=[(k, dict(k=k)) for k in ("sqrt", "abs", "floor", "ceil", "round", "pow", "deg", "rad", "trig", "member", "vector")])
def builtins(h, k):
    x = h.real("x", -20, 20)
    P = dict(x=("float", x))
    if k == "sqrt":
        g = value(h, "emit sqrt(x * x + 1.0)", P, "float")
        h.eq(g * g, x * x + 1, "the square root")
        h.check(g > 0, "positive")
    elif k == "abs":
        g = value(h, "emit abs(x)", P, "float")
        h.check(h.And(g >= 0, h.Or(g == x, g == -x)), "the absolute value")
    elif k in ("floor", "ceil", "round"):
        g = value(h, "emit %s(x)" % k, P, "int")
        h.check({"floor": lambda: h.And(g <= x, x < g + 1), "ceil": lambda: h.And(g >= x, x > g - 1), "round": lambda: h.And(2 * g <= 2 * x + 1, 2 * x <= 2 * g + 1)}[k](), "the nearest whole number on the side asked for")
    elif k == "pow":
        h.eq(value(h, "emit pow(x, 3.0)", P, "float"), x * x * x, "the power")
    elif k == "deg":
        h.eq(value(h, "emit degrees(radians(x))", P, "float"), x, "degrees and radians undo each other")
    elif k == "rad":
        h.eq(value(h, "emit radians(x) * 180.0 / pi()", P, "float"), x, "radians are pi over 180 of the degrees")
    elif k == "trig":
        a = h.angle("a", -360, 360)
        P = dict(a=("float", a), x=("float", x))
        same(h, value(h, "emit [sin(radians(a)), cos(radians(a))]", P, "list<float>"), [h.sind(a), h.cosd(a)], "sine and cosine take radians")
    elif k == "member":
        y = h.real("y", -20, 20)
        same(h, value(h, "p: point3d = point(x, y, 3.0)\nq: point2d = point(y, x)\nemit [p.x, p.y, p.z, q.x, q.y]", dict(P, y=("float", y)), "list<float>"), [x, y, 3.0, y, x], "coordinates of a point")
    else:
        y = h.real("y", -20, 20)
        same(h, value(h, "v: vector3d = vector(x, 2.0, y)\nemit [v.x, v.y, v.z]", dict(P, y=("float", y)), "list<float>"), [x, 2.0, y], "components of a vector")


MIXED = {"[i, x]": lambda i, x: [i, x], "[x, i]": lambda i, x: [x, i], "[i] + [x]": lambda i, x: [i, x], "[] + [x]": lambda i, x: [x], "concat([i], [x])": lambda i, x: [i, x], "concat([], [x, i])": lambda i, x: [x, i],
         "reverse([i, x])": lambda i, x: [x, i], "[k if k > 0.0 else x for k in [i, 2.5]]": lambda i, x: [i if i > 0 else x, 2.5], "[x / 2 for k in range(2)]": lambda i, x: [x / 2, x / 2], "[k + x for k in [i, i + 1]]": lambda i, x: [i + x, i + 1 + x]}


@harness("lists of whole and other numbers, all values", each=[(str(k), dict(t=t)) for k, t in enumerate(MIXED)])
def mixed_lists(h, t):
    i, x = h.int("i", -9, 9), h.real("x", -9, 9)
    P = dict(i=("int", i), x=("float", x))
    v = MIXED[t](i, x)
    w = 0.0
    for e in v:
        w = w * 3 + e * e
    k = h.choice("how", ("loop", "index", "comprehension"))
    pre = ""
    if "[]" in t:
        # the checker knows no element type here
        pre, t = "w: list<float> = %s\n" % t, "w"
    if k == "loop":
        g = value(h, pre + "r: float = 0.0\nfor e in %s:\n    r = r * 3.0 + e ** 2\nemit r" % t, P, "float")
    elif k == "index":
        g = value(h, pre + "v: list<float> = %s\nr: float = 0.0\nfor n in range(%d):\n    r = r * 3.0 + v[n] ** 2\nemit r" % (t, len(v)), P, "float")
    else:
        L = value(h, pre + "emit [e ** 2 for e in %s]" % t, P, "list<float>")
        h.check(len(L) == len(v), "as many elements")
        g = 0.0
        for e in L:
            g = g * 3 + e
    h.eq(g, w, "no element loses its fraction")


@harness("empty lists", each=[(k, dict(k=k)) for k in ("sum", "product", "any_true", "all_true", "len", "reverse", "min_of", "max_of", "flatten")])
def empty_lists(h, k):
    x = h.real("x", -9, 9)
    P = dict(x=("float", x))
    E = "[y for y in [x, x] if y > x]"
    if k in ("min_of", "max_of"):
        r = run(h, "emit %s(%s)" % (k, E), P, "float")
        h.assume(r is not None)
        h.check(r.success is False, "an extreme of nothing is reported")
        return
    ret = {"any_true": "bool", "all_true": "bool", "len": "int", "reverse": "list<float>", "flatten": "list<float>"}.get(k, "float")
    a = {"any_true": "[y > 0.0 for y in %s]" % E, "all_true": "[y > 0.0 for y in %s]" % E, "flatten": "[%s, [x], %s]" % (E, E)}.get(k, E)
    same(h, value(h, "emit %s(%s)" % (k, a), P, ret), {"sum": 0.0, "product": 1.0, "any_true": False, "all_true": True, "len": 0, "reverse": [], "flatten": [x]}[k], "the value for the empty list")


@harness("inverse trigonometric functions, minima and maxima of mixed numbers", each=[(k, dict(k=k)) for k in ("atan2", "tan", "asin", "acos", "atan", "tau", "minmax", "distance")])
def more_builtins(h, k):
    if k in ("tan", "atan2", "asin", "acos", "atan"):
        a = h.angle("a", -180, 180)
        s, c = h.sind(a), h.cosd(a)
        P = dict(a=("float", a))
        if k == "tan":
            h.assume(h.Or(c > 0.05, c < -0.05))
            h.eq(value(h, "emit tan(radians(a))", P, "float") * c, s, "the tangent is sine over cosine")
            return
        x = h.real("x", 0.5, 4)
        P["x"] = ("float", x)
        if k == "atan2":
            h.assume(h.And(a > -180, a < 180))
            h.eq(value(h, "emit degrees(atan2(x * sin(radians(a)), x * cos(radians(a))))", P, "float"), a, "the direction of a point, sine first")
        elif k == "asin":
            h.assume(h.And(a > -90, a < 90))
            h.eq(value(h, "emit degrees(asin(sin(radians(a))))", P, "float"), a, "the angle of a sine")
        elif k == "acos":
            h.assume(h.And(a > 0, a < 180))
            h.eq(value(h, "emit degrees(acos(cos(radians(a))))", P, "float"), a, "the angle of a cosine")
        else:
            h.assume(h.And(a > -89, a < 89))
            h.eq(value(h, "emit degrees(atan(sin(radians(a)) / cos(radians(a))))", P, "float"), a, "the angle of a tangent")
    elif k == "tau":
        x = h.real("x", -9, 9)
        h.eq(value(h, "emit x * tau()", dict(x=("float", x)), "float"), 2 * h.pi * x, "a full turn")
    elif k == "minmax":
        i, x, y = h.int("i", -9, 9), h.real("x", -9, 9), h.real("y", -9, 9)
        g = value(h, "emit [min(i, x, y), max(i, x, y), min(2, i), max(x, 2)]", dict(i=("int", i), x=("float", x), y=("float", y)), "list<float>")
        same(h, g, [min(i, x, y), max(i, x, y), min(2, i), max(x, 2)], "the least and the greatest")
    else:
        v = [h.real(n, -9, 9) for n in "xyzuv"]
        g = value(h, "emit distance(point(x, y, z), point(u, v, 1.0), 0.1)", {n: ("float", q) for n, q in zip("xyzuv", v)}, "float")
        x, y, z, u, w = v
        h.eq(g * g, (x - u) * (x - u) + (y - w) * (y - w) + (z - 1) * (z - 1), "the distance squared")
        h.check(g >= 0, "not negative")
