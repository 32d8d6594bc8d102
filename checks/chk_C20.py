"""DSL control flow: the whole pipeline runs on fixed texts whose parameters are symbolic; what the
text says is written beside it in Python."""
from symex.harness import harness
from symex.dsl import run, value, same


def reals(h, names, lo=-50, hi=50):
    v = [h.real(n, lo, hi) for n in names]
    return v, {n: ("float", x) for n, x in zip(names, v)}


def small(h, name, lo, hi):
    """an integer parameter and the Python number it is on this path"""
    i = h.int(name, lo, hi)
    for v in range(lo, hi + 1):
        if i == v:
            return i, v
    h.assume(False)


# ---- conditionals ------------------------------------------------------------------------------
LADDER = """
r: float = 0.0
if x > 10.0:
    r = 1.0
elif x > y:
    r = 2.0 + x
elif y > 5.0 and x < 0.0:
    r = 3.0 * y
else:
    r = x - y
emit r + 1.0
"""


@harness("an if / elif / else ladder, all values")
def ladder(h):
    (x, y), P = reals(h, "xy")
    want = 1.0 if x > 10 else 2 + x if x > y else 3 * y if (y > 5 and x < 0) else x - y
    same(h, value(h, LADDER, P, "float"), want + 1, "only the branch of the first condition that holds runs")


@harness("an if without else and one ladder inside another, all values", each=[("if", dict(k=0)), ("nested", dict(k=1)), ("both", dict(k=2)), ("emit", dict(k=3))])
def branches(h, k):
    (x, y), P = reals(h, "xy")
    T = ["""
r: float = x
if y > 1.0:
    r = r + 2.0
if y < 3.0:
    r = r * 2.0
emit r
""", """
r: float = 0.0
if x > 0.0:
    if y > 0.0:
        r = 1.0
    else:
        if y < x - 10.0:
            r = 2.0
        r = r + 10.0
    r = r + 100.0
else:
    r = -1.0
emit r
""", """
r: float = 0.0
t: float = x
if x > y:
    t = y
    r = t
else:
    r = t + 1.0
if t == r:
    emit r
else:
    emit 0.0 - t
""", """
if x > y:
    emit x
if x > 0.0:
    emit y
    emit 7.0
emit 0.0
"""][k]
    if k == 0:
        w = x
        w = w + 2 if y > 1 else w
        w = w * 2 if y < 3 else w
    elif k == 1:
        if x > 0:
            w = 101.0 if y > 0 else 112.0 if y < x - 10 else 110.0
        else:
            w = -1.0
    elif k == 2:
        w = y if x > y else 0 - x
    else:
        w = x if x > y else y if x > 0 else 0.0
    same(h, value(h, T, P, "float"), w, "the statements of the branches whose conditions hold")


# ---- loops ----------------------------------------------------------------------------------------
@harness("loops over lists of up to three arbitrary numbers", each=[("%s/%d" % (k, n), dict(k=k, n=n)) for k in ("sum", "filtered", "order", "early", "last", "pairs", "build", "emit_pair", "assign") for n in (1, 2, 3)])
def over_lists(h, k, n):
    names = ["x%d" % i for i in range(n)]
    xs, P = reals(h, names)
    c = h.real("c", -50, 50)
    P["c"] = ("float", c)
    L = "[%s]" % ", ".join(names)
    T = {"sum": ("r: float = c\nfor x in L:\n    r = r + x\nemit r", "float"),
         "filtered": ("r: float = 0.0\nm: float = 0.0\nfor x in L:\n    if x > c:\n        r = r + x\n    elif x < 0.0:\n        r = r - 1.0\n    else:\n        m = m + 1.0\n    m = m + 0.5\nemit r + 1000.0 * m", "float"),
         "order": ("r: float = 0.0\nfor x in L:\n    r = r * 2.0 + x\nemit r", "float"),
         "early": ("for x in L:\n    if x > c:\n        emit x\nemit -99.0", "float"),
         "last": ("r: float = -99.0\nfor x in L:\n    if x > c:\n        r = x\nemit r", "float"),
         "pairs": ("r: float = 0.0\nfor x in L:\n    for y in L:\n        r = r * 1.5 + x - 2.0 * y\n    r = r + c\nemit r", "float"),
         "build": ("r: list<float> = []\nfor x in L:\n    if x > c:\n        r = r + [x, c]\n    else:\n        r = [x] + r\nemit r", "list<float>"),
         "emit_pair": ("for x in L:\n    for y in L:\n        if x - y > c:\n            emit x + 3.0 * y\n    if x < -20.0:\n        emit 1.0\nemit 2.0", "float"),
         "assign": ("a: float = 0.0\nb: float = 1.0\nfor x in L:\n    t: float = a\n    a = b\n    b = t + x\nemit a + 10.0 * b", "float")}[k]
    if k == "sum":
        w = c
        for x in xs:
            w = w + x
    elif k == "filtered":
        w = m = 0.0
        for x in xs:
            if x > c:
                w = w + x
            elif x < 0:
                w = w - 1
            else:
                m = m + 1
            m = m + 0.5
        w = w + 1000 * m
    elif k == "order":
        w = 0.0
        for x in xs:
            w = w * 2 + x
    elif k == "early":
        w = next((x for x in xs if x > c), -99.0)
    elif k == "last":
        w = next((x for x in xs[::-1] if x > c), -99.0)
    elif k == "pairs":
        w = 0.0
        for x in xs:
            for y in xs:
                w = w * 1.5 + x - 2 * y
            w = w + c
    elif k == "build":
        w = []
        for x in xs:
            w = w + [x, c] if x > c else [x] + w
    elif k == "emit_pair":
        w = None
        for x in xs:
            for y in xs:
                if w is None and x - y > c:
                    w = x + 3 * y
            if w is None and x < -20:
                w = 1.0
        w = 2.0 if w is None else w
    else:
        a, b = 0.0, 1.0
        for x in xs:
            a, b = b, a + x
        w = a + 10 * b
    same(h, value(h, T[0].replace("in L", "in " + L), P, T[1]), w, "each pass in order, with the values the passes before left")


@harness("loops over ranges between arbitrary small integers", each=[(k, dict(k=k)) for k in ("count", "triangle", "bounds", "early", "after")])
def over_ranges(h, k):
    i, a = small(h, "i", -1, 3)
    j, b = small(h, "j", -1, 3)
    x = h.real("x", -50, 50)
    P = dict(i=("int", i), j=("int", j), x=("float", x))
    T = {"count": "r: float = x\nfor p in range(i):\n    for q in range(j):\n        r = r + 1.0 + 10.0 * p + 100.0 * q\nemit r",
         "triangle": "r: float = x\nfor p in range(i):\n    for q in range(p, j):\n        r = r * 2.0 + q\nemit r",
         "bounds": "r: float = x\nn: int = j\nfor p in range(i, n):\n    n = 9\n    r = r + p\nemit r + 100.0 * n",
         "early": "r: float = x\nfor p in range(i):\n    if p == j:\n        emit r\n    r = r + 10.0 * p + 1.0\nemit -r",
         "after": "p: int = 7\nr: float = x\nfor q in range(i):\n    r = r + p\n    p = p + j\nemit r + 100.0 * p"}[k]
    w = x
    if k == "count":
        for p in range(a):
            for q in range(b):
                w = w + 1 + 10 * p + 100 * q
    elif k == "triangle":
        for p in range(a):
            for q in range(p, b):
                w = w * 2 + q
    elif k == "bounds":
        n = b
        for p in range(a, b):
            n = 9
            w = w + p
        w = w + 100 * n
    elif k == "early":
        for p in range(a):
            if p == b:
                break
            w = w + 10 * p + 1
        else:
            w = -w
    else:
        p = 7
        for q in range(a):
            w = w + p
            p += b
        w = w + 100 * p
    same(h, value(h, T, P, "float"), w, "each pass in order, with the values the passes before left")


# ---- scope ------------------------------------------------------------------------------------------
SCOPE = {
    "let in a branch": ("r: float = x\nif x > y:\n    let r: float = y\n    r = r + 1.0\nemit r", lambda x, y: x),
    "let in a loop": ("r: float = x\nfor k in range(2):\n    let r: float = y\n    r = r + 1.0\nemit r", lambda x, y: x),
    "same name in two branches": ("r: float = 0.0\nif x > y:\n    t: float = x\n    r = t\nelse:\n    t: float = y\n    r = t + 1.0\nemit r", lambda x, y: x if x > y else y + 1),
    "loop variable": ("k: float = x\nfor k in [y, y + 1.0]:\n    pass\nemit k", lambda x, y: x),
    "comprehension variable": ("k: float = x\nv: list<float> = [k * 2.0 for k in [y, 1.0]]\nemit k + v[0]", lambda x, y: x + 2 * y),
    "assignment to an outer variable": ("r: float = x\nif x > y:\n    if x > 0.0:\n        for k in range(2):\n            r = r + y\nemit r", lambda x, y: x + 2 * y if (x > y and x > 0) else x),
    "assignment to a parameter": ("if x > y:\n    x = y\nemit x", lambda x, y: y if x > y else x),
    "comprehension in a loop over the same name": ("r: float = 0.0\nfor k in [x, y]:\n    v: list<float> = [k * 2.0 for k in [3.0, 4.0]]\n    r = r + k * v[1]\nemit r", lambda x, y: 8 * x + 8 * y),
    "comprehension in a branch": ("r: float = x\nif x > y:\n    r = sum([r + y for r in [1.0, 2.0]])\n    r = r + sum([y * 2.0 for y in [1.0]]) + y\nemit r", lambda x, y: 5 + 3 * y if x > y else x),
    "comprehension inside a comprehension": ("v: list<float> = [sum([x + k for k in [k, 1.0]]) + k for k in [y, 2.0]]\nemit v[0] * 10.0 + v[1]", lambda x, y: 10 * (2 * x + 2 * y + 1) + 2 * x + 5),
    "loop inside a loop of the same name": ("r: float = 0.0\nfor k in [x, y]:\n    for k in [k + 1.0, 5.0]:\n        r = r * 2.0 + k\n    r = r + 3.0 * k\nemit r", lambda x, y: ((((x + 1) * 2 + 5 + 3 * x) * 2 + y + 1) * 2 + 5 + 3 * y)),
    "loop over the name of a parameter": ("r: float = 0.0\nfor x in [y, x]:\n    r = r * 2.0 + x\nemit r + x", lambda x, y: 2 * y + 2 * x),
    "comprehension over the name of a parameter": ("v: list<float> = [x + y for x in [y, x]]\nemit v[0] * 10.0 + v[1] + x", lambda x, y: 20 * y + 2 * x + y),
    "let in a loop in a branch": ("r: float = x\nif x > y:\n    for k in range(2):\n        let r: float = r + 1.0\n        if r > 0.0:\n            let r: float = 9.0\n    r = r + 1.0\nemit r", lambda x, y: x + 1 if x > y else x),
    "its own old value": ("r: float = x\nr = r * 2.0 + y\nr = r - x\nemit r", lambda x, y: x + y),
}


@harness("names and where they hold, all values", each=[(str(i), dict(t=t)) for i, t in enumerate(SCOPE)])
def scope(h, t):
    (x, y), P = reals(h, "xy")
    w = SCOPE[t][1](x, y)
    same(h, value(h, SCOPE[t][0], P, "float"), w, t)


# ---- commands calling commands ------------------------------------------------------------------------
SUB = """command SUB(a: float, b: float = 2.0, d: float = a + b) -> float:
    r: float = a * 100.0 + b * 10.0 + d
    a = 0.0
    emit r

"""
CALLS = {"SUB(x, y, z)": lambda x, y, z: (x, y, z), "SUB(x, y)": lambda x, y, z: (x, y, x + y), "SUB(x)": lambda x, y, z: (x, 2.0, x + 2), "SUB(b=y, a=x)": lambda x, y, z: (x, y, x + y),
         "SUB(x, d=z)": lambda x, y, z: (x, 2.0, z), "SUB(x, d=z, b=y)": lambda x, y, z: (x, y, z), "SUB(a=x, d=z)": lambda x, y, z: (x, 2.0, z), "SUB(d=x, b=z, a=y)": lambda x, y, z: (y, z, x),
         "SUB(z - x, y * 2.0)": lambda x, y, z: (z - x, 2 * y, z - x + 2 * y)}


@harness("positional, named and default arguments, all values", each=[(str(i), dict(t=t)) for i, t in enumerate(CALLS)])
def arguments(h, t):
    (x, y, z), P = reals(h, "xyz")
    a, b, d = CALLS[t](x, y, z)
    # the caller has variables of the same names as the parameters of the called command
    body = "a: float = z + 1.0\nr: float = y - 1.0\nb: float = 5.0\nq: float = %s\nemit [q, a, r, b]" % t
    same(h, value(h, body, P, "list<float>", SUB), [100 * a + 10 * b + d, z + 1, y - 1, 5.0], "every parameter gets its argument and the caller's variables stay")


@harness("parameters of the command that is run, given or left to their defaults, all values", each=[("abd", dict(g="abd")), ("ab", dict(g="ab")), ("a", dict(g="a")), ("ad", dict(g="ad")), ("b", dict(g="b"))])
def top_arguments(h, g):
    v = {n: h.real(n, -50, 50) for n in g}
    from symex.dsl import execute
    r = execute(h, "module m\n\n" + SUB, "SUB", v)
    h.assume(r is not None)
    if "a" not in g:
        h.check(r.success is False, "a missing parameter is reported")
        h.check(isinstance(r.error_message, str) and len(r.error_message) > 0, "with a message")
        return
    a = v["a"]
    b = v.get("b", 2.0)
    d = v.get("d", a + b)
    h.check(r.success is True, "the command succeeds")
    h.eq(r.emit_result.data, 100 * a + 10 * b + d, "every parameter has the value given or its default")


PICK = """command FIRST(a: float, b: float, c: float) -> float:
    if a > c:
        emit a
    if b > c:
        emit b
    emit c

command BIG(a: float, c: float) -> bool:
    emit a > c

command LIM(a: float, c: float) -> float:
    for k in range(3):
        if BIG(a + k, c):
            emit a + k
    emit 0.0

"""
NEST = {"FIRST(x, y, z)": lambda x, y, z: x if x > z else y if y > z else z,
        "FIRST(FIRST(x, y, z), y, x)": lambda x, y, z: (lambda f: f if f > x else y if y > x else x)(x if x > z else y if y > z else z),
        "1.0 if BIG(x, z) and not BIG(y, z) else 2.0": lambda x, y, z: 1.0 if (x > z and not (y > z)) else 2.0,
        "LIM(x, y) + z": lambda x, y, z: (x if x > y else x + 1 if x + 1 > y else x + 2 if x + 2 > y else 0.0) + z,
        "sum([LIM(q, z) for q in [x, y] if BIG(q, -10.0)])": lambda x, y, z: sum([(q if q > z else q + 1 if q + 1 > z else q + 2 if q + 2 > z else 0.0) for q in (x, y) if q > -10])}


@harness("commands calling commands, all values", each=[(str(i), dict(t=t)) for i, t in enumerate(NEST)])
def calls(h, t):
    (x, y, z), P = reals(h, "xyz")
    w = NEST[t](x, y, z)
    same(h, value(h, "emit " + t, P, "float", PICK), w, "the value is that of the command for these arguments")


CALLIF = """
r: float = 0.0
if BIG(x, z):
    r = r + 1.0
elif BIG(y, z) or BIG(y, 40.0):
    r = r + 2.0
if not BIG(x, y):
    r = r + 10.0
require BIG(r, -1.0), "never"
emit r
"""


@harness("a called command as a condition, all values")
def call_condition(h):
    (x, y, z), P = reals(h, "xyz")
    w = 1.0 if x > z else 2.0 if (y > z or y > 40) else 0.0
    w = w if x > y else w + 10
    same(h, value(h, CALLIF, P, "float", PICK), w, "the branch its value selects")


REC = """command SUMTO(n: int, x: float) -> float:
    if n <= 0:
        emit 0.0
    emit x + SUMTO(n - 1, x * 0.5)

command FIB(n: int) -> int:
    if n < 2:
        emit n
    emit FIB(n - 1) + FIB(n - 2)

command EVEN(n: int) -> bool:
    if n == 0:
        emit true
    emit ODD(n - 1)

command ODD(n: int) -> bool:
    if n == 0:
        emit false
    emit EVEN(n - 1)

command TREE(n: int, x: float) -> list<float>:
    if n == 0 or x > 20.0:
        emit [x]
    r: list<float> = []
    for k in range(2):
        r = r + TREE(n - 1, x + k + 1.0)
    emit r

"""


@harness("recursion to any depth up to six", each=[(k, dict(k=k)) for k in ("SUMTO", "FIB", "EVEN", "TREE")])
def recursion(h, k):
    n, m = small(h, "n", 0, 3 if k == "TREE" else 6)
    x = h.real("x", -50, 50)
    P = dict(n=("int", n), x=("float", x))
    if k == "SUMTO":
        w, s = 0.0, x
        for _ in range(m):
            w, s = w + s, s * 0.5
        same(h, value(h, "emit SUMTO(n, x)", P, "float", REC), w, "the sum")
    elif k == "FIB":
        same(h, value(h, "emit FIB(n)", P, "int", REC), (0, 1, 1, 2, 3, 5, 8)[m], "the number")
    elif k == "EVEN":
        same(h, value(h, "emit EVEN(n)", P, "bool", REC), m % 2 == 0, "the parity")
    else:
        def tree(m, x):
            return [x] if m == 0 or x > 20 else tree(m - 1, x + 1) + tree(m - 1, x + 2)
        same(h, value(h, "emit TREE(n, x)", P, "list<float>", REC), tree(m, x), "the leaves in order")


@harness("recursion against any limit up to six", each=[("SUMTO", dict(k=0)), ("EVEN", dict(k=1))])
def limits(h, k):
    n, m = small(h, "n", 0, 6)
    x = h.real("x", -50, 50)
    lim = h.choice("limit", range(1, 7))
    P = dict(n=("int", n), x=("float", x))
    r = run(h, "emit SUMTO(n, x)" if k == 0 else "emit EVEN(n)", P, "float" if k == 0 else "bool", REC, limit=lim)
    h.assume(r is not None)
    # the call from MAIN is one, and each further one goes one deeper
    if m + 1 <= lim:
        h.check(r.success is True, "a depth within the limit is allowed")
    else:
        h.check(r.success is False, "a depth beyond the limit is reported")
        h.check("ecursion" in r.error_message, "with a message that says so")


# ---- requirements ---------------------------------------------------------------------------------------
REQ = {
    "one": ("require x > y, \"first\"\nemit x", lambda x, y: ["first"] if not (x > y) else []),
    "two": ("require x > y, \"first\"\nrequire x > 0.0, \"second\"\nemit x", lambda x, y: (["first"] if not (x > y) else []) + (["second"] if not (x > 0) else [])),
    "branch": ("if x > 0.0:\n    require x > y, \"first\"\nelse:\n    require y > x, \"second\"\nemit x", lambda x, y: (["first"] if not (x > y) else []) if x > 0 else (["second"] if not (y > x) else [])),
    "loop": ("for k in range(2):\n    require x + k > y, \"first\"\nemit x", lambda x, y: ["first"] if not (x > y) else []),
    "after emit": ("if x > y:\n    emit x\nrequire x > 0.0, \"first\"\nemit y", lambda x, y: [] if x > y else ["first"] if not (x > 0) else []),
    "formula": ("require x > y and (x > 0.0 or y > 0.0), \"first\"\nemit x", lambda x, y: ["first"] if not (x > y and (x > 0 or y > 0)) else []),
    "no text": ("require x > y\nemit x", lambda x, y: [""] if not (x > y) else []),
    "called": ("emit CHK(x, y) + 1.0", lambda x, y: ["inner"] if not (x > y) else []),
    "called twice": ("r: float = 0.0\nif x > 0.0:\n    r = CHK(y, x)\nemit CHK(x, y) + r", lambda x, y: ["inner"] if (x > 0 and not (y > x)) or not (x > y) else []),
    "called deep": ("emit VIA(x, y)", lambda x, y: ["inner"] if not (x + 1 > y) else []),
    "in a comprehension": ("emit sum([CHK(x, q) for q in [y, 1.0]])", lambda x, y: ["inner"] if not (x > y) or not (x > 1) else []),
    "in a condition": ("if CHK(x, y) > 0.0:\n    emit 1.0\nemit 2.0", lambda x, y: ["inner"] if not (x > y) else []),
}
CHK = """command CHK(a: float, b: float) -> float:
    require a > b, "inner"
    emit a

command VIA(a: float, b: float) -> float:
    emit CHK(a + 1.0, b)

"""


@harness("requirements of the command and of those it calls, all values", each=[(str(i), dict(t=t)) for i, t in enumerate(REQ)])
def requirements(h, t):
    (x, y), P = reals(h, "xy")
    w = REQ[t][1](x, y)
    r = run(h, REQ[t][0], P, "float", CHK)
    h.assume(r is not None)
    h.check(r.success is (not w), "a command succeeds exactly when the requirements it meets hold")
    if w:
        h.check(isinstance(r.error_message, str) and w[0] in r.error_message and len(r.error_message) > 0, "the text of the failed requirement is reported")


@harness("a command that ends without an emit, or in an error, all values", each=[(k, dict(k=k)) for k in ("no emit", "index", "zero", "called")])
def failures(h, k):
    i, a = small(h, "i", -1, 3)
    x = h.real("x", -50, 50)
    pre = "command INV(n: int) -> float:\n    emit 1.0 / n\n\n"
    T = {"no emit": "if x > 0.0:\n    emit x", "index": "v: list<float> = [x, 1.0]\nemit v[i + 1]", "zero": "emit x / i", "called": "r: float = 0.0\nif x > 0.0:\n    r = INV(i)\nemit r"}[k]
    ok = {"no emit": lambda: bool(x > 0), "index": lambda: a + 1 < 2, "zero": lambda: a != 0, "called": lambda: not (x > 0) or a != 0}[k]()
    r = run(h, T, dict(i=("int", i), x=("float", x)), "float", pre)
    h.assume(r is not None)
    h.check(r.success is ok, "the command fails exactly when it cannot give a value")
    if not ok:
        h.check(isinstance(r.error_message, str) and len(r.error_message) > 0, "with a message")


NATIVE = """native python {
def twice(v):
    return v * 2
def big(v, w):
    return v > w
def pick(n, v, w):
    if n > 1:
        return v
    return w
def following(n):
    return n + 1
} exports {
    fn twice(v: float) -> float;
    fn big(v: float, w: float) -> bool;
    fn pick(n: int, v: float, w: float) -> float;
    fn following(n: int) -> int;
}
"""


@harness("functions of a native block", each=[(str(k), dict(k=k)) for k in range(6)])
def native(h, k):
    i, a = small(h, "i", 0, 3)
    x, y = h.real("x", -50, 50), h.real("y", -50, 50)
    P = dict(i=("int", i), x=("float", x), y=("float", y))
    t, w = [("emit twice(x) - y", 2 * x - y), ("if big(x, y):\n    emit 1.0\nemit 2.0", lambda: 1.0 if x > y else 2.0), ("emit pick(i, x, y)", x if a > 1 else y),
            ("emit 1.0 if not big(x, y) else twice(twice(y))", lambda: 4 * y if x > y else 1.0), ("r: float = x\nfor k in range(following(i)):\n    r = r + 1.0\nemit r", x + a + 1), ("emit following(i) / 2", (a + 1) / 2)][k]
    w = w() if callable(w) else w
    same(h, value(h, t, P, "float", NATIVE), w, "the function is called with its arguments and its value used")
