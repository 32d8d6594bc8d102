"""Running a DSL text with symbolic parameters: lexer, parser, checker and interpreter of the
current tree; only the provenance record (hashes and time stamps of the run) is left out."""
D = "yapcad.dsl."


def execute(h, src, command, params, limit=None):
    """result of running a command of the text, or None where the checker rejects the text"""
    lx, ps, ck, it = (h.mod(D + m) for m in ("lexer", "parser", "checker", "runtime.interpreter"))
    m = ps.parse(lx.tokenize(src), source=src)
    c = ck.check(m)
    h.check(not c.has_errors, "the program is accepted")
    if c.has_errors:
        return None
    h.assume(hasattr(it, "create_provenance"))
    it.create_provenance = lambda **k: None
    return it.Interpreter(recursion_limit=limit).execute(m, command, params, src)


def run(h, body, params, ret, pre="", limit=None):
    """the body of a command with parameters name -> (type, value)"""
    sig = ", ".join("%s: %s" % (n, t) for n, (t, v) in params.items())
    src = "module m\n\n%s\ncommand MAIN(%s) -> %s:\n%s\n" % (pre, sig, ret, "\n".join("    " + l for l in body.strip("\n").split("\n")))
    return execute(h, src, "MAIN", {n: v for n, (t, v) in params.items()}, limit)


def value(h, body, params, ret, pre="", limit=None):
    r = run(h, body, params, ret, pre, limit)
    h.check(r is not None and r.success is True, "the command succeeds")
    return r.emit_result.data


def same(h, got, want, label):
    if isinstance(want, (list, tuple)):
        h.check(isinstance(got, (list, tuple)) and len(got) == len(want), label)
        for g, w in zip(got, want):
            same(h, g, w, label)
    elif isinstance(want, bool):
        h.check(bool(got) == want, label)
    else:
        h.eq(got, want, label)
