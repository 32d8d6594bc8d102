"""Depth-first exploration of all feasible paths of one harness."""
import time, sys, math, traceback, itertools, os
from fractions import Fraction
import z3
from . import core as C
from .core import Ctx, Steer, PathEnd, Infeasible, Unsupported, Inconclusive, SymBool, z3frac, VT, zvar


class Engine:
    def __init__(self, loader, fork_timeout=3000, check_timeout=20000, max_paths=20000, max_depth=4000,
                 deadline=None, allow_concretise=True):
        self.loader = loader
        self.fork_timeout = fork_timeout
        self.check_timeout = check_timeout
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.deadline = deadline
        self.allow_concretise = allow_concretise
        self.stats = C.Stats()
        self.work = []
        self.covered = {}
        self.conc_sites = set()
        self.unknown_checks = []
        self.inconclusive = []
        self.cands = []
        self.cand_count = {}
        self.samples = []
        self.max_cands = 3
        self.stop_after = 40
        self.stopped = False

    def push(self, prefix):
        self.work.append(prefix)

    def run(self, fn):
        self.work = [[]]
        while self.work:
            if self.deadline and time.time() > self.deadline:
                self.inconclusive.append("time budget exhausted with %d pending branches" % len(self.work))
                break
            if self.stats.paths >= self.max_paths:
                self.inconclusive.append("path bound %d reached with %d pending branches" % (self.max_paths, len(self.work)))
                break
            if sum(self.cand_count.values()) >= self.stop_after:
                self.stopped = True
                break
            prefix = self.work.pop()
            ctx = Ctx(self, prefix)
            C.set_ctx(ctx)
            try:
                fn(ctx)
                self.stats.paths += 1
                if len(self.samples) < 3:
                    self.sample(ctx)
            except PathEnd:
                self.stats.paths += 1
            except Infeasible:
                self.stats.infeasible += 1
            except (Unsupported, Inconclusive) as e:
                self.inconclusive.append("%s: %s @ %s" % (type(e).__name__, e, where(e)))
                if len(self.inconclusive) > 5:
                    break
            except C.TooBig as e:
                self.inconclusive.append("polynomial too large @ %s" % where(e))
            except Steer:
                raise
            except z3.Z3Exception as e:
                self.inconclusive.append("z3: %s" % e)
            except RecursionError as e:
                self.stats.paths += 1
                self.exc(ctx, e)
            except Exception as e:
                self.stats.paths += 1
                self.exc(ctx, e)
            finally:
                C.set_ctx(None)

    def exc(self, ctx, e):
        lab = "unexpected %s: %s @ %s" % (type(e).__name__, str(e)[:120], where(e))
        if os.environ.get("SX_DEBUG"):
            traceback.print_exc()
        C.set_ctx(ctx)
        try:
            self.candidates(ctx, lab, None, False)
        except (Steer, z3.Z3Exception) as e2:
            self.inconclusive.append("no model for %s (%s)" % (lab, e2))

    def sample(self, ctx):
        try:
            m = self.model(ctx, None, 2000)
            if m is not None:
                self.samples.append(self.extract(ctx, m))
        except Exception:
            pass

    # ---- counterexamples
    def model(self, ctx, tgt, timeout, extra=()):
        b = tgt if tgt is not None else True
        r, m = ctx.query(b, timeout=timeout, want_model=True, extra=extra, all_=True)
        self.last = r
        return m if r == "sat" else None

    def extract(self, ctx, m):
        out = {}
        for name, spec in ctx.inputs.items():
            if spec[0] in ("num", "ang"):
                v = m.eval(zvar(spec[1].idx), model_completion=True)
                f = z3frac(v)
                out[name] = int(f) if spec[2] else float(f)
            elif spec[0] == "str":
                out[name] = spec[1](m)
        return out

    def candidates(self, ctx, label, tgt, unknown):
        n = self.cand_count.get(label, 0)
        self.cand_count[label] = n + 1
        if n >= self.max_cands:
            if tgt is not None and ctx.query(tgt, timeout=3000, want_model=True, all_=True)[0] == "unsat":
                self.cand_count[label] -= 1
                return "unsat"
            return
        out = []
        bnd = []
        for name, spec in ctx.inputs.items():
            if spec[0] == "num" and not spec[2]:
                z = zvar(spec[1].idx)
                bnd.append(z3.And(z <= 500, z >= -500))
        angs = [(n_, s) for n_, s in ctx.inputs.items() if s[0] == "ang"]
        to = 6000 if not unknown else 3000
        m = self.model(ctx, tgt, to, bnd)
        if m is None:
            m = self.model(ctx, tgt, to)
            if m is None and self.last == "unsat":      # refuted by the rest of the path
                self.cand_count[label] -= 1
                return "unsat"
            if m is None and not unknown:
                self.inconclusive.append("no model for a failing '%s' on path %s" % (label, ctx.show_path()))
        if m is not None:
            base = self.extract(ctx, m)
            out.append(base)
            if angs:
                alt = dict(base)
                for nm, s in angs:
                    mono = ((C.PI.idx, 1), (s[1].idx, 1))
                    b = C._angles.get(mono)
                    if b is None:
                        continue
                    try:
                        c = float(z3frac(m.eval(C._nz(b.c), model_completion=True)))
                        sn = float(z3frac(m.eval(C._nz(b.s), model_completion=True)))
                    except Exception:
                        continue
                    t = math.degrees(math.atan2(sn, c)) / float(b.gran * 180)
                    t += 360 * round((base[nm] - t) / 360)
                    if s[3] is not None and isinstance(s[3], (int, float)) and t < s[3]:
                        t += 360
                    if s[4] is not None and isinstance(s[4], (int, float)) and t > s[4]:
                        t -= 360
                    alt[nm] = t
                out.append(alt)
        # pin angles to exact values
        if angs and (m is not None or unknown):
            ex = list(bnd)
            okall = True
            for nm, s in angs:
                mono = ((C.PI.idx, 1), (s[1].idx, 1))
                b = C._angles.get(mono)
                found = False
                for v in (30, 60, 120, 45, 90, 200, 250, 300, 330, 0, 180, 270, 360, -30, -90, 390, 10, 1):
                    if s[3] is not None and isinstance(s[3], (int, float)) and v < s[3]:
                        continue
                    if s[4] is not None and isinstance(s[4], (int, float)) and v > s[4]:
                        continue
                    e = [zvar(s[1].idx) == v]
                    if b is not None:
                        fr = Fraction(v) * b.gran
                        cc, ss = math.cos(float(fr * 180) * math.pi / 180), math.sin(float(fr * 180) * math.pi / 180)
                        eps = Fraction(1, 10 ** 9)
                        zc, zs = C._nz(b.c), C._nz(b.s)
                        e += [zc >= C.zq(Fraction(cc) - eps), zc <= C.zq(Fraction(cc) + eps), zs >= C.zq(Fraction(ss) - eps), zs <= C.zq(Fraction(ss) + eps)]
                    mm = self.model(ctx, tgt, 2500, ex + e)
                    if mm is not None:
                        ex += e
                        m = mm
                        found = True
                        break
                if not found:
                    okall = False
                    break
            if okall and m is not None:
                out.insert(0, self.extract(ctx, m))
        # one away from the edges of the region that fails: rounding may hide what happens exactly there
        if m is not None and not angs:
            pins, end = list(bnd), time.time() + 8
            for name, spec in ctx.inputs.items():
                if spec[0] != "num" or spec[2]:
                    continue
                z = zvar(spec[1].idx)
                b = out[0][name]
                lo, hi = ctx.ranges.get(spec[1].idx) or (None, None)
                vs = [b + 0.2 * (float(hi) - b) if hi is not None else b + 1, b - 0.2 * (b - float(lo)) if lo is not None else b - 1, b + 0.013, b - 0.013]
                for v in vs:
                    if time.time() > end:
                        break
                    v = Fraction(round(v * 1024), 1024)
                    if v == Fraction(b):
                        continue
                    mm = self.model(ctx, tgt, 1500, pins + [z == C.zq(v)])
                    if mm is not None:
                        pins.append(z == C.zq(v))
                        m2 = mm
                        break
            if len(pins) > len(bnd):
                out.append(self.extract(ctx, m2))
        extra = []
        for o in out:
            for nd in (3, 0):
                r = {k: (round(v, nd) if isinstance(v, float) else v) for k, v in o.items()}
                if r != o:
                    extra.append(r)
        out += extra
        self.cands.append((label, out, unknown))
        if not unknown and self.deadline:
            # something to replay: do not explore for long any more
            self.deadline = min(self.deadline, time.time() + 60)


def where(e):
    tb = e.__traceback__
    last = None
    h = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/repo/" in fn or "/src/yapcad/" in fn or "/service/" in fn:
            last = "%s:%d" % (fn.split("/repo/")[-1], tb.tb_lineno)
        elif "/symex/" not in fn:
            h = "%s:%d" % (os.path.basename(fn), tb.tb_lineno)
        tb = tb.tb_next
    return last or h or "?"
