#!/opt/venv/bin/python
"""Entry point of every check:  run.py <PROPERTY> [--only NAME] [-v]"""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True


def load_check(prop):
    from symex import harness
    harness.REG.clear()
    importlib.import_module("chk_" + prop)
    return list(harness.REG)


# ------------------------------------------------------------------ workers
def worker(prop, name, out, budget):
    sys.path.append(VT_SITE)
    sys.setrecursionlimit(6000)
    t0 = time.time()
    import z3
    seed = int(os.environ.get("VERIF_SEED", "1"))
    z3.set_param("smt.random_seed", seed)
    z3.set_param("sat.random_seed", seed)
    from symex import core, engine, loader
    h = [x for x in load_check(prop) if x.name == name][0]
    o = dict(h.opts)
    transform = None
    if o.pop("strings", False):
        from symex import strtx
        transform = strtx.transform
        budget_extra = 0
    ld = loader.Loader(transform)
    eng_opts = {k: o[k] for k in ("fork_timeout", "check_timeout", "max_paths", "max_depth", "allow_concretise") if k in o}
    core.FLOATC = bool(o.get("floats"))
    funcs = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "cov")

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO + "/"):
            funcs.add("%s:%s" % (fn[len(REPO) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    setup = o.get("setup")
    if setup:
        setup(ld)
    mon.set_events(3, mon.events.PY_START)
    eng = engine.Engine(ld, deadline=t0 + o.get("budget", budget), **eng_opts)
    err = None
    try:
        eng.run(h.fn)
    except core.Steer as e:
        err = "engine: %r" % (e,)
    mon.set_events(3, 0)
    s = eng.stats
    funcs = sorted(f for f in funcs if not f.endswith("<module>"))
    res = dict(name=name, paths=s.paths, infeasible=s.infeasible, queries=s.queries, solver_s=round(s.solver_s, 3),
               checks=s.checks, trivial=s.trivial, forks=s.forks, unknown=s.unknown, depth=s.max_depth, concretised=s.concretised,
               conc_sites=sorted(eng.conc_sites), covered=eng.covered, inconclusive=eng.inconclusive + ([err] if err else []),
               unknown_checks=eng.unknown_checks, cands=eng.cands, cand_count=eng.cand_count, samples=eng.samples,
               functions=funcs, wall=round(time.time() - t0, 2), bounds=h.bounds)
    with open(out, "w") as f:
        json.dump(res, f)


def replay(prop, jobs):
    """jobs: [(harness, inputs)] -> [(status, failed labels)] on the real code"""
    from symex import concrete
    hs = {x.name: x for x in load_check(prop)}
    out = []
    sys.setrecursionlimit(6000)
    for name, inp in jobs:
        c = concrete.CCtx(inp)
        h = hs[name]
        try:
            h.fn(c)
            out.append(("fail" if c.failed else "ok", c.failed, c.checked))
        except concrete.Skip as e:
            out.append(("fail" if c.failed else "skip", c.failed or [str(e)], c.checked))
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if f.filename.startswith(REPO + "/")]
            w = "%s:%d" % (loc[-1].filename[len(REPO) + 1:], loc[-1].lineno) if loc else "harness:%d" % tb[-1].lineno
            out.append(("exc", c.failed + ["unexpected %s: %s @ %s" % (type(e).__name__, str(e)[:200], w)], c.checked))
    return out


def run_replay(prop, jobs, timeout=300):
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix="rp_")
    try:
        with open(d + "/in", "w") as f:
            json.dump(jobs, f)
        env = dict(os.environ, PYTHONPATH=REPO + "/src:" + REPO, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([PY, HERE + "/run.py", prop, "--replay-worker", d + "/in", d + "/out"], env=env, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
        if not os.path.exists(d + "/out"):
            return [("error", [p.stdout[-400:]], 0)] * len(jobs)
        with open(d + "/out") as f:
            return json.load(f)
    except subprocess.TimeoutExpired:
        return [("error", ["replay timeout"], 0)] * len(jobs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--only")
    ap.add_argument("--worker", nargs=2)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--replay-worker", nargs=2)
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-v", action="count", default=0)
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    if a.worker:
        return worker(a.prop, a.worker[0], a.worker[1], a.budget)
    if a.replay_worker:
        with open(a.replay_worker[0]) as f:
            jobs = json.load(f)
        r = replay(a.prop, jobs)
        with open(a.replay_worker[1], "w") as f:
            json.dump(r, f)
        return 0
    if a.replay:
        d = json.load(open(a.replay))
        r = run_replay(a.prop, [(d["harness"], d["inputs"])])
        print(json.dumps(r[0]))
        return 0 if r[0][0] == "ok" else 1
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    hs = load_check(a.prop)
    if a.list:
        for h in hs:
            print(h.name, h.tier)
        return 0
    hs = [h for h in hs if tier == "thorough" or h.tier == "quick"]
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    budget = a.budget or (1800 if tier == "thorough" else 400)
    tmp = tempfile.mkdtemp(prefix="sx_")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    results = []
    running = []
    queue = sorted(enumerate(hs), key=lambda t: -t[1].opts.get("weight", 1))
    errors = []
    known = [k for k in load_known() if k.get("property") == a.prop and k.get("status") != "fixed"]
    stopped = False

    def confirmed(h, r):
        """an unlisted violation that reproduces on the real code"""
        jobs = [(h.name, inp, label) for label, inputs, _ in r["cands"] for inp in inputs
                if not any(e["harness"] == h.name and e.get("label", label) == label for e in known)]
        for j, rp in zip(jobs, run_replay(a.prop, [j[:2] for j in jobs])):
            if rp[0] in ("fail", "exc"):
                return True
        return False

    try:
        while queue or running:
            while queue and len(running) < a.j:
                i, h = queue.pop(0)
                out = os.path.join(tmp, "%d.json" % i)
                log = open(os.path.join(tmp, "%d.log" % i), "w")
                p = subprocess.Popen([PY, HERE + "/run.py", a.prop, "--worker", h.name, out, "--budget", str(budget)], env=env,
                                     stdout=log, stderr=subprocess.STDOUT, cwd=tmp)
                running.append((i, h, p, out, log, time.time()))
            for r in list(running):
                i, h, p, out, log, ts = r
                lim = h.opts.get("budget", budget) + 90
                if p.poll() is None:
                    if time.time() - ts > lim:
                        p.kill()
                        p.wait()
                    else:
                        continue
                running.remove(r)
                log.close()
                if os.path.exists(out):
                    results.append((i, h, json.load(open(out))))
                    if results[-1][2]["cands"] and not a.v and confirmed(h, results[-1][2]):
                        stopped = True
                    if a.v:
                        x = results[-1][2]
                        if a.v > 1 or x["inconclusive"] or x["cands"] or x["unknown"] or x["wall"] > 15:
                            print("%-40s paths=%d checks=%d q=%d solver=%.1fs wall=%.1fs unk=%d inc=%d cands=%s" % (h.name, x["paths"], x["checks"], x["queries"], x["solver_s"], x["wall"], x["unknown"], len(x["inconclusive"]), dict(x["cand_count"])), flush=True)
                else:
                    tail = open(os.path.join(tmp, "%d.log" % i)).read()[-1500:]
                    errors.append("%s: worker died (rc=%s): %s" % (h.name, p.returncode, tail))
            if stopped:         # a violation is established: what is left need not be explored
                break
            time.sleep(0.02)
    finally:
        for r in running:
            r[2].kill()
        shutil.rmtree(tmp, ignore_errors=True)
    results.sort(key=lambda t: t[0])
    results = [(h, r) for _, h, r in results]

    soft = []          # what was left unexplored: reported, and an error under VERIF_STRICT
    # ---- replay
    jobs, meta = [], []
    for h, r in results:
        for label, inputs, unk in r["cands"]:
            for inp in inputs:
                jobs.append((h.name, inp))
                meta.append(("cand", h.name, label, inp, unk))
        for inp in r["samples"][:3]:
            jobs.append((h.name, inp))
            meta.append(("sample", h.name, None, inp, None))
    reps = run_replay(a.prop, jobs)
    viol, knownhits, validated, mismatch = [], [], 0, []
    per = {}
    for m, rp in zip(meta, reps):
        kind, hn, label, inp, unk = m
        if kind == "sample":
            if rp[0] == "ok":
                validated += 1
            elif rp[0] != "skip":
                mismatch.append((hn, inp, rp))
            continue
        k = (hn, label)
        per.setdefault(k, [])
        per[k].append((inp, rp, unk))
    vdir = os.path.join(HERE, "evidence", "replays")
    for (hn, label), lst in per.items():
        good = [(inp, rp) for inp, rp, unk in lst if rp[0] in ("fail", "exc")]
        # a candidate reproduces only if the same obligation (or an exception) fails
        same = [x for x in good if label in x[1][1]] or [x for x in good if x[1][0] == "fail"] or good
        if same:
            inp, rp = same[0]
            kf = None
            for e in known:
                if e["harness"] == hn and e.get("label", label) == label:
                    kf = e
            if kf is not None:
                knownhits.append((kf, inp))
            else:
                viol.append((hn, label, inp, rp))
        elif all(u for _, _, u in lst):
            pass            # already counted as unknown check
        else:
            soft.append("%s: counterexample for '%s' did not reproduce on the real code: %s" % (hn, label, json.dumps([(i, r) for i, r, _ in lst][:2])[:600]))
    for h, r in results:
        for x in r["inconclusive"]:
            soft.append("%s: inconclusive: %s" % (h.name, x))
        for lab, pth in r["unknown_checks"]:
            if not any(v[0] == h.name and v[1] == lab for v in viol):
                soft.append("%s: solver could not decide '%s' on path %s" % (h.name, lab, pth))
        if not r["covered"] and not r["inconclusive"] and not r["cands"]:
            errors.append("%s: no obligation was reached (vacuous harness)" % h.name)
    for hn, inp, rp in mismatch:
        if a.v:
            print("SAMPLE-MISMATCH", hn, inp, rp)

    # ---- evidence
    tot = lambda k: sum(r[k] for _, r in results)
    funcs = sorted(set(f for _, r in results for f in r["functions"]))
    ev = dict(property=a.prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot("paths"), transitions=tot("forks") + tot("paths"), traces_validated_against_impl=validated,
                            samples=[dict(harness=h.name, inputs=s) for h, r in results for s in r["samples"][:1]][:12],
                            obligations_checked=tot("checks"), solver_queries=tot("queries"), solver_seconds=round(tot("solver_s"), 2),
                            infeasible_paths=tot("infeasible"), unknown_answers=tot("unknown"), concretisations=tot("concretised"),
                            concretisation_sites=sorted(set(c for _, r in results for c in r["conc_sites"])),
                            functions_encoded=funcs, left_unexplored=soft[:40] + (["stopped at the first confirmed violation"] if stopped else []), sample_mismatches=len(mismatch),
                            harnesses=[dict(name=h.name, bounds=r["bounds"], paths=r["paths"], checks=r["checks"], queries=r["queries"],
                                            solver_s=r["solver_s"], wall_s=r["wall"], reached=len(r["covered"])) for h, r in results]),
              assumptions=["python floats are modelled as exact reals (rounding is outside the claim); comparison-only code is exact",
                           "text formatting of symbolic numbers in messages is stubbed", "bounds per harness as listed"],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for e in known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, e["what"]))
    for e in soft[:40 if a.v > 1 else 6]:
        print("INCOMPLETE " + e[:2000 if a.v > 1 else 420])
    if os.environ.get("VERIF_STRICT") == "1":
        errors += soft
    for e in errors[:40 if a.v > 1 else 6]:
        print("ERROR " + e[:2000 if a.v > 1 else 420])
    if viol:
        os.makedirs(vdir, exist_ok=True)
        for n, (hn, label, inp, rp) in enumerate(viol[:10]):
            path = os.path.join(vdir, "%s_%d.json" % (a.prop, n))
            with open(path, "w") as f:
                json.dump(dict(property=a.prop, harness=hn, label=label, inputs=inp, result=rp), f, indent=1)
            print("  %s: '%s' inputs=%s -> %s" % (hn, label, json.dumps(inp), json.dumps(rp[1])[:300]))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if not errors and soft:
        errors = [] if any(r["covered"] for _, r in results) else soft
    print("%s %s: paths=%d obligations=%d queries=%d solver=%.1fs validated=%d wall=%.1fs" % (a.prop, "INCONCLUSIVE" if errors else "incomplete" if soft else "ok", tot("paths"), tot("checks"), tot("queries"), tot("solver_s"), validated, time.time() - t0))
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
