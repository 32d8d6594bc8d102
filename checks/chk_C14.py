"""Packages: a file that is missing or altered makes validation fail; what is added is recorded as it is stored."""
from symex.harness import harness
G3 = "yapcad.geom3d"
CO = "yapcad.package.core"
VA = "yapcad.package.validator"
KB = 1024
FACES = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]]


def part():
    return ['solid', [['surface', [[0.0, 0, 0, 1.0], [4.0, 0, 0, 1.0], [0.0, 3.0, 0, 1.0], [1.0, 1.0, 5.0, 1.0]], [[0, 0, 1.0, 0.0]] * 4, [list(f) for f in FACES], [], []]], [], []]


def package(h, fs, **kw):
    co = h.mod(CO)
    va = h.mod(VA)
    fs.use(co, va)
    return co.create_package_from_entities([part()], fs.root, name="part", version="1.2", **kw)


# files of the package: section, path, the sizes of the blocks they hold
FILES = [("primary", "geometry/primary.json", (40,)), ("derived", "geometry/derived/part.step", (5,)), ("derived", "geometry/derived/mesh.stl", (700 * KB, 700 * KB)),
         ("attachments", "attachments/notes.pdf", (900 * KB, 300 * KB, 10)), ("exports", "exports/part.dxf", (100,)), ("exports", "exports/deep/er/part.dwg", (1,))]


def fill(h, fs, m, which, algorithm="sha256"):
    """all files, of arbitrary content; returns the contents"""
    co = h.mod(CO)
    parts = []
    for i, (sec, path, sizes) in enumerate(FILES):
        vs = [h.int("f%d_%d" % (i, j), 0, 9) if i in which else j for j in range(len(sizes))]
        c = [fs.block(v if hasattr(h, "eng") and not isinstance(v, int) else v, n, "blank" if sec == "primary" else "block") for v, n in zip(vs, sizes)] if i in which else ["file %d" % i]
        if sec == "primary":
            c = [fs.text(path)] + (c if i in which else [])
            fs.put(path, *c)
        elif sec == "exports":
            fs.put(path, *c)
            m.data.setdefault("exports", []).append({"id": "e%d" % i, "path": path})
        else:
            name = path.split("/")[-1]
            fs.put(fs.src / name, *c)
            e = co.add_geometry_file(m, fs.src / name, category=sec)
            h.check(e["path"] == path, "files go where their kind does")
        parts.append(c)
    m.recompute_hashes(algorithm=algorithm)
    m.save()
    return parts


def verdict(h, fs, want, bad=()):
    """the package is valid exactly if want, and each file that is not as recorded is named"""
    ok, msg = h.mod(VA).validate_package(fs.root)
    h.check(ok is True or ok is False, "a verdict")
    h.check(h.And(h.implies(want, ok), h.implies(ok, want)), "valid exactly if every file is as recorded")
    h.check(isinstance(msg, list) and msg[0].startswith("OK") == ok, "the verdict comes first")
    h.check(any(q.startswith("ERROR") for q in msg) == (not ok), "an error for what is wrong")
    for path, fault in bad:
        n = len([q for q in msg if q.startswith("ERROR") and path in q])
        h.check(h.implies(fault, n == 1) if not isinstance(fault, bool) else (n == 1) == fault, "the file at fault is named")


ALG = ["sha256", "sha512", "sha1"]


@harness("a package of six files, each of arbitrary content of up to 1.4 MB, one of them in any state",
         each=[("%s/%s" % (f[1].split("/")[-1], k), dict(i=i, k=k)) for i, f in enumerate(FILES) for k in ("content", "presence", "length", "same hash again")])
def states(h, i, k):
    fs = h.files()
    m = package(h, fs)
    a = ALG[i % 3]
    parts = fill(h, fs, m, (i,), a)
    sec, path, sizes = FILES[i]
    verdict(h, fs, True)
    pre = parts[i][:1] if sec == "primary" else []
    if k == "presence":
        gone = h.int("gone", 0, 1) == 1
        fs.drop(path, gone)
        verdict(h, fs, h.Not(gone), [(path, gone)])
        return
    kind = "blank" if sec == "primary" else "block"
    new = [h.int("n%d" % j, 0, 9) for j in range(len(sizes))]
    old = [h.int("f%d_%d" % (i, j), 0, 9) for j in range(0)]
    body = [fs.block(v, n, kind) for v, n in zip(new, sizes)]
    if k == "length":
        fs.put(path, *(pre + body), " ")
        verdict(h, fs, False, [(path, True)])
        fs.put(path, *(pre + [fs.block(new[0], sizes[0] // 2, kind)]))
        verdict(h, fs, False, [(path, True)])
        return
    was = fs.parts(path)
    fs.put(path, *(pre + body))
    same = fs.holds(path, *was)
    if k == "content":
        verdict(h, fs, same, [(path, h.Not(same))])
    else:
        # recording it anew makes it valid again
        m = h.mod(CO).PackageManifest.load(fs.root)
        m.recompute_hashes(algorithm=ALG[(i + 1) % 3])
        m.save()
        verdict(h, fs, True)
        h.check(fs.holds(path, *(pre + body)), "files stay as they are")


@harness("a package of six files of which each is there or not", each=[("all", {})], max_paths=200)
def presence(h):
    fs = h.files()
    m = package(h, fs)
    fill(h, fs, m, ())
    gone = [h.int("g%d" % i, 0, 1) == 1 for i in range(len(FILES))]
    for f, g in zip(FILES, gone):
        fs.drop(f[1], g)
    verdict(h, fs, h.And(*[h.Not(g) for g in gone]), [(f[1], g) for f, g in zip(FILES, gone)])


DEST = [None, "geometry/derived/other.step", "other.step", "deep/er/still/x.bin", "attachments/x.pdf", "../x.step", "geometry/../../x.step", "geometry/derived/../../../x.step", "../pkgx/x.step", "/proc/nofs/tmp/x.step"]


@harness("a file of arbitrary content added under many names, of any kind, over a file that is there or not", each=[("%s/%s" % (d, o), dict(d=d, o=o)) for d in DEST for o in ("new", "keep", "replace")], max_paths=60)
def adding(h, d, o):
    co = h.mod(CO)
    fs = h.files()
    m = package(h, fs)
    cat = h.choice("category", ["derived", "attachments", "exports", ""])
    body = [fs.block(h.int("v", 0, 9), 800 * KB), fs.block(h.int("w", 0, 9), 800 * KB)]
    fs.put(fs.src / "cube.stl", *body)
    # something else is listed in both
    fs.put(fs.src / "first.step", "first")
    co.add_geometry_file(m, fs.src / "first.step")
    co.add_geometry_file(m, fs.src / "first.step", category="attachments", purpose="why")
    target = d if d is not None else {"derived": "geometry/derived/cube.stl", "attachments": "attachments/cube.stl"}.get(cat, "cube.stl")
    inside = not (target.startswith("/") or ".." in target)
    if target.startswith("/"):
        target = d = str(fs.src) + "/x.step"
    if o != "new" and inside:
        fs.put(target, "old")
    before = fs.names()
    entries = repr(m.data)
    try:
        e = co.add_geometry_file(m, fs.src / "cube.stl", dest_relative=d, category=cat, overwrite=o == "replace", purpose="for it", metadata={"scale": 2})
    except (ValueError, FileExistsError):
        e = None
    good = inside and cat in ("derived", "attachments") and o != "keep"
    h.check((e is not None) == good, "refused where it has to be")
    h.check(fs.holds(fs.src / "cube.stl", *body), "the source stays")
    if not good:
        h.check(fs.names() == before and repr(m.data) == entries, "what is refused leaves the package as it was")
        if o != "new" and inside:
            h.check(fs.holds(target, "old"), "what is there stays")
        return
    h.check(sorted(set(before) | {target}) == fs.names(), "one file is stored, in the package")
    h.check(fs.holds(target, *body), "it is the source")
    L = m.data["geometry"]["derived"] if cat == "derived" else m.data["attachments"]
    h.check(len(L) == 2 and L[0]["path"].endswith("first.step") and [q for q in L if q["path"] == target] == [L[1]], "listed once, the others as they were")
    h.check(e["path"] == target and L[1]["path"] == target, "its path")
    h.check(L[1]["hash"] == "sha256:" + fs.digest("sha256", *body), "its hash")
    h.check(L[1]["format"] == "stl" and L[1]["purpose"] == "for it" and L[1]["scale"] == 2 and L[1]["source"]["original"] == str(fs.src / "cube.stl"), "what else is said of it")
    m.save()
    verdict(h, fs, True)


@harness("a file added, then another of arbitrary content in its place, saved, loaded and altered", each=[(k, dict(k=k)) for k in ("derived", "attachments")], max_paths=60)
def again(h, k):
    co = h.mod(CO)
    fs = h.files()
    m = package(h, fs, hash_algorithm="sha512")
    verdict(h, fs, True)
    a, b, c = (fs.block(h.int(q, 0, 9), 20) for q in "abc")
    fs.put(fs.src / "a.step", a)
    co.add_geometry_file(m, fs.src / "a.step", category=k, dest_relative="x/y.step")
    m.save()
    fs.put(fs.src / "a.step", b)
    # the copy in the package is its own
    h.check(fs.holds("x/y.step", a), "the copy is its own")
    verdict(h, fs, True)
    m = co.PackageManifest.load(fs.root)
    co.add_geometry_file(m, fs.src / "a.step", category=k, dest_relative="x/y.step", overwrite=True)
    # not saved yet: the old hash counts
    verdict(h, fs, fs.holds("x/y.step", a), [("x/y.step", h.Not(fs.holds("x/y.step", a)))])
    m.save()
    verdict(h, fs, True)
    m = co.PackageManifest.load(fs.root)
    L = m.data["geometry"]["derived"] if k == "derived" else m.data["attachments"]
    h.check(len(L) == 1 and L[0]["path"] == "x/y.step", "listed once")
    fs.put("x/y.step", c)
    verdict(h, fs, fs.holds("x/y.step", b), [("x/y.step", h.Not(fs.holds("x/y.step", b)))])
    g = co.load_geometry(m)
    h.check(len(g) == 1 and g[0][0] == 'solid' and [list(q) for q in g[0][1][0][3]] == FACES, "the model is read back")


FAULTS = ["no manifest", "no schema", "other schema", "no primary", "no json", "other json", "primary elsewhere", "no hashes", "upper case", "wrong hash, right file", "unknown algorithm"]


@harness("a package with a fault in its manifest or model", each=[(k, dict(k=k)) for k in FAULTS])
def faults(h, k):
    fs = h.files()
    m = package(h, fs)
    fill(h, fs, m, ())
    d, want = m.data, False
    P = d["geometry"]["primary"]
    if k == "no manifest":
        fs.drop("manifest.yaml")
        verdict(h, fs, False)
        return
    if k == "no schema":
        m.data = d = {q: v for q, v in d.items() if q != "schema"}
        d["schema"] = None
    elif k == "other schema":
        d["schema"] = "ycpkg-spec-v0.2"
    elif k == "no primary":
        del d["geometry"]["primary"]
    elif k == "no json":
        fs.put("geometry/primary.json", "{not json")
        m.recompute_hashes()
    elif k == "other json":
        fs.put("geometry/primary.json", "{}")
        m.recompute_hashes()
    elif k == "primary elsewhere":
        P["path"] = "geometry/other.json"
    elif k == "no hashes":
        for q in [P] + d["geometry"]["derived"] + d["attachments"] + d["exports"]:
            q.pop("hash")
        want = True
    elif k == "upper case":
        for q in [P] + d["geometry"]["derived"] + d["attachments"] + d["exports"]:
            q["hash"] = q["hash"].upper()
        want = True
    else:
        n = h.choice("which", [0, 1, 2, 3, 4, 5])
        q = ([P] + d["geometry"]["derived"] + d["attachments"] + d["exports"])[n]
        t = q["hash"]
        j = h.choice("digit", [7, 20, len(t) - 1])
        q["hash"] = "none:" + t[7:] if k.startswith("unknown") else t[:j] + ("0" if t[j] != "0" else "1") + t[j + 1:]
    m.save()
    verdict(h, fs, want)
    if k == "no hashes":
        n = h.choice("which", [0, 1, 2, 3, 4, 5])
        fs.drop(FILES[n][1])
        verdict(h, fs, False, [(FILES[n][1], True)])


@harness("creating a package in a folder that is there or not, and holds a file or not", each=[("%s/%s" % (a, b), dict(a=a, b=b)) for a in ("absent", "empty", "full") for b in (True, False)])
def creating(h, a, b):
    co = h.mod(CO)
    fs = h.files()
    if a != "absent":
        fs.put("other.txt", "mine")
        if a == "empty":
            fs.drop("other.txt")
    before = fs.names()
    try:
        m = package(h, fs, overwrite=b)
    except FileExistsError:
        m = None
    h.check((m is not None) == (a != "full" or b), "a folder in use is refused")
    if m is None:
        h.check(fs.names() == before, "and stays as it is")
    else:
        verdict(h, fs, True)
    if a == "full":
        h.check(fs.holds("other.txt", "mine"), "what is there stays")
    try:
        co.create_package_from_entities([], fs.root / "none", name="n", version="1")
        h.check(False, "no model, no package")
    except ValueError:
        pass


@harness("materials of a package: kind of source, color and finish arbitrary", each=[(k, dict(k=k)) for k in ("source", "color", "two", "no mapping")], floats=True)
def materials(h, k):
    fs = h.files()
    good = {"source": {"type": "standard", "standard": {"body": "DIN", "designation": "1.4301"}}, "visual": {"color": [0.5, 0.25, 1.0], "metallic": 0.5}}
    bad = {"source": {"type": "folklore"}}
    want = True
    if k == "source":
        t = h.choice("type", ["standard", "vendor", "custom", "tested", "other", "", None, "Standard"])
        mats = {"steel": dict(good, source={"type": t})}
        want = t in ("standard", "vendor", "custom", "tested")
    elif k == "color":
        n = h.choice("n", [1, 2, 3, 4])
        mats = {"steel": dict(good, visual={"color": [0.25] * n if n != 4 else "red"})}
        want = n == 3
    elif k == "two":
        a, b = h.choice("a", [good, bad, {}, []]), h.choice("b", [good, bad])
        mats = {"steel": a, "brass": b}
        want = a is good and b is good
    else:
        mats = ["steel"]
        want = False
    package(h, fs, materials=mats)
    verdict(h, fs, want)
