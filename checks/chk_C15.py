"""Signatures of packages: what they cover, and what they are said to be worth."""
import base64
import json
from symex.harness import harness
SI = "yapcad.package.signing"


class Failed(Exception):
    def __init__(self, stderr=b"no such key"):
        Exception.__init__(self, "failed")
        self.stderr, self.returncode = stderr, 2


class Done:
    def __init__(self, rc, out="", err=""):
        self.returncode, self.stdout, self.stderr = rc, out.encode(), err.encode()


class Programs:
    """stands for gpg and ssh-keygen: a signature verifies with its key and the very content that was signed"""
    CalledProcessError = Failed
    PIPE, DEVNULL = -1, -3

    def __init__(self, fs, known=(), trusted=lambda k: True):
        self.fs, self.known, self.trusted = fs, list(known), trusted

    def read(self, n):
        with self.fs.open(n, "rb") as f:
            return bytes(f.read())

    @staticmethod
    def sign(kind, key, content, ns=""):
        t = base64.b64encode(json.dumps([kind, key, ns, bytes(content).hex()]).encode()).decode()
        return "-----BEGIN %s SIGNATURE-----\n%s\n-----END %s SIGNATURE-----\n" % (kind, t, kind)

    @staticmethod
    def parse(t):
        try:
            kind, key, ns, c = json.loads(base64.b64decode(t.decode().split("\n")[1], validate=True))
            return kind, key, ns, bytes.fromhex(c)
        except Exception:
            return None

    def run(self, cmd, input=None, check=False, **kw):
        r = self.go([str(c) for c in cmd], input)
        if check and r.returncode:
            raise Failed(r.stderr)
        return r

    def go(self, cmd, data):
        if cmd[0] == "gpg" and "--detach-sign" in cmd:
            key = cmd[cmd.index("--local-user") + 1] if "--local-user" in cmd else self.known[0]
            if key not in self.known:
                return Done(2, "", "gpg: signing failed: No secret key")
            return Done(0, self.sign("PGP", key, data))
        if cmd[0] == "gpg" and "--list-keys" in cmd:
            key = cmd[-1] or self.known[0]
            return Done(0, "tru::1\npub:u:255:22:ID-%s:1::::::\nfpr:::::::::F:\nuid:u::::1::H::Signer %s::::\nuid:u::::1::H::Other::::\n" % (key, key))
        if cmd[0] == "gpg" and "--verify" in cmd:
            i = cmd.index("--verify")
            if len(cmd) != i + 3:
                return Done(2, "", "gpg: Note: '--keyring' is not considered an option\ngpg: can't open signed data '--keyring'")
            s, data = self.parse(self.read(cmd[i + 1])), self.read(cmd[i + 2])
            if s is None or s[0] != "PGP":
                return Done(2, "", "gpg: no valid OpenPGP data found.")
            if not self.trusted(s[1]):
                return Done(2, "", "gpg: Can't check signature: No public key")
            if s[3] == data:
                return Done(0, "", 'gpg: Signature made\ngpg: Good signature from "Signer %s" [ultimate]' % s[1])
            return Done(1, "", 'gpg: BAD signature from "Signer %s" [ultimate]' % s[1])
        if cmd[0] == "ssh-keygen" and "sign" in cmd:
            key, ns, n = cmd[cmd.index("-f") + 1].split("/")[-1], cmd[cmd.index("-n") + 1], cmd[-1]
            with self.fs.open(n + ".sig", "w") as f:
                f.write(self.sign("SSH", key, self.read(n), ns))
            return Done(0)
        if cmd[0] == "ssh-keygen" and "-lf" in cmd:
            key = cmd[-1].split("/")[-1]
            return Done(0, "256 SHA256:FP%s %s (ED25519)\n" % (key, COMMENT.get(key, key + "@host")))
        if cmd[0] == "ssh-keygen" and "-Y" in cmd:
            s = self.parse(self.read(cmd[cmd.index("-s") + 1]))
            if s is None or s[0] != "SSH":
                return Done(255, "Could not verify signature.\n", "Couldn't parse signature: missing header")
            who, todo = listed(s[1]), cmd[cmd.index("-Y") + 1]
            if todo == "find-principals":
                return Done(0, who + "\n") if self.trusted(s[1]) else Done(255, "", "No principal matched.")
            if s[3] != data or s[2] != cmd[cmd.index("-n") + 1]:
                return Done(255, "Could not verify signature.\n", "Signature verification failed: incorrect signature")
            if todo == "check-novalidate":
                return Done(0, 'Good "ycpkg" signature with ED25519 key\n')
            if todo == "verify" and self.trusted(s[1]) and cmd[cmd.index("-I") + 1] in who.split(","):
                return Done(0, 'Good "ycpkg" signature')
            return Done(255, "Could not verify signature.\n")
        return Done(127, "", "unknown command")


# keys whose names begin alike, and two of one person
def listed(key):
    """the principals under which a key is listed among the allowed signers"""
    return {"k1": "ann@host", "k3": "ann,ann@host.example", "k5": "*"}.get(key, "other@host")


COMMENT = {"k3": "ann.longname.of.many@host.example", "k4": "ann.longname.of.many@other.example", "k5": "ann lab/2", "k6": "ann@lab"}


def doc(x, y, z):
    return {"schema": "ycpkg-spec-v0.1", "name": "part", "version": "1.2", "tags": ["a", "b"], "count": x, "geometry": {"primary": {"path": "geometry/primary.json", "hash": "sha256:00", "scale": y},
            "derived": [{"path": "p", "size": [1, z, None]}, {"path": "q", "flag": True}]}, "materials": {"steel": {"density": 7.5}}}


def setup(h, fs, **kw):
    m = h.mod(SI)
    p = Programs(fs, **kw)
    fs.use(m, yaml=True, subprocess=p)
    return m


def hash_of(h, m, fs):
    r = m.verify_package(fs.root)
    h.check(r.errors == [] and r.manifest_hash.startswith("sha256:") and len(r.manifest_hash) == 71, "a digest")
    return r.manifest_hash


def nums(h, n=""):
    return [h.real(n + q, -100, 100) for q in "xyz"]


def reorder(d, k):
    """the same document with its keys in another order, at every depth"""
    if isinstance(d, dict):
        K = list(d)
        K = [K[::-1], K[1:] + K[:1], sorted(K)][k]
        return {q: reorder(d[q], k) for q in K}
    return [reorder(q, k) for q in d] if isinstance(d, list) else d


SAME = ["order", "signatures"]
OTHER = ["text", "key", "gone", "added", "list order", "deeper", "number as text", "true as one", "null as gone", "empty list", "nested signatures", "longer list", "case"]


def edit(h, d, k):
    g = d["geometry"]
    if k == "text":
        w = h.choice("where", [0, 1, 2, 3])
        if w == 0:
            d["name"] = "Part"
        elif w == 1:
            g["primary"]["path"] = "geometry/primary.jsom"
        elif w == 2:
            g["derived"][1]["path"] = "p"
        else:
            d["tags"][1] = "b "
    elif k == "key":
        d["nam"] = d.pop("name")
    elif k == "gone":
        w = h.choice("where", ["schema", "version", "geometry", "materials", "tags", "count"])
        del d[w]
    elif k == "added":
        w = h.choice("where", [0, 1, 2])
        (d, g["primary"], g["derived"][0])[w]["extra"] = 0
    elif k == "list order":
        w = h.choice("where", [0, 1])
        (d["tags"], g["derived"])[w].reverse()
    elif k == "deeper":
        d["materials"]["version"] = d.pop("version")
    elif k == "number as text":
        d["materials"]["steel"]["density"] = "7.5"
    elif k == "true as one":
        g["derived"][1]["flag"] = 1
    elif k == "null as gone":
        g["derived"][0]["size"].pop()
    elif k == "empty list":
        d["exports"] = []
    elif k == "nested signatures":
        w = h.choice("where", [0, 1])
        (g, g["derived"][1])[w]["signatures"] = []
    elif k == "longer list":
        d["tags"].append("")
    else:
        d["Name"] = d.pop("name")
    return d


@harness("documents of arbitrary numbers at three depths, and the same in another order or with other signatures", each=[(k, dict(k=k)) for k in ("order", "signatures", "both")])
def alike(h, k):
    fs = h.files()
    m = setup(h, fs)
    X = nums(h)
    fs.doc("manifest.yaml", doc(*X))
    a = hash_of(h, m, fs)
    d = doc(*X)
    if k != "signatures":
        d = reorder(d, h.choice("order", [0, 1, 2]))
    if k != "order":
        s = h.choice("signatures", [[], [{"signer": "s", "method": "gpg", "signature_file": "none"}], [{"method": "ssh", "signature_file": "a"}, {"method": "ssh", "signature_file": "b"}]])
        d = {"signatures": s, **d} if h.bool("first") else {**d, "signatures": s}
    fs.doc("manifest.yaml", d)
    h.check(hash_of(h, m, fs) == a, "same digest")


@harness("documents of arbitrary numbers at three depths, and others that differ", each=[(k, dict(k=k)) for k in OTHER] + [("numbers", dict(k="numbers"))])
def unlike(h, k):
    fs = h.files()
    m = setup(h, fs)
    X = nums(h)
    s = {"signatures": [{"signer": "s", "method": "gpg", "signature_file": "none"}]} if h.bool("signed") else {}
    fs.doc("manifest.yaml", {**doc(*X), **s})
    a = hash_of(h, m, fs)
    if k == "numbers":
        Y = nums(h, "other ")
        fs.doc("manifest.yaml", {**doc(*Y), **s})
        b = hash_of(h, m, fs)
        same = h.And(*[x == y for x, y in zip(X, Y)])
        h.check(h.implies(same, a == b), "same digest of the same numbers")
        h.check(h.implies(a == b, same), "other digest of other numbers")
        return
    fs.doc("manifest.yaml", {**edit(h, doc(*X), k), **s})
    h.check(hash_of(h, m, fs) != a, "other digest")


WHO = {"gpg A": ("gpg", "A"), "gpg B": ("gpg", "B"), "ssh k1": ("ssh", "k1"), "ssh k3": ("ssh", "k3"), "ssh k4": ("ssh", "k4"), "ssh k5": ("ssh", "k5")}


def sign(h, m, fs, who, **kw):
    how, key = WHO[who]
    if how == "gpg":
        i = m.sign_package(fs.root, method="gpg", key_id=key, **kw)
        want = ("Signer " + key, "ID-" + key)
    else:
        i = m.sign_package(str(fs.root) if key == "k1" else fs.root, method="SSH" if key == "k3" else m.SignatureMethod.SSH, key_path=fs.src / key, **kw)
        want = (COMMENT.get(key, key + "@host").split()[0], "SHA256:FP" + key)
    h.check(i.method.value == how and i.key_id == want[1] and i.signer == kw.get("signer_name", want[0]), "what is said of the signature")
    return i


def keys(fs):
    for k in ("k1", "k3", "k4", "k5", "k6"):
        fs.put(fs.src / k, "key " + k)
    fs.put(fs.src / "allowed", "allowed")
    fs.put(fs.src / "ring", "ring")


def statuses(h, m, fs, plain=False):
    r = m.verify_package(fs.root) if plain else m.verify_package(fs.root, allowed_signers=fs.src / "allowed", gpg_keyring=str(fs.src / "ring"))
    good = [s.status == m.VerificationStatus.VALID for s in r.signatures]
    # the summary is that of the entries
    h.check(r.is_valid == any(good) and r.trusted_signers == sum(good), "valid exactly if an entry is; how many are")
    h.check(r.untrusted_signers == sum(s.status == m.VerificationStatus.VALID_UNTRUSTED for s in r.signatures), "how many are not trusted")
    o = r.overall_status
    V = m.VerificationStatus
    h.check((o == V.ERROR) if r.errors else (o == V.VALID) == any(good), "overall")
    return r, good


def strip(d):
    return {k: v for k, v in d.items() if k != "signatures"}


def samedoc(h, a, b, what):
    if isinstance(a, dict):
        h.check(isinstance(b, dict) and list(a) == list(b), what)
        for k in a:
            samedoc(h, a[k], b[k], what)
    elif isinstance(a, list):
        h.check(isinstance(b, list) and len(a) == len(b), what)
        for x, y in zip(a, b):
            samedoc(h, x, y, what)
    else:
        h.check(a == b, what)


@harness("a package signed once, by a key that is trusted or not, and changed in a number since or not", each=[(k, dict(k=k)) for k in WHO], max_paths=60)
def once(h, k):
    fs = h.files()
    t = h.bool("trusted")
    m = setup(h, fs, known=["A", "B"], trusted=lambda q: t)
    keys(fs)
    X = nums(h)
    fs.doc("manifest.yaml", doc(*X))
    r, good = statuses(h, m, fs)
    h.check(r.signatures == [] and not r.is_valid and len(r.warnings) == 1, "a package without signatures is not valid")
    before = hash_of(h, m, fs)
    i = sign(h, m, fs, k, **({"signer_name": "Boss"} if k in ("gpg B", "ssh k4") else {}))
    d = fs.getdoc("manifest.yaml")
    samedoc(h, doc(*X), strip(d), "the rest of the manifest stays")
    h.check(len(d["signatures"]) == 1 and {q: d["signatures"][0][q] for q in ("signer", "method", "key_id", "signature_file")} == {"signer": i.signer, "method": i.method.value, "key_id": i.key_id, "signature_file": i.signature_file}, "the entry")
    h.check(i.signature_file.startswith("signatures/") and i.signature_file in fs.names() and ".." not in i.signature_file, "the file of the signature is in the package")
    h.check(hash_of(h, m, fs) == before, "signing does not change the digest")
    L = m.list_signatures(fs.root)
    h.check(len(L) == 1 and (L[0].signer, L[0].method, L[0].key_id, L[0].signature_file) == (i.signer, i.method, i.key_id, i.signature_file), "listed")
    r, good = statuses(h, m, fs)
    h.check(good == [t] and r.signatures[0].signer == i.signer and r.signatures[0].key_id == i.key_id, "valid exactly if trusted")
    # since then
    n = h.choice("changed", [0, 1, 2])
    Y = list(X)
    Y[n] = h.real("new", -100, 100)
    d2 = doc(*Y)
    d2["signatures"] = d["signatures"]
    fs.doc("manifest.yaml", d2)
    r, good = statuses(h, m, fs)
    same = Y[n] == X[n]
    h.check(h.And(h.implies(h.And(same, t), good[0]), h.implies(good[0], h.And(same, t))), "valid exactly if trusted and unchanged")
    V = m.VerificationStatus
    if k.startswith("ssh"):
        h.check((not t) or r.signatures[0].status != V.VALID_UNTRUSTED, "trusted if it is")
        for p in (False, True):
            r, good = statuses(h, m, fs, p)
            got = r.signatures[0].status
            h.check(not (p and good[0]), "nobody is trusted")
            h.check(h.And(h.implies(same, got in (V.VALID, V.VALID_UNTRUSTED)), h.implies(got in (V.VALID, V.VALID_UNTRUSTED), same)), "what was changed since is not a valid signature of anyone's")
            h.check(h.Or(same, r.overall_status == V.INVALID), "invalid overall")
    elif t:
        h.check(h.Or(same, r.overall_status == V.INVALID), "invalid overall")


SEQ = ["gpg A, gpg B", "gpg A, ssh k1, gpg B", "ssh k1, ssh k3", "ssh k3, ssh k4", "ssh k5, gpg A", "gpg A, gpg A, gpg A", "ssh k3, ssh k4, ssh k3"]


@harness("a package signed by several, each trusted or not, and changed in a number at a point or not", each=[("%s/%d" % (s, c), dict(s=s, c=c)) for s in SEQ for c in (0, 1)], max_paths=60)
def several(h, s, c):
    fs = h.files()
    who = s.split(", ")
    trust = {}
    for w in who:
        if WHO[w][1] not in trust:
            trust[WHO[w][1]] = h.bool("trust " + WHO[w][1])
    m = setup(h, fs, known=["A", "B"], trusted=lambda q: trust[q])
    keys(fs)
    x, y = h.real("x", -9, 9), h.real("y", -9, 9)
    fs.doc("manifest.yaml", doc(x, 1, 2))
    info = []
    for j, w in enumerate(who):
        if j == 1 and c:
            # changed before the second signature
            d = fs.getdoc("manifest.yaml")
            d["count"] = y
            fs.doc("manifest.yaml", d)
        info.append(sign(h, m, fs, w, add=True))
    d = fs.getdoc("manifest.yaml")
    h.check([e["key_id"] for e in d["signatures"]] == [i.key_id for i in info], "entries in their order")
    h.check(len({e["signature_file"] for e in d["signatures"]}) == len(who), "each has a file of its own")
    r, good = statuses(h, m, fs)
    same = x == y if c else True
    for j, w in enumerate(who):
        t = trust[WHO[w][1]]
        want = h.And(t, same) if j == 0 and c else t
        h.check(h.And(h.implies(want, good[j]), h.implies(good[j], want)), "each is valid exactly if its key is trusted and what it signed is unchanged")
    h.check([q.key_id for q in r.signatures] == [i.key_id for i in info], "results in the order of the entries")
    # signing anew drops what was there
    i = sign(h, m, fs, who[0])
    d = fs.getdoc("manifest.yaml")
    h.check(len(d["signatures"]) == 1, "the new one only")
    r, good = statuses(h, m, fs)
    h.check(good == [trust[WHO[who[0]][1]]], "valid exactly if trusted")


@harness("a package signed by two, with a fault in an entry or its file", each=[("%s/%d" % (k, n), dict(k=k, n=n)) for k in ("gone", "garbage", "other's", "other content", "no file named", "unknown method", "other method", "empty") for n in (0, 1)], max_paths=60)
def faults(h, k, n):
    fs = h.files()
    who = ["gpg A", "ssh k1"]
    t = [h.bool("t0"), h.bool("t1")]
    m = setup(h, fs, known=["A"], trusted=lambda q: t[0] if q == "A" else t[1])
    keys(fs)
    fs.doc("manifest.yaml", doc(1, 2, 3))
    for w in who:
        sign(h, m, fs, w, add=True)
    d = fs.getdoc("manifest.yaml")
    f = [e["signature_file"] for e in d["signatures"]]
    E = d["signatures"][n]
    if k == "gone":
        gone = h.int("gone", 0, 1) == 1
        fs.drop(f[n], gone)
    elif k == "garbage":
        fs.put(f[n], "-----BEGIN PGP SIGNATURE-----\n????\n")
    elif k == "empty":
        fs.put(f[n], "")
    elif k == "other's":
        fs.put(f[n], fs.text(f[1 - n]))
    elif k == "other content":
        fs.put(f[n], Programs.sign(*[("PGP", "A"), ("SSH", "k1")][n], b"ycpkg-manifest-v1\n" + b"0" * 64 + b"\n", "ycpkg"))
    elif k == "no file named":
        E["signature_file"] = "signatures/none"
    elif k == "unknown method":
        E["method"] = "x509"
    else:
        E["method"] = {"gpg": "ssh", "ssh": "gpg"}[E["method"]]
    fs.doc("manifest.yaml", d)
    r, good = statuses(h, m, fs)
    if k == "unknown method":
        h.check(len(r.errors) == 1 and len(good) == 1 and good == [t[1 - n]], "an error; the other as it is")
        return
    h.check(len(good) == 2 and r.errors == [] and good[1 - n] == t[1 - n], "the other as it is")
    if k == "gone":
        want = h.And(t[n], h.Not(gone))
        h.check(h.And(h.implies(want, good[n]), h.implies(good[n], want)), "no file, not valid")
    else:
        h.check(not good[n], "not valid")


@harness("signing that fails, of a package of an arbitrary number", each=[(k, dict(k=k)) for k in ("gpg without the key", "ssh without a path", "ssh without the key", "no manifest", "unknown method")])
def failing(h, k):
    fs = h.files()
    m = setup(h, fs, known=["A"])
    keys(fs)
    x = h.real("x", -9, 9)
    if k != "no manifest":
        fs.doc("manifest.yaml", doc(x, 1, 2))
        if h.bool("signed"):
            sign(h, m, fs, "gpg A")
        d = fs.getdoc("manifest.yaml")
    kw = {"gpg without the key": dict(key_id="Z"), "ssh without a path": dict(method="ssh"), "ssh without the key": dict(method="ssh", key_path=str(fs.src / "kz"), add=True), "no manifest": {}, "unknown method": dict(method="x509")}[k]
    try:
        m.sign_package(fs.root, **kw)
        h.check(False, "signing fails")
    except (m.SigningError, ValueError):
        pass
    if k != "no manifest":
        samedoc(h, d, fs.getdoc("manifest.yaml"), "the manifest stays")
        h.check(hash_of(h, m, fs) is not None, "and can be verified")
    else:
        r, good = None, None
        r = m.verify_package(fs.root)
        h.check(not r.is_valid and r.errors and m.list_signatures(fs.root) == [], "no manifest, not valid")
