"""The files of a replay: in a folder of their own, which goes away with it. Says what symex/files.py says."""
import hashlib
import os
import tempfile
from pathlib import Path

HERE = []


class Files:
    Path = Path

    def __init__(self):
        self.tmp = tempfile.TemporaryDirectory(prefix="sxfiles")
        HERE.append(self.tmp)
        self.top = os.path.realpath(self.tmp.name)
        for d in ("a/b", "src", "tmp"):
            os.makedirs(os.path.join(self.top, d))
        self.root = Path(self.top, "a/b/pkg")
        self.src = Path(self.top, "src")

    def use(self, *mods, yaml=False, **names):
        for m in mods:
            for k, v in names.items():
                setattr(m, k, v)

    def open(self, p, mode="r"):
        return open(p, mode)

    def block(self, v, n, kind="block"):
        out, i = b"", 0
        seed = repr(float(v)).encode()
        while len(out) < n:
            d = hashlib.sha256(seed + b"%d" % (i % 64)).digest()
            if kind == "blank":
                d = bytes(b" \t\n\r"[c % 4] for c in d)
            out += d * (1 if n < 4096 else 64)
            i += 1
        return out[:n]

    def content(self, parts):
        return b"".join(p.encode("utf-8") if isinstance(p, str) else p for p in parts)

    def put(self, path, *parts):
        p = Path(self.root, path)
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(self.content(parts))

    def text(self, path):
        return Path(self.root, path).read_text(encoding="utf-8")

    def parts(self, path):
        return [Path(self.root, path).read_bytes()]

    def drop(self, path, if_=True):
        if if_:
            Path(self.root, path).unlink()

    def digest(self, algorithm, *parts):
        return hashlib.new(algorithm, self.content(parts)).hexdigest()

    def doc(self, path, data):
        import yaml
        p = Path(self.root, path)
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(yaml.safe_dump(data, sort_keys=False), encoding="utf-8")

    def getdoc(self, path):
        import yaml
        return yaml.safe_load(self.text(path))

    def holds(self, path, *parts):
        p = Path(self.root, path)
        return p.is_file() and p.read_bytes() == self.content(parts)

    def names(self):
        out = []
        for d, _, fs in os.walk(self.top):
            for f in fs:
                n = os.path.join(d, f)
                r = str(self.root) + "/"
                out.append(n[len(r):] if n.startswith(r) else n[len(self.top):])
        return sorted(out)
