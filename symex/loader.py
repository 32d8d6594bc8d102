"""Loads the repository's modules from source with symbolic-aware builtins."""
import sys, os, ast, importlib, importlib.util, importlib.machinery, importlib.abc
from . import shims

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOTS = {"yapcad": os.path.join(REPO, "src"), "service": REPO}


class PiLiteral(ast.NodeTransformer):
    """pi spelled out as a literal is the same symbolic pi as math.pi"""

    def visit_Constant(self, n):
        if isinstance(n.value, float) and n.value == 3.141592653589793:
            return ast.copy_location(ast.Name("__sx_pi__", ast.Load()), n)
        return n


class SrcLoader(importlib.abc.Loader):
    def __init__(self, path, name, transform):
        self.path = path
        self.name = name
        self.transform = transform

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "r", encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        if "3.14159265358979" in src:
            tree = ast.fix_missing_locations(PiLiteral().visit(tree))
        if self.transform is not None:
            tree = self.transform(tree, self.name)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)


BUILTINS = shims.make_builtins()
BUILTINS["__sx_pi__"] = shims.PI


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, transform=None):
        self.transform = transform

    def find_spec(self, name, path, target=None):
        top = name.split(".")[0]
        root = ROOTS.get(top)
        if root is None:
            return None
        p = os.path.join(root, *name.split("."))
        if os.path.isdir(p):
            init = os.path.join(p, "__init__.py")
            if not os.path.exists(init):
                return None
            spec = importlib.util.spec_from_file_location(name, init, loader=SrcLoader(init, name, self.transform), submodule_search_locations=[p])
            return spec
        f = p + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=SrcLoader(f, name, self.transform))
        return None


class Loader:
    def __init__(self, transform=None):
        for m in list(sys.modules):
            if m.split(".")[0] in ROOTS:
                del sys.modules[m]
        sys.meta_path.insert(0, Finder(transform))

    def load(self, name):
        return importlib.import_module(name)
