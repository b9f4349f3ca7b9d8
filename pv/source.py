"""Reads the package's source on every run: modules, classes, functions, by name."""
import ast
import os
from values import OutOfReach

REPO = os.environ.get("VERIF_REPO", "/repo")


class Source:
    def __init__(self, root=REPO, pkg="sidermit"):
        self.modules = {}      # dotted -> ast
        self.classes = {}      # simple name -> (module, node)
        self.functions = {}    # dotted module -> {name: node}
        self.globals = {}      # dotted module -> {name: value node}
        for d, _, fs in os.walk(os.path.join(root, pkg)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    path = os.path.join(d, f)
                    mod = os.path.relpath(path, root)[:-3].replace("/", ".")
                    self.load(mod, open(path, encoding="utf-8").read())

    def load(self, mod, text):
        t = ast.parse(text)
        self.modules[mod] = t
        self.functions.setdefault(mod, {})
        self.globals.setdefault(mod, {})
        for n in t.body:
            if isinstance(n, ast.ClassDef):
                self.classes[n.name] = (mod, n)
            elif isinstance(n, ast.FunctionDef):
                self.functions[mod][n.name] = n
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.globals[mod][n.targets[0].id] = n.value

    def bases(self, cls):
        if cls not in self.classes:
            return BUILTIN_EXC.get(cls, [])
        return [b.id if isinstance(b, ast.Name) else b.attr for b in self.classes[cls][1].bases]

    def mro(self, cls):
        out = [cls]
        for b in self.bases(cls):
            for c in self.mro(b):
                if c not in out:
                    out.append(c)
        return out

    def subclasses(self, cls):
        return [c for c in self.classes if cls in self.mro(c)]

    def method(self, cls, name):
        """(owner, FunctionDef or Assign value, decorators) of a class attribute"""
        for c in self.mro(cls):
            if c not in self.classes:
                continue
            found = None
            for n in self.classes[c][1].body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    found = (c, n)
                elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    found = (c, n.value)
            if found:
                return found
        return None

    def find(self, qual):
        """'pkg.mod.Class.method' or 'pkg.mod.func' -> (module, cls, node)"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                rest = parts[i:]
                if len(rest) == 1:
                    n = self.functions[mod].get(rest[0])
                    if n is None:
                        raise OutOfReach("function %s is gone" % qual)
                    return mod, None, n
                for n in self.modules[mod].body:
                    if isinstance(n, ast.ClassDef) and n.name == rest[0]:
                        for m in n.body:
                            if isinstance(m, ast.FunctionDef) and m.name == rest[1]:
                                return mod, rest[0], m
                raise OutOfReach("method %s is gone" % qual)
        raise OutOfReach("module of %s is gone" % qual)


BUILTIN_EXC = {"Exception": ["BaseException"], "ValueError": ["Exception"], "TypeError": ["Exception"],
               "AttributeError": ["Exception"], "ZeroDivisionError": ["ArithmeticError"],
               "ArithmeticError": ["Exception"], "IndexError": ["LookupError"], "KeyError": ["LookupError"],
               "LookupError": ["Exception"], "UnboundLocalError": ["NameError"], "NameError": ["Exception"],
               "AssertionError": ["Exception"], "OverflowError": ["ArithmeticError"]}
