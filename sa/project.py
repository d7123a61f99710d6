"""Parsed source of the package under analysis (read afresh from /repo on every run)."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "cognitivefactory.interactive_clustering"


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.src = os.path.join(self.repo, "src")
        self.modules = {}
        self.errors = []
        for dirpath, dirs, files in os.walk(self.src):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__" and not d.endswith(".egg-info"))
            for f in sorted(files):
                if f.endswith(".py"):
                    full = os.path.join(dirpath, f)
                    rel = os.path.relpath(full, self.src)[:-3].split(os.sep)
                    if rel[-1] == "__init__":
                        rel = rel[:-1]
                    name = ".".join(rel)
                    with open(full, encoding="utf-8") as fo:
                        text = fo.read()
                    try:
                        tree = ast.parse(text, full)
                    except SyntaxError as e:
                        self.errors.append("%s: %s" % (full, e))
                        continue
                    self.modules[name] = Module(name, os.path.relpath(full, self.repo), tree)

    def mod(self, short):
        return self.modules.get(PKG + "." + short)

    def find_class(self, name):
        """(module, node) of a class of the package, wherever it is defined"""
        for m in self.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef) and n.name == name:
                    return m, n
        return None, None

    def functions(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    yield m, n
