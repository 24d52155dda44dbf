"""Loading of the code base: modules, functions, schemas, source positions."""

import ast
import os
import pathlib

ROOT = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
PKG = "pypeec"


class AnalysisBroken(Exception):
    """The anchor of a rule cannot be found or the analysis cannot run (error exit)."""


class Module:
    def __init__(self, name, path, is_pkg):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        self.rel = str(path.relative_to(ROOT))
        self.text = path.read_text(encoding="utf8")
        self.tree = ast.parse(self.text, filename=str(path))
        for node in ast.walk(self.tree):
            for child in ast.iter_child_nodes(node):
                child._parent = node


class Repo:
    def __init__(self):
        self.modules = {}
        base = ROOT / PKG
        if not base.is_dir():
            raise AnalysisBroken(f"package folder not found: {base}")
        for path in sorted(base.rglob("*.py")):
            parts = path.relative_to(ROOT).with_suffix("").parts
            is_pkg = parts[-1] == "__init__"
            if is_pkg:
                parts = parts[:-1]
            name = ".".join(parts)
            try:
                self.modules[name] = Module(name, path, is_pkg)
            except SyntaxError as ex:
                raise AnalysisBroken(f"cannot parse {path}: {ex}") from None
        if len(self.modules) < 20:
            raise AnalysisBroken(f"only {len(self.modules)} modules found in {base}")

    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken(f"module not found: {name}")
        return self.modules[name]

    def functions(self):
        """All the functions: (module, qualified name, node)."""
        out = []
        for mod in self.modules.values():
            def rec(node, prefix):
                for child in ast.iter_child_nodes(node):
                    if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        name = prefix + child.name
                        out.append((mod, name, child))
                        rec(child, name + ".<locals>.")
                    elif isinstance(child, ast.ClassDef):
                        rec(child, prefix + child.name + ".")
                    else:
                        rec(child, prefix)
            rec(mod.tree, "")
        return out

    def data_file(self, name):
        path = ROOT / PKG / "data" / name
        if not path.is_file():
            raise AnalysisBroken(f"data file not found: {path}")
        return path
