"""Source loading: every module of the analysed package, parsed on each run."""
from __future__ import annotations

import ast
import os


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg


class Project:
    def __init__(self, root, package="pytspl"):
        self.root = root
        self.package = package
        self.modules = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise SystemExit(f"analysis error: no package directory {base}")
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                name = rel[: -len(".__init__")] if is_pkg else rel
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise SystemExit(f"analysis error: {p}: {e}")
                self.modules[name] = Module(name, os.path.relpath(p, root), tree, is_pkg)

    def functions(self):
        """(module, qualname, node) of every function definition."""
        for m in self.modules.values():
            stack = [(m.tree, "")]
            while stack:
                n, q = stack.pop()
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield m, (q + "." + c.name).lstrip("."), c
                        stack.append((c, (q + "." + c.name).lstrip(".")))
                    elif isinstance(c, ast.ClassDef):
                        stack.append((c, (q + "." + c.name).lstrip(".")))
                    else:
                        stack.append((c, q))
