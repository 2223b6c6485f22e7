"""Reads the real source under /repo on every run (nothing is cached) and resolves names."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class ClassInfo:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.props, self.setters, self.attrs, self.kinds = {}, {}, {}, {}, {}
        self.bases = node.bases
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                decs = [ast.unparse(d) for d in n.decorator_list]
                if any(d.endswith(".setter") for d in decs):
                    self.setters[n.name] = n
                elif "property" in decs:
                    self.props[n.name] = n
                else:
                    self.methods[n.name] = n
                    self.kinds[n.name] = "class" if "classmethod" in decs else "static" if "staticmethod" in decs else "inst"
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value

    def __repr__(self):
        return "<class %s>" % self.name


class ModuleInfo:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, encoding="utf-8") as fh:
            self.source = fh.read()
        self.tree = ast.parse(self.source, path)
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        for n in self.tree.body:
            self._top(n)

    def _top(self, n):
        if isinstance(n, ast.FunctionDef):
            self.funcs[n.name] = n
        elif isinstance(n, ast.ClassDef):
            self.classes[n.name] = ClassInfo(self, n)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.consts[t.id] = n.value
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.consts[n.target.id] = n.value
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    self.imports[a.asname] = ("mod", a.name)
                else:
                    self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                m = ("." * n.level) + (n.module or "")
                self.imports[a.asname or a.name] = ("from", m, a.name)
        elif isinstance(n, (ast.If, ast.Try)):
            for b in n.body:
                self._top(b)


class Repo:
    """All modules of the package, parsed from the current working tree."""

    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}

    def module(self, name):
        if name not in self.mods:
            path = os.path.join(self.root, "ocfl", name + ".py")
            if not os.path.exists(path):
                return None
            self.mods[name] = ModuleInfo(name, path)
        return self.mods[name]

    def find(self, qual):
        """qual: 'module.func' or 'module.Class.method'; returns (mod, classinfo|None, node) or None."""
        parts = qual.split(".")
        m = self.module(parts[0])
        if m is None:
            return None
        if len(parts) == 2:
            f = m.funcs.get(parts[1])
            return (m, None, f) if f is not None else None
        c = m.classes.get(parts[1])
        if c is None:
            return None
        f = c.methods.get(parts[2]) or c.props.get(parts[2])
        if f is None and parts[2].endswith("!set"):
            f = c.setters.get(parts[2][:-4])
        return (m, c, f) if f is not None else None
