"""Reads the sources under /repo/src/cq_cam.  Nothing is imported or executed."""
import ast
import hashlib
import os

REPO = os.environ.get("CQCAM_REPO", "/repo")
PKG = "cq_cam"


class AnalysisBroken(Exception):
    pass


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.rel = os.path.relpath(path, REPO)
        self.names = {}      # name -> list of binding nodes (in order)
        self.star = []

    def __repr__(self):
        return f"<module {self.name}>"


class Cls:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.methods = {}
        self.assigns = {}    # name -> value expr (or None when only annotated)
        self.annots = []     # (name, annotation, value) in order
        self.bases = None    # resolved by the interpreter
        self.mutable_attrs = None
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods.setdefault(st.name, []).append(st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.assigns[e.id] = None
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.annots.append((st.target.id, st.annotation, st.value))
                if st.value is not None:
                    self.assigns[st.target.id] = st.value

    def __repr__(self):
        return self.name


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.classes = {}
        self.digest = hashlib.sha256()
        root = os.path.join(self.repo, "src", PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package directory {root} is missing")
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, os.path.join(self.repo, "src"))
                parts = rel[:-3].split(os.sep)
                if parts[-1] == "__init__":
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                self.digest.update(src.encode())
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as ex:
                    raise AnalysisBroken(f"cannot parse {p}: {ex}")
                m = Module(name, p, tree, src)
                m.is_pkg = f == "__init__.py"
                self.modules[name] = m
                self._bind(m, tree.body)
        if not self.modules:
            raise AnalysisBroken("no sources found")
        self.n_modules = len(self.modules)
        self.n_functions = sum(
            isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))
            for m in self.modules.values() for n in ast.walk(m.tree))
        lib = os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "extmodel.py")
        with open(lib, encoding="utf-8") as fh:
            src = fh.read()
        m = Module("sa_lib", lib, ast.parse(src, lib), src)
        m.is_pkg = False
        m.rel = "<library model>"
        self.modules["sa_lib"] = m
        self._bind(m, m.tree.body)

    def _bind(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                m.names.setdefault(st.name, []).append(st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    nm = a.asname or a.name.split(".")[0]
                    m.names.setdefault(nm, []).append(("import", a.name if a.asname else a.name.split(".")[0]))
            elif isinstance(st, ast.ImportFrom):
                base = self.abs_import(m, st)
                for a in st.names:
                    if a.name == "*":
                        m.star.append(base)
                    else:
                        m.names.setdefault(a.asname or a.name, []).append(("from", base, a.name))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.names.setdefault(t.id, []).append(("assign", st.value))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.names.setdefault(e.id, []).append(("unpack", st.value, i))
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    m.names.setdefault(st.target.id, []).append(("assign", st.value))
            elif isinstance(st, ast.If):
                if _is_script_guard(st.test):
                    continue
                self._bind(m, st.orelse)
                self._bind(m, st.body)
            elif isinstance(st, ast.Try):
                self._bind(m, st.body)
                for h in st.handlers:
                    self._bind(m, h.body)
                self._bind(m, st.orelse)
                self._bind(m, st.finalbody)
            elif isinstance(st, (ast.With,)):
                self._bind(m, st.body)

    @staticmethod
    def abs_import(m, st):
        if not st.level:
            return st.module
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))


def _is_script_guard(test):
    for n in ast.walk(test):
        if isinstance(n, ast.Name) and n.id in ("__name__",):
            return True
    return False


# ---------------------------------------------------------------- liveness
class Liveness:
    """Names live after each compound statement / at each loop head."""

    def __init__(self, fn):
        self.after = {}
        self.head = {}
        self.always = set()
        body = fn.body if isinstance(fn.body, list) else []
        for n in ast.walk(fn):
            if n is fn:
                continue
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp,
                              ast.SetComp, ast.DictComp)):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Name):
                            self.always.add(x.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always.update(n.names)
        self.stack = []
        self.block(body, frozenset())

    @staticmethod
    def uses(*nodes):
        s = set()
        for node in nodes:
            if node is None:
                continue
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    s.add(n.id)
        return s

    @staticmethod
    def defs(target):
        s = set()
        if isinstance(target, ast.Name):
            s.add(target.id)
        elif isinstance(target, (ast.Tuple, ast.List)):
            for e in target.elts:
                s |= Liveness.defs(e)
        elif isinstance(target, ast.Starred):
            s |= Liveness.defs(target.value)
        return s

    def block(self, body, out):
        live = out
        for st in reversed(body):
            live = self.stmt(st, live)
        return live

    def stmt(self, st, out):
        self.after[st] = out
        if isinstance(st, ast.Assign):
            d = set()
            u = self.uses(st.value)
            for t in st.targets:
                d |= self.defs(t)
                u |= self.uses(t)
            return frozenset((out - d) | u)
        if isinstance(st, ast.AnnAssign):
            return frozenset((out - self.defs(st.target)) | self.uses(st.value, st.target))
        if isinstance(st, ast.AugAssign):
            u = self.uses(st.value, st.target)
            if isinstance(st.target, ast.Name):
                u.add(st.target.id)
            return frozenset(out | u)
        if isinstance(st, (ast.Return, ast.Raise)):
            return frozenset(self.uses(st))
        if isinstance(st, ast.If):
            a = self.block(st.body, out)
            b = self.block(st.orelse, out)
            return frozenset(a | b | self.uses(st.test))
        if isinstance(st, (ast.For, ast.While)):
            after = self.block(st.orelse, out)
            if isinstance(st, ast.For):
                t, u = self.defs(st.target), self.uses(st.target)
            else:
                t, u = set(), self.uses(st.test)
            head = frozenset(after | u)
            while True:
                self.stack.append((out, head))
                b = self.block(st.body, head)
                self.stack.pop()
                n = frozenset(head | (b - t) | u)
                if n == head:
                    break
                head = n
            self.head[st] = head
            r = set(head)
            if isinstance(st, ast.For):
                r |= self.uses(st.iter)
            return frozenset(r)
        if isinstance(st, ast.Break):
            return self.stack[-1][0] if self.stack else out
        if isinstance(st, ast.Continue):
            return self.stack[-1][1] if self.stack else out
        if isinstance(st, ast.Try):
            f = self.block(st.finalbody, out)
            e = self.block(st.orelse, f)
            hs = set()
            for h in st.handlers:
                hs |= self.block(h.body, f) | self.uses(h.type)
            b = self.block(st.body, frozenset(e | hs))
            allu = set()
            for s in st.body:
                allu |= self.uses(s)
            return frozenset(b | hs | allu)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            b = self.block(st.body, out)
            u = set()
            for i in st.items:
                u |= self.uses(i.context_expr)
            return frozenset(b | u)
        if isinstance(st, ast.Match):
            r = set(self.uses(st.subject))
            for c in st.cases:
                r |= self.block(c.body, out) | self.uses(c.guard) | self.uses(c.pattern)
            return frozenset(r | out)
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            u = set()
            for n in ast.walk(st):
                if isinstance(n, ast.Name):
                    u.add(n.id)
            return frozenset(out | u)
        if isinstance(st, ast.Delete):
            return frozenset(out | self.uses(st))
        return frozenset(out | self.uses(st))
