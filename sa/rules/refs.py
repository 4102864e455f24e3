"""Everything the package refers to exists: names, attributes, what is imported, the arguments of calls, and no package
that is optional is needed to import or use the rest."""
import ast
import builtins
import sys

from . import prop
from .common import *  # noqa
from .common import new
from .effects import functions, own, params
from .path import Tally

# what is installed wherever the package is: cadquery (with its kernel) and the requirements that can be relied on
NEEDED = {"cadquery", "OCP", "numpy", "pyclipper", "shapely", "cq_cam"}
OPAQUE = object()           # a class or module that is not ours
PLAIN = {"ABC": object, "object": object, "Enum": None, "IntEnum": None, "Exception": Exception, "ValueError": ValueError,
         "RuntimeError": RuntimeError, "TypeError": TypeError, "NamedTuple": None}
ENUM_MEMBER = {"name", "value", "_name_", "_value_", "__members__", "_member_map_", "__name__", "__doc__"}


class Cls:
    def __init__(self, m, node, owner):
        self.m, self.node, self.owner, self.name = m, node, owner, node.name
        self.bases, self.subs, self.fields = [], [], None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [x for x in b.mro() if x not in out]
        return out

    def closed(self):
        """are all bases known?"""
        return all(b is not OPAQUE for c in self.mro() for b in c.bases)

    def below(self):
        out = [self]
        for s in self.subs:
            out += [x for x in s.below() if x not in out]
        return out

    def method(self, name):
        for c in self.mro():
            for n in c.node.body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
                    return c, n
        return None

    def is_enum(self):
        return any(b in ("Enum", "IntEnum") for c in self.mro() for b in c.bases)

    def is_dataclass(self):
        return any(deco_name(d) == "dataclass" for d in self.node.decorator_list)


def deco_name(d):
    d = d.func if isinstance(d, ast.Call) else d
    return d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else None


def bound_in(body, checking=False):
    """names bound by statements of a block: name -> node; those only bound for type checkers are kept apart"""
    run, typ = {}, {}

    def target(t, n):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                run.setdefault(x.id, n)

    def go(stmts):
        for n in stmts:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                run.setdefault(n.name, n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    run.setdefault(a.asname or a.name.split(".")[0], n)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    run.setdefault(a.asname or a.name, n)
            elif isinstance(n, ast.If) and type_checking(n.test):
                typ.update(bound_in(n.body)[0])
                go(n.orelse)
            else:
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        target(x.target, n)
                for f in ("targets", "target"):
                    v = getattr(n, f, None)
                    for t in v if isinstance(v, list) else [v] if v is not None else []:
                        if not (isinstance(n, ast.AnnAssign) and n.value is None):
                            target(t, n)
                if isinstance(n, (ast.With, ast.AsyncWith)):
                    for i in n.items:
                        if i.optional_vars is not None:
                            target(i.optional_vars, n)
                if isinstance(n, ast.Match):
                    for c in n.cases:
                        for x in ast.walk(c.pattern):
                            nm = getattr(x, "name", None) or getattr(x, "rest", None)
                            if isinstance(nm, str):
                                run.setdefault(nm, n)
                        go(c.body)
                for f in ("body", "orelse", "finalbody"):
                    go(getattr(n, f, None) or [])
                for h in getattr(n, "handlers", None) or []:
                    if h.name:
                        run.setdefault(h.name, n)
                    go(h.body)
    go(body)
    return run, typ


def type_checking(t):
    return isinstance(t, ast.Name) and t.id == "TYPE_CHECKING" or isinstance(t, ast.Attribute) and t.attr == "TYPE_CHECKING"


def top_statements(tree):
    """statements that run when a module is imported, with whether a failing import of theirs is handled"""
    def go(body, safe):
        for n in body:
            if isinstance(n, ast.If):
                if type_checking(n.test):
                    yield from go(n.orelse, safe)
                    continue
                if any(isinstance(x, ast.Name) and x.id == "__name__" or isinstance(x, ast.Constant) and x.value == "show_object"
                       for x in ast.walk(n.test)):
                    continue
            if isinstance(n, ast.Try):
                caught = any(h.type is None or any(isinstance(x, ast.Name) and x.id in ("ImportError", "ModuleNotFoundError", "Exception")
                                                   for x in ast.walk(h.type)) for h in n.handlers)
                yield from go(n.body, safe or caught)
                for h in n.handlers:
                    yield from go(h.body, safe)
                yield from go(n.orelse + n.finalbody, safe)
                continue
            if isinstance(n, ast.ClassDef):
                yield from go(n.body, safe)
                continue
            if isinstance(n, (ast.If, ast.With, ast.For, ast.While)):
                yield from go(n.body + (getattr(n, "orelse", []) or []), safe)
                continue
            yield n, safe
    yield from go(tree.body, False)


class World:
    def __init__(self, mods):
        self.mods = {m.name: m for m in mods}
        self.tops, self.classes = {}, {}
        for m in mods:
            run, typ = bound_in(m.tree.body)
            self.tops[m.name] = run, typ
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.classes[id(n)] = Cls(m, n, None)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve(c.m, b)
                if isinstance(r, Cls):
                    c.bases.append(r)
                    r.subs.append(c)
                elif isinstance(b, ast.Name) and b.id in PLAIN:
                    c.bases.append(b.id)
                else:
                    c.bases.append(OPAQUE)
        self.stores = {}
        for c in self.classes.values():
            s = self.stores[id(c.node)] = set()
            for n in c.node.body:
                s |= set(bound_in([n])[0])
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    s.add(n.target.id)
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.args.args:
                    me = n.args.args[0].arg
                    s |= {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                          and isinstance(x.value, ast.Name) and x.value.id == me}
        # attributes that are set from outside, on whatever object
        self.outside = {x.attr for m in mods for x in ast.walk(m.tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                        and not (isinstance(x.value, ast.Name) and x.value.id in ("self", "cls"))}
        for m in mods:
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call) and getattr(x.func, "id", getattr(x.func, "attr", "")) in ("setattr", "__setattr__"):
                    for a in x.args:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            self.outside.add(a.value)

    def member(self, name, attr):
        """what a module attribute is: a Cls, a function node, 'other', or None if there is none"""
        m = self.mods.get(name)
        if f"{name}.{attr}" in self.mods:
            return "module", f"{name}.{attr}"
        if m is None:
            return "other"
        run, typ = self.tops[name]
        if "__getattr__" in run or "*" in run or attr.startswith("__"):
            return "other"
        if any(isinstance(n, ast.Global) and attr in n.names for n in ast.walk(m.tree)):
            return "other"
        if attr not in run:
            return None
        n = run[attr]
        # a name bound more than once is not one thing
        if sum(attr in bound_in([s])[0] for s in m.tree.body) > 1:
            return "other"
        if isinstance(n, ast.ClassDef):
            return self.classes[id(n)]
        if isinstance(n, ast.FunctionDef):
            return n
        if isinstance(n, ast.ImportFrom) and not n.level and n.module and n.module.split(".")[0] == "cq_cam":
            src = next((a.name for a in n.names if (a.asname or a.name) == attr), None)
            return self.member(n.module, src) if src and n.module != name else "other"
        if isinstance(n, ast.Import):
            al = next((a for a in n.names if (a.asname or a.name.split(".")[0]) == attr), None)
            if al and al.name in self.mods and al.asname:
                return "module", al.name
        return "other"

    def resolve(self, m, e, local=()):
        """a class, a function, a module or something unknown behind an expression"""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            if e.id in local:
                return None
            r = self.member(m.name, e.id)
            if r is None:
                # names only imported for annotations
                n = self.tops[m.name][1].get(e.id)
                if isinstance(n, ast.ImportFrom) and n.module in self.mods:
                    return self.member(n.module, next(a.name for a in n.names if (a.asname or a.name) == e.id))
            return r
        if isinstance(e, ast.Attribute):
            r = self.resolve(m, e.value, local)
            if isinstance(r, tuple):
                return self.member(r[1], e.attr)
        return None

    def annotated(self, m, a):
        """the one class of ours an annotation names"""
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            sides = [x for x in (a.left, a.right) if not (isinstance(x, ast.Constant) and x.value is None)]
            return self.annotated(m, sides[0]) if len(sides) == 1 else None
        if isinstance(a, ast.Subscript) and getattr(a.value, "id", getattr(a.value, "attr", "")) == "Optional":
            return self.annotated(m, a.slice)
        if isinstance(a, (ast.Name, ast.Attribute)):
            r = self.resolve(m, a)
            if r is None and isinstance(a, ast.Name) and a.id not in self.tops[m.name][0]:
                # named for the reader only: the one class of this name
                cs = [c for c in self.classes.values() if c.name == a.id and c.node in c.m.tree.body]
                return cs[0] if len(cs) == 1 else None
            return r if isinstance(r, Cls) else None
        return None

    def has(self, c, attr, on_class=False):
        """does an object of this class (or of one below it) have the attribute? None: not known"""
        if not c.closed():
            return None
        for x in c.mro() + c.below():
            if attr in self.stores[id(x.node)]:
                return True
            if x.method("__getattr__") or x.method("__getattribute__"):
                return None
            for b in x.bases:
                if isinstance(b, str):
                    if b in ("Enum", "IntEnum") and attr in ENUM_MEMBER:
                        return True
                    if b == "NamedTuple":
                        return None
                    if PLAIN[b] is not None and hasattr(PLAIN[b], attr):
                        return True
        if hasattr(type if on_class else object, attr) or hasattr(object, attr) or attr in ("__dict__", "__name__", "__qualname__", "__module__",
                                                                                            "__dataclass_fields__", "__annotations__", "__match_args__"):
            return True
        return None if attr in self.outside else False

    def field_type(self, c, attr):
        """the class of ours a field or property is annotated with"""
        for x in c.mro():
            for n in x.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == attr:
                    return self.annotated(x.m, n.annotation)
                if isinstance(n, ast.FunctionDef) and n.name == attr:
                    if any(deco_name(d) in ("property", "cached_property") for d in n.decorator_list) and n.returns is not None:
                        return self.annotated(x.m, n.returns)
                    return None
        return None


def enclosing(tree):
    """function node -> functions it is defined in, from the inside out; and the class it is a method of"""
    ups, cls = {}, {}

    def go(n, fs, c):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                ups[x], cls[x] = fs, c
                go(x, [x] + fs, None)
            elif isinstance(x, ast.ClassDef):
                go(x, fs, x)
            else:
                go(x, fs, c)
    go(tree, [], None)
    return ups, cls


def locals_of(fn):
    ns = {a.arg for a in params(fn)}
    if isinstance(fn, ast.Lambda):
        return ns
    run, typ = bound_in(fn.body)
    glob = {x for n in own(fn) if isinstance(n, ast.Global) for x in n.names}
    ns |= (set(run) | set(typ)) - glob
    # targets of comprehensions, close enough: a name of one is bound within it
    for n in own(fn):
        if isinstance(n, ast.comprehension):
            ns |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        if isinstance(n, ast.NamedExpr):
            ns.add(n.target.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            ns.add(n.name)
    return ns


def annotations(fn):
    """nodes within annotations, which nothing evaluates when the function runs"""
    out = set()
    roots = []
    if not isinstance(fn, ast.Lambda):
        for n in ast.walk(fn):
            if isinstance(n, ast.AnnAssign):
                roots.append(n.annotation)
            if isinstance(n, ast.arg) and n.annotation is not None:
                roots.append(n.annotation)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.returns is not None:
                roots.append(n.returns)
    for r in roots:
        out |= {id(x) for x in ast.walk(r)}
    return out


def handles(fn, name):
    """does the function handle this exception, or ask whether there is such an attribute?"""
    for n in ast.walk(fn):
        if isinstance(n, ast.ExceptHandler) and (n.type is None or any(isinstance(x, ast.Name) and x.id in (name, "Exception") for x in ast.walk(n.type))):
            return True
        if name == "AttributeError" and isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("hasattr", "getattr", "setattr", "vars"):
            return True
    return False


# ------------------------------------------------------------------ arguments of a call
def signature(W, r):
    """what is called -> (positional names, number of those required, keyword names, required keywords, *args, **kwargs), or None"""
    if isinstance(r, Cls):
        if not r.closed() or r.is_enum():
            return None
        if r.method("__new__") or any(isinstance(k, ast.keyword) for k in r.node.keywords):
            return None
        mt = r.method("__init__")
        # a dataclass makes its own, the nearest of both counts
        for c in r.mro():
            if mt is not None and mt[0] is c:
                return from_function(mt[1], 1)
            if c.is_dataclass():
                return from_fields(W, c)
            if any(b not in ("ABC", "object") and isinstance(b, str) for b in c.bases):
                return None
        return [], 0, set(), set(), False, False
    if isinstance(r, tuple) and r[0] == "bound":
        return from_function(r[1], r[2])
    if isinstance(r, ast.FunctionDef):
        return from_function(r, 0)
    return None


TRANSPARENT = {"staticmethod", "classmethod", "abstractmethod", "cache", "lru_cache", "wraps"}


def from_function(fn, drop):
    if any(deco_name(d) not in TRANSPARENT for d in fn.decorator_list):
        return None
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    req = len(pos) - len(a.defaults)
    kw = {x.arg for x in a.kwonlyargs}
    need = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return pos[drop:], max(0, req - drop), kw | set(pos[drop:]) - {x.arg for x in a.posonlyargs}, need, a.vararg is not None, a.kwarg is not None


def from_fields(W, c):
    fields = {}         # name -> (kw only, has default), in order
    for x in reversed(c.mro()):
        if not x.is_dataclass():
            continue
        d = next(d for d in x.node.decorator_list if deco_name(d) == "dataclass")
        conf = {k.arg: k.value for k in d.keywords} if isinstance(d, ast.Call) else {}
        if "init" in conf or None in conf:
            return None
        all_kw = "kw_only" in conf and getattr(conf["kw_only"], "value", None) is True
        after = False
        for n in x.node.body:
            if not isinstance(n, ast.AnnAssign) or not isinstance(n.target, ast.Name):
                continue
            txt = ast.unparse(n.annotation)
            if "ClassVar" in txt:
                continue
            if txt.split(".")[-1] == "KW_ONLY":
                after = True
                continue
            kw, dflt, init = all_kw or after, n.value is not None, True
            if isinstance(n.value, ast.Call) and getattr(n.value.func, "id", getattr(n.value.func, "attr", "")) == "field":
                ks = {k.arg: k.value for k in n.value.keywords}
                if None in ks:
                    return None
                dflt = "default" in ks or "default_factory" in ks
                if "kw_only" in ks:
                    kw = bool(getattr(ks["kw_only"], "value", True))
                if "init" in ks:
                    init = bool(getattr(ks["init"], "value", True))
            if not init:
                fields.pop(n.target.id, None)
                continue
            fields[n.target.id] = kw, dflt
    pos = [k for k, (kw, d) in fields.items() if not kw]
    req = sum(not fields[k][1] for k in pos)
    return pos, req, set(fields), {k for k, (kw, d) in fields.items() if kw and not d}, False, False


def misfit(sig, call):
    """what is wrong with the arguments, or None"""
    pos, req, kw, need, va, vk = sig
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = sum(not isinstance(a, ast.Starred) for a in call.args)
    given = [k.arg for k in call.keywords if k.arg is not None]
    if n > len(pos) and not va:
        return f"takes {len(pos)} positional arguments, {n} are given"
    for k in given:
        if k not in kw and not vk:
            return f"takes no argument {k}"
        if k in pos[:n] and not star:
            return f"is given {k} twice"
    if not star and not dstar:
        missing = [p for p in pos[n:req] if p not in given] + sorted(k for k in need if k not in given)
        if missing:
            return f"is not given {', '.join(missing)}"
    return None


# ------------------------------------------------------------------ the rules
@prop("C28")
def references(R):
    R.rule("imports", "importing the package needs nothing but cadquery, numpy, pyclipper, shapely and the standard library, and what is imported from "
                      "a module of the package is there", 12)
    R.rule("names", "every name a function uses is bound: in it, around it, in its module or built in", 120)
    R.rule("attributes", "every attribute of an object, class or module of the package that a function uses is there", 60)
    R.rule("calls", "every call of a function, method or class of the package fits its parameters", 60)
    c = new(R)
    mods = [m for k, m in sorted(c.prog.modules.items()) if k != "sa_lib" and ".tests" not in k]
    W = World(mods)
    t = Tally(R)
    import_rule(t, W)
    for m in mods:
        ups, clss = enclosing(m.tree)
        run = set(W.tops[m.name][0]) | {x for n in ast.walk(m.tree) if isinstance(n, ast.Global) for x in n.names}
        for q, fn, cls in functions(m.tree):
            key = f"{m.name}.{q}"
            name_rule(t, m, fn, key, ups, run, cls)
            use_rule(t, W, m, fn, cls, key, ups)
    t.flush()


def import_rule(t, W):
    # what is imported when the package is: from its root, and each module that nothing optional is documented for
    need = {}

    def visit(name, path):
        parts = name.split(".")
        for k in range(1, len(parts) + 1):
            p = ".".join(parts[:k])
            m = W.mods.get(p)
            if m is None or p in need:
                continue
            need[p] = path
            for n, safe in top_statements(m.tree):
                if safe:
                    continue
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if a.name.split(".")[0] == "cq_cam":
                            visit(a.name, path + [p])
                elif isinstance(n, ast.ImportFrom) and (n.module or "").split(".")[0] == "cq_cam":
                    visit(n.module, path + [p])
                    for a in n.names:
                        if f"{n.module}.{a.name}" in W.mods:
                            visit(f"{n.module}.{a.name}", path + [p])
    visit("cq_cam", [])
    for name, m in sorted(W.mods.items()):
        w = f"{m.rel}:1"
        bad = None
        for n, safe in top_statements(m.tree):
            if not isinstance(n, (ast.Import, ast.ImportFrom)):
                continue
            roots = [a.name.split(".")[0] for a in n.names] if isinstance(n, ast.Import) else ["cq_cam" if n.level else (n.module or "").split(".")[0]]
            for r in roots:
                if r not in NEEDED and r not in sys.stdlib_module_names and not safe and name in need:
                    bad = f"importing cq_cam imports {name}, which needs {r}", f"{m.rel}:{n.lineno}"
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and not n.level and n.module and n.module.split(".")[0] == "cq_cam":
                if n.module not in W.mods:
                    bad = f"there is no module {n.module}", f"{m.rel}:{n.lineno}"
                    continue
                for a in n.names:
                    if a.name != "*" and W.member(n.module, a.name) is None:
                        bad = f"{n.module} has no {a.name}", f"{m.rel}:{n.lineno}"
        t.add("imports", name, False if bad else True, bad[0] if bad else "imported with the package" if name in need else "imported by nothing else", bad[1] if bad else w)


def name_rule(t, m, fn, key, ups, run, cls):
    if "*" in run:
        return
    # defaults and decorators are evaluated where the function is defined
    there = {id(x) for d in fn.decorator_list + fn.args.defaults + [k for k in fn.args.kw_defaults if k is not None] for x in ast.walk(d)}
    around = set(bound_in(cls.body)[0]) if cls is not None else set()
    scopes = [locals_of(fn)] + [locals_of(u) for u in ups.get(fn, [])]
    # what its lambdas and comprehensions bind is bound where they use it
    inner = set()
    for n in own(fn):
        if isinstance(n, ast.Lambda):
            inner |= locals_of(n)
    ann = annotations(fn)
    bad = None
    if handles(fn, "NameError"):
        return
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in ann:
            if any(n.id in s for s in scopes) or n.id in inner or n.id in run or hasattr(builtins, n.id) or n.id in ("__file__", "__class__"):
                continue
            if id(n) in there and n.id in around:
                continue
            bad = f"{n.id} is not bound", f"{m.rel}:{n.lineno}"
    t.add("names", key, bad is None, bad[0] if bad else "all bound", bad[1] if bad else f"{m.rel}:{fn.lineno}")


def use_rule(t, W, m, fn, cls, key, ups):
    C = W.classes.get(id(cls)) if cls is not None else None
    outer = ups.get(fn, [])
    local = set().union(*[locals_of(f) for f in [fn] + outer]) if outer else locals_of(fn)
    types, kind = {}, {}

    def learn(f, c):
        a = f.args
        ps = a.posonlyargs + a.args
        deco = {deco_name(d) for d in f.decorator_list}
        for k, p in enumerate(ps + a.kwonlyargs):
            if k == 0 and c is not None and "staticmethod" not in deco:
                types[p.arg] = c
                kind[p.arg] = "class" if "classmethod" in deco else "object"
            elif p.annotation is not None:
                r = W.annotated(m, p.annotation)
                if r is not None:
                    types[p.arg], kind[p.arg] = r, "object"
        stored = {}
        for n in own(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stored[n.id] = stored.get(n.id, 0) + 1
        for x in stored:
            types.pop(x, None)          # no longer what it was given as
        for n in own(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and stored[n.targets[0].id] == 1 \
                    and n.targets[0].id not in {p.arg for p in params(f)} and isinstance(n.value, ast.Call):
                r = W.resolve(m, n.value.func, local)
                if isinstance(r, Cls) and not r.method("__new__"):
                    types[n.targets[0].id], kind[n.targets[0].id] = r, "object"
    if outer:
        # what is around it: methods' self
        for f in reversed(outer):
            if not isinstance(f, ast.Lambda):
                learn(f, None)
                if f.args.args and f.args.args[0].arg == "self":
                    c = next((W.classes[id(x)] for x in ast.walk(m.tree) if isinstance(x, ast.ClassDef) and f in x.body), None)
                    if c is not None:
                        types["self"], kind["self"] = c, "object"
        for p in params(fn):
            types.pop(p.arg, None)
    learn(fn, C)
    for n in own(fn):               # names a lambda or comprehension binds are theirs
        if isinstance(n, ast.Lambda):
            for p in params(n):
                types.pop(p.arg, None)
        if isinstance(n, ast.comprehension):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    types.pop(x.id, None)
    # narrowed by isinstance: could be something more special
    for n in own(fn):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("isinstance", "type", "hasattr", "issubclass"):
            for a in n.args[:1]:
                if isinstance(a, ast.Name) and a.id not in ("self", "cls"):
                    types.pop(a.id, None)

    def of(e):
        """(class, 'object' or 'class') of an expression"""
        if isinstance(e, ast.Name):
            if e.id in types:
                return types[e.id], kind[e.id]
            r = W.resolve(m, e, local)
            return (r, "class") if isinstance(r, Cls) else None
        if isinstance(e, ast.Attribute):
            r = W.resolve(m, e, local)
            if isinstance(r, Cls):
                return r, "class"
            o = of(e.value)
            if o is not None and o[1] == "object":
                f = W.field_type(o[0], e.attr)
                return (f, "object") if f is not None else None
            if o is not None and o[1] == "class" and o[0].is_enum() and any(
                    isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == e.attr for x in n.targets) for c in o[0].mro() for n in c.node.body):
                return o[0], "object"
            return None
        if isinstance(e, ast.Call):
            r = W.resolve(m, e.func, local)
            return (r, "object") if isinstance(r, Cls) and not r.is_enum() else None
        return None

    ann = annotations(fn)
    calls_bad, na, nc = None, 0, 0
    lenient = handles(fn, "AttributeError")
    for n in own(fn):
        if id(n) in ann:
            continue
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            r = W.resolve(m, n.value, local)
            if isinstance(r, tuple) and r[0] == "module" and r[1] in W.mods:
                na += 1
                if W.member(r[1], n.attr) is None:
                    t.add("attributes", f"{key}: {n.attr}", False, f"the module {r[1]} has no {n.attr}", f"{m.rel}:{n.lineno}")
                continue
            o = of(n.value)
            if o is not None and not lenient:
                h = W.has(o[0], n.attr, o[1] == "class")
                if h is False:
                    t.add("attributes", f"{key}: {n.attr}", False, f"{o[0].name} has no {n.attr}", f"{m.rel}:{n.lineno}")
                na += h is not None
        if isinstance(n, ast.Call):
            what = callee(W, m, n.func, of, local, types, kind, C)
            if what is None:
                continue
            sig = signature(W, what)
            if sig is None:
                continue
            nc += 1
            p = misfit(sig, n)
            if p and not handles(fn, "TypeError"):
                calls_bad = f"{ast.unparse(n.func)} {p}", f"{m.rel}:{n.lineno}"
    w = f"{m.rel}:{fn.lineno}"
    if na:
        t.add("attributes", key, True, f"{na} uses", w)
    if nc:
        t.add("calls", key, calls_bad is None, calls_bad[0] if calls_bad else f"{nc} calls", calls_bad[1] if calls_bad else w)


def callee(W, m, f, of, local, types, kind, C):
    if isinstance(f, ast.Name):
        if f.id in types:
            return types[f.id] if kind[f.id] == "class" and not types[f.id].subs else None
        return W.resolve(m, f, local)
    if not isinstance(f, ast.Attribute):
        return None
    r = W.resolve(m, f, local)
    if r is not None:
        return r
    if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and not f.value.args and C is not None:
        for c in C.mro()[1:]:
            mt = next((n for n in c.node.body if isinstance(n, ast.FunctionDef) and n.name == f.attr), None)
            if mt is not None:
                return "bound", mt, 1 if not any(deco_name(d) == "staticmethod" for d in mt.decorator_list) else 0
            if c.is_dataclass() and f.attr == "__init__":
                return None
        return None
    o = of(f.value)
    if o is None:
        return None
    mt = o[0].method(f.attr)
    if mt is None or any(x.method(f.attr) is not None and x.method(f.attr)[1] is not mt[1] for x in o[0].below()) and o[1] == "object":
        return None
    if any(f.attr in W.stores[id(x.node)] and not any(isinstance(n, ast.FunctionDef) and n.name == f.attr for n in x.node.body) for x in o[0].mro() + o[0].below()):
        return None
    deco = {deco_name(d) for d in mt[1].decorator_list}
    if "property" in deco or "cached_property" in deco:
        return None
    if "staticmethod" in deco:
        return "bound", mt[1], 0
    if "classmethod" in deco or o[1] == "object":
        return "bound", mt[1], 1
    return "bound", mt[1], 0
