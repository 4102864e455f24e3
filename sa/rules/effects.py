"""Nothing but the job and its arguments decides a program: an effect analysis of the package's sources.

State that outlives a call (module and class level containers, rebound globals, default arguments, caches), sources that
differ between runs (clock, randomness, environment, addresses) and orders that differ between runs (sets of objects)."""
import ast

from . import prop
from .common import *  # noqa
from .common import new
from .path import Tally

MUT = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "add", "update", "setdefault", "popitem",
       "discard", "appendleft", "popleft", "extendleft", "__setitem__", "__delitem__", "move_to_end", "rotate"}
GROW_ONLY = {"append", "extend", "insert", "add", "update", "clear", "appendleft", "sort", "reverse", "remove", "discard"}
CONTAINER_CALLS = {"list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter", "WeakKeyDictionary", "WeakValueDictionary",
                   "bytearray", "ChainMap", "count", "cycle", "iter"}
CACHES = {"cache", "lru_cache"}
# module attribute -> reads something that is not the same in every run
SOURCES = {
    "random": None, "secrets": None, "uuid": None, "numpy.random": None,
    "time": {"time", "time_ns", "perf_counter", "monotonic", "process_time", "localtime", "gmtime", "ctime", "asctime", "strftime", "perf_counter_ns", "monotonic_ns"},
    "datetime": {"now", "today", "utcnow"},
    "os": {"environ", "getenv", "urandom", "getpid", "getcwd", "times", "listdir", "scandir"},
    "tempfile": None, "socket": None, "getpass": None, "platform": None, "threading": {"get_ident"},
    "sys": {"argv"},
}
ORDERLESS = {"sorted", "len", "min", "max", "any", "all", "set", "frozenset", "sum", "bool", "isinstance", "unique"}
NUMERIC_ATTRS = {"depth", "x", "y", "z", "zmin", "zmax", "xmin", "xmax", "ymin", "ymax"}
NUMERIC_CALLS = {"round", "float", "int", "abs", "len", "range", "floor", "ceil", "sum", "arange", "linspace"}


def functions(tree):
    """(qualified name, node, class node or None) of every function, not those of a script's own block"""
    def go(body, pre, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield pre + n.name, n, cls
                yield from go(n.body, pre + n.name + ".", cls)
            elif isinstance(n, ast.ClassDef):
                yield from go(n.body, pre + n.name + ".", n)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While, ast.Match)):
                if isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(n.test)):
                    continue
                for f in ("body", "orelse", "finalbody"):
                    yield from go(getattr(n, f, []) or [], pre, cls)
                for h in getattr(n, "handlers", []) or []:
                    yield from go(h.body, pre, cls)
                for h in getattr(n, "cases", []) or []:
                    yield from go(h.body, pre, cls)
    yield from go(tree.body, "", None)


def own(fn):
    """the nodes of a function without those of functions defined in it (lambdas and comprehensions stay)"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def params(fn):
    a = fn.args
    return [x for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])]


def names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def is_container(v):
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, ast.Call):
        f = v.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        return n in CONTAINER_CALLS
    return False


def parents(tree):
    p = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            p[c] = n
    return p


def root_of(n):
    """the name at the root of a[..].b[..]"""
    while isinstance(n, (ast.Subscript, ast.Attribute, ast.Starred)):
        n = n.value
    return n


class Use:
    """how one occurrence of a piece of state is used"""

    def __init__(self, node, par):
        # climb over subscripts of the state itself
        self.node, self.write, self.read, self.key, self.value = node, False, True, None, None
        n, p = node, par.get(node)
        if isinstance(p, ast.Attribute) and p.value is n and isinstance(p.ctx, (ast.Store, ast.Del)):
            self.write, self.read = True, False     # a field of an object that is kept
            return
        if isinstance(getattr(node, "ctx", None), (ast.Store, ast.Del)):
            self.write = True
            self.read = False
            if isinstance(p, ast.AugAssign):
                self.value = p.value
            elif isinstance(p, (ast.Assign, ast.AnnAssign)):
                self.value = p.value
            return
        if isinstance(p, ast.Subscript) and p.value is n:
            self.key = p.slice
            if isinstance(p.ctx, (ast.Store, ast.Del)):
                self.write, self.read = True, False
                g = par.get(p)
                if isinstance(g, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    self.value = g.value
                return
            # an element is mutated in place
            q = par.get(p)
            if isinstance(q, ast.Attribute) and q.attr in MUT and isinstance(par.get(q), ast.Call) and par[q].func is q:
                self.write = True
            return
        if isinstance(p, ast.Attribute) and p.value is n and isinstance(par.get(p), ast.Call) and par[p].func is p:
            call = par[p]
            if p.attr in MUT:
                self.write = True
                stmt = par.get(call)
                self.read = not (p.attr in GROW_ONLY and isinstance(stmt, ast.Expr))
                if p.attr == "setdefault" and len(call.args) == 2:
                    self.key, self.value = call.args
                elif call.args:
                    self.value = call.args[-1]
            elif p.attr == "get" and call.args:
                self.key = call.args[0]
            return
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "next" and p.args and p.args[0] is n:
            self.write = True
            return
        if isinstance(p, ast.Compare) and n in p.comparators and all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
            self.key = p.left


def spread(fn, n, par, mods, q, depth=0):
    """uses of a piece of state through a local alias or a parameter it is passed as: (function name, function, Use, parents)"""
    p = par.get(n)
    out = []
    if depth > 3:
        return out
    if isinstance(p, (ast.Assign, ast.NamedExpr)) and p.value is n:
        ts = p.targets if isinstance(p, ast.Assign) else [p.target]
        for t in ts:
            if isinstance(t, ast.Name):
                for x in own(fn):
                    if isinstance(x, ast.Name) and x.id == t.id and x is not t and (
                            isinstance(x.ctx, ast.Load) or isinstance(par.get(x), ast.AugAssign)) and not in_logging(x, par):
                        out.append((q, fn, Use(x, par), par))
                        out += spread(fn, x, par, mods, q, depth + 1)
    call = p if isinstance(p, ast.Call) else par.get(p) if isinstance(p, ast.keyword) else None
    if isinstance(call, ast.Call) and n is not call.func:
        f = call.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        for m in mods:
            for qq, g, cls in functions(m.tree):
                if g.name != name:
                    continue
                ps = [a.arg for a in g.args.posonlyargs + g.args.args]
                if cls is not None and ps and ps[0] in ("self", "cls"):
                    ps = ps[1:]
                arg = p.arg if isinstance(p, ast.keyword) else ps[call.args.index(n)] if n in call.args and call.args.index(n) < len(ps) else None
                if arg is None:
                    continue
                gp = parents(m.tree)
                for x in own(g):
                    if isinstance(x, ast.Name) and x.id == arg and not in_logging(x, gp):
                        if isinstance(x.ctx, ast.Store) and not isinstance(gp.get(x), ast.AugAssign):
                            continue
                        out.append((qq, g, Use(x, gp), gp))
                        out += spread(g, x, gp, mods, qq, depth + 1)
    return out


def in_logging(n, par):
    while n is not None:
        if isinstance(n, ast.Call):
            r = root_of(n.func)
            if isinstance(r, ast.Name) and ("log" in r.id.lower() or r.id in ("warnings", "print")):
                return True
        if isinstance(n, ast.stmt):
            return False
        n = par.get(n)
    return False


def closure(fn, seeds):
    """local names (transitively) that an expression's names depend on"""
    dep = {}
    for n in own(fn):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and n.value is not None:
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        dep.setdefault(x.id, set()).update(names(n.value))
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    dep.setdefault(x.id, set()).update(names(n.iter))
    out, todo = set(), set(seeds)
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo |= dep.get(x, set())
    return out


def kept_object(v, m):
    """an instance that a module keeps (other than loggers and type variables)"""
    if not isinstance(v, ast.Call):
        return False
    f = v.func
    n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
    return n in ("SimpleNamespace", "Namespace", "local", "object") or any(isinstance(x, ast.ClassDef) and x.name == n for x in ast.walk(m.tree))


def scopes_state(m):
    """state of a module which outlives calls: name -> (node, kind); class attributes as (class, name)"""
    g, tops = {}, set()

    def top(body):
        for st in body:
            if isinstance(st, (ast.If, ast.Try)):
                if isinstance(st, ast.If) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(st.test)):
                    continue
                top(st.body)
                top(st.orelse)
                continue
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    if isinstance(t, ast.Name):
                        tops.add(t.id)
                        if is_container(st.value) or kept_object(st.value, m):
                            g[t.id] = st
    top(m.tree.body)
    return g, tops


@prop("C26")
def effects(R):
    R.rule("state", "what a module, a class or a default argument keeps between calls is never read back by a function that computes something "
                    "(a memo, whose key holds everything the stored value depends on, is allowed)", 40)
    R.rule("sources", "no function reads the clock, randomness, the environment or an object's address", 40)
    R.rule("order", "nothing is done in the order of a set whose elements have no fixed hash", 40)
    R.rule("cached", "a cached result depends on nothing but its key, and nobody changes it or what it was computed from", 2)
    c = new(R)
    t = Tally(R)
    mods = [m for k, m in sorted(c.prog.modules.items()) if k != "sa_lib"]
    stores = attribute_stores(mods)
    for m in mods:
        par = parents(m.tree)
        glob, tops = scopes_state(m)
        imports = module_imports(m)
        fns = list(functions(m.tree))
        state_rule(t, m, mods, par, glob, tops, fns)
        for q, fn, cls in fns:
            key = f"{m.name}.{q}"
            w = f"{m.rel}:{fn.lineno}"
            source_rule(t, m, par, imports, key, w, fn)
            order_rule(t, m, par, key, fn)
            cached_rule(t, m, par, key, w, fn, cls, glob, stores, mods)
    t.flush()


# ------------------------------------------------------------------ state
def shadowed(fn, name):
    """is the name a local of this function?"""
    if any(isinstance(n, ast.Global) and name in n.names for n in own(fn)):
        return False
    if any(a.arg == name for a in params(fn)):
        return True
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)) for n in own(fn))


def state_rule(t, m, mods, par, glob, tops, fns):
    # 1. module level
    rebound = {x for _, fn, _ in fns for n in own(fn) if isinstance(n, ast.Global) for x in n.names}
    for name in sorted(set(glob) | rebound):
        uses = []
        for mm in mods:
            if mm is not m and not imported_as(mm, m.name, name):
                continue
            alias = {name} if mm is m else imported_as(mm, m.name, name)
            p2 = par if mm is m else parents(mm.tree)
            for q, fn, _ in (fns if mm is m else functions(mm.tree)):
                for n in own(fn):
                    hit = isinstance(n, ast.Name) and n.id in alias and not shadowed(fn, n.id)
                    hit = hit or (mm is not m and isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.value, ast.Name)
                                  and n.value.id in module_alias(mm, m.name))
                    if hit and not in_logging(n, p2):
                        uses.append((mm, q, fn, Use(n, p2), p2))
                        uses += [(mm, *u) for u in spread(fn, n, p2, mods, q)]
        judge(t, m, f"{m.name}.{name}", uses, glob.get(name))
    # 2. class level containers
    for cl in [n for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef)]:
        attrs_ = {}
        for st in cl.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                for x in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    if isinstance(x, ast.Name) and (is_container(st.value)):
                        attrs_[x.id] = st
        decorated = any("dataclass" in ast.dump(d) for d in cl.decorator_list)
        names_ = set(attrs_)
        # rebinding a class's attribute at run time
        for q, fn, k in fns:
            for n in own(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    v = n.value
                    if (isinstance(v, ast.Name) and (v.id == cl.name or (v.id == "cls" and k is cl))) or (
                            isinstance(v, ast.Attribute) and v.attr == "__class__" and k is cl) or (
                            isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "type" and k is cl):
                        names_.add(n.attr)
        for name in sorted(names_):
            set_in_init = any(k is cl and isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) and
                              isinstance(n.value, ast.Name) and n.value.id == "self" and fn.name in ("__init__", "__post_init__", "__new__")
                              for q, fn, k in fns for n in own(fn))
            if set_in_init and name in attrs_:
                continue        # every instance has its own
            uses = []
            for q, fn, k in fns:
                for n in own(fn):
                    if isinstance(n, ast.Attribute) and n.attr == name:
                        v = n.value
                        mine = isinstance(v, ast.Name) and (v.id in (cl.name, "cls") or v.id == "self" and k is cl) or isinstance(v, (ast.Attribute, ast.Call))
                        if isinstance(v, ast.Name) and v.id == "self" and isinstance(n.ctx, ast.Store) and not isinstance(par.get(n), ast.AugAssign):
                            continue
                        if mine and not in_logging(n, par):
                            uses.append((m, q, fn, Use(n, par), par))
            judge(t, m, f"{m.name}.{cl.name}.{name}", uses, attrs_.get(name))
    # 3. default arguments, attributes of functions and modules
    for q, fn, cls in fns:
        key = f"{m.name}.{q}"
        a = fn.args
        pos_ = a.posonlyargs + a.args
        ds = list(zip(pos_[len(pos_) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        bad = None
        for x, d in ds:
            if not is_container(d):
                # a call in a default is made once, when the function is defined
                continue
            for n in own(fn):
                if isinstance(n, ast.Name) and n.id == x.arg:
                    u = Use(n, par)
                    rebinding = isinstance(n.ctx, ast.Store) and not isinstance(par.get(n), ast.AugAssign)
                    back = any(isinstance(k, ast.Name) and k.id == x.arg and Use(k, par).read and not in_logging(k, par) for k in own(fn))
                    if u.write and not rebinding and back:
                        bad = f"the default of {x.arg} is changed (line {n.lineno}) and the next call finds what this one left"
        for n in own(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                    n.value.id in {f.name for _, f, k in fns if k is None}:
                if not any(p.arg == n.value.id for p in params(fn)):
                    bad = f"{n.value.id}.{n.attr} keeps a value between calls (line {n.lineno})"
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                r = root_of(n)
                if isinstance(r, ast.Name) and not shadowed(fn, r.id) and any(
                        b[0] in ("import", "from") for b in m.names.get(r.id, []) if isinstance(b, tuple)):
                    bad = f"{ast.unparse(n)} keeps a value between calls (line {n.lineno})"
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Call) and \
                    isinstance(n.value.func, ast.Name) and n.value.func.id == "globals":
                bad = f"a global is set (line {n.lineno})"
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args:
                r = root_of(n.args[0])
                if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "type" or \
                        isinstance(r, ast.Name) and (r.id == "cls" or r.id in {f.name for _, f, k in fns if k is None} or
                                                     any(isinstance(b, (tuple, ast.ClassDef)) for b in m.names.get(r.id, [])) and not shadowed(fn, r.id)):
                    bad = f"{ast.unparse(n)[:60]} keeps a value between calls (line {n.lineno})"
        t.add("state", key, bad is None, bad or "", f"{m.rel}:{fn.lineno}")


def judge(t, m, key, uses, node):
    writes = [u for u in uses if u[3].write]
    reads = [u for u in uses if u[3].read]
    w = f"{m.rel}:{node.lineno if node is not None else (uses[0][3].node.lineno if uses else 1)}"
    if not writes or not reads:
        t.add("state", key, True, "written only, or read only", w)
        return
    msgs, unknown = [], False
    for mm, q, fn, u, p2 in writes:
        if u.key is None or u.value is None:
            msgs.append((mm, u.node.lineno, f"{key} is changed by {q} (line {u.node.lineno}) and read back by {reads[0][1]} (line {reads[0][3].node.lineno})"))
            continue
        keys, vals = expand(fn, u.key), expand(fn, u.value)
        args = {a.arg for a in params(fn)} - {"cls"}
        weak = [n for e in keys for n in ast.walk(e) if isinstance(n, ast.Call) and (
            n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", "")) in ("id", "hash", "hashCode", "HashCode", "__hash__")]
        for a in sorted({n.id for e in vals for n in ast.walk(e) if isinstance(n, ast.Name)} & args):
            f = faithful(a, keys, vals)
            if f is False:
                msgs.append((mm, u.node.lineno, f"{key} keeps a value of {q} that depends on {a} under a key that does not (line {u.node.lineno})"))
            elif f is None:
                unknown = True
        if weak:
            f = weak[0].func
            msgs.append((mm, u.node.lineno, f"{key} is keyed by an object's {f.id if isinstance(f, ast.Name) else f.attr} (line {u.node.lineno}), "
                         "which another object may have"))
    if msgs:
        mm, ln, msg = msgs[0]
        t.add("state", key, False, msg, f"{mm.rel}:{ln}")
    else:
        t.add("state", key, None if unknown else True, "a memo", w)


def expand(fn, e):
    """an expression and the values of the locals in it"""
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        out.append(x)
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and n.id not in seen:
                seen.add(n.id)
                for y in own(fn):
                    if isinstance(y, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and y.value is not None and any(
                            n.id in targets(t) for t in (y.targets if isinstance(y, ast.Assign) else [y.target])):
                        todo.append(y.value)
                    elif isinstance(y, (ast.For, ast.comprehension)) and any(isinstance(z, ast.Name) and z.id == n.id for z in ast.walk(y.target)):
                        todo.append(y.iter)
    return out


def targets(t):
    """names that an assignment to t changes"""
    if isinstance(t, (ast.Tuple, ast.List)):
        return {x for e in t.elts for x in targets(e)}
    while isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)):
        t = t.value
    return {t.id} if isinstance(t, ast.Name) else set()


def faithful(a, keys, vals):
    """does the key hold argument a (or all of it that the value uses)?  True, False, None: not known"""
    found = False
    for e in keys:
        todo = [(e, True)]
        while todo:
            n, whole = todo.pop()
            if isinstance(n, ast.Name) and n.id == a:
                if whole:
                    return True
                found = True
            for c in ast.iter_child_nodes(n):
                keep = isinstance(n, (ast.Tuple, ast.IfExp, ast.FormattedValue, ast.JoinedStr, ast.List, ast.Starred)) or (
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("tuple", "frozenset", "str", "repr", "map") and c is not n.func)
                todo.append((c, whole and keep))
    if not found:
        return False
    attrs_ = lambda es: {n.attr for e in es for n in ast.walk(e) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == a}
    bare = sum(isinstance(n, ast.Name) and n.id == a for e in vals for n in ast.walk(e)) - sum(
        isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == a for e in vals for n in ast.walk(e))
    if not bare and attrs_(vals) <= attrs_(keys):
        return True
    return None


# ---------------------------------------------------------------- sources
def module_imports(m):
    """local name -> dotted name of what is imported"""
    out = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def imported_as(mm, mod, name):
    return {a.asname or a.name for n in ast.walk(mm.tree) if isinstance(n, ast.ImportFrom) and n.module == mod for a in n.names if a.name == name}


def module_alias(mm, mod):
    out = set()
    for n in ast.walk(mm.tree):
        if isinstance(n, ast.Import):
            out |= {a.asname for a in n.names if a.name == mod and a.asname}
        elif isinstance(n, ast.ImportFrom) and n.module == mod.rpartition(".")[0]:
            out |= {a.asname or a.name for a in n.names if a.name == mod.rpartition(".")[2]}
    return out


def dotted(n, imports):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name) or n.id not in imports:
        return None
    return ".".join([imports[n.id]] + parts[::-1])


def varies(d):
    for mod, attrs_ in SOURCES.items():
        if d == mod or d.startswith(mod + "."):
            rest = d[len(mod) + 1:]
            if attrs_ is None:
                return bool(rest) or True
            return bool(set(rest.split(".")) & attrs_)
    return False


def source_rule(t, m, par, imports, key, w, fn):
    bad = None
    for n in own(fn):
        what = None
        if isinstance(n, (ast.Attribute, ast.Name)) and not isinstance(par.get(n), ast.Attribute) and isinstance(n.ctx, ast.Load):
            d = dotted(n, imports)
            if d is not None and varies(d):
                what = d
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("id", "hash", "input") and n.func.id not in imports \
                and fn.name not in ("__hash__", "__eq__"):
            what = f"{n.func.id}()"
            if n.func.id == "hash" and n.args and isinstance(n.args[0], ast.Constant) and not isinstance(n.args[0].value, (str, bytes)):
                what = None
        if what is None or in_logging(n, par):
            continue
        if only_logged(fn, n, par):
            continue
        # an address that is only compared or looked up says no more than "is"
        if what == "id()" and identity_only(fn, n, par):
            continue
        bad = (f"{what} is not the same in every run", f"{m.rel}:{n.lineno}")
    t.add("sources", key, bad is None, bad[0] if bad else "", bad[1] if bad else w)


LOOKUPS = {"add", "discard", "remove", "get", "setdefault", "pop", "__contains__"}


def identity_only(fn, n, par, depth=0):
    """is this address only compared, or an element or key of a container that is asked for it?"""
    p = par.get(n)
    if isinstance(p, (ast.Tuple, ast.Starred)):
        return identity_only(fn, p, par, depth)
    if isinstance(p, ast.Compare):
        return all(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in p.ops)
    if isinstance(p, (ast.Set, ast.SetComp)) or isinstance(p, ast.DictComp) and n is p.key or isinstance(p, ast.Dict) and n in p.keys:
        return True
    if isinstance(p, ast.Subscript):
        return n is p.slice
    if isinstance(p, ast.GeneratorExp):
        g = par.get(p)
        return isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id in ("set", "frozenset")
    if isinstance(p, ast.ListComp):
        g = par.get(p)
        return isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id in ("set", "frozenset") or isinstance(g, ast.Compare)
    if isinstance(p, ast.Call):
        return isinstance(p.func, ast.Attribute) and p.func.attr in LOOKUPS and p.args[:1] == [n]
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and depth < 2:
        return all(identity_only(fn, k, par, depth + 1) for k in own(fn)
                   if isinstance(k, ast.Name) and k.id == p.targets[0].id and isinstance(k.ctx, ast.Load))
    return False


def only_logged(fn, n, par):
    """is the value only used in what is logged?"""
    st = n
    while st is not None and not isinstance(st, ast.stmt):
        st = par.get(st)
    if not isinstance(st, ast.Assign) or not all(isinstance(x, ast.Name) for x in st.targets):
        return False
    tainted, done = {x.id for x in st.targets}, set()
    while tainted - done:
        x = (tainted - done).pop()
        done.add(x)
        for k in own(fn):
            if isinstance(k, ast.Name) and k.id == x and isinstance(k.ctx, ast.Load) and not in_logging(k, par):
                s = k
                while s is not None and not isinstance(s, ast.stmt):
                    s = par.get(s)
                if isinstance(s, ast.Assign) and all(isinstance(y, ast.Name) for y in s.targets):
                    tainted |= {y.id for y in s.targets}
                else:
                    return False
    return True


# ------------------------------------------------------------------- order
def setty(fn, n, local):
    """is the expression a set?"""
    if isinstance(n, (ast.Set, ast.SetComp)):
        return True
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("set", "frozenset"):
        return True
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("union", "intersection", "difference", "symmetric_difference", "copy"):
        return setty(fn, n.func.value, local)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return setty(fn, n.left, local) or setty(fn, n.right, local)
    if isinstance(n, ast.Name):
        return n.id in local
    return False


def elements(n, local, seen=()):
    """expressions that become elements of a set"""
    if isinstance(n, ast.Set):
        return list(n.elts)
    if isinstance(n, ast.SetComp):
        return [n.elt]
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
        if not n.args:
            return []
        a = n.args[0]
        if isinstance(a, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return [a.elt]
        if isinstance(a, (ast.List, ast.Tuple, ast.Set)):
            return list(a.elts)
        return [a]
    if isinstance(n, ast.Call):
        return elements(n.func.value, local, seen)
    if isinstance(n, ast.BinOp):
        return elements(n.left, local, seen) + elements(n.right, local, seen)
    if isinstance(n, ast.Name) and n.id in local and n.id not in seen:
        return [e for v in local[n.id] for e in elements(v, local, seen + (n.id,))] + local.get("+" + n.id, [])
    return [n]


def numeric(n, fn, depth=0):
    """True: a number or a tuple of numbers; False: a string or object; None: not known"""
    if isinstance(n, ast.Constant):
        return isinstance(n.value, (int, float)) or n.value is None
    if isinstance(n, ast.Tuple):
        r = [numeric(x, fn, depth) for x in n.elts]
        return True if all(r) else (False if False in r else None)
    if isinstance(n, ast.Attribute):
        return True if n.attr in NUMERIC_ATTRS else None
    if isinstance(n, ast.UnaryOp):
        return numeric(n.operand, fn, depth)
    if isinstance(n, ast.BinOp):
        a, b = numeric(n.left, fn, depth), numeric(n.right, fn, depth)
        return True if a and b else None
    if isinstance(n, ast.Call):
        f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
        if f in NUMERIC_CALLS:
            return True
        if f in ("map", "filter", "tuple", "list", "sorted", "reversed", "iter", "zip") and n.args:
            return numeric(n.args[-1], fn, depth + 1)
        if f in ("str", "repr", "format", "join", "upper", "lower", "geomType", "__class__"):
            return False
        if f[:1].isupper():
            return False
        return None
    if isinstance(n, ast.JoinedStr):
        return False
    if isinstance(n, ast.Name) and depth < 4:
        for a in params(fn):
            if a.arg == n.id and a.annotation is not None:
                return annotation_numeric(a.annotation)
        got = []
        for x in own(fn):
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == n.id for y in x.targets):
                got.append(numeric(x.value, fn, depth + 1))
            elif isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and x.target.id == n.id:
                got.append(numeric(x.iter, fn, depth + 1))
        return True if got and all(got) else (False if False in got else None)
    if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
        return numeric(n.elt, fn, depth)
    if isinstance(n, (ast.List,)):
        r = [numeric(x, fn, depth) for x in n.elts]
        return True if r and all(r) else (False if False in r else None)
    return None


def annotation_numeric(a):
    s = ast.unparse(a)
    import re
    ws = set(re.findall(r"[A-Za-z_.]+", s)) - {"list", "List", "tuple", "Tuple", "Iterable", "Sequence", "None", "Optional", "Union", "set", "Set", "frozenset"}
    if ws and ws <= {"int", "float", "bool", "Point", "Path"}:
        return True
    if ws and any(x.startswith("cq.") or x in ("str", "PathFace", "MotionCommand", "Command", "AddressVector", "Vector", "Wire", "Edge", "Face") for x in ws):
        return False
    return None


def order_rule(t, m, par, key, fn):
    local = {}
    for _ in range(2):
        for n in own(fn):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and setty(fn, n.value, local):
                for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(x, ast.Name) and n.value not in local.setdefault(x.id, []):
                        local[x.id].append(n.value)
    for n in own(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "update") and isinstance(n.func.value, ast.Name) \
                and n.func.value.id in local and n.args:
            local.setdefault("+" + n.func.value.id, []).append(n.args[0])
    v, msg, w = True, "", f"{m.rel}:{fn.lineno}"
    for n in own(fn):
        if not isinstance(n, ast.expr) or not setty(fn, n, {k: x for k, x in local.items() if k[0] != "+"}):
            continue
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            continue
        p = par.get(n)
        use = None
        if isinstance(p, ast.For) and p.iter is n:
            use = "a loop"
        elif isinstance(p, ast.comprehension) and p.iter is n:
            g = par.get(p)
            if isinstance(g, (ast.SetComp, ast.DictComp)):
                use = None if isinstance(g, ast.SetComp) else "a dictionary"
            else:
                gp = par.get(g)
                if isinstance(gp, ast.Call) and isinstance(gp.func, (ast.Name, ast.Attribute)) and (
                        gp.func.id if isinstance(gp.func, ast.Name) else gp.func.attr) in ORDERLESS:
                    use = None
                else:
                    use = "a comprehension"
        elif isinstance(p, ast.Starred):
            use = "an argument list"
        elif isinstance(p, ast.Call) and n in p.args:
            f = p.func.id if isinstance(p.func, ast.Name) else p.func.attr if isinstance(p.func, ast.Attribute) else ""
            if f in ("list", "tuple", "enumerate", "iter", "zip", "map", "filter", "reversed", "chain", "join", "extend", "reduce", "accumulate", "array"):
                gp = par.get(p)
                gf = (gp.func.id if isinstance(gp.func, ast.Name) else getattr(gp.func, "attr", "")) if isinstance(gp, ast.Call) else ""
                use = None if gf in ORDERLESS else f"{f}()"
        elif isinstance(p, ast.Attribute) and p.attr == "pop" and isinstance(par.get(p), ast.Call):
            use = "pop()"
        elif isinstance(p, ast.AugAssign) and p.value is n and isinstance(p.op, ast.Add):
            use = "a list"
        if use is None:
            continue
        els = elements(n, local)
        r = [numeric(e, fn) for e in els]
        if els and all(r):
            continue
        if single(fn, n, par):
            continue
        loose = False if False in r else None
        if v is True or (v is None and loose is False):
            v, msg, w = loose, f"{use} takes the elements of a set of " + (ast.unparse(els[0])[:50] if els else "?") + \
                " in an order that differs between runs", f"{m.rel}:{n.lineno}"
    t.add("order", key, v, msg, w)


def single(fn, n, par):
    """is the set known to have one element (its length is tested)?"""
    if not isinstance(n, ast.Name):
        return False
    return any(isinstance(x, ast.Compare) and isinstance(x.left, ast.Call) and isinstance(x.left.func, ast.Name) and x.left.func.id == "len"
               and x.left.args and isinstance(x.left.args[0], ast.Name) and x.left.args[0].id == n.id and
               any(isinstance(k, ast.Constant) and k.value in (1, 2) for k in x.comparators) for x in own(fn))


# ------------------------------------------------------------------ caches
def attribute_stores(mods):
    """attribute name -> places where it is set or changed in place outside of constructors"""
    out = {}
    for m in mods:
        par = parents(m.tree)
        for q, fn, cls in functions(m.tree):
            for n in own(fn):
                if not isinstance(n, ast.Attribute):
                    continue
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    if fn.name in ("__init__", "__post_init__", "__new__") and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
                        continue
                    out.setdefault(n.attr, []).append((q, f"{m.rel}:{n.lineno}", cls, n))
                elif Use(n, par).write:
                    out.setdefault(n.attr, []).append((q, f"{m.rel}:{n.lineno}", cls, n))
    return out


def cached_rule(t, m, par, key, w, fn, cls, glob, stores, mods):
    decs = [d.func if isinstance(d, ast.Call) else d for d in fn.decorator_list]
    dn = {d.id if isinstance(d, ast.Name) else d.attr for d in decs if isinstance(d, (ast.Name, ast.Attribute))}
    if not dn & (CACHES | {"cached_property"}):
        return
    bad, und = None, None
    self_name = params(fn)[0].arg if params(fn) and cls is not None and "staticmethod" not in dn else None
    if self_name:
        reads = {n.attr for n in own(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == self_name}
        for a in sorted(reads):
            for q, where, k, n in stores.get(a, []):
                other = owner(n, k, q, mods)
                if other is not None and other != cls.name:
                    continue
                if other is None:
                    und = und or f"{a} is set by {q} at {where}, perhaps of another class"
                else:
                    bad = bad or (f"it is kept although {a}, which it is computed from, is changed by {q}", where)
    else:
        for a in params(fn):
            if a.annotation is not None and annotation_numeric(a.annotation) is False and dn & CACHES and "str" not in ast.unparse(a.annotation):
                bad = bad or (f"results are kept for objects ({a.arg}: {ast.unparse(a.annotation)}), which may change after the first call", w)
    for n in own(fn):
        if isinstance(n, ast.Name) and n.id in glob and not shadowed(fn, n.id):
            und = und or f"it reads {n.id}"
    if dn & CACHES:
        for n in own(fn):
            if isinstance(n, ast.Return) and n.value is not None and returns_container(n.value, fn):
                users = changed_results(fn.name, mods)
                if users:
                    bad = bad or (f"its kept result is changed by {users[0][0]}", users[0][1])
    t.add("cached", key, False if bad else (None if und else True), bad[0] if bad else und or "", bad[1] if bad else w)


def owner(n, k, q, mods):
    """name of the class whose attribute this is, when that is evident"""
    v = n.value
    if isinstance(v, ast.Name) and v.id in ("self", "cls") and k is not None:
        return k.name
    if isinstance(v, ast.Name):
        for m in mods:
            for qq, fn, _ in functions(m.tree):
                if qq == q and any(x is n for x in own(fn)):
                    for a in params(fn):
                        if a.arg == v.id and a.annotation is not None:
                            s = ast.unparse(a.annotation).strip("'\"")
                            return s.split("[")[-1].rstrip("]").strip("'\"").split(" |")[0]
                    for x in own(fn):
                        if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == v.id for y in x.targets):
                            c = x.value
                            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id[:1].isupper():
                                return c.func.id
                            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "copy":
                                return None
                        # an element of a parameter's list
                        if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and x.target.id == v.id and isinstance(x.iter, ast.Name):
                            for a in params(fn):
                                if a.arg == x.iter.id and a.annotation is not None:
                                    return ast.unparse(a.annotation).strip("'\"").split("[")[-1].rstrip("]").strip("'\"")
    return None


def returns_container(v, fn, depth=0):
    if is_container(v):
        return True
    if isinstance(v, ast.BinOp):
        return returns_container(v.left, fn, depth) or returns_container(v.right, fn, depth)
    if isinstance(v, ast.Name) and depth < 2:
        return any(isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == v.id for y in x.targets) and
                   returns_container(x.value, fn, depth + 1) for x in own(fn))
    return False


def changed_results(name, mods):
    """functions that change in place what a call of this function gave them"""
    out = []
    for m in mods:
        par = parents(m.tree)
        for q, fn, _ in functions(m.tree):
            got = {x.targets[0].id for x in own(fn) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)
                   and isinstance(x.value, ast.Call) and getattr(x.value.func, "id", getattr(x.value.func, "attr", None)) == name}
            for n in own(fn):
                if isinstance(n, ast.Name) and n.id in got:
                    aug = isinstance(n.ctx, ast.Store) and isinstance(par.get(n), ast.AugAssign)
                    if aug or (isinstance(n.ctx, ast.Load) and Use(n, par).write):
                        out.append((q, f"{m.rel}:{n.lineno}"))
                if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", None)) == name:
                    p = par.get(n)
                    if isinstance(p, ast.Attribute) and p.attr in MUT and isinstance(par.get(p), ast.Call):
                        out.append((q, f"{m.rel}:{n.lineno}"))
    return out
