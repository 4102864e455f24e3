"""Abstract interpreter over the syntax trees of cq_cam.

For each public entry point it computes an over-approximation of what the code
does for *every* input of that entry: values are provenance terms, loops are
solved by fixpoint iteration, sequences are kept as small regular expressions
("segments") whose repetitions are indexed by a loop counter, and branches which
cannot be decided from the terms are both taken.  Nothing of the analysed
program is imported or run.
"""
import ast
import builtins as _b
import itertools
import sys

from . import models
from .loader import AnalysisBroken, Cls, Liveness, Program
from .terms import *  # noqa
from .terms import T, mk, C, NONE, TRUE, FALSE, ZERO, TOP, LGG_LOG

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ values
class FnObj:
    _tab = {}

    def __new__(cls, node, module, owner=None, parent=None):
        k = (node, module, owner, parent)
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.node, o.module, o.owner, o.parent = node, module, owner, parent
            o.name = getattr(node, "name", "<lambda>")
            cls._tab[k] = o
        return o

    def __repr__(self):
        return f"fn:{self.name}"


class Inst:
    __slots__ = ("cls", "attrs", "site")

    def __init__(self, cls, attrs, site):
        self.cls, self.attrs, self.site = cls, attrs, site

    def set(self, name, v):
        a = dict(self.attrs)
        a[name] = v
        return Inst(self.cls, a, self.site)

    def __eq__(self, o):
        return isinstance(o, Inst) and self.cls is o.cls and self.attrs == o.attrs

    __hash__ = None


class Lst:
    """kind: list | set | dict | ext ; segs: segments ; extra: constructor / default factory"""
    __slots__ = ("kind", "segs", "extra")

    def __init__(self, kind, segs, extra=NONE):
        self.kind, self.segs, self.extra = kind, tuple(segs), extra

    def with_(self, segs):
        return Lst(self.kind, segs, self.extra)

    def __eq__(self, o):
        return isinstance(o, Lst) and self.kind == o.kind and self.segs == o.segs and self.extra is o.extra

    __hash__ = None


def E(v):
    return mk("e", v)


def ref(i):
    return mk("ref", i)


class State:
    __slots__ = ("frames", "heap", "facts", "types", "made", "log")

    def __init__(self):
        self.frames, self.heap, self.facts, self.types = {}, {}, {}, {}
        self.made = frozenset()
        self.log = ()

    def fork(self):
        s = State()
        s.frames, s.heap = dict(self.frames), dict(self.heap)
        s.facts, s.types, s.made = dict(self.facts), dict(self.types), self.made
        s.log = self.log
        return s

    def get(self, fid, name):
        return self.frames[fid].get(name)

    def set(self, fid, name, v):
        d = dict(self.frames[fid])
        d[name] = v
        self.frames[fid] = d

    def unset(self, fid, names):
        old = self.frames[fid]
        if any(n in old for n in names):
            self.frames[fid] = {k: v for k, v in old.items() if k not in names}

    def same(self, o):
        return self.frames == o.frames and self.heap == o.heap and self.log == o.log


class Fr:
    """Activation record of an inlined function (shared by its path states)."""
    __slots__ = ("fid", "module", "fn", "ctx", "returns", "loops", "gen", "parents", "live", "cls")

    def __init__(self, fid, module, fn, ctx, parents, live):
        self.fid, self.module, self.fn, self.ctx = fid, module, fn, ctx
        self.parents, self.live = parents, live
        self.returns, self.loops, self.gen = [], [], None
        self.cls = None


class Cut(Exception):
    """path abandoned"""


MAX_DEPTH = 60
MAX_STATES = 160
MAX_ENDS = 16


def undecided_direction(a, b):
    """do two states differ in an orientation which, with a normal's sign, still decides a direction?"""
    for k, v in a.items():
        if k.op == "eq":
            for x in k.args:
                if x.op == "app" and x.args[0] == ".Orientation" and b.get(k, v) is not v:
                    e = x.args[1]
                    c = mk("cw", e)
                    if c in a and c in b:
                        continue
                    n = attr(app(".normal", e), "z")
                    for p in (mk("pos", n), mk("pos", neg(n))):
                        if p in a or p in b:
                            return True
    return False


def joined_facts(a, b):
    """facts common to two states; a direction known differently in both is known not to be decided"""
    out = {k: v for k, v in a.items() if b.get(k) == v}
    for k, v in a.items():
        if k.op == "cw":
            w = b.get(k)
            if (w is not None and w is not v) or b.get(mk("cwmixed", k.args[0])):
                out[mk("cwmixed", k.args[0])] = True
        elif k.op == "cwmixed" and mk("cw", k.args[0]) in b:
            out[k] = True
        elif v and (k.op == "kindin" or (k.op == "eq" and k not in out and kind_fact(k))):
            # an edge of one type in one state and of another type in the other
            e = k.args[0] if k.op == "kindin" else kind_fact(k)[0]
            x, y = kinds_of(a, e), kinds_of(b, e)
            if x and y and x != y:
                out[mk("kindin", e, tuple(sorted(x | y)))] = True
    return out


def kind_fact(p):
    """(edge, type) of the fact that an edge is of a type"""
    if p.op == "eq":
        for x, y in (p.args, p.args[::-1]):
            if x.op == "app" and x.args[0] == ".geomType" and y.op == "c":
                return x.args[1], y.args[0]
    return None


def kinds_of(facts, e):
    """the types an edge is known to be one of, or None"""
    out = None
    for p, v in facts.items():
        if v:
            if p.op == "kindin" and p.args[0] is e:
                out = set(p.args[1]) if out is None else out & set(p.args[1])
            k = kind_fact(p)
            if k is not None and k[0] is e:
                return {k[1]}
    return out

MAX_ROUNDS = 14


class Interp:
    def __init__(self, prog=None, hooks=()):
        self.prog = prog or Program()
        self.hooks = list(hooks)
        self.ext_ok = False         # external calls succeed
        self.length = None          # lengths of inputs a rule fixes: term -> int|None
        self.idtab = {}
        self.unroll = 0             # iterations of a while loop that are followed one by one
        self.given_ext = None       # the same for external functions: (I, st, name, args, kw, F, node)
        self.given_call = None      # the same for inputs that are called: (I, st, value, args, kw, F, node)
        self.given = None           # results of external methods a rule fixes: (I, st, name, recv, args, kw, F, node) -> [(st, value)]
        self.known = None           # attributes of inputs a rule fixes: (input, attribute) -> term
        self.orient = None          # orientation of a clipper path: path term -> term
        self.same = None  # decides the equality of two input terms, if set
        self.bbox = None            # bounding boxes a rule fixes: (shape, attribute) -> term
        self.cls_cache = {}
        self.live_cache = {}
        self.handlers = [[]]        # innermost list receives (state, exc)
        self.trytypes = [()]
        self.active = []            # FnObj nodes being inlined
        self.ctx_tab = {}
        self.unknown = {}           # construct -> count of imprecise treatments
        self.stats = {"calls": 0, "forks": 0, "loops": 0, "fixpoint_rounds": 0, "functions": set(),
                      "call_sites": set(), "cut_recursion": 0}
        self.deepest = {}            # function -> how often it was active at the same time
        self.tracked = ()
        self.stack = []             # (fn name, node)
        self.mod_ns = {}
        self.cur_frame = self.cur_node = None
        self.summaries, self.sum_active, self.sum_ok = {}, set(), {}
        self.summaries_on = True
        self._trails = {}
        self.use_class_models = True
        self.zcache = {}
        self.inst_memo = {}
        self.cuts = {}              # (module, qualified name) -> handler(I, st, {arg: value}, F, node)
        self.cut_log = []           # calls which met a cut

    # ---------------------------------------------------------------- misc
    def note(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    def emit(self, ev, *a, **k):
        for h in self.hooks:
            f = getattr(h, ev, None)
            if f:
                f(*a, **k)

    def where(self, F, node):
        line = getattr(node, "lineno", 0)
        return (F.module.rel, line, F.fn.name if F.fn else "<module>")

    def ctxid(self, F, node):
        k = (F.ctx, F.module.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        return self.ctx_tab.setdefault(k, len(self.ctx_tab) + 1)

    def site(self, F, node):
        return (F.module.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
                F.ctx)

    def alloc(self, st, obj, site):
        n = 0
        while (site, n) in st.heap:
            n += 1
        st.heap[(site, n)] = obj
        return ref((site, n))

    def new_list(self, st, segs, F, node, kind="list", extra=NONE):
        return self.alloc(st, Lst(kind, segs, extra), (self.site(F, node), kind))

    # values under evaluation are rooted in the frame so that gc keeps them
    def hold(self, st, F, key, v):
        if v.op == "ref" or has_ref(v):
            st.set(F.fid, key, v)
            return True
        return False

    def drop(self, st, F, keys):
        st.unset(F.fid, keys)

    def deref(self, st, v):
        if v.op == "ref":
            return st.heap.get(v.args[0])
        return None

    # ------------------------------------------------------------- name lookup
    def class_of(self, module, node):
        k = (module.name, node)
        c = self.cls_cache.get(k)
        if c is None:
            c = Cls(node.name, module, node)
            self.cls_cache[k] = c
            F = self.modF(module)
            c.bases = []
            st = State()
            st.frames[F.fid] = {}
            for b in node.bases:
                try:
                    r = self.ev(b, st, F)
                    c.bases.append(r[0][1] if r else TOP)
                except Cut:
                    c.bases.append(TOP)
            c.decos = []
            for d in node.decorator_list:
                f = d.func if isinstance(d, ast.Call) else d
                r = self.ev(f, st, F)
                c.decos.append(r[0][1] if r else TOP)
            c.mro = self.mro(c)
            c.is_enum = any(b.op == "ext" and b.args[0].startswith("enum.") for x in c.mro for b in x.bases)
            c.is_dc = any(any(d.op == "ext" and d.args[0] == "dataclasses.dataclass" for d in x.decos) for x in c.mro)
        return c

    def mro(self, c):
        out = [c]
        seqs = []
        for b in c.bases:
            if b.op == "cls":
                seqs.append(self.mro(b.args[0]))
        # simple merge: keep last occurrence order (C3-like for linear hierarchies)
        merged = []
        for s in seqs:
            for x in s:
                if x in merged:
                    merged.remove(x)
                merged.append(x)
        return out + merged

    def modF(self, module):
        F = Fr(("mod", module.name), module, None, 0, (), None)
        return F

    def mod_lookup(self, st, module, name, seen=()):
        g = st.frames.get(("glob", module.name))
        if g and name in g:
            return g[name]
        binds = module.names.get(name)
        if not binds:
            for base in module.star:
                if base in self.prog.modules and base not in seen:
                    v = self.mod_lookup(st, self.prog.modules[base], name, seen + (module.name,))
                    if v is not None:
                        return v
            sub = module.name + "." + name
            if sub in self.prog.modules:
                return mk("mod", sub)
            return None
        b = binds[-1]
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return self.decorate(st, mk("fn", FnObj(b, module), NONE), b, self.modF(module))
        if isinstance(b, ast.ClassDef):
            sub = models.CLASS_MODELS.get((module.name, name))
            if sub is not None and self.use_class_models and sub[1] <= {
                    x.name for x in b.body if isinstance(x, ast.FunctionDef)}:
                return self.mod_lookup(st, self.prog.modules[models.LIB], sub[0])
            return mk("cls", self.class_of(module, b))
        if b[0] == "import":
            return self.import_mod(b[1])
        if b[0] == "from":
            return self.import_from(st, b[1], b[2])
        if b[0] in ("assign", "unpack"):
            F = self.modF(module)
            if ("mod", module.name) not in st.frames:
                st.frames[("mod", module.name)] = {}
            key = ("busy", module.name, name)
            if key in self.mod_ns:
                return TOP
            self.mod_ns[key] = 1
            try:
                r = self.ev(b[1], st, F)
            finally:
                del self.mod_ns[key]
            if not r:
                return TOP
            st2, v = r[0]
            if st2 is not st:
                st.frames, st.heap, st.facts, st.types = st2.frames, st2.heap, st2.facts, st2.types
            if b[0] == "unpack":
                v = idx(v, C(b[2]))
            if v.op == "ref" or v.op in ("app",):
                g = dict(st.frames.get(("glob", module.name), {}))
                g[name] = v
                st.frames[("glob", module.name)] = g
            return v
        return TOP

    def import_mod(self, name):
        if name in self.prog.modules:
            return mk("mod", name)
        return mk("ext", models.norm_ext(name))

    def import_from(self, st, base, name):
        if base in self.prog.modules:
            v = self.mod_lookup(st, self.prog.modules[base], name)
            if v is not None:
                return v
            if base + "." + name in self.prog.modules:
                return mk("mod", base + "." + name)
            return mk("ext", base + "." + name)
        return mk("ext", models.norm_ext(base + "." + name))

    def lookup(self, st, F, name):
        for fid in (F.fid,) + F.parents:
            d = st.frames.get(fid)
            if d is not None and name in d:
                return d[name]
        v = self.mod_lookup(st, F.module, name)
        if v is not None:
            return v
        if name in ("_prim", "_any"):
            return mk("ext", name)
        if hasattr(_b, name):
            return mk("ext", "builtins." + name)
        return None

    # ------------------------------------------------------------- truth
    def fact(self, st, prop):
        if prop.op == "not":
            r = self.fact(st, prop.args[0])
            return None if r is None else (not r)
        if prop in st.facts:
            return st.facts[prop]
        if prop.op == "pos":
            d = prop.args[0]
            if is_num_const(d):
                return cval(d) > 0
            n = neg(d)
            if st.facts.get(mk("pos", n)):
                return False
            if st.facts.get(self.zero(d)) is True:
                return False
            s = self.sign(st, d)
            if s == "+":
                return True
            if s in ("-", "0-"):
                return False
            # compare with known facts having the same linear part
            c, rest = poly_const(d)
            for p, val in st.facts.items():
                if p.op == "pos":
                    c2, r2 = poly_const(p.args[0])
                    if r2 is rest and c is not None and c2 is not None:
                        if val and c >= c2:
                            return True
                        if not val and c <= c2:
                            return False
                    elif c is not None and c2 is not None and val:
                        if r2 is neg(rest) and -c2 >= c:
                            # rest < c2 known  =>  rest + c ... (-rest + c2 > 0) and c <= -c2
                            return False
            return None
        if prop.op == "zero":
            d = prop.args[0]
            if is_num_const(d):
                return cval(d) == 0
            if st.facts.get(mk("pos", d)) or st.facts.get(mk("pos", neg(d))):
                return False
            if self.sign(st, d) in ("+", "-"):
                return False
            return None
        return None

    def sign(self, st, d):
        p = as_poly(d)
        if p is None:
            return None
        pos = neg_ = False
        strict = False
        for m, c in p.items():
            s = 1
            st_ = True
            for a, e in m:
                if e % 2 == 0:
                    st_ = st_ and self.atom_sign(st, a) == "+"
                    continue
                asg = self.atom_sign(st, a)
                if asg is None:
                    return None
                if asg == "0+":
                    st_ = False
            if c > 0:
                pos = True
            else:
                neg_ = True
            if st_:
                strict = True
        if pos and neg_:
            return None
        if pos:
            return "+" if strict else "0+"
        return "-" if strict else "0-"

    def atom_sign(self, st, a):
        if a.op in ("k", "kend"):
            return "0+"
        if a.op == "in" and models.POSITIVE.get(a.args[0]):
            return "+"
        if a.op == "app" and a.args[0] in ("len", "math.sqrt", "abs", ".Length", ".Area"):
            return "0+"
        if st is not None and st.facts.get(mk("pos", a)):
            return "+"
        return None

    zero = staticmethod(zero_prop)

    def assume(self, st, prop, val):
        """-> new state or None when contradictory"""
        while prop.op == "not":
            prop, val = prop.args[0], not val
        k = self.fact(st, prop)
        if k is not None:
            return st if k == val else None
        s = st.fork()
        s.facts[prop] = val
        if prop.op == "isinst":
            models.narrow(self, s, prop.args[0], prop.args[1], val)
        models.derive(s, prop, val)
        if prop.op == "isnone" and val:
            self.replace_all(s, {prop.args[0]: NONE})
        if prop.op == "and" and val:
            for p in prop.args:
                s = self.assume(s, p, True)
                if s is None:
                    return None
        return s

    def replace_all(self, s, m):
        memo = {}
        m = dict(m)
        if any(k.op not in ("in", "k", "phi", "kend", "ref") for k in m):
            f = lambda t: replace_term(t, m, memo)
        else:
            f = lambda t: subst(t, m, memo)
        s.frames = {fid: {n: f(v) for n, v in d.items()} for fid, d in s.frames.items()}
        for i, o in list(s.heap.items()):
            if isinstance(o, Inst):
                s.heap[i] = Inst(o.cls, {n: f(v) for n, v in o.attrs.items()}, o.site)
            else:
                s.heap[i] = Lst(o.kind, tuple(f(x) for x in o.segs), f(o.extra))

    def isnone(self, st, v):
        """True/False/prop"""
        if v is NONE:
            return True
        if v.op in ("c", "ref", "obj", "lst", "tup", "fn", "cls", "ext", "mod", "enum", "str", "poly", "k", "kend"):
            return False
        if models.nullable(self, st, v):
            p = mk("isnone", v)
            f = self.fact(st, p)
            return p if f is None else f
        return False

    def truth(self, st, v):
        """True / False / prop (T)"""
        if v.op == "c":
            return bool(cval(v))
        if v.op in ("prop",):
            p = v.args[0]
            f = self.fact(st, p)
            return p if f is None else f
        if v.op in ("fn", "cls", "ext", "mod", "enum"):
            return True
        if v.op == "ref":
            o = self.deref(st, v)
            if isinstance(o, Lst) and o.kind != "ext":
                return self.segs_truth(st, o.segs)
            return True
        if v.op == "obj":
            return True
        if v.op == "lst":
            return self.segs_truth(st, v.args[0])
        if v.op == "tup":
            return len(v.args) > 0
        if v.op == "str":
            if any(x.op == "c" and cval(x) for x in v.args):
                return True
            if len(v.args) == 1:
                return self._p(st, mk("truthy", v.args[0]))
            return self._p(st, mk("truthy", v))
        n = self.isnone(st, v)
        if n is True:
            return False
        ty = models.ty(self, st, v)
        if ty in models.ALWAYS_TRUE:
            if n is not False:
                return mk("not", n)
            return True
        if ty in ("float", "int", "num") or v.op == "poly":
            z = self._p(st, self.zero(v))
            if z is False:
                return True if n is False else mk("not", n)
            if n is not False:
                # nullable number: truthy <=> not none and not zero
                return self._p(st, mk("truthy", v))
            return (not z) if isinstance(z, bool) else mk("not", z)
        return self._p(st, mk("truthy", v))

    def _p(self, st, p):
        f = self.fact(st, p)
        return p if f is None else f

    def segs_truth(self, st, segs):
        props = []
        for s in segs:
            if s.op == "e":
                return True
            if s.op == "many":
                if all(a[0] for a in s.args[2]):
                    if any(x.op in ("e",) for a in s.args[2] for x in a[0]) and all(
                            any(x.op == "e" for x in a[0]) for a in s.args[2]):
                        return True
                props.append(mk("nonempty", s))
            elif s.op == "alt":
                rs = [self.segs_truth(st, a) for a, _ in s.args[0]]
                if all(r is True for r in rs):
                    return True
                if not all(r is False for r in rs):
                    props.append(mk("nonempty", s))
            elif s.op == "spread":
                x = s.args[0]
                while x.op == "app" and x.args[0] in ("enumerate", "reversed", "list", "tuple", "iter", "sorted", "unordered"):
                    x = x.args[1]
                if x.op == "lst":
                    r = self.segs_truth(st, x.args[0])
                    if r is True:
                        return True
                    if r is not False:
                        props.append(r)
                    continue
                if models.nonempty_type(self, st, x):
                    return True
                f = self.fact(st, mk("truthy", x))
                if f is None:
                    f = self.fact(st, mk("pos", app("len", x)))
                if f is True:
                    return True
                if f is False:
                    continue
                props.append(mk("truthy", x))
            else:
                props.append(mk("nonempty", s))
        if not props:
            return False
        if len(props) == 1:
            return self._p(st, props[0])
        return self._p(st, mk("anyof", *props))

    def branch(self, st, v):
        """-> [(state, bool)]"""
        t = self.truth(st, v)
        if isinstance(t, bool):
            return [(st, t)]
        self.stats["forks"] += 1
        out = []
        a = self.assume(st, t, True)
        if a is not None:
            self.refine_truthy(a, v, True)
            out.append((a, True))
        b = self.assume(st, t, False)
        if b is not None:
            self.refine_truthy(b, v, False)
            out.append((b, False))
        return out

    def refine_truthy(self, st, v, val):
        if val and v.op not in ("c", "poly", "prop", "ref") and models.nullable(self, st, v):
            st.facts[mk("isnone", v)] = False

    # ------------------------------------------------------------- raising
    def throw(self, st, exc, F, node):
        self.emit("on_raise", self, st, exc, F, node)
        self.handlers[-1].append((st, exc))

    def may_raise(self, st, callee, F, node):
        """external call inside a try: the handled exceptions may occur"""
        if self.ext_ok:
            return
        for ty in self.trytypes[-1]:
            if models.can_raise(callee, ty):
                s = st.fork()
                s.facts = dict(s.facts)
                s.facts[mk("raised", ty, self.ctxid(F, node))] = True
                self.handlers[-1].append((s, mk("exc", ty)))

    # ------------------------------------------------------------- statements
    def exec_block(self, body, states, F):
        for stmt in body:
            if not states:
                return []
            nxt = []
            for st in states:
                nxt.extend(self.exec(stmt, st, F))
            if len(nxt) > 1:
                nxt = self.tidy(nxt, F, stmt)
            states = nxt
        return states

    def tidy(self, states, F, stmt=None):
        if stmt is not None and F.live is not None and isinstance(
                stmt, (ast.If, ast.For, ast.While, ast.Try, ast.Match, ast.With)):
            live = F.live.after.get(stmt)
            if live is not None:
                for st in states:
                    d = st.frames[F.fid]
                    dead = [n for n in d if n not in live and n not in F.live.always
                            and not n.startswith("$")]
                    st.unset(F.fid, dead)
        return self.dedupe(states)

    def dedupe(self, states):
        if len(states) < 2:
            return states
        out = []
        for st in states:
            self.gc(st)
            for i, o in enumerate(out):
                m = self.merge(o, st)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(st)
        if len(out) > MAX_STATES:
            self.note("state cap")
            out = self.force_merge(out)
        return out

    # merging of states which agree up to equalities known in one of them;
    # lists which differ only in what was appended become alternatives
    def eqmod(self, st, x, y):
        if x is y:
            return True
        if x is NONE:
            return st.facts.get(mk("isnone", y)) is True
        if y is NONE:
            return st.facts.get(mk("isnone", x)) is True
        if is_scalar(x) and is_scalar(y):
            z = self.zcache.get((x, y))
            if z is None:
                z = self.zcache[(x, y)] = self.zero(sub(x, y))
            if st.facts.get(z) is True:
                return True
        if st.facts.get(models.eqp(x, y)) is True:
            return True
        return False

    def mval(self, a, b, x, y, d=0):
        if x is y:
            return x
        if x.op == "ref" and y.op == "ref":
            ox, oy = a.heap.get(x.args[0]), b.heap.get(y.args[0])
            if isinstance(ox, Inst) and isinstance(oy, Inst) and ox.cls is oy.cls and models.value_class(ox.cls):
                return self.mval(a, b, self.freeze(a, x), self.freeze(b, y), d + 1)
            return None
        if x.op == "ref" and y.op == "obj":
            ox = a.heap.get(x.args[0])
            if isinstance(ox, Inst) and models.value_class(ox.cls):
                return self.mval(a, b, self.freeze(a, x), y, d + 1)
            return None
        if y.op == "ref" and x.op == "obj":
            oy = b.heap.get(y.args[0])
            if isinstance(oy, Inst) and models.value_class(oy.cls):
                return self.mval(a, b, x, self.freeze(b, y), d + 1)
            return None
        if x.op == "ref" or y.op == "ref":
            return None
        if self.eqmod(a, x, y):
            return y
        if self.eqmod(b, x, y):
            return x
        if d > 8 or x.op != y.op:
            return None
        if x.op == "obj":
            if x.args[0] is not y.args[0] or x.args[2:] != y.args[2:] or len(x.args[1]) != len(y.args[1]):
                return None
            at = []
            for (n1, v1), (n2, v2) in zip(x.args[1], y.args[1]):
                if n1 != n2:
                    return None
                v = self.mval(a, b, v1, v2, d + 1)
                if v is None:
                    return None
                at.append((n1, v))
            return mk("obj", x.args[0], tuple(at), *x.args[2:])
        if x.op in ("tup", "app") and len(x.args) == len(y.args):
            new = []
            for v1, v2 in zip(x.args, y.args):
                if not isinstance(v1, T) or not isinstance(v2, T):
                    if v1 != v2:
                        return None
                    new.append(v1)
                    continue
                v = self.mval(a, b, v1, v2, d + 1)
                if v is None:
                    return None
                new.append(v)
            return tup(new) if x.op == "tup" else app(*new)
        return None

    def mlist(self, a, b, x, y, ga, gb):
        if x.kind != y.kind or x.extra is not y.extra or x.kind in ("ext", "dict"):
            return None
        fa = [self.freeze(a, s) for s in x.segs]
        fb = [self.freeze(b, s) for s in y.segs]
        out = []
        i = 0
        while i < len(fa) and i < len(fb):
            if fa[i] is fb[i]:
                out.append(x.segs[i] if x.segs[i] is y.segs[i] else fa[i])
            elif fa[i].op == "e" and fb[i].op == "e":
                v = self.mval(a, b, fa[i].args[0], fb[i].args[0])
                if v is None:
                    break
                out.append(E(v))
            elif fa[i].op == "spread" and fb[i].op == "spread" and (
                    self.eqmod(a, fa[i].args[0], fb[i].args[0]) or self.eqmod(b, fa[i].args[0], fb[i].args[0])):
                out.append(fa[i] if self.eqmod(b, fa[i].args[0], fb[i].args[0]) else fb[i])
            else:
                break
            i += 1
        ra, rb = tuple(fa[i:]), tuple(fb[i:])
        if not ra and not rb:
            return x.with_(tuple(out))
        for p_, q_, sp in ((ra, rb, a), (rb, ra, b)):
            if not p_ and len(q_) == 1:
                if q_[0].op == "many":
                    return x.with_(tuple(out) + q_)
                if q_[0].op == "spread" and (sp.facts.get(mk("truthy", q_[0].args[0])) is False
                                             or sp.facts.get(mk("pos", app("len", q_[0].args[0]))) is False):
                    return x.with_(tuple(out) + q_)
        if len(ra) == 1 and len(rb) == 1 and ra[0].op == rb[0].op == "many" and ra[0].args[0] == rb[0].args[0] and (
                ra[0].args[1] is rb[0].args[1]):
            f, r = ra[0].args[2], ra[0].args[3]
            for z in sorted_alts(rb[0].args[2]):
                f = alts_add(f, z, ra[0].args[0], "f")
            for z in sorted_alts(rb[0].args[3]):
                r = alts_add(r, z, ra[0].args[0], "r")
            return x.with_(tuple(out) + (mk("many", ra[0].args[0], ra[0].args[1], f, r),))
        alts = {}
        for r, g in ((ra, ga), (rb, gb)):
            items = r[0].args[0] if len(r) == 1 and r[0].op == "alt" else ((r, g),)
            for sg, gg in items:
                if len(r) == 1 and r[0].op == "alt":
                    gg = gg | g
                alts[sg] = (alts[sg] & gg) if sg in alts else frozenset(gg)
        if len(alts) > 14:
            return None
        if len(alts) == 1:
            return x.with_(tuple(out) + next(iter(alts)))
        return x.with_(tuple(out) + (mk("alt", frozenset(alts.items())),))

    def merge(self, a, b):
        if a.log != b.log or a.frames.keys() != b.frames.keys():
            return None
        diffs = []
        for fid, d in a.frames.items():
            e = b.frames[fid]
            if d is e:
                continue
            if d.keys() != e.keys():
                return None
            for n, x in d.items():
                y = e[n]
                if x is not y:
                    if x.op != y.op and not (x is NONE or y is NONE or is_scalar(x) or {x.op, y.op} == {"ref", "obj"}):
                        return None
                    diffs.append((fid, n, x, y))
        if len(diffs) > 12:
            return None
        if undecided_direction(a.facts, b.facts):
            return None
        nv = []
        for fid, n, x, y in diffs:
            v = self.mval(a, b, x, y)
            if v is None:
                return None
            nv.append((fid, n, v))
        same_heap = a.heap == b.heap
        s = State()
        s.log, s.made = a.log, a.made | b.made
        s.facts = joined_facts(a.facts, b.facts)
        s.types = {k: v for k, v in a.types.items() if b.types.get(k) == v}
        s.frames = dict(a.frames)
        for fid, n, v in nv:
            s.set(fid, n, v)
        if same_heap:
            s.heap = dict(a.heap)
            return s
        bad = set()
        ga = gb = None
        heap = dict(b.heap)
        for i, x in a.heap.items():
            y = b.heap.get(i)
            if y is None:
                heap[i] = x
                continue
            if isinstance(x, Lst) and isinstance(y, Lst):
                if x == y and not any(a_.op == "ref" for sg in x.segs for a_ in atoms(sg)):
                    continue
                if ga is None:
                    ga = frozenset((k, v) for k, v in a.facts.items() if k not in s.facts)
                    gb = frozenset((k, v) for k, v in b.facts.items() if k not in s.facts)
                m = self.mlist(a, b, x, y, ga, gb)
                if m is None:
                    bad.add(i)
                else:
                    heap[i] = m
                continue
            if x == y:
                continue
            if isinstance(x, Inst) and isinstance(y, Inst) and x.cls is y.cls and x.attrs.keys() == y.attrs.keys():
                at = {}
                for n, v1 in x.attrs.items():
                    v = self.mval(a, b, v1, y.attrs[n])
                    if v is None:
                        bad.add(i)
                        break
                    at[n] = v
                else:
                    heap[i] = Inst(x.cls, at, x.site)
                continue
            bad.add(i)
        s.heap = heap
        if bad:
            self.gc(s)
            if any(i in s.heap for i in bad):
                return None
        return s

    def force_merge(self, states):
        groups = {}
        for st in states:
            groups.setdefault(self.sig(st), []).append(st)
        res = []
        for g in groups.values():
            cur = g[0]
            for o in g[1:]:
                cur = self.join(cur, o, ("cap",), None, True)
            res.append(cur)
        return res[:MAX_STATES]

    def gc(self, st):
        seen = set()
        stack = []
        for d in st.frames.values():
            for v in d.values():
                stack.append(v)
        while stack:
            v = stack.pop()
            for a in atoms(v):
                if a.op == "ref" and a.args[0] not in seen:
                    seen.add(a.args[0])
                    o = st.heap.get(a.args[0])
                    if isinstance(o, Inst):
                        stack.extend(o.attrs.values())
                    elif o is not None:
                        stack.extend(o.segs)
                        stack.append(o.extra)
        if len(seen) < len(st.heap):
            st.heap = {k: v for k, v in st.heap.items() if k in seen}

    def exec(self, node, st, F):
        m = getattr(self, "x_" + type(node).__name__, None)
        if m is None:
            self.note("stmt " + type(node).__name__)
            return [st]
        return m(node, st, F)

    def x_Pass(self, n, st, F):
        return [st]

    def x_Import(self, n, st, F):
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            st.set(F.fid, nm, self.import_mod(a.name if a.asname else a.name.split(".")[0]))
            self.emit("on_import", self, st, a.name, F, n)
        return [st]

    def x_ImportFrom(self, n, st, F):
        base = Program.abs_import(F.module, n)
        for a in n.names:
            st.set(F.fid, a.asname or a.name, self.import_from(st, base, a.name))
        return [st]

    def x_Global(self, n, st, F):
        g = set(st.get(F.fid, "$globals").args) if st.get(F.fid, "$globals") else set()
        st.set(F.fid, "$globals", mk("names", *sorted(g | set(n.names))))
        return [st]

    def x_Nonlocal(self, n, st, F):
        g = set(st.get(F.fid, "$nonlocals").args) if st.get(F.fid, "$nonlocals") else set()
        st.set(F.fid, "$nonlocals", mk("names", *sorted(g | set(n.names))))
        return [st]

    def x_Expr(self, n, st, F):
        if isinstance(n.value, ast.Constant):
            return [st]
        return [s for s, _ in self.ev(n.value, st, F)]

    def x_Assign(self, n, st, F):
        out = []
        for s, v in self.ev(n.value, st, F):
            ss = [s]
            for t in n.targets:
                ss = [y for x in ss for y in self.assign(t, v, x, F, n)]
            out.extend(ss)
        return out

    def x_AnnAssign(self, n, st, F):
        if n.value is None:
            return [st]
        return [y for s, v in self.ev(n.value, st, F) for y in self.assign(n.target, v, s, F, n)]

    def x_AugAssign(self, n, st, F):
        load = _as_load(n.target)
        out = []
        for s, cur in self.ev(load, st, F):
            for s2, v in self.ev(n.value, s, F):
                o = self.deref(s2, cur)
                if cur.op == "grp" and isinstance(n.op, ast.Add):
                    out.extend(x for x, _ in models.grp_method(self, cur, "extend", [v], {}, s2.fork(), F, n))
                    continue
                if isinstance(o, Lst) and o.kind in ("list", "set") and isinstance(n.op, (ast.Add, ast.BitOr)):
                    self.emit("on_mutate", self, s2, cur, "+=", F, n)
                    self.list_extend(s2, cur, v, F, n)
                    out.extend(self.assign(n.target, cur, s2, F, n, aug=True))
                    continue
                for s3, r in self.binop(n.op, cur, v, s2, F, n):
                    out.extend(self.assign(n.target, r, s3, F, n))
        return out

    def assign(self, t, v, st, F, node, aug=False):
        if isinstance(t, ast.Name):
            g = st.get(F.fid, "$globals")
            if g is not None and t.id in g.args:
                self.emit("on_global_write", self, st, F.module, t.id, v, F, node)
                d = dict(st.frames.get(("glob", F.module.name), {}))
                d[t.id] = v
                st.frames[("glob", F.module.name)] = d
                return [st]
            nl = st.get(F.fid, "$nonlocals")
            if nl is not None and t.id in nl.args:
                for fid in F.parents:
                    if fid in st.frames and t.id in st.frames[fid]:
                        st.set(fid, t.id, v)
                        return [st]
            st.set(F.fid, t.id, v)
            return [st]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, F, node)
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, F, node)
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, F):
                self.setattr(s, o, t.attr, v, t.value, F, node)
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, o in self.ev(t.value, st, F):
                for s2, i in self.ev_index(t.slice, s, F):
                    self.setitem(s2, o, i, v, t.value, F, node)
                    out.append(s2)
            return out
        self.note("assign target")
        return [st]

    def unpack(self, t, v, st, F, node):
        n = len(t.elts)
        ty = models.ty(self, st, v)
        if v.op != "ref" and (ty in models.SCALARS or v is NONE or is_num_const(v) or v.op == "poly"):
            self.throw(st, mk("exc", "TypeError"), F, node)
            return []
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        segs = self.segs_of(st, v)
        vals = None
        if segs is not None and all(s.op == "e" for s in segs):
            items = [s.args[0] for s in segs]
            if star:
                i = star[0]
                k = len(items) - (n - 1)
                if k >= 0:
                    mid = self.new_list(st, [E(x) for x in items[i:i + k]], F, node)
                    vals = items[:i] + [mid] + items[i + k:]
            elif len(items) == n:
                vals = items
            else:
                self.throw(st, mk("exc", "ValueError"), F, node)
                return []
        if vals is None:
            if v.op == "ref":
                v = self.freeze(st, v)
            if star:
                i = star[0]
                rest = n - 1 - i
                mid = slice_(v, C(i), NONE if rest == 0 else C(-rest))
                vals = [idx(v, C(j)) for j in range(i)] + [mid] + [idx(v, C(-rest + j)) for j in range(rest)]
            else:
                vals = [idx(v, C(j)) for j in range(n)]
        ss = [st]
        for e, x in zip(t.elts, vals):
            ss = [y for s in ss for y in self.assign(e, x, s, F, node)]
        return ss

    def setattr(self, st, o, name, v, target, F, node):
        self.emit("on_setattr", self, st, o, name, v, F, node)
        obj = self.deref(st, o)
        if isinstance(obj, Inst):
            # property setters are not used in this code base
            st.heap[o.args[0]] = obj.set(name, v)
            return
        new = None
        if o.op == "obj":
            at = [(a, b) for a, b in o.args[1] if a != name] + [(name, v)]
            new = mk("obj", o.args[0], tuple(sorted(at, key=lambda z: z[0])), *o.args[2:])
        elif o.op == "app" and o.args[0] == "Vec" and name in "xyz":
            a = list(o.args[1:])
            a["xyz".index(name)] = v
            new = app("Vec", *a)
        elif models.ty(self, st, o) == "Vector" and name in "xyz":
            a = [attr(o, c) for c in "xyz"]
            a["xyz".index(name)] = v
            new = app("Vec", *a)
        if new is not None:
            self.rebind(st, target, new, F, node)
        elif obj is None and o.op in ("mod", "cls", "ext"):
            self.emit("on_global_write", self, st, o, name, v, F, node)

    def rebind(self, st, target, new, F, node):
        if isinstance(target, ast.Name):
            st.set(F.fid, target.id, new)
        elif isinstance(target, ast.Attribute):
            for s, o in self.ev(target.value, st, F)[:1]:
                ob = self.deref(s, o)
                if isinstance(ob, Inst):
                    s.heap[o.args[0]] = ob.set(target.attr, new)
                    if s is not st:
                        st.heap = s.heap

    def setitem(self, st, o, i, v, target, F, node):
        self.emit("on_mutate", self, st, o, "[]=", F, node)
        ob = self.deref(st, o)
        if isinstance(ob, Lst) and ob.kind == "dict":
            if i.op not in ("c", "enum", "cls", "ext"):
                i = self.freeze(st, i)
                dl = self.deref(st, v)
                if dl is not None and isinstance(dl, Lst) and all(x.op == "e" for x in dl.segs) and (
                        not dl.segs or any(models._is_member(x) for x in ob.segs) or len(dl.segs) == 1) and dl.kind == "list":
                    ms = tuple(E(tup([i, mk("member", x.args[0])])) for x in dl.segs)
                    st.heap[o.args[0]] = ob.with_(ob.segs + (ms or (E(tup([i, mk("member", mk("none_yet"))])),)))
                    return
            segs = [s for s in ob.segs
                    if not (s.op == "e" and s.args[0].op == "tup" and s.args[0].args[0] is i)]
            st.heap[o.args[0]] = ob.with_(tuple(segs) + (E(tup([i, v])),))
        elif isinstance(ob, Lst) and is_num_const(i) and all(s.op == "e" for s in ob.segs):
            k = cval(i)
            segs = list(ob.segs)
            try:
                segs[k] = E(v)
            except Exception:
                pass
            st.heap[o.args[0]] = ob.with_(segs)
        elif isinstance(ob, Lst) and ob.kind != "ext":
            st.heap[o.args[0]] = ob.with_((mk("unk", mk("phi", ("setitem", self.ctxid(F, node)))),))
        else:
            self.note("setitem on opaque")

    def x_Delete(self, n, st, F):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.unset(F.fid, [t.id])
            elif isinstance(t, ast.Subscript):
                for s, o in self.ev(t.value, st, F)[:1]:
                    self.emit("on_mutate", self, s, o, "del", F, n)
                    ob = self.deref(s, o)
                    if isinstance(ob, Lst):
                        for s2, i in self.ev_index(t.slice, s, F)[:1]:
                            if is_num_const(i):
                                self.lst_pop(s2, o, i, F, n)
                            st.heap = s2.heap
        return [st]

    def x_If(self, n, st, F):
        out = []
        for s, b in self.cond(n.test, st, F):
            out.extend(self.exec_block(n.body if b else n.orelse, [s], F))
        return out

    def x_Return(self, n, st, F):
        if n.value is None:
            F.returns.append((st, NONE))
            return []
        for s, v in self.ev(n.value, st, F):
            F.returns.append((s, v))
        return []

    def x_Raise(self, n, st, F):
        if n.exc is None:
            e = st.get(F.fid, "$exc") or mk("exc", "Exception")
            self.throw(st, e, F, n)
            return []
        for s, v in self.ev(n.exc, st, F):
            self.throw(s, v, F, n)
        return []

    def x_Assert(self, n, st, F):
        out = []
        for s, b in self.cond(n.test, st, F):
            if b:
                out.append(s)
            else:
                self.throw(s, mk("exc", "AssertionError"), F, n)
        return out

    def x_FunctionDef(self, n, st, F):
        fo = FnObj(n, F.module, None, (F.fid,) + F.parents)
        st.set(F.fid, n.name, self.decorate(st, mk("fn", fo, NONE), n, F))
        return [st]

    def x_ClassDef(self, n, st, F):
        st.set(F.fid, n.name, mk("cls", self.class_of(F.module, n)))
        return [st]

    def x_With(self, n, st, F):
        ss = [st]
        for it in n.items:
            nxt = []
            for s in ss:
                for s2, v in self.ev(it.context_expr, s, F):
                    if it.optional_vars is not None:
                        nxt.extend(self.assign(it.optional_vars, v, s2, F, n))
                    else:
                        nxt.append(s2)
            ss = nxt
        return self.exec_block(n.body, ss, F)

    def x_Break(self, n, st, F):
        F.loops[-1]["breaks"].append(st)
        return []

    def x_Continue(self, n, st, F):
        F.loops[-1]["conts"].append(st)
        return []

    def x_Match(self, n, st, F):
        out = []
        for s, v in self.ev(n.subject, st, F):
            rest = [s]
            for case in n.cases:
                nxt = []
                for r in rest:
                    for s2, ok in self.match(case.pattern, v, r, F, n):
                        if ok and case.guard is not None:
                            for s3, b in self.cond(case.guard, s2, F):
                                if b:
                                    out.extend(self.exec_block(case.body, [s3], F))
                                else:
                                    nxt.append(s3)
                        elif ok:
                            out.extend(self.exec_block(case.body, [s2], F))
                        else:
                            nxt.append(s2)
                rest = nxt
            out.extend(rest)
        return out

    def match(self, p, v, st, F, node):
        if isinstance(p, ast.MatchValue):
            out = []
            for s, w in self.ev(p.value, st, F):
                for s2, r in self.compare(ast.Eq(), v, w, s, F, node):
                    out.extend(self.branch(s2, r))
            return out
        if isinstance(p, ast.MatchSingleton):
            return [(st, v is C(p.value))]
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                out = []
                for s, ok in self.match(p.pattern, v, st, F, node):
                    if ok and p.name:
                        s.set(F.fid, p.name, v)
                    out.append((s, ok))
                return out
            if p.name:
                st.set(F.fid, p.name, v)
            return [(st, True)]
        if isinstance(p, ast.MatchOr):
            out, rest = [], [st]
            for q in p.patterns:
                nxt = []
                for r in rest:
                    for s, ok in self.match(q, v, r, F, node):
                        (out if ok else nxt).append((s, True) if ok else s)
                rest = nxt
            return out + [(s, False) for s in rest]
        if isinstance(p, ast.MatchClass):
            out = []
            for s, c in self.ev(p.cls, st, F):
                for s2, r in self.isinstance(v, c, s):
                    for s3, b in self.branch(s2, r):
                        if b:
                            for kn, kp in zip(p.kwd_attrs, p.kwd_patterns):
                                for s4, av in self.getattr(v, kn, s3, F, node)[:1]:
                                    s3 = self.match(kp, av, s4, F, node)[0][0]
                        out.append((s3, b))
            return out
        self.note("match pattern")
        return [(st.fork(), True), (st, False)]

    def x_Try(self, n, st, F):
        types = []
        for h in n.handlers:
            types.extend(self.handler_types(h, st, F))
        caught = []
        self.handlers.append(caught)
        self.trytypes.append(tuple(types) if n.handlers else self.trytypes[-1])
        # returns/breaks/continues inside a try with finally
        try:
            normal = self.exec_block(n.body, [st], F)
        finally:
            self.handlers.pop()
            self.trytypes.pop()
        if n.orelse:
            normal = self.exec_block(n.orelse, normal, F)
        out = list(normal)
        for s, exc in self.dedupe_exc(caught):
            done = False
            for h in n.handlers:
                hts = self.handler_types(h, s, F)
                m = self.exc_match(exc, hts)
                if m:
                    s2 = s.fork()
                    if h.name:
                        s2.set(F.fid, h.name, exc)
                    s2.set(F.fid, "$exc", exc)
                    self.emit("on_handler", self, s2, exc, h, F, n)
                    r = self.exec_block(h.body, [s2], F)
                    for x in r:
                        x.unset(F.fid, ["$exc"] + ([h.name] if h.name else []))
                    out.extend(r)
                    done = m is True
                    if done:
                        break
            if not done:
                if n.finalbody:
                    for x in self.exec_block(n.finalbody, [s], F):
                        self.handlers[-1].append((x, exc))
                else:
                    self.handlers[-1].append((s, exc))
        if n.finalbody:
            out = self.exec_block(n.finalbody, out, F)
        return out

    def dedupe_exc(self, lst):
        out = []
        for s, e in lst:
            for i, (o, e2) in enumerate(out):
                if e is e2:
                    m = self.merge(o, s)
                    if m is not None:
                        out[i] = (m, e)
                        break
            else:
                out.append((s, e))
        return out

    def handler_types(self, h, st, F):
        if h.type is None:
            return ["BaseException"]
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in nodes:
            for s, v in self.ev(t, st, F)[:1]:
                if v.op == "ext":
                    out.append(v.args[0].split(".")[-1])
                elif v.op == "cls":
                    out.append(v.args[0])
                else:
                    out.append("Exception")
        return out

    def exc_match(self, exc, types):
        if exc.op == "exc":
            name = exc.args[0]
        elif exc.op == "app":
            name = exc.args[0].split(".")[-1]
        elif exc.op in ("ext",):
            name = exc.args[0].split(".")[-1]
        elif exc.op in ("ref", "obj", "cls"):
            name = None
        else:
            return True
        for t in types:
            if t in ("BaseException", "Exception"):
                return True
            if name is None:
                return True if not isinstance(t, str) else False
            if isinstance(t, Cls) or isinstance(name, Cls):
                if t is name:
                    return True
                continue
            if t == name:
                return True
            a, b = getattr(_b, name, None), getattr(_b, t, None)
            if isinstance(a, type) and isinstance(b, type) and issubclass(a, b):
                return True
        return False

    # ------------------------------------------------------------- loops
    def x_For(self, n, st, F):
        out = []
        for s, it in self.ev(n.iter, st, F):
            out.extend(self.for_loop(n, it, s, F,
                                     lambda x, v: self.assign(n.target, v, x, F, n),
                                     lambda ss: self.exec_block(n.body, ss, F)))
        return out

    def for_loop(self, n, it, st, F, bind, body):
        segs = self.segs_of(st, it)
        if segs is None:
            segs = (mk("spread", it if it.op != "ref" else self.freeze(st, it)),)
        if it.op == "ref":
            o = self.deref(st, it)
            if o is not None and o.kind == "dict":
                segs = self.map_segs(segs, lambda v: idx(v, ZERO))
        self.emit("on_loop", self, st, it, segs, F, n)
        hk = f"$l{n.lineno}.{n.col_offset}"
        states, finished = self.for_loop_(n, it, segs, st, F, bind, body, hk)
        for s in states + finished:
            self.drop(s, F, [hk])
        if getattr(n, "orelse", None):
            states = self.exec_block(n.orelse, states, F)
        return states + finished

    def for_loop_(self, n, it, segs, st, F, bind, body, hk):
        self.hold(st, F, hk, mk("lst", tuple(segs), "list"))
        states = [st]
        finished = []
        if self.unroll and it.op == "app" and it.args[0] == "count":
            for i in range(self.unroll):
                nxt = []
                for s in states:
                    L = {"breaks": [], "conts": []}
                    F.loops.append(L)
                    r = body(bind(s, add(it.args[1], mul(C(i), it.args[3]))))
                    F.loops.pop()
                    finished.extend(L["breaks"])
                    nxt.extend(r + L["conts"])
                states = self.tidy_loop(nxt, F, n)
            for s in states:
                self.note("endless" if s.facts == st.facts and self.concrete(s, F) else "unroll cap")
            return [], finished
        base = ZERO
        for i, seg in enumerate(segs):
            if not states:
                break
            if seg.op == "e":
                nxt = []
                for s in states:
                    L = {"breaks": [], "conts": []}
                    F.loops.append(L)
                    r = body(bind(s, seg.args[0]))
                    F.loops.pop()
                    finished.extend(L["breaks"])
                    nxt.extend(r + L["conts"])
                states = self.tidy_loop(nxt, F, n)
            elif seg.op == "alt":
                nxt = []
                for s in states:
                    for sub_, g in sorted_alts(seg.args[0]):
                        s2 = s.fork()
                        for p_, v_ in g:
                            s2.facts.setdefault(p_, v_)
                        a, b = self.for_loop_(n, it, sub_, s2, F, bind, body, hk + f".{i}")
                        for x in a + b:
                            self.drop(x, F, [hk + f".{i}"])
                        nxt.extend(a)
                        finished.extend(b)
                states = self.tidy_loop(nxt, F, n)
            else:
                nxt = []
                for s in states:
                    a, b = self.fix_loop(n, seg, i, s, F, bind, body)
                    nxt.extend(a)
                    finished.extend(b)
                states = self.tidy_loop(nxt, F, n)
        return states, finished

    def tidy_loop(self, states, F, n):
        if F.live is not None and n in F.live.head:
            live = F.live.head[n]
            for st in states:
                d = st.frames[F.fid]
                st.unset(F.fid, [x for x in d if x not in live and x not in F.live.always and not x.startswith("$")])
        return self.dedupe(states)

    def x_While(self, n, st, F):
        if self.unroll:
            return self.unroll_while(n, st, F)
        return self.fixed_while(n, st, F)

    def unroll_while(self, n, st, F):
        """iteration by iteration, for inputs which a rule makes concrete"""
        states, over, broken = [st], [], []
        for _ in range(self.unroll):
            go = []
            for s in states:
                for s2, v in self.ev(n.test, s, F):
                    for s3, b in self.branch(s2, v):
                        (go if b else over).append(s3)
            if not go:
                states = []
                break
            L = {"breaks": [], "conts": []}
            F.loops.append(L)
            r = self.exec_block(n.body, go, F)
            F.loops.pop()
            broken.extend(L["breaks"])
            states = self.dedupe(r + L["conts"])
        if n.orelse:
            over = self.exec_block(n.orelse, over, F)
        out = over + broken
        for s in states:
            if s.facts == st.facts and self.concrete(s, F):
                self.note("endless")
                continue
            self.note("unroll cap")
            out.extend(self.fixed_while(n, s, F))
        return out

    def concrete(self, st, F):
        """are the variables of a function known element by element?"""
        todo, seen = [v for v in st.frames[F.fid].values() if isinstance(v, T)], set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            for x in subterms(v):
                if x.op in ("spread", "many", "alt", "top", "phi", "unk"):
                    return False
                if x.op == "ref" and (x is v or x not in seen):
                    seen.add(x)
                    o = st.heap.get(x.args[0])
                    if isinstance(o, Inst):
                        todo.extend(y for y in o.attrs.values() if isinstance(y, T))
                    elif isinstance(o, Lst):
                        todo.extend(o.segs)
        return True

    def fixed_while(self, n, st, F):
        a, b = self.fix_loop(n, None, 0, st, F, None, lambda ss: self.exec_block(n.body, ss, F), test=n.test)
        if n.orelse:
            a = self.exec_block(n.orelse, a, F)
        return a + b

    def seg_elem(self, seg, K):
        """alternatives for the element bound in iteration K: [(value, guards)]"""
        if seg.op == "spread":
            return [(idx(seg.args[0], K), ())]
        if seg.op == "unk":
            return [(subst_any(seg.args[0], K), ())]
        v = map_like(seg)
        if v is not None:
            return [(subst(v, {many_bound(seg): K}), ())]
        if seg.op == "alt":
            res = {}
            for segs, guards in sorted_alts(seg.args[0]):
                for x in segs:
                    for v, _g in self.seg_elem(x, K) if x.op != "e" else [(x.args[0], ())]:
                        res.setdefault(v, tuple(guards))
            return sorted(res.items(), key=lambda z: z[0].n)
        if seg.op == "many":
            res = {}
            kany = mk("kany", (seg.args[0], K))
            for alts in (seg.args[2], seg.args[3]):
                for segs, guards in alts:
                    for x in segs:
                        for v, _g in self.seg_elem(x, K) if x.op != "e" else [(x.args[0], ())]:
                            v = subst(v, {many_bound(seg): kany})
                            g = tuple((subst(p, {many_bound(seg): kany}), b) for p, b in guards)
                            res.setdefault(v, g)
            return sorted(res.items(), key=lambda z: z[0].n)
        if seg.op == "rev":
            inner = seg.args[0]
            v = map_like(inner)
            if v is not None:
                kend = mk("kend", inner.args[0], inner.args[1])
                return [(subst(v, {many_bound(inner): sub(sub(kend, K), C(1))}), ())]
            if inner.op == "spread":
                return [(idx(app("reversed", inner.args[0]), K), ())]
            return self.seg_elem(inner, K)
        return [(mk("phi", ("elem", K)), ())]

    def fix_loop(self, n, seg, segi, st0, F, bind, body, test=None):
        """Fixpoint of a loop.  -> (states leaving by exhaustion, states leaving by break)"""
        self.stats["loops"] += 1
        key = (F.module.name, getattr(n, "lineno", 0), getattr(n, "col_offset", 0), F.ctx, segi,
               type(n).__name__)
        K = mk("k", key)
        src = NONE
        if seg is not None:
            src = seg.args[0] if seg.op == "spread" else mk("lst", (seg,))
        Kend = mk("kend", key, src)
        exits, breaks = [], []
        live = F.live.head.get(n) if F.live is not None else None

        def one(head, first):
            """run one iteration from head -> list of back-edge states"""
            backs = []
            base = head.fork()
            if first:
                base.facts[self.zero(K)] = True
            else:
                base.facts[mk("pos", K)] = True
            entry = [base]
            if test is not None:
                entry = []
                for s, b in self.cond(test, base, F):
                    if b:
                        entry.append(s)
                    else:
                        exits.append((s, first, head))
            elif not first:
                exits.append((base.fork(), False, head))
            runs = []
            if bind is not None:
                for s in entry:
                    for v, g in self.seg_elem(seg, K):
                        s2 = s.fork()
                        for p, b in g:
                            s2.facts.setdefault(p, b)
                        runs.extend(bind(s2, v))
            else:
                runs = entry
            L = {"breaks": [], "conts": []}
            F.loops.append(L)
            r = body(runs)
            F.loops.pop()
            for b in L["breaks"]:
                breaks.append((b, first, head))
            for b in r + L["conts"]:
                backs.append(self.back_edge(b, head, key, K, src, F, n, live, first))
            return backs

        h0 = st0.fork()
        self.gc(h0)
        if live is not None:
            h0.unset(F.fid, [x for x in h0.frames[F.fid]
                             if x not in live and x not in F.live.always and not x.startswith("$")])
        # zero iterations
        if test is None:
            src_v = seg.args[0] if seg.op == "spread" else None
            ne = self.segs_truth(st0, (seg,)) if seg is not None else None
            if ne is True:
                pass
            else:
                z = st0.fork()
                if isinstance(ne, T):
                    z2 = self.assume(z, ne, False)
                    if z2 is not None:
                        exits.append((z2, True, None))
                    n0 = self.assume(h0, ne, True)
                    h0 = n0 if n0 is not None else h0
                else:
                    exits.append((z, True, None))
        heads = {}
        todo = []
        for b in one(h0, True):
            self.add_head(heads, todo, b, key, h0, True)
        rounds = 0
        while todo:
            rounds += 1
            self.stats["fixpoint_rounds"] += 1
            if rounds > 60:
                self.note("loop fixpoint cap")
                break
            sig = todo.pop(0)
            head = heads[sig]
            for b in one(head, False):
                self.add_head(heads, todo, b, key, h0, False)
        # leaving states
        memo = {}
        res = []
        final = list(heads.values())
        live_head = lambda h: any(h is x for x in final)
        for s, first, head in exits:
            if not first and not live_head(head):
                # exit recorded from a head that was later generalised
                continue
            s = s.fork()
            if test is not None:
                kend = self.counted_exit(s, key, K, first)
                self.rename(s, {K: kend if kend is not None else (ZERO if first else Kend)}, drop=None)
            elif not first:
                self.rename(s, {K: Kend}, drop=None)
            res.append(s)
        brk = []
        for s, first, head in breaks:
            if not first and not live_head(head):
                continue
            s = s.fork()
            self.rename(s, {K: mk("kbrk", key)}, drop=None)
            brk.append(s)
        res = self.tidy_exit(res, F, n)
        brk = self.tidy_exit(brk, F, n)
        return res, brk

    def counted_exit(self, s, key, K, first):
        """a while loop left because its step counter reached len(X): then what it
        built element by element is X itself"""
        X = None
        for p, v in s.facts.items():
            if (p.op == "pos" and not v) or (p.op == "zero" and v):
                d = p.args[0]
                for dd in (d, neg(d)) if p.op == "zero" else (d,):
                    x = add(dd, K)
                    if x.op == "app" and x.args[0] == "len" and not mentions(x, K):
                        X = x.args[1]
                if first and X is None and p.op == "pos" and d.op == "app" and d.args[0] == "len":
                    X = d.args[1]
        if X is None:
            return None
        for i, o in list(s.heap.items()):
            if isinstance(o, Lst) and any(x.op == "many" and x.args[0] == key for x in o.segs):
                segs = []
                for x in o.segs:
                    if x.op == "many" and x.args[0] == key:
                        v = map_like(x)
                        if v is idx(X, K):
                            x = mk("spread", X)
                        elif x.args[1] is NONE:
                            x = mk("many", key, X, x.args[2], x.args[3])
                    segs.append(x)
                s.heap[i] = o.with_(segs)
        s.facts = {p: v for p, v in s.facts.items() if not mentions(p, K)}
        if first:
            s.facts[mk("pos", app("len", X))] = False
            s.facts[mk("truthy", X)] = False
            return ZERO
        s.facts[mk("truthy", X)] = True
        return app("len", X)

    def tidy_exit(self, states, F, n):
        if F.live is not None and n in F.live.after:
            live = F.live.after[n] | F.live.head.get(n, frozenset())
            for st in states:
                d = st.frames[F.fid]
                st.unset(F.fid, [x for x in d if x not in live and x not in F.live.always and not x.startswith("$")])
        return self.dedupe(states)

    def subsumed_by_heads(self, s, heads):
        return any(s.frames == h.frames and s.heap == h.heap for h in heads)

    def back_edge(self, st, head, key, K, src, F, n, live, first):
        st = st.fork()
        if live is not None:
            st.unset(F.fid, [x for x in st.frames[F.fid]
                             if x not in live and x not in F.live.always and not x.startswith("$")])
        self.gc(st)
        self.emit("on_back_edge", self, st, head, key, K, src, F, n, first)
        guards = frozenset((p, v) for p, v in st.facts.items()
                           if head.facts.get(p) is None and mentions(p, K))
        memo = {}
        # fold lists that existed before the iteration
        self._trails = {}
        new_ids = [i for i in st.heap if i not in head.heap]
        for i, o in list(st.heap.items()):
            if i in head.heap:
                h = head.heap[i]
                if isinstance(o, Lst) and isinstance(h, Lst):
                    st.heap[i] = self.fold(st, o, h, key, src, guards, first, new_ids)
        trails, self._trails = self._trails, {}
        newset = set(new_ids)
        # freeze what was allocated in the iteration
        if newset:
            for fid, d in list(st.frames.items()):
                nd = None
                for name, v in d.items():
                    if not any(a.op == "ref" and a.args[0] in newset for a in atoms(v)):
                        continue
                    nd = nd if nd is not None else dict(d)
                    if v.op == "ref":
                        o = st.heap[v.args[0]]
                        if isinstance(o, Lst) and o.kind != "ext":
                            nid = (("lv", key, fid, name), 0)
                            st.heap[nid] = Lst(o.kind, [self.freeze_new(st, s, newset) for s in o.segs],
                                               self.freeze_new(st, o.extra, newset))
                            nd[name] = ref(nid)
                            continue
                    nd[name] = self.freeze_new(st, v, newset)
                if nd is not None:
                    st.frames[fid] = nd
            for i, o in list(st.heap.items()):
                if i in newset and not (isinstance(i[0], tuple) and i[0] and i[0][0] == "lv"):
                    continue
                if isinstance(o, Inst):
                    if any(a.op == "ref" and a.args[0] in newset for v in o.attrs.values() for a in atoms(v)):
                        st.heap[i] = Inst(o.cls, {k: self.freeze_new(st, v, newset) for k, v in o.attrs.items()}, o.site)
                elif any(a.op == "ref" and a.args[0] in newset for s in o.segs for a in atoms(s)):
                    st.heap[i] = o.with_([self.freeze_new(st, s, newset) for s in o.segs])
            self.gc(st)
        self.rename(st, {K: sub(K, C(1))}, drop=K, keep=head.facts)
        self.emit("on_iteration", self, st, head, key, first, trails)
        return st

    def rename(self, st, m, drop, keep=None):
        memo = {}
        f = lambda t: _subst_(t, m, memo)
        for fid, d in list(st.frames.items()):
            st.frames[fid] = {n: f(v) for n, v in d.items()}
        for i, o in list(st.heap.items()):
            if isinstance(o, Inst):
                st.heap[i] = Inst(o.cls, {n: f(v) for n, v in o.attrs.items()}, o.site)
            else:
                st.heap[i] = Lst(o.kind, tuple(f(x) for x in o.segs), f(o.extra))
        if drop is not None:
            st.facts = {p: v for p, v in st.facts.items() if not mentions(p, drop)
                        and (keep.get(p) == v or not loop_local(p))}
            st.types = {p: v for p, v in st.types.items() if not mentions(p, drop)}
        else:
            st.facts = {f(p): v for p, v in st.facts.items()}
            st.types = {f(p): v for p, v in st.types.items()}

    def fold(self, st, o, h, key, src, guards, first, new_ids):
        if o.segs == h.segs:
            return o
        H = h.segs
        if o.segs[: len(H)] == H:
            trail = o.segs[len(H):]
            ns = set(new_ids)
            trail = tuple(self.freeze_new(st, s, ns) for s in trail)
            prefix, many = split_many(H, key)
            f, r = (many.args[2], many.args[3]) if many is not None else (frozenset(), frozenset())
            alt = (trail, guards)
            self._trails[len(self._trails)] = (trail, guards)
            if first:
                f = alts_add(f, alt, key, "f")
            else:
                if many is None:
                    f = alts_add(f, ((), frozenset()), key, "f")
                r = alts_add(r, alt, key, "r")
            return o.with_(prefix + (mk_many(key, src, f, r),))
        return o

    def freeze_new(self, st, v, newset, d=0):
        if v.op == "ref":
            if v.args[0] in newset:
                return self.freeze(st, v, d, newset)
            return v
        at = atoms(v)
        m = {a: self.freeze(st, a, d, newset) for a in at if a.op == "ref" and a.args[0] in newset}
        if not m:
            return v
        return subst(v, m)

    def freeze(self, st, v, d=0, only=None):
        """A structural snapshot of a heap value."""
        if v.op != "ref":
            at = [a for a in atoms(v) if a.op == "ref"]
            if not at or v.op in ("fn",):
                return v
            m = {a: self.freeze(st, a, d + 1, only) for a in at}
            m = {k: x for k, x in m.items() if x is not k}
            return subst(v, m) if m else v
        if only is not None and v.args[0] not in only:
            return v
        o = st.heap.get(v.args[0])
        if o is None or d > 7:
            return mk("phi", ("deep",))
        if isinstance(o, Inst):
            at = []
            for n, x in sorted(o.attrs.items()):
                if o.cls.name in models.OPAQUE_ATTRS and n in models.OPAQUE_ATTRS[o.cls.name]:
                    at.append((n, mk("phi", ("opaque", n))))
                    continue
                at.append((n, self.freeze(st, x, d + 1, only)))
            return mk("obj", o.cls, tuple(at), None if models.value_class(o.cls) else o.site)
        segs = tuple(self.freeze(st, s, d + 1, only) for s in o.segs)
        if o.kind == "ext":
            return mk("extobj", self.freeze(st, o.extra, d + 1, only), segs)
        return mk("lst", segs, o.kind)

    # joins ------------------------------------------------------------
    def sig(self, st):
        out = []
        for fid in sorted(st.frames, key=str):
            for n, v in sorted(st.frames[fid].items()):
                out.append((fid, n, self.tag(v)))
        return tuple(out)

    def tag(self, v):
        if v.op == "c":
            x = cval(v)
            if x is None or isinstance(x, bool) or isinstance(x, str):
                return ("c", x)
            return "num"
        if v.op == "ref":
            return ("ref", v.args[0])
        if v.op == "obj":
            return ("obj", v.args[0], tuple((n, x.op == "c" and cval(x) is None) for n, x in v.args[1]))
        if v.op in ("fn", "cls", "ext", "mod"):
            return v
        if v.op == "enum":
            return v
        if v.op == "tup":
            return ("tup", len(v.args))
        if v.op in ("lst",):
            return "lst"
        return "t"

    def add_head(self, heads, todo, st, key, entry, first):
        sig = self.sig(st)
        old = heads.get(sig)
        if old is None:
            if len(heads) > 40:
                # too many disjuncts: merge into an arbitrary compatible one
                self.note("head cap")
                sig = next(iter(heads))
                old = heads[sig]
            else:
                heads[sig] = st
                todo.append(sig)
                return
        new = self.join(old, st, key, entry, first)
        if new.frames == old.frames and new.heap == old.heap and new.facts == old.facts and new.types == old.types:
            return
        heads[sig] = new
        if sig not in todo:
            todo.append(sig)

    def join(self, a, b, key, entry, first):
        LGG_LOG.append([])
        try:
            s = self.join_(a, b, key, entry, first)
        finally:
            log = LGG_LOG.pop()
        self.phi_types(s, a, b, log)
        return s

    def phi_types(self, s, a, b, log):
        """a joined value keeps the type both sides have"""
        seen = {}
        for phi, x, y in log:
            tx = (a.types.get(phi) or "?") if x is phi else models.simple_type(self, a, x)
            ty_ = (b.types.get(phi) or "?") if y is phi else models.simple_type(self, b, y)
            t = tx if tx == ty_ else "?"
            if phi in seen and seen[phi] != t:
                t = "?"
            seen[phi] = t
        for phi, t in seen.items():
            if t == "?":
                s.types.pop(phi, None)
            else:
                s.types[phi] = t

    def join_(self, a, b, key, entry, first):
        s = State()
        s.made = a.made | b.made
        s.log = a.log if a.log == b.log else ()
        s.facts = joined_facts(a.facts, b.facts)
        s.types = {k: v for k, v in a.types.items() if b.types.get(k) == v}
        for fid, d in a.frames.items():
            e = b.frames.get(fid)
            if e is None:
                continue
            if d == e:
                s.frames[fid] = d
                continue
            nd = {}
            for n in d:
                if n in e:
                    ent = entry.frames.get(fid, {}).get(n) if entry is not None else None
                    nd[n] = self.joinval(d[n], e[n], key, ("v", str(fid), n), ent)
            s.frames[fid] = nd
        for i in set(a.heap) | set(b.heap):
            x, y = a.heap.get(i), b.heap.get(i)
            if x is None or y is None:
                s.heap[i] = x if x is not None else y
                continue
            if x == y:
                s.heap[i] = x
            elif isinstance(x, Inst) and isinstance(y, Inst) and x.cls is y.cls:
                en = entry.heap.get(i) if entry is not None else None
                at = {}
                for n in x.attrs:
                    if n in y.attrs:
                        ent = en.attrs.get(n) if isinstance(en, Inst) else None
                        at[n] = self.joinval(x.attrs[n], y.attrs[n], key, ("h", str(i), n), ent)
                s.heap[i] = Inst(x.cls, at, x.site)
            elif isinstance(x, Lst) and isinstance(y, Lst):
                s.heap[i] = x.with_(self.join_segs(x.segs, y.segs, key, ("h", str(i)), first))
                if x.extra is not y.extra:
                    s.heap[i].extra = lgg(x.extra, y.extra, key, ("x", str(i)))
            else:
                s.heap[i] = x
        return s

    def joinval(self, x, y, key, path, ent):
        if x is y:
            return x
        if x.op == "phi" and x.args[0] == ("w", key, path):
            return lgg(x, y, key, path)
        if is_scalar(x) and is_scalar(y) and ent is not None and is_scalar(ent):
            d = sub(y, x)
            d0 = sub(x, ent)
            kk = mk("k", key)
            if d is d0 and not mentions(d, kk) and not any(a.op == "phi" for a in atoms(d)):
                return add(ent, mul(d, kk))
        return lgg(x, y, key, path)

    def join_segs(self, a, b, key, path, first):
        pa, ma = split_many(a, key)
        pb, mb = split_many(b, key)
        if pa == pb and (ma is not None or mb is not None):
            fa, ra = (ma.args[2], ma.args[3]) if ma is not None else (frozenset(), frozenset())
            fb, rb = (mb.args[2], mb.args[3]) if mb is not None else (frozenset(), frozenset())
            src = (ma or mb).args[1]
            f, r = fa, ra
            for x in sorted_alts(fb):
                f = alts_add(f, x, key, "f")
            for x in sorted_alts(rb):
                r = alts_add(r, x, key, "r")
            if ma is None or mb is None:
                f = alts_add(f, ((), frozenset()), key, "f")
                r = alts_add(r, ((), frozenset()), key, "r")
            return pa + (mk_many(key, src, f, r),)
        if len(a) == len(b):
            out = []
            for i, (x, y) in enumerate(zip(a, b)):
                if x is y:
                    out.append(x)
                elif x.op == "e" and y.op == "e":
                    out.append(E(lgg(x.args[0], y.args[0], key, path + (i,))))
                elif x.op == "spread" and y.op == "spread":
                    out.append(mk("spread", lgg(x.args[0], y.args[0], key, path + (i,))))
                elif x.op == "alt" and y.op == "alt":
                    f = x.args[0]
                    for z in sorted_alts(y.args[0]):
                        f = alts_add(f, z, key, "a")
                    out.append(mk("alt", f))
                elif x.op == "many" and y.op == "many" and x.args[0] == y.args[0]:
                    f, r = x.args[2], x.args[3]
                    for z in sorted_alts(y.args[2]):
                        f = alts_add(f, z, key, "f")
                    for z in sorted_alts(y.args[3]):
                        r = alts_add(r, z, key, "r")
                    sr = x.args[1] if x.args[1] is y.args[1] else lgg(x.args[1], y.args[1], key, path + (i, "src"))
                    out.append(mk("many", x.args[0], sr, f, r))
                else:
                    out = None
                    break
            if out is not None:
                return tuple(out)
        vals = []
        for s in tuple(a) + tuple(b):
            vals.extend(self.seg_values(s))
        if not vals:
            return ()
        v = vals[0]
        for w in vals[1:]:
            v = lgg(v, w, key, path + ("u",))
        return (mk("unk", v),)

    def seg_values(self, s):
        if s.op == "e":
            return [s.args[0]]
        if s.op == "spread":
            return [idx(s.args[0], mk("kany", ("any",)))]
        if s.op == "unk":
            return [s.args[0]]
        if s.op == "rev":
            return self.seg_values(s.args[0])
        out = []
        if s.op == "alt":
            for segs, _ in sorted_alts(s.args[0]):
                for x in segs:
                    out.extend(self.seg_values(x))
        if s.op == "many":
            for segs, _ in sorted_alts(s.args[2]) + sorted_alts(s.args[3]):
                for x in segs:
                    out.extend(self.seg_values(x))
        return out

    # ------------------------------------------------------------- sequences
    def segs_of(self, st, v):
        if v.op == "ref":
            o = self.deref(st, v)
            if isinstance(o, Lst) and o.kind != "ext":
                return o.segs
            if isinstance(o, Inst):
                return None
            return None
        if v.op == "lst":
            return v.args[0]
        if v.op == "grp":
            return (mk("spread", mk("grp", self.freeze(st, v.args[0]), v.args[1])),)
        if v.op == "tup":
            return tuple(E(x) for x in v.args)
        if v.op == "c" and isinstance(cval(v), (str, tuple)):
            return tuple(E(C(x)) for x in cval(v))
        if v.op == "app" and v.args[0] == "range" and all(is_num_const(x) for x in v.args[1:]):
            r = range(*[int(cval(x)) for x in v.args[1:]])
            if len(r) <= 8:
                return tuple(E(C(i)) for i in r)
        if v.op == "app" and v.args[0] in ("enumerate", "zip", "pairwise", "reversed"):
            r = self.segs_combinator(st, v)
            if r is not None:
                return r
        if v.op in ("app", "attr", "idx", "in", "slice", "phi", "top", "exc", "add"):
            return (mk("spread", v),)
        return None

    def segs_combinator(self, st, v):
        name = v.args[0]
        a = v.args[1:]

        def exact(t):
            s = self.segs_of(st, t)
            if s is not None and all(x.op == "e" for x in s):
                return [x.args[0] for x in s]
            return None
        if name == "enumerate":
            s = self.segs_of(st, a[0])
            if s is None:
                return None
            out, off = [], a[1]
            for x in s:
                if x.op == "e":
                    out.append(E(tup([off, x.args[0]])))
                    off = add(off, C(1))
                elif len(s) == 1 or x is s[-1]:
                    out.append(mk("spread", mk("app", "enumerate",
                                               x.args[0] if x.op == "spread" else mk("lst", (x,), "list"), off)))
                else:
                    return None
            return tuple(out)
        if name == "zip":
            ex = [exact(x) for x in a]
            if all(e is not None for e in ex):
                return tuple(E(tup(z)) for z in zip(*ex))
        if name == "pairwise":
            e = exact(a[0])
            if e is not None:
                return tuple(E(tup(z)) for z in itertools.pairwise(e))
        if name == "reversed":
            s = self.segs_of(st, a[0])
            if s is not None:
                return self.rev_segs(s)
        return None

    @staticmethod
    def rev_segs(segs):
        out = []
        for s in reversed(segs):
            if s.op == "e":
                out.append(s)
            elif s.op == "rev":
                out.append(s.args[0])
            elif s.op == "alt":
                out.append(mk("alt", frozenset((Interp.rev_segs(a), g) for a, g in s.args[0])))
            else:
                out.append(mk("rev", s))
        return tuple(out)

    def map_segs(self, segs, f):
        out = []
        for s in segs:
            if s.op == "e":
                out.append(E(f(s.args[0])))
            elif s.op == "many":
                out.append(mk("many", s.args[0], s.args[1],
                              frozenset((tuple(self.map_segs(a, f)), g) for a, g in s.args[2]),
                              frozenset((tuple(self.map_segs(a, f)), g) for a, g in s.args[3])))
            elif s.op == "alt":
                out.append(mk("alt", frozenset((tuple(self.map_segs(a, f)), g) for a, g in s.args[0])))
            elif s.op == "unk":
                out.append(mk("unk", f(s.args[0])))
            else:
                out.append(mk("unk", f(idx(s.args[0], mk("kany", ("map",))))))
        return tuple(out)

    def list_extend(self, st, lref, v, F, node):
        o = self.deref(st, lref)
        segs = self.segs_of(st, v)
        if segs is None:
            segs = (mk("spread", v),)
        ov = self.deref(st, v)
        if ov is not None and isinstance(ov, Lst) and ov.kind == "dict":
            segs = self.map_segs(segs, lambda x: idx(x, ZERO))
        self.emit("on_extend", self, st, lref, segs, F, node)
        st.heap[lref.args[0]] = o.with_(o.segs + tuple(segs))

    def lst_pop(self, st, lref, i, F, node):
        o = self.deref(st, lref)
        segs = list(o.segs)
        if not segs:
            self.throw(st, mk("exc", "IndexError"), F, node)
            return None
        if is_num_const(i):
            n = int(cval(i))
            if n >= 0 and all(s.op == "e" for s in segs[: n + 1]) and n < len(segs):
                v = segs.pop(n).args[0]
                st.heap[lref.args[0]] = o.with_(segs)
                return v
            if n < 0 and all(s.op == "e" for s in segs[n:]) and -n <= len(segs):
                v = segs.pop(n).args[0]
                st.heap[lref.args[0]] = o.with_(segs)
                return v
            if n == 0 and segs[0].op == "spread":
                t = segs[0].args[0]
                segs[0] = mk("spread", slice_(t, C(1), NONE))
                st.heap[lref.args[0]] = o.with_(segs)
                return idx(t, ZERO)
            if n == -1 and segs[-1].op == "spread":
                t = segs[-1].args[0]
                segs[-1] = mk("spread", slice_(t, ZERO, C(-1)))
                st.heap[lref.args[0]] = o.with_(segs)
                return idx(t, C(-1))
        # unknown position: keep a generic remainder
        fz = mk("lst", tuple(self.freeze(st, s) for s in segs), "list")
        v = idx(fz, i)
        vals = [x for s in segs for x in self.seg_values(s)]
        w = vals[0]
        for x in vals[1:]:
            w = lgg(w, x, ("pop", self.ctxid(F, node)), ("u",))
        if v.op == "idx":
            v = w if len({*vals}) == 1 else app("pick", fz, i)
        st.heap[lref.args[0]] = o.with_((mk("unk", w),))
        return v

    # ------------------------------------------------------------- functions
    def decorate(self, st, fn, node, F):
        for d in reversed(node.decorator_list):
            f = d.func if isinstance(d, ast.Call) else d
            r = self.ev(f, st, F)
            dv = r[0][1] if r else TOP
            if dv.op == "ext":
                nm = dv.args[0]
                if nm in ("functools.cache", "functools.lru_cache", "functools.wraps", "contextlib.contextmanager",
                          "abc.abstractmethod", "builtins.staticmethod", "builtins.classmethod",
                          "builtins.property", "functools.cached_property"):
                    continue
            if dv.op == "fn":
                rr = self.call(dv, [fn], {}, st, F, d)
                if rr:
                    fn = rr[0][1]
                    continue
            self.note("decorator")
        return fn

    def deco_names(self, cls, node):
        st = State()
        F = self.modF(cls.module)
        st.frames[F.fid] = {}
        out = []
        for d in node.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            if isinstance(f, ast.Attribute) and f.attr in ("setter", "getter", "deleter"):
                out.append("setter")
                continue
            r = self.ev(f, st, F)
            v = r[0][1] if r else TOP
            out.append(v.args[0].split(".")[-1] if v.op == "ext" else v)
        return out

    def class_attr(self, st, cls, name):
        """-> (owner, kind, node/expr) or None"""
        for c in cls.mro:
            if name in c.methods:
                return c, "method", c.methods[name][0]
            if name in c.assigns:
                return c, "assign", c.assigns[name]
        return None

    def getattr(self, v, name, st, F, node):
        if v.op == "ref":
            o = self.deref(st, v)
            if isinstance(o, Inst):
                return self.inst_attr(v, o.cls, o.attrs, name, st, F, node)
            if isinstance(o, Lst):
                if o.kind == "ext":
                    return [(st, mk("meth", v, name))]
                return [(st, mk("meth", v, name))]
            return [(st, attr(mk("phi", ("dangling",)), name))]
        if v.op == "obj":
            return self.inst_attr(v, v.args[0], dict(v.args[1]), name, st, F, node)
        if v.op == "cls":
            return self.cls_getattr(v.args[0], name, st, F, node, v)
        if v.op == "mod":
            m = self.prog.modules[v.args[0]]
            r = self.mod_lookup(st, m, name)
            if r is None:
                sub_ = v.args[0] + "." + name
                r = mk("mod", sub_) if sub_ in self.prog.modules else attr(v, name)
            return [(st, r)]
        if v.op == "ext":
            return [(st, mk("ext", models.norm_ext(v.args[0] + "." + name)))]
        if v.op == "enum":
            return self.enum_attr(v, name, st, F, node)
        if v.op == "super":
            cls, slf = v.args
            start = self.cls_of(st, slf)
            mro = start.mro if start is not None else cls.mro
            i = mro.index(cls) + 1 if cls in mro else 1
            for c in mro[i:]:
                if name in c.methods:
                    n = c.methods[name][0]
                    decos = self.deco_names(c, n)
                    fo = FnObj(n, c.module, c)
                    if "property" in decos or "cached_property" in decos:
                        return self.call(mk("fn", fo, NONE), [slf], {}, st, F, node)
                    if "classmethod" in decos:
                        return [(st, mk("fn", fo, slf if slf.op == "cls" else mk("cls", start or cls)))]
                    return [(st, mk("fn", fo, slf))]
            return [(st, mk("ext", "super." + name))]
        if v is NONE:
            self.throw(st, mk("exc", "AttributeError"), F, node)
            return []
        if v.op in ("lst", "tup", "str", "grp") or (v.op == "c" and isinstance(cval(v), (str, tuple))):
            return [(st, mk("meth", v, name))]
        if v.op == "fn" and name in ("__name__",):
            return [(st, C(v.args[0].name))]
        r = models.ext_attr(self, st, v, name)
        return [(st, r)]

    def cls_of(self, st, v):
        if v.op == "ref":
            o = self.deref(st, v)
            return o.cls if isinstance(o, Inst) else None
        if v.op in ("obj", "cls"):
            return v.args[0]
        if v.op == "enum":
            return v.args[0]
        return None

    def inst_attr(self, v, cls, attrs, name, st, F, node):
        if name == "__class__":
            return [(st, mk("cls", cls))]
        found = self.class_attr(st, cls, name)
        if found and found[1] == "method":
            c, _, n = found
            decos = self.deco_names(c, n)
            if "property" in decos or "cached_property" in decos:
                return self.call(mk("fn", FnObj(n, c.module, c), NONE), [v], {}, st, F, node)
        if name in attrs:
            if v.op == "obj" and name in self.mutable_attrs(cls):
                return [(st, attr(mk("obj_", v), name))]
            return [(st, attrs[name])]
        if found:
            return self.bind_found(found, name, v, cls, st, F, node)
        if any(b.op not in ("cls",) and not (b.op == "ext" and b.args[0].startswith("abc.")) for c in cls.mro for b in c.bases):
            return [(st, attr(self.freeze(st, v), name))]
        if name == "__dict__":
            return [(st, attr(self.freeze(st, v), name))]
        self.throw(st, mk("exc", "AttributeError"), F, node)
        self.note(f"missing attribute {cls.name}.{name}")
        return []

    def bind_found(self, found, name, v, cls, st, F, node):
        c, kind, n = found
        if kind == "method":
            decos = self.deco_names(c, n)
            fo = FnObj(n, c.module, c)
            if "staticmethod" in decos:
                return [(st, mk("fn", fo, NONE))]
            if "classmethod" in decos:
                return [(st, mk("fn", fo, mk("cls", cls)))]
            return [(st, mk("fn", fo, v))]
        return self.eval_in_class(c, n, st)

    def eval_in_class(self, c, expr, st):
        if expr is None:
            return [(st, mk("phi", ("classattr", c.name)))]
        F = self.modF(c.module)
        F.fid = ("clsbody", c.module.name, c.name)
        F.cls = c
        st.frames.setdefault(F.fid, {})
        # class level names are visible in the class body
        names = {x.id for x in ast.walk(expr) if isinstance(x, ast.Name)}
        d = dict(st.frames[F.fid])
        for x in names:
            if x in c.assigns and x not in d and c.assigns[x] is not expr and c.assigns[x] is not None:
                r = self.eval_in_class(c, c.assigns[x], st)
                d[x] = r[0][1]
        st.frames[F.fid] = d
        r = self.ev(expr, st, F)
        for s, _ in r:
            s.frames.pop(F.fid, None)
        return r

    def mutable_attrs(self, cls):
        if cls.mutable_attrs is None:
            init = {"__init__", "__post_init__"}
            calls = set()
            for c in cls.mro:
                for nm in ("__init__", "__post_init__"):
                    for n in c.methods.get(nm, []):
                        for x in ast.walk(n):
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(
                                    x.func.value, ast.Name) and x.func.value.id == "self":
                                calls.add(x.func.attr)
            s = set()
            for c in cls.mro:
                for nm, ns in c.methods.items():
                    if nm in init or nm in calls:
                        continue
                    for n in ns:
                        for x in ast.walk(n):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(
                                    x.value, ast.Name) and x.value.id == "self":
                                s.add(x.attr)
            cls.mutable_attrs = s
        return cls.mutable_attrs

    def cls_getattr(self, c, name, st, F, node, v):
        if c.is_enum:
            if name in c.assigns:
                return [(st, mk("enum", c, name))]
        if name == "__name__":
            return [(st, C(c.name))]
        found = self.class_attr(st, c, name)
        if found is None:
            if c.is_enum and name == "__members__":
                return [(st, attr(v, name))]
            return [(st, attr(v, name))]
        oc, kind, n = found
        if kind == "method":
            decos = self.deco_names(oc, n)
            fo = FnObj(n, oc.module, oc)
            if "classmethod" in decos:
                return [(st, mk("fn", fo, v))]
            return [(st, mk("fn", fo, NONE))]
        if oc.is_enum:
            return [(st, mk("enum", c, name))]
        return self.eval_in_class(oc, n, st)

    def enum_attr(self, v, name, st, F, node):
        c, member = v.args
        if name in ("value", "_value_"):
            return self.eval_in_class(self.class_attr(st, c, member)[0], self.class_attr(st, c, member)[2], st)
        if name in ("name", "_name_"):
            return [(st, C(member))]
        if name == "__class__":
            return [(st, mk("cls", c))]
        found = self.class_attr(st, c, name)
        if found:
            if found[1] == "method":
                decos = self.deco_names(found[0], found[2])
                if "property" in decos:
                    return self.call(mk("fn", FnObj(found[2], found[0].module, found[0]), NONE), [v], {}, st, F, node)
            return self.bind_found(found, name, v, c, st, F, node)
        return [(st, attr(v, name))]

    # ------------------------------------------------------------- calls
    def call(self, fv, args, kw, st, F, node):
        """-> [(state, value)]"""
        self.stats["calls"] += 1
        self.cur_frame, self.cur_node = F, node
        if fv.op == "fn":
            fo, slf = fv.args
            if slf is not NONE:
                args = [slf] + list(args)
            return self.call_fn(fo, args, kw, st, F, node)
        if fv.op == "cls":
            return self.instantiate(fv.args[0], args, kw, st, F, node)
        if fv.op == "meth":
            return models.call_builtin_method(self, fv.args[0], fv.args[1], args, kw, st, F, node)
        if fv.op == "ext":
            return models.call_ext(self, fv.args[0], args, kw, st, F, node)
        if fv.op == "attr":
            return models.call_method(self, fv.args[0], fv.args[1], args, kw, st, F, node)
        if fv.op == "partial":
            f, a, k = fv.args
            kk = dict(k)
            kk.update(kw)
            return self.call(f, list(a) + list(args), kk, st, F, node)
        if fv is NONE:
            self.throw(st, mk("exc", "TypeError"), F, node)
            return []
        if fv.op in ("ref", "obj"):
            c = self.cls_of(st, fv)
            if c is not None and self.class_attr(st, c, "__call__"):
                out = []
                for s, m in self.getattr(fv, "__call__", st, F, node):
                    out.extend(self.call(m, args, kw, s, F, node))
                return out
        if self.given_call is not None:
            r = self.given_call(self, st, fv, args, kw, F, node)
            if r is not None:
                return r
        self.note("call of opaque value")
        self.emit("on_ext_call", self, st, "?", fv, args, kw, F, node, None)
        a = [self.freeze(st, x) for x in args]
        return [(st, app("call", fv, *a))]

    def call_fn(self, fo, args, kw, st, F, node):
        n = fo.node
        cid = self.ctxid(F, node)
        k = self.active.count(n) + 1
        if k > self.deepest.get((fo.module.name, fo.name), 0):
            self.deepest[fo.module.name, fo.name] = k
        if k > (self.unroll or 3) or len(self.active) > (2 * self.unroll or MAX_DEPTH):
            self.stats["cut_recursion"] += 1
            if self.unroll:
                self.note("unroll cap")
            return []
        self.stats["functions"].add((fo.module.name, fo.name))
        self.stats["call_sites"].add((F.module.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
        bound = self.bind_args(fo, args, kw, st, F, node)
        if bound is None:
            return []
        if self.cuts:
            q = fo.name if fo.owner is None else fo.owner.name + "." + fo.name
            h = self.cuts.get((fo.module.name, q))
            if h is not None:
                return self.cut_call(h, fo, bound, st, F, node)
        live = self.live_cache.get(n)
        if live is None:
            live = Liveness(n) if isinstance(n, ast.FunctionDef) else None
            if live is None:
                live = False
            self.live_cache[n] = live
        fid = ("f", cid, fo.name)
        G = Fr(fid, fo.module, fo, cid, fo.parent or (), live or None)
        G.cls = fo.owner
        st = st.fork()
        env = {}
        st.frames[fid] = env
        ss = [st]
        # defaults
        for name, v in bound:
            if isinstance(v, T):
                for s in ss:
                    s.set(fid, name, v)
            else:
                nxt = []
                DF = self.modF(fo.module) if not fo.parent else None
                for s in ss:
                    if DF is not None:
                        s.frames.setdefault(DF.fid, {})
                        r = self.ev(v, s, DF)
                    else:
                        r = self.ev(v, s, F)
                    for s2, dv in r:
                        s2.set(fid, name, dv)
                        nxt.append(s2)
                ss = nxt
        if self.summarised(fo):
            out = []
            for s in ss:
                env = s.frames[fid]
                rest = s.fork()
                del rest.frames[fid]
                rs = self.apply_summary(fo, env, s, rest, F, node, cid)
                if rs is None:
                    out = None
                    break
                out.extend(rs)
            if out is not None:
                return self.dedupe_ret(out) if len(out) > 1 else out
        return self.run_fn(fo, ss, G, F, node)

    def cut_call(self, h, fo, bound, st, F, node):
        st = st.fork()
        b = {}
        for name, v in bound:
            if not isinstance(v, T):
                DF = self.modF(fo.module)
                st.frames.setdefault(DF.fid, {})
                r = self.ev(v, st, DF)
                if len(r) != 1:
                    self.note("default of a cut call")
                st, v = r[0]
            b[name] = v
        return h(self, st, b, F, node)

    def run_fn(self, fo, ss, G, F, node):
        n, fid = fo.node, G.fid
        self.emit("on_enter", self, ss, fo, G, F, node)
        self.active.append(n)
        self.stack.append((fo, F, node))
        try:
            if isinstance(n, ast.Lambda):
                res = []
                for s in ss:
                    res.extend(self.ev(n.body, s, G))
            else:
                isgen = is_generator(n)
                if isgen:
                    G.gen = "$yield"
                    for s in ss:
                        l = self.alloc(s, Lst("list", ()), (self.site(F, node), "gen"))
                        s.set(fid, "$yield", l)
                end = self.exec_block(n.body, ss, G)
                if isgen:
                    res = [(s, s.get(fid, "$yield")) for s in end + [a for a, _ in G.returns]]
                else:
                    res = [(s, NONE) for s in end] + G.returns
        finally:
            self.active.pop()
            self.stack.pop()
        keep = has_closure(n)
        out = []
        for s, v in res:
            if not keep or not self.escapes(s, v, fid):
                s.frames.pop(fid, None)
            out.append((s, self.norm_val(s, v)))
        out = self.dedupe_ret(out)
        self.emit("on_return", self, out, fo, G, F, node)
        return out

    def escapes(self, st, v, fid):
        """is a function defined in this frame still reachable after the frame's function returned?"""
        if self.holds(v, fid):
            return True
        for f, d in st.frames.items():
            if f != fid and any(self.holds(x, fid) for x in d.values()):
                return True
        for o in st.heap.values():
            if isinstance(o, Inst):
                if any(self.holds(x, fid) for x in o.attrs.values()):
                    return True
            elif o is not None:
                if any(self.holds(x, fid) for x in o.segs) or (isinstance(o.extra, T) and self.holds(o.extra, fid)):
                    return True
        return False

    def holds(self, t, fid):
        return isinstance(t, T) and fid in closures(t)

    # function summaries -------------------------------------------------
    def summarised(self, fo):
        """Module level functions with loops or many calls are analysed once per
        shape of their arguments, with parameters for the values."""
        n = fo.node
        r = self.sum_ok.get(n)
        if r is None:
            r = False
            if isinstance(n, ast.FunctionDef) and not fo.parent and not is_generator(n):
                loops = sum(isinstance(x, (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp,
                                           ast.GeneratorExp)) for x in ast.walk(n))
                calls = sum(isinstance(x, ast.Call) for x in ast.walk(n))
                stat = fo.owner is None or "staticmethod" in self.deco_names(fo.owner, n) or (
                    "classmethod" in self.deco_names(fo.owner, n))
                r = bool(stat and (loops or calls >= 4))
            self.sum_ok[n] = r
        return r and self.summaries_on

    def apply_summary(self, fo, env, st, rest, F, node, cid):
        m = {}          # symbol -> actual value
        rev = {}
        init = {}       # facts known about the symbols
        slots = {}      # actual heap id -> canonical id
        heap = {}
        own = set()

        def leaf(v):
            s = rev.get(v)
            if s is None:
                t = models.ty(self, st, v)
                t = t if isinstance(t, str) else "?"
                nn = self.isnone(st, v)
                t = models.base_ty(t)
                if nn is not False:
                    t += "?"
                s = In(f"${fo.name}{len(rev)}", t)
                rev[v] = s
                m[s] = v
                if t in ("float", "int", "num") and self.sign(st, v) == "+":
                    init[mk("pos", s)] = True
                f = self.fact(st, mk("truthy", v))
                if f is not None:
                    init[mk("truthy", s)] = f
            return s

        def literal(v):
            for x in subterms(v):
                if x.op in ("k", "kend", "kbrk", "many"):
                    own.add(x.args[0])
                elif x.op == "kany":
                    if isinstance(x.args[0][0], tuple):
                        own.add(x.args[0][0])
                elif x.op == "phi":
                    own.add(x)
            rs = {a: canon(a) for a in atoms(v) if a.op == "ref"}
            return subst(v, rs) if rs else v

        def canon(v):
            i = v.args[0]
            c = slots.get(i)
            if c is None:
                c = (("arg", len(slots)), 0)
                slots[i] = c
                m[ref(c)] = v
                o = st.heap.get(i)
                if isinstance(o, Inst):
                    heap[c] = Inst(o.cls, {k: gen(x) for k, x in o.attrs.items()}, o.site)
                elif o is not None:
                    heap[c] = Lst(o.kind, [genseg(x) for x in o.segs], gen(o.extra))
            return ref(c)

        def genseg(x):
            if x.op in ("e", "spread"):
                return mk(x.op, gen(x.args[0]))
            return literal(x)

        def gen(v):
            op = v.op
            if op in ("c", "cls", "ext", "mod", "enum"):
                return v
            if op == "ref":
                return canon(v)
            if op == "obj":
                return mk("obj", v.args[0], tuple((k, gen(x)) for k, x in v.args[1]), *v.args[2:])
            if op == "tup":
                return tup([gen(x) for x in v.args])
            if op == "lst":
                return mk("lst", tuple(genseg(x) for x in v.args[0]), *v.args[1:])
            if op == "app" and v.args[0] == "NewEdge":
                return app("NewEdge", *[gen(x) for x in v.args[1:]])
            if op in ("in", "idx", "attr", "app", "poly", "k", "kend", "slice", "phi") and not has_ref(v):
                return leaf(v)
            return literal(v)

        args = tuple((k, gen(v)) for k, v in env.items())
        hk = tuple((c, o.cls, tuple(o.attrs.items()), o.site) if isinstance(o, Inst) else
                   (c, o.kind, o.segs, o.extra) for c, o in heap.items())
        key = (fo, args, hk, frozenset(init.items()), self.trytypes[-1])
        sm = self.summaries.get(key)
        if sm is None:
            if key in self.sum_active:
                return None
            self.sum_active.add(key)
            n = len(self.summaries) + len(self.sum_active)
            fid = ("f", ("S", n), fo.name)
            live = self.live_cache.get(fo.node)
            G = Fr(fid, fo.module, fo, ("S", n), (), live or None)
            G.cls = fo.owner
            s0 = State()
            s0.frames[fid] = dict(args)
            s0.frames[("sum", n)] = {f"a{i}": ref(c) for i, c in enumerate(slots.values())}
            s0.heap = dict(heap)
            s0.facts = dict(init)
            self.handlers.append([])
            self.stats["summaries"] = self.stats.get("summaries", 0) + 1
            try:
                rs = self.run_fn(fo, [s0], G, Fr(("sum", n), F.module, F.fn, ("S", n), (), None), node)
            finally:
                ex = self.handlers.pop()
                self.sum_active.discard(key)
            for s, _v in rs + ex:
                s.frames.pop(("sum", n), None)
            if has_closure(fo.node) and any(fid in s.frames or self.holds(v, fid) for s, v in rs):
                self.sum_ok[fo.node] = False        # a function defined inside escapes
                return None
            sm = self.summaries[key] = (rs, self.dedupe_exc(ex))
        out = []
        for s, v in sm[0]:
            out.extend(self.inst_outcome(s, v, heap, init, m, own, rest, cid))
        ex = []
        for s, v in sm[1]:
            ex.extend(self.inst_outcome(s, v, heap, init, m, own, rest, cid))
        h = self.handlers[-1]
        h.extend(ex)
        if len(h) > 12:
            h[:] = self.dedupe_exc(h)
        return out

    def inst_outcome(self, s, v, heap, init, m, own, rest, cid):
        r = rest.fork()
        m = dict(m)
        memo = {}
        new = []
        for i, o in s.heap.items():
            if i in heap:
                continue
            site = ("@", cid, i[0])
            n = 0
            while (site, n) in r.heap:
                n += 1
            r.heap[(site, n)] = None
            m[ref(i)] = ref((site, n))
            new.append((i, (site, n)))
        memo = self.inst_memo.setdefault((cid, frozenset(m.items()), frozenset(own)), memo)
        go = lambda t: instantiate(t, m, cid, own, memo)

        def copy_obj(o):
            if isinstance(o, Inst):
                return Inst(o.cls, {k: go(x) for k, x in o.attrs.items()}, o.site)
            segs = []
            for x in o.segs:
                x = go(x)
                if x.op == "spread" and x.args[0].op == "lst":
                    segs.extend(x.args[0].args[0])
                else:
                    segs.append(x)
            return Lst(o.kind, segs, go(o.extra))

        for i, j in new:
            r.heap[j] = copy_obj(s.heap[i])
        for i, o in heap.items():
            o2 = s.heap.get(i)
            if o2 is not None and not (o2 == o):
                r.heap[m[ref(i)].args[0]] = copy_obj(o2)
        r.frames["$sum"] = {"v": go(v)}
        if s.log:
            r.log = r.log + tuple(go(x) for x in s.log)
        for k, t in s.types.items():
            r.types[go(k)] = t
        for p, val in s.facts.items():
            if init.get(p) == val:
                continue
            q = go(p)
            k = self.decide(r, q)
            if k is None:
                r2 = self.assume(r, q, val)
                if r2 is None:
                    return []
                r = r2
            elif k != val:
                return []
        out = r.frames.pop("$sum")["v"]
        return [(r, out)]

    def decide(self, st, p):
        """truth of a proposition whose arguments may have become known"""
        if p.op == "not":
            k = self.decide(st, p.args[0])
            return None if k is None else not k
        r = None
        if p.op == "isnone":
            r = self.isnone(st, p.args[0])
        elif p.op == "truthy":
            r = self.truth(st, p.args[0])
        elif p.op == "nonempty":
            r = self.segs_truth(st, (p.args[0],))
        elif p.op == "and":
            ks = [self.decide(st, x) for x in p.args]
            r = False if False in ks else (True if all(k is True for k in ks) else None)
        elif p.op == "anyof":
            ks = [self.decide(st, x) for x in p.args]
            r = True if True in ks else (False if all(k is False for k in ks) else None)
        elif p.op == "isinst":
            r = models.isinst_names(self, p.args[0], p.args[1].split("|"), st)
        elif p.op == "eq":
            a, b = p.args
            if a is b:
                return True
            if a.op in ("c", "enum", "ext", "cls") and b.op in ("c", "enum", "ext", "cls"):
                return False
        if isinstance(r, bool):
            return r
        return self.fact(st, p)

    def norm_val(self, st, v):
        """int(v) and v are the same number on paths where v == int(v)."""
        if v.op == "app" and v.args[0] == "int" and len(v.args) == 2:
            if st.facts.get(self.zero(sub(v.args[1], v))) is True:
                return v.args[1]
        return v

    def dedupe_ret(self, rs):
        if len(rs) < 2:
            return rs
        for s, v in rs:
            s.frames["$ret"] = {"v": v}
        out = []
        for s in self.dedupe([s for s, _ in rs]):
            out.append((s, s.frames.pop("$ret")["v"]))
        return out

    def bind_args(self, fo, args, kw, st, F, node):
        a = fo.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = []
        kw = dict(kw)
        args = list(args)
        ndef = len(a.defaults)
        for i, name in enumerate(pos):
            if i < len(args):
                if name in kw:
                    kw.pop(name)
                out.append((name, args[i]))
            elif name in kw:
                out.append((name, kw.pop(name)))
            else:
                j = i - (len(pos) - ndef)
                if j >= 0:
                    out.append((name, a.defaults[j]))
                elif "**" in kw:
                    out.append((name, mk("phi", ("kwarg", name))))
                else:
                    self.throw(st, mk("exc", "TypeError"), F, node)
                    self.note(f"missing argument {fo.name}.{name}")
                    return None
        extra = args[len(pos):]
        if a.vararg:
            out.append((a.vararg.arg, tup(extra)))
        elif extra:
            self.throw(st, mk("exc", "TypeError"), F, node)
            self.note(f"too many arguments {fo.name}")
            return None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                out.append((x.arg, kw.pop(x.arg)))
            elif d is not None:
                out.append((x.arg, d))
            else:
                self.throw(st, mk("exc", "TypeError"), F, node)
                return None
        if a.kwarg:
            kw.pop("**", None)
            l = self.new_list(st, [E(tup([C(k), v])) for k, v in kw.items()], F, node, "dict")
            out.append((a.kwarg.arg, l))
        elif kw and not (set(kw) <= {"**"}):
            self.throw(st, mk("exc", "TypeError"), F, node)
            self.note(f"unexpected keyword {fo.name}: {sorted(kw)}")
            return None
        return out

    def instantiate(self, cls, args, kw, st, F, node):
        if cls.is_enum:
            return [(st, app("enum_lookup", C(cls.name), *[self.freeze(st, x) for x in args]))]
        st = st.fork()
        site = (F.module.rel, getattr(node, "lineno", 0), F.fn.name if F.fn else "")
        # alternative constructors: the site is where they are called
        if F.fn is not None and F.fn.owner is not None and F.fn.owner in cls.mro:
            for fo, G, call in reversed(self.stack):
                if fo.owner is None or fo.owner not in cls.mro:
                    break
                site = (G.module.rel, getattr(call, "lineno", 0), G.fn.name if G.fn else "")
        r = self.alloc(st, Inst(cls, {}, site), (self.site(F, node), "inst", cls.name))
        hk = f"$n{getattr(node, 'lineno', 0)}.{getattr(node, 'col_offset', 0)}.{cls.name}"
        st.set(F.fid, hk, r)
        init = self.class_attr(st, cls, "__init__")
        out = []
        if init and not (cls.is_dc and not any("__init__" in c.methods for c in cls.mro)):
            c, _, n = init
            for s, _v in self.call_fn(FnObj(n, c.module, c), [r] + list(args), kw, st, F, node):
                out.append((s, r))
        elif cls.is_dc:
            out = self.dc_init(cls, r, args, kw, st, F, node)
        else:
            for b in (b for c in cls.mro for b in c.bases):
                if b.op == "ext" and not b.args[0].startswith(("abc.", "typing.")):
                    st.heap[r.args[0]] = st.heap[r.args[0]].set("$args", tup([self.freeze(st, x) for x in args]))
            out = [(st, r)]
        for s, v in out:
            self.drop(s, F, [hk])
            self.emit("on_new", self, s, cls, v, F, node)
        return out

    def dc_fields(self, cls):
        fields = {}
        for c in reversed(cls.mro):
            for name, ann, val in c.annots:
                fields[name] = (c, val)
        return fields

    def dc_init(self, cls, r, args, kw, st, F, node):
        fields = self.dc_fields(cls)
        pos, kwonly, noinit, defaults = [], [], [], {}
        for name, (c, val) in fields.items():
            opt = {}
            if isinstance(val, ast.Call):
                fn = val.func
                if (isinstance(fn, ast.Name) and fn.id == "field") or (isinstance(fn, ast.Attribute) and fn.attr == "field"):
                    opt = {k.arg: k.value for k in val.keywords}
                    if "default" in opt:
                        defaults[name] = (c, opt["default"])
                    elif "default_factory" in opt:
                        defaults[name] = (c, ast.copy_location(ast.Call(opt["default_factory"], [], []), val))
                else:
                    defaults[name] = (c, val)
            elif val is not None:
                defaults[name] = (c, val)
            is_ = lambda k: isinstance(opt.get(k), ast.Constant) and opt[k].value
            if "init" in opt and not is_("init"):
                noinit.append(name)
            elif is_("kw_only"):
                kwonly.append(name)
            else:
                pos.append(name)
        vals = {}
        kw = dict(kw)
        for name, v in zip(pos, args):
            vals[name] = v
        if len(args) > len(pos):
            self.throw(st, mk("exc", "TypeError"), F, node)
            return []
        for k in list(kw):
            if k in pos or k in kwonly:
                vals[k] = kw.pop(k)
        if kw and "**" not in kw:
            self.throw(st, mk("exc", "TypeError"), F, node)
            self.note(f"unexpected dataclass keyword {cls.name}: {sorted(kw)}")
            return []
        for name in fields:
            if name not in vals:
                if name in defaults:
                    c, ex = defaults[name]
                    for s, v in self.eval_in_class(c, ex, st)[:1]:
                        st = s
                        vals[name] = v
                elif name in noinit:
                    continue
                else:
                    self.throw(st, mk("exc", "TypeError"), F, node)
                    self.note(f"missing dataclass argument {cls.name}.{name}")
                    return []
        for name in fields:
            if name in vals:
                st.heap[r.args[0]] = st.heap[r.args[0]].set(name, vals[name])
        post = self.class_attr(st, cls, "__post_init__")
        if post:
            c, _, n = post
            return [(s, r) for s, _ in self.call_fn(FnObj(n, c.module, c), [r], {}, st, F, node)]
        return [(st, r)]

    # ------------------------------------------------------------- expressions
    def ev(self, node, st, F):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            self.note("expr " + type(node).__name__)
            return [(st, TOP)]
        return m(node, st, F)

    def ev_many(self, nodes, st, F):
        res = [(st, [])]
        keys = []
        for j, n in enumerate(nodes):
            nxt = []
            k = f"$m{getattr(n, 'lineno', 0)}.{getattr(n, 'col_offset', 0)}.{j}"
            held = False
            for s, vs in res:
                for s2, v in self.ev(n, s, F):
                    if j + 1 < len(nodes):
                        held = self.hold(s2, F, k, v) or held
                    nxt.append((s2, vs + [v]))
            if held:
                keys.append(k)
            res = nxt
        if keys:
            for s, _ in res:
                self.drop(s, F, keys)
        return res

    def cond(self, node, st, F):
        """evaluate as a condition -> [(state, bool)] with short circuit"""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            out = []
            cur = [st]
            for i, v in enumerate(node.values):
                nxt = []
                for s in cur:
                    for s2, b in self.cond(v, s, F):
                        if b == is_and:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out + [(s, is_and) for s in cur]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.cond(node.operand, st, F)]
        out = []
        for s, v in self.ev(node, st, F):
            out.extend(self.branch(s, v))
        return out

    def e_Constant(self, n, st, F):
        v = n.value
        if isinstance(v, (int, float, str, bool, type(None), bytes)):
            return [(st, C(v))]
        return [(st, TOP)]

    def e_Name(self, n, st, F):
        v = self.lookup(st, F, n.id)
        if v is None:
            self.note(f"unbound name {n.id}")
            return [(st, mk("phi", ("unbound", n.id)))]
        return [(st, v)]

    def e_Attribute(self, n, st, F):
        out = []
        for s, v in self.ev(n.value, st, F):
            out.extend(self.getattr(v, n.attr, s, F, n))
        return out

    def e_Tuple(self, n, st, F):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return [(s, self.freeze_tuple(s, segs)) for s, segs in self.ev_segs(n.elts, st, F)]
        return [(s, tup(vs)) for s, vs in self.ev_many(n.elts, st, F)]

    def freeze_tuple(self, st, segs):
        if all(s.op == "e" for s in segs):
            return tup([s.args[0] for s in segs])
        return mk("lst", tuple(segs), "tuple")

    def ev_segs(self, elts, st, F):
        res = [(st, ())]
        if not elts:
            return res
        k = f"$s{elts[0].lineno}.{elts[0].col_offset}"
        for e in elts:
            for s, segs in res:
                self.hold(s, F, k, mk("lst", segs, "list"))
            nxt = []
            for s, segs in res:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, F):
                        g = self.segs_of(s2, v)
                        nxt.append((s2, segs + tuple(g if g is not None else (mk("spread", v),))))
                else:
                    for s2, v in self.ev(e, s, F):
                        nxt.append((s2, segs + (E(v),)))
            res = nxt
        for s, _ in res:
            self.drop(s, F, [k])
        return res

    def e_List(self, n, st, F):
        out = []
        for s, segs in self.ev_segs(n.elts, st, F):
            s = s.fork()
            out.append((s, self.new_list(s, segs, F, n)))
        return out

    def e_Set(self, n, st, F):
        out = []
        for s, segs in self.ev_segs(n.elts, st, F):
            s = s.fork()
            out.append((s, self.new_list(s, segs, F, n, "set")))
        return out

    def e_Dict(self, n, st, F):
        res = [(st, ())]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, segs in res:
                if k is None:
                    for s2, d in self.ev(v, s, F):
                        g = self.segs_of(s2, d)
                        nxt.append((s2, segs + tuple(g or ())))
                else:
                    for s2, (kk, vv) in ((a, b) for a, b in self.ev_many([k, v], s, F)):
                        nxt.append((s2, segs + (E(tup([kk, vv])),)))
            res = nxt
        out = []
        for s, segs in res:
            s = s.fork()
            out.append((s, self.new_list(s, segs, F, n, "dict")))
        return out

    def e_JoinedStr(self, n, st, F):
        res = [(st, [])]
        for v in n.values:
            nxt = []
            for s, parts in res:
                if isinstance(v, ast.Constant):
                    nxt.append((s, parts + [C(str(v.value))]))
                else:
                    for s2, x in self.ev(v.value, s, F):
                        if v.conversion == 114:
                            rr = models.to_repr(self, x, s2, F, v)
                        elif v.format_spec is not None:
                            spec = ast.unparse(v.format_spec)
                            rr = [(s2, app("format", self.freeze(s2, x), C(spec)))]
                        else:
                            rr = models.to_str(self, x, s2, F, v)
                        for s3, t in rr:
                            nxt.append((s3, parts + [t]))
            res = nxt
        return [(s, strcat(p)) for s, p in res]

    def e_FormattedValue(self, n, st, F):
        out = []
        for s, x in self.ev(n.value, st, F):
            out.extend(models.to_str(self, x, s, F, n))
        return out

    def e_NamedExpr(self, n, st, F):
        out = []
        for s, v in self.ev(n.value, st, F):
            s = s.fork()
            s.set(F.fid, n.target.id, v)
            out.append((s, v))
        return out

    def e_Lambda(self, n, st, F):
        return [(st, mk("fn", FnObj(n, F.module, None, (F.fid,) + F.parents), NONE))]

    def e_IfExp(self, n, st, F):
        out = []
        for s, b in self.cond(n.test, st, F):
            for s2, v in self.ev(n.body if b else n.orelse, s, F):
                out.append((s2, self.norm_val(s2, v)))
        return out

    def e_BoolOp(self, n, st, F):
        is_and = isinstance(n.op, ast.And)
        out = []
        cur = [st]
        for i, v in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in cur:
                for s2, x in self.ev(v, s, F):
                    if last:
                        out.append((s2, x))
                        continue
                    for s3, b in self.branch(s2, x):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            out.append((s3, x if x.op != "prop" else C(b)))
            cur = nxt
        return out

    def e_UnaryOp(self, n, st, F):
        if isinstance(n.op, ast.Not):
            return [(s, C(not b)) for s, b in self.cond(n.operand, st, F)]
        out = []
        for s, v in self.ev(n.operand, st, F):
            if isinstance(n.op, ast.USub):
                if models.ty(self, s, v) == "Vector" or (v.op == "app" and v.args[0] == "Vec"):
                    out.append((s, models.vec_map(v, neg)))
                elif is_scalar(v):
                    out.append((s, neg(v)))
                elif v is NONE:
                    self.throw(s, mk("exc", "TypeError"), F, n)
                else:
                    out.append((s, app("neg", self.freeze(s, v))))
            elif isinstance(n.op, ast.UAdd):
                out.append((s, v))
            else:
                out.append((s, app("~", v)))
        return out

    def e_BinOp(self, n, st, F):
        out = []
        for s, (a, b) in self.ev_many([n.left, n.right], st, F):
            out.extend(self.binop(n.op, a, b, s, F, n))
        return out

    def binop(self, op, a, b, st, F, node):
        if a is NONE or b is NONE:
            self.throw(st, mk("exc", "TypeError"), F, node)
            return []
        if isinstance(op, ast.BitOr) and a.op in ("cls", "ext", "union") or b.op == "ext" and isinstance(op, ast.BitOr):
            ua = a.args if a.op == "union" else (a,)
            ub = b.args if b.op == "union" else (b,)
            return [(st, mk("union", *ua, *ub))]
        # strings
        if a.op == "str" or (a.op == "c" and isinstance(cval(a), str)):
            if isinstance(op, ast.Add):
                return [(st, strcat([a, b]))]
            if isinstance(op, ast.Mod):
                return [(st, app("%", a, self.freeze(st, b)))]
        oa, ob = self.deref(st, a), self.deref(st, b)
        seqa = (isinstance(oa, Lst) and oa.kind in ("list", "set")) or a.op in ("lst", "tup")
        seqb = (isinstance(ob, Lst) and ob.kind in ("list", "set")) or b.op in ("lst", "tup")
        if isinstance(op, ast.Add) and (seqa or seqb or models.is_seq_type(models.ty(self, st, a)) or models.is_seq_type(models.ty(self, st, b))):
            sa, sb = self.segs_of(st, a), self.segs_of(st, b)
            if sa is not None and sb is not None:
                if a.op == "tup" and b.op == "tup":
                    return [(st, tup(a.args + b.args))]
                st = st.fork()
                return [(st, self.new_list(st, sa + sb, F, node))]
        if isinstance(op, ast.Mult) and (seqa or seqb):
            l, k = (a, b) if seqa else (b, a)
            segs = self.segs_of(st, l)
            st = st.fork()
            if is_num_const(k) and 0 <= cval(k) <= 8:
                return [(st, self.new_list(st, segs * int(cval(k)), F, node))]
            v = mk("spread", app("repeat", self.freeze(st, l), k))
            return [(st, self.new_list(st, [v], F, node))]
        if isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)) and isinstance(oa, Lst) and oa.kind == "set":
            st = st.fork()
            return [(st, self.new_list(st, [mk("spread", app("set" + type(op).__name__, self.freeze(st, a), self.freeze(st, b)))], F, node, "set"))]
        # repo operator overloads
        ca = self.cls_of(st, a)
        dunder = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}.get(type(op))
        if ca is not None and a.op != "enum" and dunder and self.class_attr(st, ca, dunder):
            out = []
            for s, m in self.getattr(a, dunder, st, F, node):
                out.extend(self.call(m, [b], {}, s, F, node))
            return out
        # vectors
        va, vb = models.is_vec(self, st, a), models.is_vec(self, st, b)
        if va or vb:
            return [(st, models.vec_binop(op, a, b, va, vb))]
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if isinstance(op, ast.Add):
            return [(st, add(fa, fb))]
        if isinstance(op, ast.Sub):
            return [(st, sub(fa, fb))]
        if isinstance(op, ast.Mult):
            return [(st, mul(fa, fb))]
        if isinstance(op, ast.Div):
            return [(st, div(fa, fb))]
        if isinstance(op, ast.Pow):
            return [(st, power(fa, fb))]
        name = {ast.FloorDiv: "//", ast.Mod: "%", ast.BitOr: "|", ast.BitAnd: "&", ast.LShift: "<<",
                ast.RShift: ">>", ast.MatMult: "@", ast.BitXor: "^"}.get(type(op), "?")
        if is_num_const(fa) and is_num_const(fb) and cval(fb):
            if name == "//":
                return [(st, C(cval(fa) // cval(fb)))]
            if name == "%":
                return [(st, C(cval(fa) % cval(fb)))]
        return [(st, app(name, fa, fb))]

    def e_Compare(self, n, st, F):
        res = []
        cur = [(st, None)]
        lefts = [(st, v) for st, v in self.ev(n.left, st, F)]
        # evaluate operands in order, short circuiting
        states = [(s, v) for s, v in lefts]
        if len(n.ops) == 1:
            out = []
            for s, l in states:
                for s2, r in self.ev(n.comparators[0], s, F):
                    out.extend(self.compare(n.ops[0], l, r, s2, F, n))
            return out
        out = []
        for i, (op, cmp_) in enumerate(zip(n.ops, n.comparators)):
            nxt = []
            for s, l in states:
                for s2, r in self.ev(cmp_, s, F):
                    for s3, c in self.compare(op, l, r, s2, F, n):
                        for s4, b in self.branch(s3, c):
                            if b:
                                nxt.append((s4, r))
                            else:
                                out.append((s4, FALSE))
            states = nxt
        return out + [(s, TRUE) for s, _ in states]

    def prop(self, st, p, negate=False):
        f = self.fact(st, p)
        if f is not None:
            return C(f != negate)
        return mk("prop", mk("not", p) if negate else p)

    def compare(self, op, a, b, st, F, node):
        self.emit("on_compare", self, st, op, a, b, F, node)
        if isinstance(op, (ast.Is, ast.IsNot)):
            ng = isinstance(op, ast.IsNot)
            if b is NONE or a is NONE:
                x = a if b is NONE else b
                r = self.isnone(st, x)
                if isinstance(r, bool):
                    return [(st, C(r != ng))]
                return [(st, self.prop(st, r, ng))]
            if a is b and a.op in ("c", "enum", "ref", "cls", "fn"):
                return [(st, C(not ng))]
            if a.op in ("enum", "ref", "cls") and b.op == a.op:
                return [(st, C(ng))]
            return [(st, self.prop(st, mk("is", *sorted((self.freeze(st, a), self.freeze(st, b)), key=lambda t: t.n)), ng))]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            return self.eq(a, b, st, F, node, isinstance(op, ast.NotEq))
        if isinstance(op, (ast.In, ast.NotIn)):
            return self.contains(a, b, st, F, node, isinstance(op, ast.NotIn))
        # orderings
        if a is NONE or b is NONE:
            self.throw(st, mk("exc", "TypeError"), F, node)
            return []
        if is_scalar(a) and is_scalar(b):
            if isinstance(op, ast.Lt):
                p, ng = mk("pos", sub(b, a)), False
            elif isinstance(op, ast.Gt):
                p, ng = mk("pos", sub(a, b)), False
            elif isinstance(op, ast.LtE):
                p, ng = mk("pos", sub(a, b)), True
            else:
                p, ng = mk("pos", sub(b, a)), True
            return [(st, self.prop(st, p, ng))]
        name = type(op).__name__
        return [(st, self.prop(st, mk("cmp", name, self.freeze(st, a), self.freeze(st, b))))]

    def eq(self, a, b, st, F, node, ng):
        if a is b and not (a.op == "c" and cval(a) != cval(a)):
            return [(st, C(not ng))]
        if self.same is not None:
            r = self.same(self.freeze(st, a), self.freeze(st, b))
            if r is not None:
                return [(st, C(r != ng))]
        for x, y in ((a, b), (b, a)):
            c = self.cls_of(st, x)
            if c is not None and x.op in ("ref", "obj") and self.class_attr(st, c, "__eq__"):
                out = []
                for s, m in self.getattr(x, "__eq__", st, F, node):
                    for s2, r in self.call(m, [y], {}, s, F, node):
                        for s3, bb in self.branch(s2, r):
                            out.append((s3, C(bb != ng)))
                return out
        if a.op == "c" and b.op == "c":
            return [(st, C((cval(a) == cval(b)) != ng))]
        if self.unroll and a.op == "ref" and b.op == "ref":
            # single objects, compared by identity
            ca, cb = self.cls_of(st, a), self.cls_of(st, b)
            if ca is not None and cb is not None and not ca.is_dc and not cb.is_dc:
                return [(st, C(ng))]
        if a is NONE or b is NONE:
            x = a if b is NONE else b
            r = self.isnone(st, x)
            if isinstance(r, bool):
                return [(st, C(r != ng))]
            return [(st, self.prop(st, r, ng))]
        if a.op == "enum" and b.op == "enum":
            if a.args[0] is b.args[0]:
                va = self.enum_attr(a, "value", st, F, node)[0][1]
                vb = self.enum_attr(b, "value", st, F, node)[0][1]
                if va.op == "c" and vb.op == "c":
                    return [(st, C((va is vb) != ng))]
            return [(st, C(ng))]
        if a.op == "str" and b.op == "c" or b.op == "str" and a.op == "c":
            s_, c_ = (a, b) if a.op == "str" else (b, a)
            lits = "".join(x.args[0] for x in s_.args if x.op == "c" and isinstance(x.args[0], str))
            if isinstance(cval(c_), str) and (len(lits) > len(cval(c_)) or not all(ch in cval(c_) for ch in lits)):
                return [(st, C(ng))]
            return [(st, self.prop(st, mk("eq", s_, c_), ng))]
        if a.op == "tup" and b.op == "tup":
            if len(a.args) != len(b.args):
                return [(st, C(ng))]
        if a.op in ("cls", "fn", "mod") and b.op in ("cls", "fn", "mod"):
            return [(st, C(ng))]
        if is_scalar(a) and is_scalar(b) and (models.numeric(self, st, a) or models.numeric(self, st, b)):
            return [(st, self.prop(st, self.zero(sub(a, b)), ng))]
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if fa is fb:
            return [(st, C(not ng))]
        p = mk("eq", *sorted((fa, fb), key=lambda t: t.n))
        # one symbol compared with two different constants
        f = self.fact(st, p)
        if f is None:
            for x, y in ((fa, fb), (fb, fa)):
                if y.op in ("c", "enum"):
                    for q, val in st.facts.items():
                        if q.op == "eq" and val and x in q.args:
                            o = q.args[0] if q.args[1] is x else q.args[1]
                            if o.op == y.op and o is not y:
                                return [(st, C(ng))]
        return [(st, self.prop(st, p, ng))]

    def contains(self, a, b, st, F, node, ng):
        segs = None
        if b.op == "c" and isinstance(cval(b), str):
            if a.op == "c" and isinstance(cval(a), str):
                return [(st, C((cval(a) in cval(b)) != ng))]
        else:
            segs = self.segs_of(st, b)
        if segs is not None and all(s.op == "e" for s in segs):
            o = self.deref(st, b)
            vals = [s.args[0] for s in segs]
            if isinstance(o, Lst) and o.kind == "dict":
                vals = [idx(v, ZERO) for v in vals]
            cur = [st]
            out = []
            for v in vals:
                nxt = []
                for s in cur:
                    for s2, r in self.eq(a, v, s, F, node, False):
                        for s3, bb in self.branch(s2, r):
                            if bb:
                                out.append((s3, C(not ng)))
                            else:
                                nxt.append(s3)
                cur = nxt
            return out + [(s, C(ng)) for s in cur]
        return [(st, self.prop(st, mk("in", self.freeze(st, a), self.freeze(st, b)) if False else
                               mk("member", self.freeze(st, a), self.freeze(st, b)), ng))]

    def isinstance(self, v, c, st):
        r = models.isinstance_(self, v, c, st)
        if isinstance(r, bool):
            return [(st, C(r))]
        return [(st, self.prop(st, r))]

    def ev_index(self, n, st, F):
        if isinstance(n, ast.Slice):
            nodes = [n.lower, n.upper, n.step]
            res = [(st, [])]
            for x in nodes:
                nxt = []
                for s, vs in res:
                    if x is None:
                        nxt.append((s, vs + [NONE]))
                    else:
                        for s2, v in self.ev(x, s, F):
                            nxt.append((s2, vs + [v]))
                res = nxt
            return [(s, mk("sl", *vs)) for s, vs in res]
        return self.ev(n, st, F)

    def e_Slice(self, n, st, F):
        return self.ev_index(n, st, F)

    def e_Subscript(self, n, st, F):
        out = []
        for s, v in self.ev(n.value, st, F):
            for s2, i in self.ev_index(n.slice, s, F):
                out.extend(self.subscript(v, i, s2, F, n))
        return out

    def subscript(self, v, i, st, F, node):
        if v.op in ("cls", "ext") :
            if v.op == "cls" and v.args[0].is_enum and i.op == "c":
                return [(st, mk("enum", v.args[0], cval(i)))]
            return [(st, v if v.op == "cls" else mk("ext", v.args[0]))]
        if v is NONE:
            self.throw(st, mk("exc", "TypeError"), F, node)
            return []
        o = self.deref(st, v)
        if isinstance(o, Lst) and o.kind == "dict":
            return models.dict_get(self, v, i, st, F, node, NONE, raising=True)
        if isinstance(o, Inst):
            if self.class_attr(st, o.cls, "__getitem__"):
                out = []
                for s, m in self.getattr(v, "__getitem__", st, F, node):
                    out.extend(self.call(m, [i], {}, s, F, node))
                return out
            return [(st, mk("phi", ("getitem",)))]
        segs = self.segs_of(st, v)
        if i.op == "sl":
            return self.slice_value(v, segs, i, st, F, node)
        if segs is not None and (isinstance(o, Lst) or v.op in ("lst", "tup")):
            return self.index_segs(st, v, segs, i, F, node)
        if is_scalar(v) and models.ty(self, st, v) in models.SCALARS:
            self.throw(st, mk("exc", "TypeError"), F, node)
            return []
        self.emit("on_index", self, st, v, i, F, node)
        return [(st, idx(v, i))]

    def index_segs(self, st, v, segs, i, F, node):
        if not is_num_const(i) or isinstance(cval(i), float):
            if len(segs) == 1 and segs[0].op != "e":
                r = self.seg_elem(segs[0], i) if segs[0].op != "many" or map_like(segs[0]) is not None else None
                if r and len(r) == 1:
                    return [(st, r[0][0])]
            return [(st, app("pick", self.freeze(st, v), i))]
        n = int(cval(i))
        seq = list(segs)
        if not seq:
            self.throw(st, mk("exc", "IndexError"), F, node)
            return []
        if n >= 0:
            for j, s in enumerate(seq):
                if s.op == "e":
                    if n == 0:
                        return [(st, s.args[0])]
                    n -= 1
                elif s.op == "spread" and (len(seq) == 1 or n == 0):
                    return [(st, idx(s.args[0], C(n)))]
                elif s.op == "spread" and s.args[0].op == "slice" and s.args[0].args[2] is NONE:
                    return [(st, idx(s.args[0], C(n)))]
                else:
                    if n == 0:
                        return self.ends_of(st, seq[j:], True, F, node)
                    vv = map_like(s)
                    if vv is not None and j == len(seq) - 1:
                        return [(st, subst(vv, {many_bound(s): C(n)}))]
                    return [(st, app("pick", self.freeze(st, v), i))]
            self.throw(st, mk("exc", "IndexError"), F, node)
            return []
        for j in range(len(seq) - 1, -1, -1):
            s = seq[j]
            if s.op == "e":
                if n == -1:
                    return [(st, s.args[0])]
                n += 1
            elif n == -1:
                return self.ends_of(st, seq[: j + 1], False, F, node)
            elif s.op == "spread" and j == 0:
                return [(st, idx(s.args[0], C(n)))]
            else:
                vv = map_like(s)
                if vv is not None:
                    k = add(mk("kend", s.args[0], s.args[1]), C(n))
                    return [(st, subst(vv, {many_bound(s): k}))]
                return [(st, app("pick", self.freeze(st, v), i))]
        self.throw(st, mk("exc", "IndexError"), F, node)
        return []

    def ends_of(self, st, segs, front, F, node):
        """first / last element of a segment list: [(state, value)] (one state per alternative)"""
        alts, _ = self.end_values(segs, front)
        if not alts:
            self.throw(st, mk("exc", "IndexError"), F, node)
            return []
        out = []
        if len(alts) > MAX_ENDS:
            # too many to follow one by one: commands with the same end count as one
            groups = {}
            for v, g in alts.items():
                e = dict(v.args[1]).get("end") if v.op == "obj" else None
                groups.setdefault((v.args[0], e) if e is not None else v, []).append((v, g))
            if len(groups) < len(alts):
                alts = {}
                for vs in groups.values():
                    v0 = vs[0][0]
                    g0 = set(vs[0][1])
                    for _, g in vs[1:]:
                        g0 &= set(g)
                    if len(vs) > 1 and v0.op == "obj":
                        a = {}
                        for k, x in dict(v0.args[1]).items():
                            xs = {dict(v.args[1]).get(k) for v, _ in vs}
                            a[k] = x if len(xs) == 1 else mk("phi", ("joined", k, v0.args[2]))
                        v0 = mk("obj", v0.args[0], tuple(sorted(a.items())), *v0.args[2:])
                    alts[v0] = frozenset(g0)
        for v, g in alts.items():
            s = st
            for p, val in sorted(g, key=lambda z: z[0].n):
                s = self.assume(s, p, val)
                if s is None:
                    break
            if s is not None:
                out.append((s.fork() if s is st and len(alts) > 1 else s, v))
        return out

    def end_values(self, segs, front):
        """-> ({value: what holds when it is the end}, what holds when there is no element or None)"""
        order = list(segs) if front else list(reversed(segs))
        out = {}
        pre = frozenset()       # what holds when everything so far is empty

        def put(v, g):
            g = g | pre
            out[v] = (out[v] & g) if v in out else g
        for s in order:
            if s.op == "e":
                put(s.args[0], frozenset())
                return out, None
            if s.op == "spread":
                put(idx(s.args[0], ZERO if front else C(-1)), frozenset())
                return out, None
            if s.op == "unk":
                put(s.args[0], frozenset())
                return out, None
            if s.op == "alt":
                empty = None
                for a, g in sorted_alts(s.args[0]):
                    g = frozenset(g)
                    vals, eg = self.end_values(a, front)
                    for v, gv in vals.items():
                        put(v, gv | g)
                    if eg is not None:
                        empty = (eg | g) if empty is None else (empty & (eg | g))
                if empty is None:
                    return out, None
                pre = pre | empty
                continue
            if s.op == "rev":
                inner, _ = self.end_values((s.args[0],), not front)
                for v, g in inner.items():
                    put(v, frozenset())
                return out, None
            if s.op == "many":
                bound = many_bound(s)
                alts = s.args[2] if front else (s.args[2] | s.args[3])
                k = ZERO if front else sub(mk("kend", s.args[0], s.args[1]), C(1))
                empty = False
                vals = []
                for a, g in sorted_alts(alts):
                    vs, eg = self.end_values(a, front)
                    vals.extend(subst(v, {bound: k}) for v in vs)
                    empty = empty or eg is not None
                for v in vals:
                    put(v, frozenset())
                if not empty:
                    return out, None
                if front:
                    for a, g in sorted_alts(s.args[3]):
                        for v in self.end_values(a, front)[0]:
                            put(subst(v, {bound: mk("kany", (s.args[0], "front"))}), frozenset())
        return out, pre

    def slice_value(self, v, segs, sl, st, F, node):
        lo, hi, step = sl.args
        self.emit("on_slice", self, st, v, lo, hi, step, F, node)
        o = self.deref(st, v)
        heapy = isinstance(o, Lst) or v.op in ("lst", "tup")
        if step is not NONE and step is not C(1):
            if step is C(-1) and lo is NONE and hi is NONE and segs is not None:
                st = st.fork()
                return [(st, self.new_list(st, self.rev_segs(segs), F, node))]
            fz = self.freeze(st, v)
            return [(st, app("step_slice", fz, lo, hi, step))]
        if not heapy:
            if v.op == "c" and isinstance(cval(v), str):
                try:
                    return [(st, C(cval(v)[slice(*[None if x is NONE else cval(x) for x in (lo, hi)])]))]
                except Exception:
                    return [(st, app("slice", v, lo, hi))]
            return [(st, slice_(v, lo, hi))]
        st = st.fork()

        def ret(sg):
            if v.op == "tup" and all(x.op == "e" for x in sg):
                return [(st, tup([x.args[0] for x in sg]))]
            return [(st, self.new_list(st, sg, F, node))]
        if lo is NONE and hi is NONE:
            return ret(segs)
        if all(s.op == "e" for s in segs) and all(x is NONE or is_num_const(x) for x in (lo, hi)):
            return ret(segs[slice(*[None if x is NONE else int(cval(x)) for x in (lo, hi)])])
        # strip a constant number of elements from the front / back
        sg = list(segs)
        ok = True
        if lo is not NONE and not (is_num_const(lo) and cval(lo) >= 0):
            ok = False
        if hi is not NONE and not (is_num_const(hi) and cval(hi) < 0):
            ok = False
        if ok:
            n = 0 if lo is NONE else int(cval(lo))
            while n and sg:
                s = sg[0]
                if s.op == "e":
                    sg.pop(0)
                    n -= 1
                elif s.op == "spread":
                    sg[0] = mk("spread", slice_(s.args[0], C(n), NONE))
                    n = 0
                elif map_like(s) is not None and len(sg) == 1:
                    sg[0] = mk("spread", slice_(mk("lst", (s,), "list"), C(n), NONE))
                    n = 0
                else:
                    ok = False
                    break
            m = 0 if hi is NONE else -int(cval(hi))
            while ok and m and sg:
                s = sg[-1]
                if s.op == "e":
                    sg.pop()
                    m -= 1
                elif s.op == "spread":
                    sg[-1] = mk("spread", slice_(s.args[0], ZERO, C(-m)))
                    m = 0
                else:
                    ok = False
            if ok:
                return ret(tuple(sg))
        if len(segs) == 1 and segs[0].op == "spread":
            return ret((mk("spread", slice_(segs[0].args[0], lo, hi)),))
        fz = self.freeze(st, v)
        return ret((mk("spread", slice_(fz, lo, hi)),))

    # comprehensions ---------------------------------------------------
    def e_ListComp(self, n, st, F):
        return self.comp(n, st, F, "list")

    def e_SetComp(self, n, st, F):
        return self.comp(n, st, F, "set")

    def e_GeneratorExp(self, n, st, F):
        return self.comp(n, st, F, "list")

    def e_DictComp(self, n, st, F):
        return self.comp(n, st, F, "dict")

    def comp(self, n, st, F, kind):
        st = st.fork()
        cf = ("comp", self.ctxid(F, n))
        G = Fr(cf, F.module, F.fn, F.ctx, (F.fid,) + F.parents, None)
        G.cls = F.cls
        st.frames[cf] = {}
        res = self.new_list(st, (), F, n, kind)
        st.set(cf, "$res", res)

        def gen(i, states):
            if i == len(n.generators):
                out = []
                for s in states:
                    if kind == "dict":
                        for s2, (k, v) in self.ev_many([n.key, n.value], s, G):
                            r = s2.get(cf, "$res")
                            s2 = s2.fork()
                            o = self.deref(s2, r)
                            s2.heap[r.args[0]] = o.with_(o.segs + (E(tup([k, v])),))
                            out.append(s2)
                    else:
                        for s2, v in self.ev(n.elt, s, G):
                            s2 = s2.fork()
                            r = s2.get(cf, "$res")
                            o = self.deref(s2, r)
                            s2.heap[r.args[0]] = o.with_(o.segs + (E(v),))
                            out.append(s2)
                return out
            g = n.generators[i]

            def body(ss):
                for c in g.ifs:
                    nxt = []
                    for s in ss:
                        for s2, b in self.cond(c, s, G):
                            if b:
                                nxt.append(s2)
                            else:
                                G.loops[-1]["conts"].append(s2)
                    ss = nxt
                return gen(i + 1, ss)
            out = []
            for s in states:
                for s2, it in self.ev(g.iter, s, G):
                    out.extend(self.for_loop(g, it, s2, G,
                                             lambda x, v: self.assign(g.target, v, x, G, n), body))
            for s in out:
                keep = {k: v for k, v in s.frames[cf].items() if k.startswith("$") or i > 0 and k in _names_before(n, i)}
                s.frames[cf] = keep
            return self.dedupe(out)
        # give generators a position for loop keys
        for g in n.generators:
            if not hasattr(g, "lineno"):
                g.lineno, g.col_offset = g.target.lineno, g.target.col_offset
                g.orelse = []
        out = []
        for s in gen(0, [st]):
            r = s.get(cf, "$res")
            s.frames.pop(cf, None)
            out.append((s, r))
        return out

    # calls ------------------------------------------------------------
    def e_Call(self, n, st, F):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            slf = None
            fr = st.frames.get(F.fid, {})
            a = F.fn.node.args if F.fn else None
            if a and (a.posonlyargs + a.args):
                slf = fr.get((a.posonlyargs + a.args)[0].arg)
            if slf is not None and F.cls is not None:
                return [(st, mk("super", F.cls, slf))]
        out = []
        hk = f"$f{n.lineno}.{n.col_offset}.{n.end_lineno}.{n.end_col_offset}"
        for s, f in self.ev(n.func, st, F):
            if n.args or n.keywords:
                self.hold(s, F, hk, f)
            for s2, args, kw in self.ev_args(n, s, F, f):
                self.drop(s2, F, [hk])
                if f.op == "ext" and f.args[0] in ("builtins.locals", "builtins.globals"):
                    out.append((s2, app("ns")))
                    continue
                out.extend(self.call_node(f, args, kw, s2, F, n))
        if len(out) > 1:
            out = self.dedupe_ret(out)
        return out

    def call_node(self, f, args, kw, st, F, n):
        # frozen list receivers are mutated by rebinding
        if f.op == "meth" and f.args[0].op in ("lst",) and f.args[1] in models.LIST_MUTATORS and isinstance(
                n.func, ast.Attribute):
            st = st.fork()
            lst = f.args[0]
            r = self.new_list(st, lst.args[0], F, n, lst.args[1] if len(lst.args) > 1 else "list")
            self.rebind(st, n.func.value, r, F, n)
            return self.call(mk("meth", r, f.args[1]), args, kw, st, F, n)
        return self.call(f, args, kw, st, F, n)

    def ev_args(self, n, st, F, f):
        res = [(st, [], {})]
        hk = f"$a{n.lineno}.{n.col_offset}.{n.end_lineno}.{n.end_col_offset}"
        res = self.ev_args_(n, st, F, f, hk)
        for s, _, _ in res:
            self.drop(s, F, [hk])
        return res

    def ev_args_(self, n, st, F, f, hk):
        res = [(st, [], {})]
        for a in n.args:
            for s, args, kw in res:
                if args:
                    self.hold(s, F, hk, mk("held", *args))
            nxt = []
            for s, args, kw in res:
                if isinstance(a, ast.Starred):
                    for s2, v in self.ev(a.value, s, F):
                        segs = self.segs_of(s2, v)
                        if segs is not None and all(x.op == "e" for x in segs):
                            nxt.append((s2, args + [x.args[0] for x in segs], kw))
                        else:
                            k = self.star_arity(v, f, n, s2)
                            if k is None:
                                fz = self.freeze(s2, v)
                                nxt.append((s2, args + [mk("star", fz)], kw))
                            else:
                                nxt.append((s2, args + [idx(v, C(j)) for j in range(k)], kw))
                else:
                    for s2, v in self.ev(a, s, F):
                        nxt.append((s2, args + [v], kw))
            res = nxt
        for k in n.keywords:
            nxt = []
            for s, args, kw in res:
                if args or kw:
                    self.hold(s, F, hk, mk("held", *args, *kw.values()))
                for s2, v in self.ev(k.value, s, F):
                    kk = dict(kw)
                    if k.arg is None:
                        segs = self.segs_of(s2, v)
                        if segs is not None and all(x.op == "e" and x.args[0].op == "tup" for x in segs):
                            for x in segs:
                                key, val = x.args[0].args
                                kk[cval(key)] = val
                        else:
                            kk["**"] = v
                    else:
                        kk[k.arg] = v
                    nxt.append((s2, args, kk))
            res = nxt
        return res

    def star_arity(self, v, f, n, st):
        t = models.ty(self, st, v)
        if t == "Point":
            return 2
        if t == "Point3":
            return 3
        if f.op in ("fn", "cls"):
            return 2
        if f.op == "ext" and models.STAR_EXT.get(f.args[0]):
            return models.STAR_EXT[f.args[0]]
        return None

    def e_Yield(self, n, st, F):
        out = []
        vals = self.ev(n.value, st, F) if n.value is not None else [(st, NONE)]
        for s, v in vals:
            s = s.fork()
            r = s.get(F.fid, "$yield")
            if r is not None and self.deref(s, r) is not None:
                o = self.deref(s, r)
                s.heap[r.args[0]] = o.with_(o.segs + (E(v),))
            out.append((s, NONE))
        return out

    def e_YieldFrom(self, n, st, F):
        out = []
        for s, v in self.ev(n.value, st, F):
            s = s.fork()
            r = s.get(F.fid, "$yield")
            if r is not None:
                self.list_extend(s, r, v, F, n)
            out.append((s, NONE))
        return out

    def e_Await(self, n, st, F):
        return self.ev(n.value, st, F)

    def e_Starred(self, n, st, F):
        return self.ev(n.value, st, F)


# ---------------------------------------------------------------- helpers
def _subst_(t, m, memo):
    return subst(t, m, memo)


def replace_term(t, m, memo):
    """replace whole subterms (not only leaves)"""
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    hit = any(x in m for x in subterms(t))
    if not hit:
        memo[t] = t
        return t
    if t.op == "poly":
        r = t
    elif t.op == "app":
        r = app(*[replace_term(a, m, memo) if isinstance(a, T) else a for a in t.args])
    elif t.op in ("idx",):
        r = idx(*[replace_term(a, m, memo) for a in t.args])
    elif t.op == "attr":
        r = attr(replace_term(t.args[0], m, memo), t.args[1])
    elif t.op in ("many", "obj"):
        r = t
    else:
        r = mk(t.op, *[replace_term(a, m, memo) if isinstance(a, T) else a for a in t.args])
    memo[t] = r
    return r


def subst_any(v, K):
    """generic element of an unordered remainder"""
    return v


def loop_local(p):
    """mentions a value which only means something within one pass of a loop"""
    return any(a.op in ("k", "kend", "kbrk", "phi") for a in atoms(p))


def split_many(segs, key):
    if segs and segs[-1].op == "many" and segs[-1].args[0] == key:
        return tuple(segs[:-1]), segs[-1]
    return tuple(segs), None


def sorted_alts(alts):
    return sorted(alts, key=lambda a: (len(a[0]), tuple(x.n for x in a[0]), len(a[1])))


def mk_many(key, src, f, r):
    """normal form: alternatives which are instances of a more general one are dropped"""
    K = mk("k", key)
    d = {}
    rs = sorted_alts(r)
    gen = [(a, g) for a, g in rs if any(mentions(x, K) for x in a)]
    for a, g in rs:
        for b, gb in gen:
            if b is not a and len(a) == len(b) and any(
                    all(subst(y, {K: C(i)}) is x for x, y in zip(a, b)) for i in (1, 2)):
                break
        else:
            d[a] = g
    if len(d) < len(rs):
        r = frozenset(d.items())
    if gen:
        e = {}
        for a, g in sorted_alts(f):
            for b, gb in gen:
                if a and b in d and b != a and len(a) == len(b) and all(subst(y, {K: ZERO}) is subst(x, {K: ZERO}) for x, y in zip(a, b)):
                    e[b] = (e[b] & g) if b in e else g
                    break
            else:
                e[a] = g
        f = frozenset(e.items())
    return mk("many", key, src, f, r)


def shape(segs):
    out = []
    for s in segs:
        if s.op == "e":
            v = s.args[0]
            if v.op == "obj":
                out.append(("obj", v.args[0], v.args[2]))
            else:
                out.append(("e", v.op))
        elif s.op == "many":
            out.append(("many", s.args[0]))
        else:
            out.append((s.op,))
    return tuple(out)


MAX_ALTS = 8
KEPT = {"obj", "ref", "lst", "alt", "tup"}      # elements that are not generalised early


def alts_add(alts, alt, key, tag):
    segs, guards = alt
    d = {}
    for s, g in sorted_alts(alts):
        d[s] = g
    if segs in d:
        d[segs] = d[segs] & guards
    else:
        for s in d:
            if s and len(s) == len(segs) and all(x is y or x.op == "e" and y.op == "e" and x.args[0].op == "phi" and x.args[0].args[0][0] == "w"
                                                 for x, y in zip(s, segs)):
                d[s] = d[s] & guards        # a generalised alternative covers it
                return frozenset(d.items())
        sh = shape(segs)
        same = [s for s in d if shape(s) == sh]
        for s in same:
            if any(x.op == "e" and x.args[0].op in KEPT for x in s):
                continue            # objects stay apart until there are too many
            LGG_LOG.append([])
            covered = lgg_segs(s, segs, key, tag) == s
            log = LGG_LOG.pop()
            if covered:
                if LGG_LOG:
                    LGG_LOG[-1].extend(log)
                d[s] = d[s] & guards
                return frozenset(d.items())
        if len(same) >= 2:
            # widen: generalise the alternatives of the same shape
            cur, g = segs, guards
            for s in same:
                cur = lgg_segs(cur, s, key, tag)
                g = g & d.pop(s)
            d[cur] = (d[cur] & g) if cur in d else g
        else:
            d[segs] = guards
    return frozenset(d.items())


def lgg_segs(a, b, key, tag):
    out = []
    for i, (x, y) in enumerate(zip(a, b)):
        if x is y:
            out.append(x)
        elif x.op == "e" and y.op == "e":
            out.append(E(lgg(x.args[0], y.args[0], ("alt", key, tag), (i,))))
        elif x.op == "spread" and y.op == "spread":
            out.append(mk("spread", lgg(x.args[0], y.args[0], ("alt", key, tag), (i,))))
        elif x.op == "alt" and y.op == "alt":
            f = x.args[0]
            for z in sorted_alts(y.args[0]):
                f = alts_add(f, z, key, tag + "a")
            out.append(mk("alt", f))
        elif x.op == "many" and y.op == "many":
            f, r = x.args[2], x.args[3]
            for z in sorted_alts(y.args[2]):
                f = alts_add(f, z, key, tag + "f")
            for z in sorted_alts(y.args[3]):
                r = alts_add(r, z, key, tag + "r")
            sr = x.args[1] if x.args[1] is y.args[1] else lgg(x.args[1], y.args[1], ("alt", key, tag), (i, "src"))
            out.append(mk("many", x.args[0], sr, f, r))
        else:
            out.append(mk("unk", mk("phi", ("w", ("alt", key, tag), (i,)))))
    return tuple(out)


def has_ref(v):
    return any(a.op == "ref" for a in atoms(v))


def _as_load(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Load()
    return n


_gen_cache = {}


def is_generator(n):
    r = _gen_cache.get(n)
    if r is None:
        r = False
        stack = list(n.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        _gen_cache[n] = r
    return r


_clo_cache = {}


_closures = {}


def closures(t):
    """frames that the functions inside a term were defined in"""
    r = _closures.get(t)
    if r is None:
        r = frozenset()
        if t.op == "fn" and isinstance(t.args[0], FnObj) and t.args[0].parent:
            r = frozenset(t.args[0].parent)
        for c in children(t):
            x = closures(c)
            if x:
                r |= x
        _closures[t] = r
    return r


def has_closure(n):
    r = _clo_cache.get(n)
    if r is None:
        r = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(n) if x is not n)
        _clo_cache[n] = r
    return r


def _names_before(n, i):
    s = set()
    for g in n.generators[:i]:
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                s.add(x.id)
    return s
