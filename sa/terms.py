"""Provenance terms: the value domain of the abstract interpreter.

A term is an immutable, interned tree which says where a value comes from.
Arithmetic is kept in a polynomial normal form with rational coefficients, so
two spellings of the same formula are the same term.
"""
from fractions import Fraction


class T(float):
    # a float only for its fast, address independent hash: terms are compared by identity number
    __slots__ = ("op", "args", "_h", "_ks", "_d", "_bd", "n")
    _tab = {}
    _cnt = 0

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError("terms are process local")


def mk(op, *args):
    key = (op, args) if op != "c" else (op, args[0].__class__, args[0])
    t = T._tab.get(key)
    if t is None:
        t = T(T._cnt + 1.37109375)
        t.op = op
        t.args = args
        t._ks = t._bd = None
        T._cnt += 1
        t.n = T._cnt
        d = 0
        for a in args:
            d = max(d, depth(a))
        t._d = d + 1
        T._tab[key] = t
    return t


def depth(a):
    if isinstance(a, T):
        return a._d
    if isinstance(a, (tuple, frozenset)):
        return max((depth(x) for x in a), default=0)
    return 0


def C(v):
    return mk("c", v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)
TOP = mk("top")


def In(name, ty="?"):
    return mk("in", name, ty)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def is_num_const(t):
    return t.op == "c" and isinstance(t.args[0], (int, float)) and not isinstance(
        t.args[0], bool
    )


def tup(items):
    return mk("tup", *items)


def attr(t, name):
    if t.op == "app" and t.args[0] == "Vec" and name in ("x", "y", "z"):
        return t.args[1 + "xyz".index(name)]
    if t.op == "obj":
        for n, v in t.args[1]:
            if n == name:
                return v
    return mk("attr", t, name)


MAXD = 26


def app(name, *args):
    if name == "PosO":          # point at length fraction d measured along the traversal direction
        e, d = args
        if d is ZERO:
            return app("OStart", e)
        if is_num_const(d) and cval(d) == 1:
            return app("OEnd", e)
    elif name == "PosP":        # point at curve parameter p
        e, p = args
        if p.op == "app" and p.args[0] in ("OStartParam", "OEndParam") and p.args[1] is e:
            return app(p.args[0][:-5], e)
    elif name == "Vec" and len(args) == 3 and all(a.op == "attr" for a in args):
        if args[0].args[0] is args[1].args[0] is args[2].args[0] and [a.args[1] for a in args] == ["x", "y", "z"]:
            return args[0].args[0]
    elif name == "pc.down" and args[0].op == "app" and args[0].args[0] == "pc.up":
        return args[0].args[1]
    elif name in ("list", "tuple", "iter") and len(args) == 1 and args[0].op in ("lst", "slice"):
        return args[0]
    elif name == "OParam":
        e, d = args
        if d is ZERO:
            return app("OStartParam", e)
        if is_num_const(d) and cval(d) == 1:
            return app("OEndParam", e)
    t = mk("app", name, *args)
    if t._d > MAXD:
        return mk("phi", ("deep", name))
    return t


# --------------------------------------------------------------------------
# polynomials: dict  monomial -> Fraction ; monomial = tuple of (atom, power)


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    return Fraction(repr(v))


def as_poly(t):
    if t.op == "c":
        v = t.args[0]
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
                return {((t, 1),): Fraction(1)}
            f = frac(v)
            return {(): f} if f else {}
        return None
    if t.op == "poly":
        return dict(t.args[0])
    if t.op in ("str", "tup", "ref", "obj", "lst", "fn", "cls", "ext", "mod", "enum"):
        return None
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        ((m, c),) = p.items()
        if m == ():
            if c.denominator == 1:
                return C(int(c))
            return C(float(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(p.items(), key=_mkey)))


def _mkey(item):
    return tuple((a.n, e) for a, e in item[0])


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + c * s
    return r


def _mmul(a, b):
    d = {}
    for x, e in a:
        d[x] = d.get(x, 0) + e
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].n))


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return r


def is_scalar(t):
    return as_poly(t) is not None


def add(a, b):
    p, q = as_poly(a), as_poly(b)
    if p is None or q is None:
        return app("+", a, b)
    return from_poly(padd(p, q))


def sub(a, b):
    p, q = as_poly(a), as_poly(b)
    if p is None or q is None:
        return app("-", a, b)
    return from_poly(padd(p, q, -1))


def mul(a, b):
    p, q = as_poly(a), as_poly(b)
    if p is None or q is None:
        return app("*", a, b)
    if len(p) * len(q) > 64:
        return app("*", a, b)
    return from_poly(pmul(p, q))


def div(a, b):
    p, q = as_poly(a), as_poly(b)
    if p is None or q is None or not q:
        return app("/", a, b)
    if len(q) == 1:
        ((m, c),) = q.items()
        inv = {tuple((x, -e) for x, e in m): 1 / c}
        return from_poly(pmul(p, inv))
    return app("/", a, b)


def neg(a):
    return sub(ZERO, a) if is_scalar(a) else app("neg", a)


def power(a, b):
    if is_num_const(b) and isinstance(b.args[0], int) and 0 <= b.args[0] <= 4:
        r = C(1)
        for _ in range(b.args[0]):
            r = mul(r, a)
        return r
    if is_num_const(b) and b.args[0] == 0.5:
        return app("math.sqrt", a)
    if is_num_const(a) and is_num_const(b):
        try:
            return C(a.args[0] ** b.args[0])
        except Exception:
            pass
    return app("**", a, b)


def poly_const(t):
    """The constant summand, and the rest."""
    p = as_poly(t)
    if p is None:
        return None, t
    c = p.pop((), Fraction(0))
    return c, from_poly(p)


# --------------------------------------------------------------------------
# sequences

def lenbase(t):
    """(base, delta): the sequence t has len(base) + delta elements."""
    if t.op == "app":
        n, a = t.args[0], t.args[1:]
        if n in ("enumerate", "list", "tuple", "iter", "reversed", "sorted"):
            return lenbase(a[0])
        if n == "pairwise":
            b, d = lenbase(a[0])
            return b, d - 1
        if n == "zip":
            bs = [lenbase(x) for x in a]
            if len({b for b, _ in bs}) == 1:
                return bs[0][0], min(d for _, d in bs)
    if t.op == "slice":
        base, lo, hi = t.args
        b, d = lenbase(base)
        if is_num_const(lo) and cval(lo) >= 0 and (hi is NONE or (is_num_const(hi) and cval(hi) < 0)):
            return b, d - int(cval(lo)) + (0 if hi is NONE else int(cval(hi)))
    if t.op == "lst" and t.args[0]:
        extra = sum(1 for s in t.args[0] if s.op == "e")
        rest = [s for s in t.args[0] if s.op != "e"]
        if len(rest) == 1:
            s = rest[0]
            if s.op == "rev":
                s = s.args[0]
            if s.op == "spread":
                b, d = lenbase(s.args[0])
                return b, d + extra
            if s.op == "many" and map_like(s) is not None and s.args[1] is not NONE and not _guarded(s):
                b, d = lenbase(s.args[1])
                return b, d + extra
    return t, 0


def _guarded(s):
    # a one-element-per-step repetition never skips a step
    return any(len(a[0]) != 1 for a in s.args[2] | s.args[3])


def is_last(t, i):
    """index i is certainly the last one of sequence t"""
    if is_num_const(i):
        return cval(i) == -1
    c, rest = poly_const(i)
    if c is None or c.denominator != 1:
        return False
    if rest.op == "kend":
        src = rest.args[1]
        if src is NONE:
            return False
        b, d = lenbase(src)
    elif rest.op == "app" and rest.args[0] == "len":
        b, d = lenbase(rest.args[1])
    else:
        return False
    b2, d2 = lenbase(t)
    return b is b2 and c + d == d2 - 1


def idx(t, i):
    """Element i (a term) of sequence term t."""
    if not is_num_const(i) and i.op in ("poly", "kend") and is_last(t, i):
        i = C(-1)
    if t.op == "tup" and is_num_const(i):
        try:
            return t.args[i.args[0]]
        except Exception:
            return mk("idx", t, i)
    if t.op == "slice":
        base, lo, hi = t.args
        # only plain forward slices
        if is_num_const(i) and cval(i) < 0:
            if hi is NONE:
                return idx(base, i)
            if cval(i) == -1:
                return idx(base, sub(hi, C(1)))
            return mk("idx", t, i)
        return idx(base, add(i, ZERO if lo is NONE else lo))
    if t.op == "app":
        r = _idx_app(t, i)
        if r is not None:
            return r
    if t.op == "lst":
        r = _idx_segs(t.args[0], i)
        if r is not None:
            return r
    return mk("idx", t, i)


def _negc(i):
    return is_num_const(i) and cval(i) < 0


def _idx_app(t, i):
    name, a = t.args[0], t.args[1:]
    if name in ("range", "np.arange", "count"):
        if _negc(i):
            return None
        return add(a[0], mul(a[2], i))
    if name in ("np.linspace", "np.linspaceX"):
        n = a[2]
        m = sub(n, C(1)) if name == "np.linspace" else n
        if i is ZERO:
            f = ZERO
        elif is_num_const(i):
            if cval(i) >= 0 and is_num_const(m) and cval(m) > 0:
                f = C(Fr(int(cval(i)), int(cval(m))))
            elif cval(i) == -1 and name == "np.linspace":
                f = C(1)
            elif cval(i) < 0 and is_num_const(m) and cval(m) > 0:
                f = C(Fr(int(cval(n)) + int(cval(i)), int(cval(m))))
            else:
                f = app("linfrac", m, i)
        else:
            f = app("linfrac", m, i)
        return add(a[0], mul(sub(a[1], a[0]), f))
    if name == "enumerate":
        return tup([add(a[1], i), idx(a[0], i)]) if not _negc(i) else None
    if name == "zip":
        return tup([idx(x, i) for x in a])
    if name == "pairwise":
        if _negc(i):
            return tup([idx(a[0], sub(i, C(1))), idx(a[0], i)])
        return tup([idx(a[0], i), idx(a[0], add(i, C(1)))])
    if name == "reversed":
        if is_num_const(i):
            return idx(a[0], C(-1 - cval(i)))
        return None
    if name in ("list", "tuple", "iter") and len(a) == 1:
        return idx(a[0], i)
    return None


def Fr(a, b):
    f = Fraction(a, b)
    return int(f) if f.denominator == 1 else float(f)


def map_like(seg):
    """value v if the repetition adds exactly one element v(k) per step."""
    if seg.op != "many":
        return None
    alts = seg.args[2] | seg.args[3]
    vs = {a[0] for a in alts}
    if len(vs) != 1:
        return None
    (segs,) = vs
    if len(segs) == 1 and segs[0].op == "e":
        return segs[0].args[0]
    return None


def _idx_segs(segs, i):
    if not is_num_const(i):
        if len(segs) == 1:
            return _seg_idx(segs[0], i)
        return None
    n = int(cval(i))
    if n >= 0:
        for s in segs:
            if s.op == "e":
                if n == 0:
                    return s.args[0]
                n -= 1
            else:
                return _seg_idx(s, C(n)) if s is segs[-1] or n == 0 else None
        return None
    for s in reversed(segs):
        if s.op == "e":
            if n == -1:
                return s.args[0]
            n += 1
        else:
            return _seg_idx(s, C(n)) if s is segs[0] or n == -1 else None
    return None


def _seg_idx(s, i):
    if s.op == "spread":
        return idx(s.args[0], i)
    v = map_like(s)
    if v is not None:
        if _negc(i):
            i = add(mk("kend", s.args[0], s.args[1]), i)
        return subst(v, {mk("k", s.args[0]): i})
    if s.op == "unk":
        return s.args[0]
    return None


def slice_(t, lo, hi):
    if t.op == "slice" and is_num_const(lo) and cval(lo) >= 0:
        base, l0, h0 = t.args
        if h0 is NONE and (hi is NONE or not is_num_const(hi)):
            l = lo if l0 is NONE else add(l0, lo)
            h = hi if hi is NONE else (hi if l0 is NONE else add(l0, hi))
            return slice_(base, l, h)
        if hi is NONE:
            l = lo if l0 is NONE else add(l0, lo)
            return mk("slice", base, l, h0)
    if (lo is NONE or lo is ZERO) and hi is NONE:
        return t
    if lo is NONE:
        lo = ZERO
    return mk("slice", t, lo, hi)


# --------------------------------------------------------------------------
# traversal

def children(t):
    if t.op == "poly":
        for m, _ in t.args[0]:
            for a, _e in m:
                yield a
        return
    for a in t.args:
        yield from _ch(a)


def _ch(a):
    if isinstance(a, T):
        yield a
    elif isinstance(a, (tuple, frozenset)):
        for x in a:
            yield from _ch(x)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t] if isinstance(t, T) else list(_ch(t))
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


_kcache = {}


def atoms(t):
    """The set of leaf symbols (k / in / phi / ref) inside t."""
    r = t._ks
    if r is None:
        if t.op in ("k", "in", "phi", "ref", "kend", "kany", "kbrk"):
            r = frozenset((t,))
            if t.op == "kend":
                r |= atoms(t.args[1]) if isinstance(t.args[1], T) else frozenset()
        else:
            s = set()
            for c in children(t):
                s |= atoms(c)
            r = frozenset(s)
        t._ks = r
    return r


def atoms_any(a):
    s = set()
    for x in _ch(a):
        s |= atoms(x)
    return s


def mentions(t, sym):
    return sym in atoms(t)


def subst(t, m, memo=None):
    """Replace leaf atoms by terms (m: atom -> term), renormalising."""
    if not m:
        return t
    if memo is None:
        memo = _smemo.setdefault(frozenset(m.items()), {})
    return _subst(t, m, memo)


_smemo = {}


def _subst(t, m, memo):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(_subst(x, m, memo) for x in t)
        if isinstance(t, frozenset):
            return frozenset(_subst(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    at = atoms(t)
    if not any(k in at for k in m):
        memo[t] = t
        return t
    memo[t] = t
    r = _rebuild(t, m, memo)
    memo[t] = r
    return r


def _rebuild(t, m, memo):
    op = t.op
    if op == "poly":
        acc = {}
        for mono, c in t.args[0]:
            term = C(1)
            for a, e in mono:
                s = _subst(a, m, memo)
                for _ in range(abs(e)):
                    term = mul(term, s) if e > 0 else div(term, s)
            p = as_poly(term)
            if p is None:
                return mk("phi", ("poly", t.n))
            acc = padd(acc, {k: v * c for k, v in p.items()})
        return from_poly(acc)
    if op == "idx":
        return idx(_subst(t.args[0], m, memo), _subst(t.args[1], m, memo))
    if op == "slice":
        return slice_(*[_subst(a, m, memo) for a in t.args])
    if op == "many":
        # the bound counter of a repetition is not free: do not rename it
        key = t.args[0]
        bound = mk("k", key)
        if bound in m:
            m2 = {k: v for k, v in m.items() if k is not bound}
            return mk("many", key, *[_subst(a, m2, {}) for a in t.args[1:]])
        return mk("many", *[_subst(a, m, memo) for a in t.args])
    if op == "str":
        return strcat([_subst(a, m, memo) for a in t.args])
    if op == "attr":
        return attr(_subst(t.args[0], m, memo), t.args[1])
    if op == "app":
        return app(*[_subst(a, m, memo) for a in t.args])
    if op == "eq":
        return mk(op, *sorted([_subst(a, m, memo) for a in t.args], key=lambda x: x.n))
    if op == "zero":
        return zero_prop(_subst(t.args[0], m, memo))
    return mk(op, *[_subst(a, m, memo) for a in t.args])


def zero_prop(d):
    """the proposition d = 0, the same for d and -d"""
    p = as_poly(d)
    if p:
        k = sorted(p.items(), key=lambda z: tuple((a.n, e) for a, e in z[0]))
        if k[0][1] < 0:
            d = neg(d)
    return mk("zero", d)


RENAMED = ("k", "kbrk", "kend", "kany", "phi", "raised", "many")


def renames(t):
    """does the term hold anything that instantiating a summary renames?"""
    r = t._bd
    if r is None:
        r = t._bd = t.op in RENAMED or any(renames(c) for c in children(t))
    return r


def instantiate(t, m, tag, own, memo):
    """Copy a term of a function summary into a caller: parameters are replaced
    (m: leaf -> term) and everything created inside the summary is renamed apart."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(instantiate(x, m, tag, own, memo) for x in t)
        if isinstance(t, frozenset):
            return frozenset(instantiate(x, m, tag, own, memo) for x in t)
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        return m[t]
    if not renames(t):
        at = atoms(t)
        if not at or not any(k in at for k in m):
            memo[t] = t
            return t
    op = t.op
    go = lambda x: instantiate(x, m, tag, own, memo)
    key = lambda k: k if k in own else k[:3] + (("@", tag, k[3]),) + k[4:]
    if not atoms(t) and op not in ("many", "raised"):
        r = t
    elif op in ("k", "kbrk"):
        r = mk(op, key(t.args[0]))
    elif op == "kend":
        r = mk(op, key(t.args[0]), go(t.args[1]))
    elif op == "kany":
        a = t.args[0]
        if isinstance(a[0], tuple):
            a = (key(a[0]),) + tuple(go(x) for x in a[1:])
        r = mk(op, a)
    elif op == "phi":
        a = t.args[0]
        r = t if t in own or not a or a[0] != "w" else mk("phi", ("w", ("@", tag, a[1])) + tuple(a[2:]))
    elif op in ("in", "ref"):
        r = t
    elif op == "raised":
        r = mk(op, t.args[0], ("@", tag, t.args[1]))
    elif op == "many":
        r = mk("many", key(t.args[0]), *[go(a) for a in t.args[1:]])
    elif op == "poly":
        acc = {}
        for mono, c in t.args[0]:
            term = C(1)
            for a, e in mono:
                x = go(a)
                for _ in range(abs(e)):
                    term = mul(term, x) if e > 0 else div(term, x)
            p = as_poly(term)
            if p is None:
                acc = None
                break
            acc = padd(acc, {k: v * c for k, v in p.items()})
        r = mk("phi", ("poly", t.n)) if acc is None else from_poly(acc)
    elif op == "idx":
        r = idx(go(t.args[0]), go(t.args[1]))
    elif op == "slice":
        r = slice_(*[go(a) for a in t.args])
    elif op == "str":
        r = strcat([go(a) for a in t.args])
    elif op == "attr":
        r = attr(go(t.args[0]), t.args[1])
    elif op == "app":
        r = app(*[go(a) for a in t.args])
    elif op == "eq":
        r = mk(op, *sorted([go(a) for a in t.args], key=lambda x: x.n))
    elif op == "zero":
        r = zero_prop(go(t.args[0]))
    else:
        r = mk(op, *[go(a) for a in t.args])
    memo[t] = r
    return r


def many_bound(t):
    return mk("k", t.args[0])


# --------------------------------------------------------------------------
# abstract strings

def strcat(parts):
    out = []
    for p in parts:
        if p.op == "str":
            sub_ = p.args
        else:
            sub_ = (p,)
        for q in sub_:
            if q.op == "c" and isinstance(q.args[0], str):
                if not q.args[0]:
                    continue
                if out and out[-1].op == "c":
                    out[-1] = C(out[-1].args[0] + q.args[0])
                    continue
            out.append(q)
    if not out:
        return C("")
    if len(out) == 1 and out[0].op == "c":
        return out[0]
    return mk("str", *out)


# --------------------------------------------------------------------------
# generalisation (widening of terms)

LGG_LOG = []          # innermost recorder gets (phi, one side, other side)


def lgg(a, b, key, path=()):
    if a is b:
        return a
    if a.op == "phi" and a.args[0][0] == "w":
        if LGG_LOG:
            LGG_LOG[-1].append((a, a, b))
        return a
    if b.op == "phi" and b.args[0][0] == "w":
        if LGG_LOG:
            LGG_LOG[-1].append((b, a, b))
        return b
    if a.op == b.op and a.op not in ("poly", "c", "in", "k", "ref", "str", "phi", "enum"):
        if len(a.args) == len(b.args):
            ok = True
            new = []
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                if x is y or (not isinstance(x, T) and x == y):
                    new.append(x)
                elif isinstance(x, T) and isinstance(y, T):
                    new.append(lgg(x, y, key, path + (i,)))
                elif a.op == "obj" and i == 1 and [z[0] for z in x] == [z[0] for z in y]:
                    new.append(tuple(
                        (n1, lgg(v1, v2, key, path + (n1,)))
                        for (n1, v1), (_n, v2) in zip(x, y)))
                elif a.op == "lst" and i == 0 and len(x) == len(y) and all(
                        s.op == t.op == "e" or s is t for s, t in zip(x, y)):
                    new.append(tuple(s if s is t else mk("e", lgg(s.args[0], t.args[0], key, path + (j,)), *s.args[1:])
                                     for j, (s, t) in enumerate(zip(x, y))))
                else:
                    ok = False
                    break
            if ok:
                if a.op == "idx":
                    return idx(*new)
                if a.op == "slice":
                    return slice_(*new)
                return mk(a.op, *new)
    r = mk("phi", ("w", key, path))
    if LGG_LOG:
        LGG_LOG[-1].append((r, a, b))
    return r


# --------------------------------------------------------------------------

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + ", ".join(sorted(show(x, d) for x in t)) + "}"
        return str(t)
    if d > 9:
        return "…"
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == "c":
        return repr(a[0])
    if op == "in":
        return f"<{a[0]}>"
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op == "app":
        return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    if op == "poly":
        out = []
        for m, c in a[0]:
            ms = "*".join(s(x) + (f"^{e}" if e != 1 else "") for x, e in m)
            if not m:
                out.append(f"{c}")
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append(f"{c}*{ms}")
        return "(" + " + ".join(out) + ")"
    if op == "idx":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "slice":
        return f"{s(a[0])}[{s(a[1])}:{'' if a[2] is NONE else s(a[2])}]"
    if op == "k":
        return "k" + kname(a[0])
    if op == "kend":
        return "kend" + kname(a[0])
    if op == "phi":
        return f"?{kname(a[0])}"
    if op == "tup":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if op == "obj":
        return f"{clsname(a[0])}{{{', '.join(f'{n}={s(v)}' for n, v in a[1])}}}"
    if op == "lst":
        return f"[{', '.join(s(x) for x in a[0])}]"
    if op == "e":
        return s(a[0])
    if op == "spread":
        return "*" + s(a[0])
    if op == "alt":
        return "alt{" + " | ".join(show(x[0], d + 1) for x in a[0]) + "}"
    if op == "many":
        return (f"many{kname(a[0])}(over {s(a[1])}: first "
                + "{" + " | ".join(show(x[0], d + 1) for x in a[2]) + "} rest {"
                + " | ".join(show(x[0], d + 1) for x in a[3]) + "})")
    if op == "str":
        return "s'" + "".join(
            x.args[0] if x.op == "c" and isinstance(x.args[0], str) else "{" + s(x) + "}" for x in a) + "'"
    if op == "enum":
        return f"{clsname(a[0])}.{a[1]}"
    if op == "ref":
        return f"&{kname(a[0])}"
    return f"{op}({', '.join(s(x) for x in a)})"


def clsname(c):
    return getattr(c, "name", str(c))


def kname(k):
    import zlib
    return "#%03d" % (zlib.crc32(str(k).encode()) % 1000)
