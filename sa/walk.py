"""Continuity of tool paths: does each motion start where the one before it ended?

A tool path grammar is walked at the return of every function that hands out
motions.  Each motion is compared with every motion that can precede it; where a
motion starts from a value that a loop carries from one iteration to the next, the
value and the motions of each abstract iteration are compared with each other."""
from .terms import *
from .terms import from_poly  # noqa
from .terms import C, NONE, T, ZERO, app, atoms, idx, mk, show, attr, div, mul, subst, subterms, sub, add, neg

MOTION = {"Rapid", "Retract", "PlungeRapid", "Cut", "PlungeCut", "CircularCW", "CircularCCW"}


def is_motion(o):
    return isinstance(o, T) and o.op == "obj" and is_motion_class(o.args[0])


def is_motion_class(c):
    seen = [c]
    while seen:
        x = seen.pop()
        if getattr(x, "name", None) == "MotionCommand":
            return True
        seen.extend(getattr(x, "bases_", None) or [])
    return getattr(c, "name", None) in MOTION


def vec(o):
    """(x, y, z) terms of an abstract position, or None"""
    if isinstance(o, T) and o.op == "obj":
        d = dict(o.args[1])
        if all(k in d for k in "xyz"):
            return tuple(d[k] for k in "xyz")
    return None


def site(o):
    s = o.args[2] if len(o.args) > 2 else None
    while isinstance(s, tuple) and s and not isinstance(s[0], str):
        s = s[0]
    if isinstance(s, tuple) and s and s[0] == "@":
        while isinstance(s, tuple) and s and s[0] == "@":
            s = s[2] if len(s) > 2 else None
    return tuple(s[:3]) if isinstance(s, tuple) else s


class Pred:
    """a motion that may come just before: the possible terms of its end"""
    __slots__ = ("ends", "site", "facts", "prev", "left", "start")

    def __init__(self, ends, site, facts=frozenset(), prev=None, left=None, start=None):
        self.start = start      # of the motion itself, while nothing but motions in sequence follows it
        self.ends, self.site, self.facts, self.prev, self.left = ends, site, facts, prev, left

    def key(self):
        return (self.ends, self.site, self.prev, self.left, self.facts)


START = "START"


class Walk:
    def __init__(self, records=None, on=None):
        self.records = records or {}
        self.on = on
        self.unknown = 0
        self.depth = 0

    def run(self, segs, preds=None, facts=frozenset(), loops=()):
        if preds is None:
            preds = {START: None}
        if facts and any(p is not None and not facts <= p.facts for p in preds.values()):
            out = {}
            for k, p in preds.items():
                if p is not None and not facts <= p.facts:
                    if clash(p.facts, facts):
                        continue
                    p = Pred(p.ends, p.site, p.facts | facts, p.prev, p.left, p.start)
                    k = p.key()
                out[k] = p
            preds = out
        for s in segs:
            preds = self.seg(s, preds, facts, loops)
        return preds

    def seg(self, s, preds, facts, loops):
        if s.op == "e":
            c = s.args[0]
            if not is_motion(c):
                return preds
            a = dict(c.args[1])
            if self.on is not None:
                self.on(self, c, a, preds, facts, loops)
            e = vec(a.get("end"))
            p = Pred(((e, ()),), site(c), facts, None, None, vec(a.get("start")))
            return {p.key(): p}
        if s.op == "alt":
            out = {}
            for sg, g in sorted(s.args[0], key=lambda z: str([x.n for x in z[0]])):
                out.update(self.run(sg, preds, facts | eqfacts(g), loops))
            return out
        if s.op == "many":
            key, src, first, rest = s.args[:4]
            K = mk("k", key)
            out = dict(preds)
            cur = {}
            for sg, g in first:
                m = {K: ZERO}
                sg = [subst(x, m) for x in sg]
                g = [(subst(p, m), v) for p, v in g]
                cur.update(self.run(sg, preds, facts | eqfacts(g), loops + (key,)))
            allp = dict(cur)
            once = set(cur)
            frontier = {k: p for k, p in cur.items()}
            for _ in range(3):
                sh = {}
                for k, p in frontier.items():
                    if p is None:
                        sh[k] = None
                        continue
                    if k in once and not any(mentions_k(e, K) for e, _ in p.ends):
                        ends = tuple((e, asm + ((K, C(1)),)) for e, asm in p.ends)
                    else:
                        ends = self.sb(p.ends, {K: sub(K, C(1))})
                    st0 = p.start and tuple(subst(x, {K: sub(K, C(1))}) for x in p.start)
                    q = Pred(ends, p.site, shift_facts(p.facts, K), key, p.left, st0)
                    sh[q.key()] = q
                nxt = {}
                for sg, g in rest:
                    nxt.update(self.run(sg, sh, facts | eqfacts(g), loops + (key,)))
                new = {k: v for k, v in nxt.items() if k not in allp}
                allp.update(new)
                if not new:
                    break
                frontier = new
            kend, kbrk = mk("kend", key, src), mk("kbrk", key)
            least = at_least(src)
            n = count(src)
            for k, p in allp.items():
                if p is None:
                    out[k] = None
                    continue
                ends = ()
                if k in once and least < 2:
                    ends += tuple((e, asm + ((kend, C(1)), (kbrk, C(1)))) for e, asm in p.ends)
                if k not in once or any(mentions_k(e, K) for e, _ in p.ends):
                    if n is not None:
                        ends += self.sb(p.ends, {K: sub(n, C(1))})
                    ends += self.sb(p.ends, {K: sub(kend, C(1))}) + self.sb(p.ends, {K: sub(kbrk, C(1))})
                if not ends:
                    continue
                q = Pred(tuple(dict.fromkeys(ends)), p.site, shift_facts(p.facts, K), None, key)
                out[q.key()] = q
            return out
        self.unknown += 1
        p = Pred(((None, ()),), None)
        return {p.key(): p}

    @staticmethod
    def sb(ends, m):
        return tuple((tuple(subst(x, m) for x in e) if e is not None else None,
                      tuple((subst(a, m), b) for a, b in asm)) for e, asm in ends)


def mentions_k(e, K):
    return e is not None and any(K is y for x in e for y in atoms(x))


def shift_facts(f, K):
    """facts that do not speak of the iteration"""
    return frozenset((p, v) for p, v in f if not any(K is a for a in atoms(p)))


def clash(f, g):
    return any((p, not v) in f for p, v in g)


def count(src):
    """length of a sequence of samples"""
    if src.op == "app" and src.args[0] == "np.linspace" and len(src.args) > 3:
        return src.args[3]
    return None


def at_least(src):
    n = count(src)
    if n is not None:
        if n.op == "c":
            return n.args[0]
        if n.op == "app" and n.args[0] == "max":
            return max([a.args[0] for a in n.args[1:] if isinstance(a, T) and a.op == "c"] + [0])
    return 0


_norm = {}
_unsure = {}


def norm(t, memo=_norm):
    """ends of edges in one form"""
    r = memo.get(t)
    if r is not None:
        return r
    r = t
    if t.op in ("attr", "idx", "app", "poly"):
        m = {}
        for a in atoms(t):
            if a.op == "kend" and isinstance(a.args[1], T):
                n = count(a.args[1])
                if n is not None:
                    m[a] = n
        if m:
            r = subst(t, m)
            r0 = norm(r)
            memo[t] = r0
            return r0
        at = {}
        for a in subterms(t):
            if a.op != "app" or a is t:
                continue
            if a.args[0] == "linfrac":
                if a.args[1] is a.args[2]:
                    at[a] = C(1)
                elif a.args[2] is ZERO:
                    at[a] = ZERO
        if at:
            r = subst_terms(r, at)
        at = {}
        for a in subterms(r):
            if a.op == "app" and a.args[0] == "PosO" and a.args[2] in (ZERO, C(1)):
                at[a] = app("OStart" if a.args[2] is ZERO else "OEnd", a.args[1])
            elif a.op == "app" and a.args[0] == "PosP" and isinstance(a.args[2], T) and a.args[2].op == "app" and \
                    a.args[2].args[0] in ("OStartParam", "OEndParam") and a.args[2].args[1] is a.args[1]:
                at[a] = app(a.args[2].args[0][:-5], a.args[1])
        if at:
            r = subst_terms(r, at)
    memo[t] = r
    return r


def subst_terms(t, m):
    """replace whole sub-terms"""
    if t in m:
        return m[t]
    if t.op == "attr":
        return attr(subst_terms(t.args[0], m), t.args[1])
    if t.op == "idx":
        return idx(subst_terms(t.args[0], m), subst_terms(t.args[1], m))
    if t.op == "app":
        return app(*[subst_terms(a, m) if isinstance(a, T) else a for a in t.args])
    if t.op == "poly":
        new = {a: subst_terms(a, m) for mono, _ in t.args[0] for a, _ in mono}
        if all(a is b for a, b in new.items()):
            return t
        acc = ZERO
        for mono, c in t.args[0]:
            x = from_poly({(): c})
            for a, e in mono:
                for _ in range(abs(e)):
                    x = mul(x, new[a]) if e > 0 else div(x, new[a])
            acc = add(acc, x)
        return acc
    return t


def eqfacts(g):
    return frozenset((p, v) for p, v in g if p.op in ("zero", "pos", "eq"))


_match = {}


def match(start, p, facts):
    """does a motion that starts at start continue the motion p?"""
    k = (start, p.ends, facts, p.facts)
    r = _match.get(k, 0)
    if r == 0 and r is not False:
        r = _match[k] = _match_(start, p, facts)
    return r


def _match_(start, p, facts):
    res = []
    allf = None
    for e, asm in p.ends:
        if e is None or start is None:
            res.append(None)
            continue
        m = {a: b for a, b in asm}
        s2 = tuple(subst(x, m) for x in start) if m else start
        e2 = tuple(subst(x, m) for x in e) if m else e
        if s2 == e2:
            return True
        if allf is None:
            allf = dict(facts)
            allf.update(p.facts)
        rr = [same(a, b, allf) for a, b in zip(s2, e2)]
        r = False if False in rr else (None if None in rr else True)
        if r is True:
            return True
        if r is False and all(x is NONE for x in s2) and any(vague(x) for x in e2):
            r = None            # first motions of a path and later ones have been merged
        res.append(r)
    return None if None in res else False


def vague(t):
    return t.op in ("phi", "top", "unk") or t.op == "attr" and vague(t.args[0])


_same = {}


def _base(a, b):
    """(verdict without facts, difference, its negation, point of a, point of b)"""
    r = _same.get((a, b))
    if r is None:
        r = _same[(a, b)] = _base_(norm(a), norm(b))
    return r


def _base_(a, b):
    if a is b:
        return True, None, None, None, None
    if a.op == "c" and b.op == "c":
        return a.args[0] == b.args[0], None, None, None, None
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        return (None if unsure(o) else False), None, None, None, None
    d = sub(a, b)
    if d is ZERO:
        return True, None, None, None, None
    n = neg(d)
    pa, pb = point(a), point(b)
    if not (pa and pb and pa[1] == pb[1]):
        pa = pb = None
    elif pa[0] is pb[0] or adjacent(pa[0], pb[0]):
        return True, None, None, None, None
    return (None if unsure(a) or unsure(b) else False), d, n, pa, pb


def same(a, b, facts=()):
    """are two coordinates the same value?  True / False / None (cannot tell)"""
    if a is b:
        return True
    v, d, n, pa, pb = _base(a, b)
    if d is None or not facts:
        return v
    f = facts if isinstance(facts, dict) else dict(facts)
    if f.get(mk("zero", d)) is True or f.get(mk("zero", n)) is True:
        return True
    if f.get(mk("pos", d)) is False and f.get(mk("pos", n)) is False:
        return True
    if pa is not None and (f.get(mk("eq", pa[0], pb[0])) is True or f.get(mk("eq", pb[0], pa[0])) is True):
        return True
    return v


def picked(t):
    """an element of an input sequence, as it is"""
    while t.op in ("idx", "attr"):
        t = t.args[0]
    return t.op in ("in", "In", "c") and t is not NONE


def computed(t):
    if t.op == "poly":
        return len(t.args[0]) > 1
    return t.op == "app" and t.args[0] in ("+", "-", "*", "/", "max", "min", "math.sqrt")


def unsure(t):
    r = _unsure.get(t)
    if r is None:
        r = _unsure[t] = any(x.op in ("phi", "top", "unk", "kany") for x in subterms(t))
    return r


def point(t):
    """(point term, component)"""
    if t.op == "attr" and t.args[1] in ("x", "y", "z"):
        return t.args[0], t.args[1]
    return None


def adjacent(p, q):
    """the end of one edge and the start of the next in a connected sequence"""
    for a, b in ((p, q), (q, p)):
        if a.op == "app" and b.op == "app" and a.args[0] == "OEnd" and b.args[0] == "OStart":
            ea, eb = a.args[1], b.args[1]
            if ea.op == "idx" and eb.op == "idx" and ea.args[0] is eb.args[0]:
                d = sub(eb.args[1], ea.args[1])
                if d is C(1):
                    return True
                if eb.args[1] is ZERO and any(x.op == "kend" for x in subterms(ea.args[1])):
                    return True
    return False


# --------------------------------------------------------------------------
class Record:
    """one abstract iteration: the values carried to the next one, and the motions it added"""
    __slots__ = ("key", "first", "frames", "heap", "trails")

    def value(self, path):
        if path[0] == "v":
            for fid, d in self.frames.items():
                if str(fid) == path[1]:
                    v = d.get(path[2])
                    return self.nav(v, path[3:]) if v is not None else None
        if path[0] == "h":
            for i, o in self.heap.items():
                if str(i) == path[1]:
                    if hasattr(o, "attrs") and len(path) > 2:
                        v = o.attrs.get(path[2])
                        return self.nav(v, path[3:]) if v is not None else None
        return None

    def nav(self, v, path):
        for p in path:
            if v.op == "ref":
                o = self.heap.get(v.args[0])
                v = o.attrs.get(p) if hasattr(o, "attrs") else None
                if v is None:
                    return None
                continue
            if isinstance(p, str):
                if v.op != "obj":
                    return None
                v = dict(v.args[1]).get(p)
            else:
                v = v.args[p] if p < len(v.args) else None
            if not isinstance(v, T):
                return None
        return v


class Flow:
    """hook: checks continuity wherever a function returns motions"""

    def __init__(self):
        self.records = {}
        self.res = {}       # (site of motion, site of predecessor) -> set of results
        self.info = {}
        self.cmds = {}
        self.seen = set()
        self.entries = {}
        self.memo = {}
        self.xmemo = {}
        self.pmemo = {}
        self.both = {}
        self.where = ""     # the function whose motions are being walked

    def on_iteration(self, I, st, head, key, first, trails):
        r = Record()
        r.key, r.first, r.frames, r.heap = key, first, st.frames, dict(st.heap)
        K = mk("k", key)
        m = {K: sub(K, C(1))}
        r.trails = []
        for t, g in trails.values():
            t = inline(I, st, t)
            if any(has_motion(x) for x in t):
                r.trails.append((tuple(subst(x, m) for x in t),
                                 frozenset((subst(p, m), v) for p, v in g if p.op in ("zero", "pos", "eq"))))
        self.records.setdefault(key, []).append(r)

    def on_return(self, I, out, fo, G, F, node):
        for s, v in out:
            for segs in motion_lists(I, s, v):
                if segs in self.seen:
                    continue
                self.seen.add(segs)
                self.where = getattr(fo, "qualname", None) or getattr(getattr(fo, "node", None), "name", "?")
                Walk(self.records, self.check).run(segs, None, eqfacts(s.facts.items()))

    def check(self, w, c, a, preds, facts, loops):
        st = vec(a.get("start"))
        cs = site(c)
        self.cmds[cs] = c.args[0].name
        keys = loop_keys(st)
        fresh = st is not None and all(x is NONE for x in st) and any(p is None for p in preds.values())
        known = [k for k in keys if k in self.records]
        if known and not any(p is not None and match(st, p, facts) is True for p in preds.values()):
            for k in known:
                if self.by_records(w, st, k) is False and self.both[(st, k)]:
                    at = (k[0], k[1]) if k[0] != "@" else ("", 0)
                    self.res.setdefault((self.where, cs, ("src/" + str(at[0]).replace(".", "/") + ".py", at[1], "loop")), set()).add(False)
        for p in preds.values():
            if p is not None and p.start is not None and st is not None and p.start == st and all(x is not NONE for x in st):
                e = p.ends[0][0]
                if e is not None and any(x is not y for x, y in zip(st, e)) and \
                        (match(st, p, facts) is False or p.prev is None and match(st, p, facts) is None):
                    # starts where the motion before it started: that motion has not been taken into account
                    self.res.setdefault((self.where, cs, (p.site[0], p.site[1], "stale")), set()).add(False)
        for p in preds.values():
            if fresh and p is not None:
                continue        # starts from nowhere: only when nothing came before
            if p is None:
                self.entries.setdefault(cs, set()).add(st)
                continue
            if keys and any(k[0] == "@" and k not in self.records and self.moves(k) for k in keys):
                # carried by a loop of a function called here: decided where that function returns
                self.res.setdefault((self.where, cs, p.site), set()).add("inner")
                continue
            rs = self.res.setdefault((self.where, cs, p.site), set())
            if True in rs:
                continue
            r = match(st, p, facts)
            for k in (p.prev, p.left):
                if r is not True and k in keys and k in self.records:
                    r = self.by_records(w, st, k)
            rs.add(r)
            if r is not True:
                self.info.setdefault((self.where, cs, p.site, r), (st, p.ends, loops))

    def by_records(self, w, st, key, depth=0):
        memo = (st, key)
        if memo in self.memo:
            return self.memo[memo]
        self.memo[memo] = None
        self.memo[memo] = r = self.by_records_(w, st, key, depth)
        return r

    def exits(self, t, g):
        """what a trail of motions can end with"""
        k = (t, g)
        r = self.xmemo.get(k)
        if r is None:
            r = self.xmemo[k] = list(Walk(self.records).run(t, None, g).values())
        return r

    def by_records_(self, w, st, key, depth):
        """a value that a loop carries against the motions of its iterations: in every abstract
        iteration that hands the value on, it must be where a motion that ends the iteration ended"""
        out = []
        phis = {x for y in st for x in subterms(y) if x.op == "phi" and x.args[0][0] == "w" and x.args[0][1] == key}
        for r in self.records[key]:
            if not r.trails:
                continue
            m = {x: r.value(x.args[0][2]) for x in phis}
            if any(v is None for v in m.values()):
                continue            # this iteration leads to another abstract state
            s2 = tuple(subst(y, m) for y in st)
            rs = []
            for t, g in r.trails:
                for p in self.exits(t, g):
                    if p is None:
                        continue
                    x = match(s2, p, g)
                    for k in (p.prev, p.left):
                        if x is not True and depth < 4 and k in self.records and k != key and k in loop_keys(s2):
                            x = self.by_records(w, s2, k, depth + 1)
                    if x is None and self.never(s2, p, g):
                        x = False
                    rs.append(x)
                    if DEBUG and x is not True:
                        print("   " * depth, x, key[:3], r.first, p.site[1:], [show(y)[-60:] for y in s2], "/", [show(y)[-60:] for y in p.ends[0][0] or ()])
            if rs:
                out.append(True if True in rs else (None if None in rs else False))
        self.both[(st, key)] = True in out and False in out
        if not out:
            return None
        return False if False in out else (None if None in out else True)

    def inner(self, key):
        """the iterations of a loop in a function called here"""
        while key not in self.records and key[0] == "@":
            key = key[2]
        return self.records.get(key, ())

    def moves(self, key):
        return any(r.trails for r in self.inner(key))

    def possible(self, phi):
        """every value a loop gives to a variable it carries, when all of them are known"""
        r = self.pmemo.get(phi, 0)
        if r != 0:
            return r
        self.pmemo[phi] = None
        key, path = phi.args[0][1], phi.args[0][2]
        vals = set()
        for rec in self.inner(key):
            v = rec.value(path)
            if v is None:
                continue
            if v is NONE or v.op == "phi" and v.args[0][2:] == phi.args[0][2:]:
                continue
            vals.add(v)
        if not vals:
            vals = None
        self.pmemo[phi] = vals
        return vals

    def never(self, st, p, g):
        """is the start elsewhere whatever values loops have given to the end of p?  A coordinate
        picked from the input is not one that is computed in every iteration of a loop."""
        for e, asm in p.ends:
            if e is None or not any(picked(a) and b.op == "phi" and b.args[0][0] == "w" and
                                    all(computed(v) for v in self.possible(b) or (b,))
                                    for a, b in zip(st, e)):
                return False
        return bool(p.ends)

    def verdicts(self):
        """(function whose path it is, site of motion) -> {site of the motion before: verdict}"""
        per = {}
        for (w, cs, ps), rs in self.res.items():
            if "inner" in rs and True not in rs:
                continue
            r = True if True in rs else (None if None in rs else False)
            per.setdefault((w, cs), {})[ps] = r
        return per


DEBUG = False


def loop_keys(st):
    """loops that carry a value inside these coordinates"""
    phis = {x for y in st for x in subterms(y) if x.op == "phi"} if st is not None else set()
    return {x.args[0][1] for x in phis if x.args[0][0] == "w"}


def inline(I, st, t):
    """a trail whose elements are themselves lists of motions, as one sequence"""
    out = []
    for s in t:
        if s.op == "e" and s.args[0].op in ("ref", "lst"):
            segs = I.segs_of(st, s.args[0])
            if segs:
                fz = I.freeze(st, mk("lst", tuple(segs), "list"))
                out.extend(fz.args[0])
                continue
        out.append(s)
    return tuple(out)


def has_motion(s):
    if s.op == "e":
        return is_motion(s.args[0])
    if s.op == "alt":
        return any(has_motion(x) for sg, _ in s.args[0] for x in sg)
    if s.op == "many":
        return any(has_motion(x) for al in s.args[2:4] for sg, _ in al for x in sg)
    return False


def motion_lists(I, st, v):
    vs = list(v.args) if v.op == "tup" else [v]
    for x in vs:
        segs = I.segs_of(st, x) if x.op in ("ref", "lst") else None
        if segs:
            o = I.deref(st, x)
            if getattr(o, "kind", "list") != "list":
                continue
            fz = I.freeze(st, mk("lst", tuple(segs), "list"))
            if any(has_motion(s) for s in fz.args[0]):
                yield fz.args[0]
