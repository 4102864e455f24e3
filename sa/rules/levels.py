"""Which region a pocket clears at which depth."""
from itertools import product

from . import prop
from .common import *  # noqa
from .common import attrs, cval, fn_where, new, num, one_job, parallel, reliable, undef
from ..terms import C, FALSE, NONE, T, TRUE, ZERO, In, app, mk, show, sub
from ..engine import E
from .path import G, P, Q, Tally, short
from .reject import lst, why


class Unknown(Exception):
    pass


class Wrong(Exception):
    pass


def elems(t, what="a list"):
    if t.op == "tup":
        return list(t.args)
    if t.op != "lst":
        raise Unknown(f"{what} is not known: {short(t)}")
    out = []
    for s in t.args[0]:
        if s.op != "e":
            raise Unknown(f"{what} is not known: {short(t)}")
        out.append(s.args[0])
    return out


# ------------------------------------------------------------ clipper terms
def strip(p):
    """(path, times reversed) without scaling"""
    n = 0
    while True:
        if p.op == "app" and p.args[0] in ("pc.up", "pc.down", "list", "tuple"):
            p = p.args[1]
        elif p.op == "lst" and len(p.args[0]) == 1 and p.args[0][0].op == "spread":
            p = p.args[0][0].args[0]
        elif p.op == "lst" and len(p.args[0]) == 1 and p.args[0][0].op == "rev" and p.args[0][0].args[0].op == "spread":
            p, n = p.args[0][0].args[0].args[0], n + 1
        elif p.op == "app" and p.args[0] == "reversed":
            p, n = p.args[1], n + 1
        else:
            return p, n % 2


def scaled(p):
    """how often is a path scaled up (net)"""
    n = 0
    while True:
        if p.op == "app" and p.args[0] in ("pc.up", "pc.down"):
            n, p = n + (1 if p.args[0] == "pc.up" else -1), p.args[1]
        elif p.op == "app" and p.args[0] in ("list", "tuple", "reversed"):
            p = p.args[1]
        elif p.op == "lst" and len(p.args[0]) == 1 and p.args[0][0].op in ("spread", "rev"):
            p = p.args[0][0].args[0]
            if p.op == "spread":
                p = p.args[0]
        else:
            return n


FILL = {"PFT_EVENODD": lambda n: n % 2, "PFT_NONZERO": lambda n: n != 0, "PFT_POSITIVE": lambda n: n > 0, "PFT_NEGATIVE": lambda n: n < 0}
FILLS = list(FILL)
OPS = {"CT_UNION": lambda s, c: s or c, "CT_DIFFERENCE": lambda s, c: s and not c,
       "CT_INTERSECTION": lambda s, c: s and c, "CT_XOR": lambda s, c: s != c}
KINDS = ("PT_SUBJECT", "PT_CLIP")


def ext(t, table):
    if t.op == "ext" and t.args[0].startswith("pc.") and t.args[0][3:] in table:
        return t.args[0][3:]
    if t.op == "c" and isinstance(cval(t), int) and 0 <= cval(t) < len(table) and table is FILLS:
        return table[cval(t)]
    raise Unknown(f"{short(t)} is not known")


class Execute:
    """clipper's Execute2(paths, operation, fill of subjects, fill of clips)"""

    def __init__(self, t):
        if not (t.op == "app" and t.args[0] in ("pc.Execute2", "pc.Execute") and len(t.args) == 5):
            raise Unknown(f"{short(t)} is not a clipper operation")
        self.term = t
        self.paths = []
        for x in elems(t.args[1], "the list of paths"):
            if x.op != "tup" or len(x.args) < 2:
                raise Unknown(f"{short(x)} is not a clipper path")
            self.paths.append((x.args[0], ext(x.args[1], KINDS), x.args[2] if len(x.args) > 2 else TRUE))
        self.op = ext(t.args[2], list(OPS))
        self.fill = {"PT_SUBJECT": ext(t.args[3], FILLS), "PT_CLIP": ext(t.args[4], FILLS)}

    def holds(self, inside, turn):
        """is a point in the result; inside(path), turn(path): +1 / -1"""
        n = {"PT_SUBJECT": 0, "PT_CLIP": 0}
        for p, k, closed in self.paths:
            b, r = strip(p)
            if inside(b):
                n[k] += turn(b) * (-1 if r else 1)
        return bool(OPS[self.op](*(bool(FILL[self.fill[k]](n[k])) for k in KINDS)))


# ------------------------------------------------------------------- points
# in (outer, inner, outer, inner, second inner of the first outer)
HOLDS = [(1, 0, 0, 0, 0), (0, 0, 1, 0, 0), (1, 1, 1, 0, 0)]
MISSES = [(0, 0, 0, 0, 0), (1, 1, 0, 0, 0), (0, 0, 1, 1, 0), (1, 1, 1, 1, 0), (1, 0, 0, 0, 1)]


class Points:
    """all ways in which a point can lie relative to the input paths and to the (two) faces of each tree"""

    def __init__(self, faces, signs):
        self.faces, self.signs = faces, signs      # name -> (outer term, [inner terms])
        self.trees, self.misses = [], MISSES[:4]

    def need(self, t):
        """trees that a path depends on, innermost first"""
        b = strip(t)[0]
        if b.op == "app" and b.args[0] == "face path":
            tree = b.args[1]
            if tree not in self.trees:
                for p, _, _ in Execute(tree).paths:
                    self.need(p)
                if tree not in self.trees:
                    self.trees.append(tree)

    def turn(self, b):
        if b.op == "app" and b.args[0] == "face path":
            return 1 if cval(b.args[2]) in (0, 2) else -1
        if b in self.signs:
            return self.signs[b]
        raise Unknown(f"path {short(b)} is not known")

    def orient(self, p):
        b, r = strip(p)
        try:
            return C((self.turn(b) * (-1 if r else 1)) > 0)
        except Unknown:
            return None

    def each(self):
        names = list(self.faces)
        ex = [(t, Execute(t)) for t in self.trees]
        for combo in product(*(range(2 + len(self.faces[n][1])) for n in names)):
            mem, where = {}, {}
            for n, k in zip(names, combo):
                o, i = self.faces[n]
                where[n] = k
                mem[o] = k > 0
                for q, x in enumerate(i):
                    mem[x] = k == 2 + q
            yield from self.descend(ex, 0, mem, where)

    def descend(self, ex, i, mem, where):
        if i == len(ex):
            yield mem, where
            return
        t, e = ex[i]
        h = e.holds(lambda b: self.inside(mem, b), self.turn)
        for opt in HOLDS if h else self.misses:
            m = dict(mem)
            for k, v in enumerate(opt):
                m[app("face path", t, C(k))] = bool(v)
            yield from self.descend(ex, i + 1, m, where)

    def inside(self, mem, b):
        if b not in mem:
            raise Unknown(f"path {short(b)} is not known")
        return mem[b]


def say(where):
    return ", ".join(f"{'outside' if k == 0 else 'inside' if k == 1 else 'in an island of'} {n}" for n, k in where.items())


# ------------------------------------------------------------------- scenes
TOP, LOW = -1.23456, -2.34567


def scenes():
    for name, ops in (("two areas, the second deeper", (TOP, LOW)), ("two areas, the first deeper", (LOW, TOP)), ("two areas of one depth", (TOP, TOP)),
                      ("one area", (TOP,))):
        yield name, ops, ()
        for av, an in ((0, "above"), (TOP, "at the higher depth"), (-1.5, "between the depths"), (LOW, "at the lower depth"), (-3, "below all")):
            yield f"{name}, something to avoid {an}", ops, (av,)
        yield f"{name}, two to avoid at different depths", ops, (-1.5, -0.5)
    for name, ops in (("three areas, the last deepest", (-1.5, TOP, LOW)), ("three areas, the first deepest", (LOW, -1.5, TOP))):
        yield name, ops, ()
    yield "four areas at four depths", (TOP, -3.5, LOW, -1.5), ()
    yield "four areas, two depths", (TOP, LOW, TOP, LOW), ()


def islands():
    """clipper engine: areas with more islands than one"""
    yield "one area with two islands", (TOP,), (), 2
    yield "one area with three islands, something to avoid above", (TOP,), (0,), 3
    yield "two areas with two islands, something to avoid above", (LOW, TOP), (0,), 2


SIGNS = ((1, -1), (-1, -1))


def clipper_scene(R, ops, avoids, sign, isles=1):
    c = new(R)
    c.I.summaries_on = False
    c.I.cut_log = []
    s, j = one_job(c, R)
    faces, signs = {}, {}

    def face(s, n, d, k):
        o, i = In(n + ".outer", "Path"), [In(f"{n}.inner{x or ''}", "Path") for x in range(isles if n[1] == "r" else 1)]
        l = c.I.new_list(s, [E(x) for x in i], c.F, c.node)
        c.keep(s, n + "i", l)
        q, e = c.call(s, c.cls("PathFace"), o, l, C(d))
        s, v = q[0]
        c.keep(s, n, v)
        faces[n] = (o, i)
        signs[o], isle = sign if k % 2 == 0 else (sign[1], sign[0])
        signs.update(dict.fromkeys(i, isle))
        return s, v
    vs, ws = [], []
    for k, d in enumerate(ops):
        s, v = face(s, f"area {k}", d, k)
        vs.append(v)
    for k, d in enumerate(avoids):
        s, v = face(s, f"avoid {k}", d, k + 1)
        ws.append(v)
    pts = Points(faces, signs)
    c.I.orient = pts.orient

    c.I.cuts[(G, "poly_tree_to_poly_faces")] = tree_faces(c, isles > 1)
    pts.misses = MISSES if isles > 1 else MISSES[:4]
    a, b = lst(c, s, *vs), lst(c, s, *ws)
    c.keep(s, "a", a)
    r, x = c.call(s, c.fn(P, "build_pocket_ops"), a, b)
    return c, r, x, pts


def tree_faces(c, many=False):
    """the result of a clipper operation: two faces with one inner each, or with two and one"""
    def tree(I, st, b, F, node):
        a = [I.freeze(st, x) for x in b.values() if isinstance(x, T)]
        t = next((x for x in a if x.op == "app" and x.args[0] == "pc.Execute2"), None)
        d = next((x for x in a if x is not t), None)
        if t is None or d is None:
            return [(st, In("faces", "list[PathFace]"))]
        out = []
        for k, isles in ((0, (1, 4) if many else (1,)), (2, (3,))):
            l = I.new_list(st, [E(app("face path", t, C(i))) for i in isles], F, node)
            q, e = c.call(st, c.cls("PathFace"), app("face path", t, C(k)), l, d)
            st, v = q[0]
            out.append(E(v))
        return [(st, I.new_list(st, out, F, node))]
    return tree


def judge(c, r, x, pts, ops, avoids):
    """(verdict, message)"""
    if not r:
        return (False, "there is no result") if reliable(c) else (None, "no result")
    for st, v in r:
        got = {}
        for f in elems(c.I.freeze(st, v), "the result"):
            a = attrs(f)
            d = a.get("depth")
            if d is None or d.op != "c":
                raise Unknown(f"the depth {short(d) if d is not None else '?'} of an area is not known")
            o, i = a["outer"], elems(a["inners"], "the islands")
            for p in [o, *i]:
                pts.need(p)
            got.setdefault(cval(d), []).append((o, i))
        for d in got:
            if d not in ops:
                return False, f"something is cleared at the depth {d} where no area is"
        for mem, where in pts.each():
            ins = lambda p: pts.inside(mem, strip(p)[0])
            for d in set(ops):
                want = any(where[f"area {k}"] == 1 and e <= d for k, e in enumerate(ops)) and not any(
                    where[f"avoid {k}"] and e >= d for k, e in enumerate(avoids))
                have = any(ins(o) and not any(map(ins, i)) for o, i in got.get(d, ()))
                if want != have:
                    return False, f"a point {say(where)} is {'not ' if want else ''}cleared at the depth {d}" + (
                        f" (areas at {', '.join(map(str, ops))}" + (f"; to avoid at {', '.join(map(str, avoids))}" if avoids else "") + ")")
    return True, "the union of the areas at least that deep, without those to avoid at least that high"


# ----------------------------------------------------------------- cq engine
def cq_scene(R, ops, avoids):
    c = new(R)
    c.I.summaries_on = False
    c.I.cut_log = []
    s, j = one_job(c, R)
    h = {}
    fs = [In(f"area {k}", "Face") for k in range(len(ops))]
    gs = [In(f"avoid {k}", "Face") for k in range(len(avoids))]
    for f, d in zip(fs + gs, list(ops) + list(avoids)):
        h[f] = d
    c.I.bbox = lambda w, name: C(h[w]) if w in h and name in ("zmin", "zmax") else None
    empty = []

    def combine(I, st, b, F, node):
        l = I.freeze(st, next(x for x in b.values() if isinstance(x, T)))
        return [(st, I.new_list(st, [E(app("piece", l, C(k))) for k in (0, 1)], F, node))]

    class Hook:
        def on_ext_call(self, I, st, name, recv, args, kw, F, node, *rest):
            if name == ".cut" and recv is not None:
                fz = [I.freeze(st, x) for x in args]
                if not fz or all(x.op == "star" and x.args[0].op == "lst" and not x.args[0].args[0] for x in fz):
                    empty.append(node)
    c.I.hooks.append(Hook())
    c.I.cuts[(Q, "combine_faces")] = combine
    c.I.cuts[("cq_cam.utils.utils", "break_compound_to_faces")] = combine
    a, b = lst(c, s, *fs), lst(c, s, *gs)
    c.keep(s, "a", a)
    r, x = c.call(s, c.fn(Q, "build_pocket_ops"), j, a, b)
    return c, r, x, h, empty


class Solid:
    """faces of the cq engine: membership of a point, and height"""

    def __init__(self, h):
        self.h = h

    def height(self, t):
        if t in self.h:
            return self.h[t]
        if t.op == "app":
            n = t.args[0]
            if n == "piece":
                return self.height(t.args[1])
            if n in (".cut", ".fuse", ".intersect"):
                zs = {self.height(x) for x in t.args[1:]}
                if len(zs) > 1:
                    raise Wrong(f"faces at the heights {', '.join(map(str, sorted(zs)))} are combined")
                return zs.pop()
            if n == "moved":
                return self.height(t.args[1]) + self.dz(t)
        if t.op == "lst":
            zs = {self.height(x) for x in elems(t)}
            if len(zs) > 1:
                raise Wrong(f"faces at the heights {', '.join(map(str, sorted(zs)))} are combined")
            if not zs:
                raise Unknown("no faces")
            return zs.pop()
        raise Unknown(f"the height of {short(t)} is not known")

    def dz(self, t):
        v = t.args[2]
        if v.op == "app" and v.args[0] == "Vec" and all(x.op == "c" for x in v.args[1:]):
            x, y, z = (cval(q) for q in v.args[1:])
            if x or y:
                raise Wrong("faces are moved sideways")
            return z
        raise Unknown(f"the move {short(v)} is not known")

    def base(self, t):
        return t.args[1] if t.op == "app" and t.args[0] == "moved" else t

    def trees(self, t, out):
        if t.op == "app" and t.args[0] == "piece":
            self.trees(t.args[1], out)
            if t.args[1] not in out:
                out.append(t.args[1])
        elif t.op == "app":
            for x in t.args[1:]:
                if isinstance(x, T):
                    self.trees(x, out)
        elif t.op == "lst":
            for x in elems(t):
                self.trees(x, out)

    def inside(self, mem, t):
        if t in mem:
            return mem[t]
        if t.op == "lst":
            return any([self.inside(mem, x) for x in elems(t)])
        if t.op == "app":
            n = t.args[0]
            if n == "moved":
                return self.inside(mem, t.args[1])
            if n == ".cut":
                return self.inside(mem, t.args[1]) and not any([self.inside(mem, x) for x in t.args[2:]])
            if n == ".fuse":
                return any([self.inside(mem, x) for x in t.args[1:]])
            if n == ".intersect":
                return all([self.inside(mem, x) for x in t.args[1:]])
        raise Unknown(f"{short(t)} is not known")

    def each(self, trees):
        names = list(self.h)
        for combo in product((False, True), repeat=len(names)):
            yield from self.descend(trees, 0, dict(zip(names, combo)))

    def descend(self, trees, i, mem):
        if i == len(trees):
            yield mem
            return
        t = trees[i]
        v = self.inside(mem, t)
        for opt in ((True, False), (False, True)) if v else ((False, False),):
            m = dict(mem)
            for k in (0, 1):
                m[app("piece", t, C(k))] = opt[k]
            yield from self.descend(trees, i + 1, m)


def judge_cq(c, r, x, h, empty, ops, avoids):
    if empty:
        return False, "a face is cut with nothing, which fails"
    if not r:
        return (False, "there is no result") if reliable(c) else (None, "no result")
    S = Solid(h)
    for st, v in r:
        got, trees = {}, []
        for f in elems(c.I.freeze(st, v), "the result"):
            S.trees(f, trees)
            got.setdefault(S.height(f), []).append(f)
        for t in trees:
            S.height(t)
        for d in got:
            if d not in ops:
                return False, f"something is cleared at the depth {d} where no area is"
        for mem in S.each(trees):
            on = {f.args[0]: v for f, v in mem.items() if f in h}
            for d in set(ops):
                want = any(on[f"area {k}"] and e <= d for k, e in enumerate(ops)) and not any(
                    on[f"avoid {k}"] and e >= d for k, e in enumerate(avoids))
                have = any([S.inside(mem, f) for f in got.get(d, ())])
                if want != have:
                    return False, f"a point {say({n: int(v) for n, v in on.items()})} is {'not ' if want else ''}cleared at the depth {d} (areas at {', '.join(map(str, ops))}" + (
                        f"; to avoid at {', '.join(map(str, avoids))}" if avoids else "") + ")"
    return True, "the union of the areas at least that deep, without those to avoid at least that high"


# --------------------------------------------------------- clipper contracts
def contract(R, t, fn, op, clips):
    """union / difference of two subjects and any clips"""
    c = new(R)
    c.I.summaries_on = False
    subs = [In(f"subject{k}", "Path") for k in (0, 1)]
    cl = [In(f"clip{k}", "Path") for k in range(clips)]
    where = fn_where(c, G, fn)
    for sign in product((1, -1), repeat=2 + clips):
        c = new(R)
        c.I.summaries_on = False
        signs = dict(zip(subs + cl, sign))
        pts = Points({}, signs)
        c.I.orient = pts.orient
        seen = []

        def tree(I, st, b, F, node):
            a = [I.freeze(st, x) for x in b.values() if isinstance(x, T)]
            seen.append(a)
            return [(st, app("faces", *a))]
        c.I.cuts[(G, "poly_tree_to_poly_faces")] = tree
        s = c.state()
        a, b = lst(c, s, *subs), lst(c, s, *cl)
        c.keep(s, "a", a)
        r, x = c.call(s, c.fn(G, fn), a, b, num("depth"))
        key = f"{fn} of two paths and {clips} more"
        if not r:
            t.add("boolean", key, False if reliable(c) else None, "no result", where)
        for st, v in r:
            f = c.I.freeze(st, v)
            try:
                if not (f.op == "app" and f.args[0] == "faces"):
                    raise Unknown(f"the result {short(f)} is not the faces of an operation")
                if f.args[2] is not num("depth"):
                    t.add("boolean", key, False, f"the faces get the depth {short(f.args[2])}", where)
                    continue
                e = Execute(f.args[1])
                bad = [p for p, _, closed in e.paths if scaled(p) != 1]
                if bad:
                    t.add("boolean", key, False, f"{short(bad[0])} is scaled {scaled(bad[0])} times", where)
                    continue
                if any(closed is not TRUE for _, _, closed in e.paths):
                    t.add("boolean", key, False, "a path is added as an open one", where)
                    continue
                res = None
                for on in product((False, True), repeat=len(signs)):
                    mem = dict(zip(subs + cl, on))
                    have = e.holds(lambda q: pts.inside(mem, q), pts.turn)
                    A, B = any(mem[q] for q in subs), any(mem[q] for q in cl)
                    want = (A or B) if op == "union" else (A and not B)
                    if want != have:
                        inn = [q.args[0] for q in mem if mem[q]]
                        res = f"a point inside {' and '.join(inn) or 'none'} is {'not ' if want else ''}in the result" + (
                            f" ({', '.join(q.args[0] for q in mem if signs[q] < 0)} clockwise)" if -1 in sign else "")
                        break
                t.add("boolean", key, res is None, res or "for all orientations", where)
            except Unknown as u:
                t.add("boolean", key, None, str(u), where)


def offset_contract(R, t, islands):
    """the offset of an area is the offset boundary without the offset islands, at the depth of the area"""
    where = fn_where(new(R), G, "offset_polyface")
    key = f"offset of an area with {islands} islands"
    for sign in ((1, 1), (1, -1), (-1, 1)):
        c = new(R)
        c.I.summaries_on = False
        o, ii = In("outer", "Path"), [In(f"inner{k}", "Path") for k in range(islands)]
        signs = {}
        for p in [o] + ii:
            for k in (0, 1):
                signs[app("off", p, C(k))] = sign[k]
        pts = Points({}, signs)
        c.I.orient = pts.orient

        def off(I, st, b, F, node):
            p = I.freeze(st, b["path"] if "path" in b else next(x for x in b.values() if isinstance(x, T)))
            return [(st, I.new_list(st, [E(app("off", p, C(k))) for k in (0, 1)], F, node))]
        c.I.cuts[(G, "offset_path")] = off
        c.I.cuts[(G, "poly_tree_to_poly_faces")] = tree_faces(c)
        s = c.state()
        l = lst(c, s, *ii)
        c.keep(s, "l", l)
        q, e = c.call(s, c.cls("PathFace"), o, l, C(-1))
        s, f = q[0]
        c.keep(s, "f", f)
        r, x = c.call(s, c.fn(G, "offset_polyface"), f, num("a"), num("b"), num("precision"))
        if not r:
            t.add("areas", key, False if reliable(c) else None, "no result", where)
        for st, v in r:
            try:
                fs = []
                for f in elems(c.I.freeze(st, v), "the result"):
                    a = attrs(f)
                    if not a:
                        raise Unknown("a face is not known")
                    if cval(a["depth"]) != -1:
                        raise Wrong(f"the depth becomes {short(a['depth'])}")
                    fs.append((a["outer"], elems(a["inners"], "the islands")))
                    for p in [fs[-1][0], *fs[-1][1]]:
                        pts.need(p)
                names = list(signs)
                for on in product((False, True), repeat=len(names)):
                    for mem, _ in pts.descend([(q, Execute(q)) for q in pts.trees], 0, dict(zip(names, on)), {}):
                        ins = lambda p: pts.inside(mem, strip(p)[0])
                        want = any(m and q.args[1] is o for q, m in zip(names, on)) and not any(m and q.args[1] is not o for q, m in zip(names, on))
                        if want != any(ins(a) and not any(map(ins, b)) for a, b in fs):
                            at = [f"{q.args[1].args[0]} ({cval(q.args[2])})" for q, m in zip(names, on) if m]
                            raise Wrong(f"a point within the offset of {', '.join(at) or 'nothing'} is {'not ' if want else ''}part of the offset area")
                t.add("areas", key, True, "offset boundary without offset islands", where)
            except Unknown as u:
                t.add("areas", key, None, str(u), where)
            except Wrong as u:
                t.add("areas", key, False, str(u), where)


def tree_contract(R, t):
    """the faces of a tree: outer > inner > outer > inner, and a second outer"""
    c = new(R)
    c.I.summaries_on = False
    kids = {"root": ["a", "b"], "a": ["a1", "a2"], "a1": ["a1x"], "a1x": ["a1x1"], "a2": ["a2x"]}
    s = c.state()

    def attr_of(w, name):
        if w.op == "in" and w.args[1] == "PolyNode":
            n = w.args[0]
            if name == "Childs":
                return mk("lst", tuple(E(In(k, "PolyNode")) for k in kids.get(n, ())))
            if name == "depth":
                return C({"root": 0}.get(n, len(n)))
            if name == "IsHole":
                return C(len(n) in (2, 4))
        return None
    c.I.known = attr_of
    where = fn_where(c, G, "poly_tree_to_poly_faces")
    r, x = c.call(s, c.fn(G, "poly_tree_to_poly_faces"), In("root", "PolyNode"), num("depth"))
    want = {"a": {"a1", "a2"}, "b": set(), "a1x": {"a1x1"}, "a2x": set()}
    key = "faces of a nested tree"
    if not r:
        t.add("tree", key, False if reliable(c) else None, "no result", where)

    def origin(p):
        """the node a path comes from"""
        out, todo = set(), [p]
        while todo:
            y = todo.pop()
            if isinstance(y, T):
                if y.op == "attr" and y.args[1] == "Contour":
                    out.add(y.args[0])
                todo += y.args
            elif isinstance(y, (tuple, frozenset, list)):
                todo += y
        if len(out) != 1:
            raise Unknown(f"the origin of {short(p)} is not known")
        return out.pop().args[0]
    for st, v in r:
        try:
            got = {}
            for f in elems(c.I.freeze(st, v), "the result"):
                a = attrs(f)
                if not a:
                    raise Unknown("a face is not known")
                if a["depth"] is not num("depth"):
                    raise Wrong(f"a face gets the depth {short(a['depth'])}")
                o = origin(a["outer"])
                if o in got:
                    raise Wrong("a face occurs twice")
                got[o] = {origin(i) for i in elems(a["inners"], "the inners")}
            if got != want:
                k = next((k for k in want if got.get(k) != want[k]), None)
                raise Wrong(f"the face {k} is lost" if k is not None and k not in got else f"the inners of the face {k} are not its own" if k else "there are further faces")
            t.add("tree", key, True, "each outer with its own inners", where)
        except Unknown as u:
            t.add("tree", key, None, str(u), where)
        except Wrong as u:
            t.add("tree", key, False, str(u), where)


@prop("C20")
def levels(R):
    R.rule("clipper", "clipper engine: at the depth of each area everything at least that deep is cleared, save what is to be avoided at least that high", 20)
    R.rule("cq", "cq engine: at the depth of each area everything at least that deep is cleared, save what is to be avoided at least that high", 20)
    R.rule("boolean", "unions and differences of paths hold for overlapping paths of any orientation", 3)
    R.rule("areas", "the offset of an area is its offset boundary without its offset islands, at its depth", 2)
    R.rule("tree", "each face of a nested result is kept, with its own inners", 1)

    def check(R, job):
        t = Tally(R)
        if job[0] == "clipper":
            for name, ops, av, *isles in job[1]:
                for sign in SIGNS:
                    c, r, x, pts = clipper_scene(R, ops, av, sign, *isles)
                    where = fn_where(c, P, "build_pocket_ops")
                    try:
                        v, m = judge(c, r, x, pts, ops, av)
                    except Unknown as u:
                        v, m = None, str(u)
                    t.add("clipper", name, v, m, where)
        elif job[0] == "cq":
            for name, ops, av in job[1]:
                c, r, x, h, empty = cq_scene(R, ops, av)
                where = fn_where(c, Q, "build_pocket_ops")
                try:
                    v, m = judge_cq(c, r, x, h, empty, ops, av)
                except Unknown as u:
                    v, m = None, str(u)
                except Wrong as u:
                    v, m = False, str(u)
                t.add("cq", name, v, m, where)
        else:
            contract(R, t, "union_poly_tree", "union", 0)
            for n in (0, 2):
                contract(R, t, "difference_poly_tree", "difference", n)
            tree_contract(R, t)
            for n in (0, 2):
                offset_contract(R, t, n)
        t.flush()
    sc = list(scenes())
    more = sc + list(islands())
    jobs = [("clipper", more[k::8]) for k in range(8)] + [("cq", sc[k::4]) for k in range(4)] + [("contract",)]
    parallel(R, jobs, check)
