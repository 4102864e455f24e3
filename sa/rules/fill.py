"""The passes that fill a pocket, and the levels they are repeated on."""
from itertools import product

from . import prop
from .common import *  # noqa
from .common import attrs, cval, fn_where, new, num, one_job, parallel, reliable, undef
from ..terms import C, FALSE, NONE, T, TRUE, ZERO, In, app, mk, show, sub
from ..engine import E
from .levels import Execute, Points, Unknown, Wrong, elems, strip
from .path import G, P, Q, Tally, short
from .reject import lst, why

U = "cq_cam.utils.utils"
CAP = 14


def parent(p):
    """(parent, index) of an offset path"""
    return (p.args[1], cval(p.args[2])) if p.op == "app" and p.args[0] == "off" else None


def depth_of(p):
    n = 0
    while p.op == "app":
        if p.args[0] == "off":
            p, n = p.args[1], n + 1
        elif p.args[0] == "face path":
            p = strip(Execute(p.args[1]).paths[0][0])[0]
        elif p.args[0] == "piece wire":
            p = p.args[1]
        else:
            break
    return n


# how many offsets does a contour have, by its path of indices in the tree
TREES = {
    "nothing left after the boundary": {},
    "one pass after the other": {(): 1, (0,): 1, (0, 0): 1},
    "two parts": {(): 2, (0,): 1, (1,): 1},
    "a part that splits again": {(): 2, (0,): 2, (0, 0): 1},
    "ten parts": {(): 10, (0,): 1},
    "many passes": {(0,) * k: 1 for k in range(24)},
    "many parts": {(): 20, (3,): 1},
    "three parts of different length": {(): 3, (1,): 1, (1, 0): 1, (2,): 1},
}


def size(script):
    return sum(TREES[script].values())


class Sim:
    """the contours which the offsets of a script lead to"""

    def __init__(self, script, islands, faces):
        self.script, self.islands, self.faces = TREES[script], islands, faces
        self.offs = []             # (contour, distance)
        self.outer = In("outer", "Path")
        self.ids = {self.outer: ()}
        self.made = {}
        self.broken = None

    def count(self, p):
        i = self.ids.get(p)
        if i is None:
            return None
        return self.script.get(i, 0)


def fill_scene(script, islands, R):
    """clipper engine"""
    c = new(R)
    c.I.summaries_on, c.I.use_class_models, c.I.unroll = False, False, max(CAP, 2 * size(script))
    S = Sim(script, islands, 1)
    ii = [In(f"inner{k}", "Path") for k in range(islands)]
    s = c.state()

    def off(I, st, b, F, node):
        p = I.freeze(st, b["path"] if "path" in b else next(x for x in b.values() if isinstance(x, T)))
        p = strip(p)[0]
        n = S.count(p)
        if n is None:
            return [(st, In("offsets", "list[Path]"))]
        kids = [app("off", p, C(k)) for k in range(n)]
        for k, q in enumerate(kids):
            S.ids[q] = S.ids[p] + (k,)
        S.offs.append((p, I.freeze(st, b["offset"]) if "offset" in b else None))
        return [(st, I.new_list(st, [E(q) for q in kids], F, node))]

    def tree(I, st, b, F, node):
        a = [I.freeze(st, x) for x in b.values() if isinstance(x, T)]
        t = next((x for x in a if x.op == "app" and x.args[0] == "pc.Execute2"), None)
        d = next((x for x in a if x is not t), None)
        try:
            e = Execute(t)
            of = [(p, parent(strip(p)[0])) for p, k, _ in e.paths if k == "PT_SUBJECT"]
            if not of or any(q is None for _, q in of) or len({q[0] for _, q in of}) != 1:
                raise Unknown("")
        except (Unknown, AttributeError):
            return [(st, In("faces", "list[PathFace]"))]
        base = of[0][1][0]
        out = []
        for k, (_, (_, i)) in enumerate(of):     # as many faces as contours
            o, n = app("face path", t, C(2 * k)), app("face path", t, C(2 * k + 1))
            S.ids[o] = S.ids[base] + (i,)
            l = I.new_list(st, [E(n)], F, node)
            q, x = c.call(st, c.cls("PathFace"), o, l, d)
            st, v = q[0]
            out.append(E(v))
        S.made[t] = base
        return [(st, I.new_list(st, out, F, node))]
    c.I.cuts[(G, "offset_path")] = off
    c.I.cuts[(G, "poly_tree_to_poly_faces")] = tree
    c.I.orient = lambda p: TRUE
    c.I.length = lambda p: 4 + (len(S.ids[p]) + sum(S.ids[p])) % 2 if p in S.ids else None    # triangles, squares, ...
    l = lst(c, s, *ii)
    c.keep(s, "l", l)
    q, e = c.call(s, c.cls("PathFace"), S.outer, l, C(-1))
    s, f = q[0]
    c.keep(s, "f", f)
    r, x = c.call(s, c.fn(P, "fill_pocket_contour_shrink"), f, num("step"), num("precision"))
    S.x = x
    return c, S, r, ii


def cq_fill_scene(script, islands, R, broken=None):
    """broken: a contour that no face can be made from"""
    c = new(R)
    c.I.summaries_on, c.I.use_class_models, c.I.unroll = False, False, max(CAP, 2 * size(script))
    S = Sim(script, islands, 1)
    S.outer = In("outer", "Wire")
    S.ids = {S.outer: ()}
    pocket = In("pocket", "Face")
    ii = [In(f"inner{k}", "Wire") for k in range(islands)]
    s = c.state()

    def given(I, st, name, recv, args, kw, F, node):
        w = I.freeze(st, recv)
        if w is pocket and name == "outerWire":
            return [(st, S.outer)]
        if w is pocket and name == "innerWires":
            return [(st, I.new_list(st, [E(i) for i in ii], F, node))]
        if name == "outerWire" and w.op == "app" and w.args[0] == "piece":
            q = app("piece wire", w.args[2], w.args[1])
            S.ids.setdefault(q, S.ids.get(w.args[2]))
            return [(st, q)]
        return None
    c.I.given = given
    c.I.ext_ok = True

    def face(I, st, name, args, kw, F, node):
        if broken and name == "cq.Face.makeFromWires" and args and S.ids.get(I.freeze(st, args[0])) == broken:
            I.throw(st, mk("exc", "StdFail_NotDone"), F, node)
            return []
        return None
    if broken:
        S.broken = broken
        c.I.given_ext = face
    c.I.same = lambda a, b: a is b if all(x in S.ids or x in ii for x in (a, b)) else None

    def off(I, st, b, F, node):
        p = I.freeze(st, b["wire"] if "wire" in b else next(x for x in b.values() if isinstance(x, T)))
        n = S.count(p)
        if n is None:
            return [(st, In("offsets", "list[Wire]"))]
        kids = [app("off", p, C(k)) for k in range(n)]
        for k, q in enumerate(kids):
            S.ids[q] = S.ids[p] + (k,)
        S.offs.append((p, I.freeze(st, b["offset"]) if "offset" in b else None))
        return [(st, I.new_list(st, [E(q) for q in kids], F, node))]

    def pieces(I, st, b, F, node):
        t = I.freeze(st, next(x for x in b.values() if isinstance(x, T)))
        w = t
        while w.op == "app" and w.args[0] in (".cut", "cq.Face.makeFromWires"):
            w = w.args[1]
        if parent(w) is None:
            return [(st, In("pieces", "list[Face]"))]
        return [(st, I.new_list(st, [E(app("piece", t, w))], F, node))]
    c.I.cuts[(G, "offset_wire")] = off
    c.I.cuts[(U, "break_compound_to_faces")] = pieces
    r, x = c.call(s, c.fn(Q, "fill_pocket_contour_shrink"), pocket, num("step"))
    S.x = x
    return c, S, r, ii


def family(S, p):
    """the contour a pass is derived from"""
    i = S.ids.get(p)
    return None if i is None else i


def contours(S, ii):
    """index paths of all contours that are due"""
    out, todo = {(): S.outer}, [()]
    while todo:
        i = todo.pop()
        for k in range(S.script.get(i, 0)):
            if i + (k,) == S.broken:
                continue
            out[i + (k,)] = None
            todo.append(i + (k,))
    return set(out)


def region_ok(S, p, ii, engine):
    """a contour's region: the parent's offset without the islands"""
    if engine == "clipper" and p.op == "app" and p.args[0] == "face path":
        e = Execute(p.args[1])
        base = S.made[p.args[1]]
        n = S.count(base)
        cand = [app("off", base, C(k)) for k in range(n)]
        have = {strip(q)[0] for q, k, _ in e.paths if k == "PT_SUBJECT"}
        for on in product((False, True), repeat=len(cand) + len(ii)):
            mem = dict(zip(cand + ii, on))
            want = any(mem[q] for q in cand if q in have) and not any(mem[q] for q in ii)

            def ins(b):
                if b not in mem:
                    raise Unknown(f"path {short(b)} is not known")
                return mem[b]
            if want != e.holds(ins, lambda b: 1):
                at = [q.args[0] for q in ii if mem[q]]
                return f"what is left of a pass {'in the island ' + at[0] if at else 'outside the islands'} is {'not ' if want else ''}part of the next pass"
        return None
    if engine == "clipper":
        return "an offset is used without taking the islands away" if ii and p is not S.outer else None
    if p.op == "app" and p.args[0] == "piece wire":
        t = p.args[2]
        taken = set()
        while t.op == "app" and t.args[0] == ".cut":
            taken |= {x for y in t.args[2:] for x in inner_of(y)}
            t = t.args[1]
        if not (t.op == "app" and t.args[0] == "cq.Face.makeFromWires" and t.args[1] is p.args[1]):
            raise Unknown(f"{short(t)} is not known")
        left = [i for i in ii if i not in taken]
        return f"the island {left[0].args[0]} is not taken away from a pass" if left else None
    return "an offset is used without taking the islands away" if ii and p is not S.outer else None


def inner_of(t):
    if t.op in ("lst", "tup"):
        return {x for y in elems(t) for x in inner_of(y)}
    if t.op == "star":
        return inner_of(t.args[0])
    if t.op == "app" and t.args[0] == "cq.Face.makeFromWires":
        return {t.args[1]}
    raise Unknown(f"{short(t)} is not known")


def judge_fill(c, S, r, ii, engine):
    out = []
    if not r:
        return [("passes", False if reliable(c) else None, "there is no way to a result")]
    for st, v in r:
        seqs = [elems(q, "a sequence") for q in elems(c.I.freeze(st, v), "the result")]
        paths = []
        for q in seqs:
            row = []
            for x in q:
                if engine == "clipper":
                    a = attrs(x)
                    if not a:
                        raise Unknown("a pass is not known")
                    if cval(a["depth"]) != -1:
                        out.append(("passes", False, f"a pass is at the depth {short(a['depth'])} instead of the pocket's"))
                    row.append(a["outer"])
                else:
                    row.append(x)
            paths.append(row)
        got = {}
        isl = []
        for row in paths:
            for p in row:
                if p in ii:
                    isl.append(p)
                    continue
                i = S.ids.get(p)
                if i is None:
                    raise Unknown(f"the pass {short(p)} is not known")
                m = region_ok(S, p, ii, engine)
                if m:
                    out.append(("passes", False, m))
                if i in got:
                    out.append(("passes", False, "a pass is cut twice"))
                got[i] = p
        for i in sorted(contours(S, ii) - set(got)):
            out.append(("passes", False, "the boundary of the pocket is not cut" if not i else f"pass {len(i)} inside the boundary is not cut"))
        for i in ii:
            if isl.count(i) != 1:
                out.append(("islands", False, f"the outline of an island is cut {isl.count(i)} times"))
        for row in paths:
            for p, q in zip(row, row[1:]):
                a, b = S.ids.get(p), S.ids.get(q)
                if a is not None and b is not None and a[:-1] != b:
                    out.append(("order", False, "passes of a sequence are not each the next one outwards"))
        if any(d is not None and d is not sub(ZERO, num("step")) for _, d in S.offs):
            d = next(d for _, d in S.offs if d is not None and d is not sub(ZERO, num("step")))
            out.append(("passes", None if undef(d) else False, f"a pass is offset by {short(d)} instead of a step inwards"))
    return out


@prop("C22")
def filling(R):
    R.rule("passes", "from its boundary inwards a pocket is cut in passes one step apart, without the islands, until nothing is left; each pass once, at the pocket's depth", 20)
    R.rule("islands", "each island of a pocket is cut around once", 8)
    R.rule("stack", "no function calls itself once per pass inside another, so that any number of them can be cut", 1)
    R.rule("order", "within a sequence each pass is followed by the next one outwards", 20)

    def check(R, job):
        engine = job[0]
        t = Tally(R)
        mod = P if engine == "clipper" else Q
        for script, n, broken in job[1]:
            c, S, r, ii = fill_scene(script, n, R) if engine == "clipper" else cq_fill_scene(script, n, R, broken)
            where = fn_where(c, mod, "fill_pocket_contour_shrink")
            key = f"{engine}: {script}, {n} islands" + (f", part {broken[-1] + 1} is no face" if broken else "")
            try:
                u = c.I.unknown
                if "endless" in u and not set(u) - {"endless"}:
                    bad = [("passes", False, "the passes do not come to an end although nothing is left")]
                elif "endless" in u or "unroll cap" in u:
                    raise Unknown("the passes may not come to an end")
                else:
                    bad = judge_fill(c, S, r, ii, engine)
            except Unknown as u:
                bad = [(k, None, str(u)) for k in ("passes", "order")]
            deep = max(c.I.deepest.items(), key=lambda x: x[1], default=(None, 0))
            nested = max(map(len, TREES[script]), default=0) + 1
            if nested >= 20 and not bad:
                t.add("stack", key, deep[1] < nested / 2, f"{deep[0][0]}.{deep[0][1]} calls itself for each pass inside another ({deep[1]} times for {nested}), "
                      "which more passes than the call stack is deep do not allow", fn_where(c, *deep[0]) or where)
            for k in ("passes", "order") + (("islands",) if n else ()):
                mine = [b for b in bad if b[0] == k]
                if mine:
                    t.add(k, key, mine[0][1], mine[0][2], where)
                else:
                    t.add(k, key, True, "complete", where)
        t.flush()
    jobs = [(e, [(script, n, None) for n in ((0, 1, 2) if size(script) < CAP else (0,))]) for script in TREES for e in ("clipper", "cq")]
    jobs += [("cq", [(script, 1, i)]) for script, i in (("two parts", (0,)), ("three parts of different length", (1,)), ("a part that splits again", (0, 1)))]
    parallel(R, jobs, check)
