"""Every wire, edge and path that an operation yields is cut completely, in order and once."""
from fractions import Fraction

from . import prop
from .common import *  # noqa
from .common import AnalysisBroken, attrs, cval, fn_where, new, num, one_job, parallel, undef, where_obj
from ..terms import C, NONE, T, ZERO, In, app, as_poly, attr, mk, show, sub, subst, subterms
from ..engine import E
from ..walk import is_motion, norm, site
from .path import G, Tally, code_of, edge_of, short, vec3
from .reject import lst

RT = "cq_cam.routers"


# ---------------------------------------------------------------- positions
def where_on(v):
    """(edge, parameter as polynomial) of a motion's target, or None"""
    if v is None:
        return None
    rs = [edge_of(x) for x in v[:2]]
    if None in rs or len({r[:3] for r in rs}) != 1:
        return None
    e, kind, arg = rs[0][:3]
    s, t = app("OStartParam", e), app("OEndParam", e)
    if kind == "OStart":
        return e, s
    if kind == "OEnd":
        return e, t
    if kind == "PosP":
        return e, arg
    if kind == "PosO":
        q = as_poly(arg)
        if q is not None and set(q) <= {()}:
            f = q.get((), Fraction(0))
            return e, ("len", f)
    return None


def along(p, a, b, e):
    """how far a position is on the way from a to b: a rational between them, or None"""
    s, t = app("OStartParam", e), app("OEndParam", e)
    if isinstance(p, tuple):
        if a is s and b is t:
            return p[1]
        return {0: 0 if a is s else None, 1: 1 if b is t else None}.get(p[1])
    if p is a:
        return Fraction(0)
    if p is b:
        return Fraction(1)
    q = as_poly(norm(p))
    ka, kb = ((a, 1),), ((b, 1),)
    if q is None or set(q) - {ka, kb} or q.get(ka, 0) + q.get(kb, 0) != 1:
        return None
    return q.get(kb, Fraction(0))


# --------------------------------------------------------------- automaton
class Trace:
    """runs a path grammar against the expected traversals.
    state: (index of the traversal, fraction reached)"""

    def __init__(self, c, want, kinds=None):
        self.c, self.want = c, want
        self.kinds = kinds or {}
        self.bad, self.unk = [], []

    def run(self, segs):
        end = self.segs(segs, {(0, None)})
        n = len(self.want)
        for i, t in end:
            if i < n:
                self.bad.append((self.name(i, t) + " is not cut", None))
        return end

    def name(self, i, t=None):
        e, a, b, n = self.want[i]
        return (f"the rest of {n}" if t else n)

    def segs(self, segs, states):
        for s in segs:
            if not states:
                return states
            if s.op == "e":
                states = self.motion(s.args[0], states, {})
            elif s.op == "alt":
                out = set()
                for sg, g in s.args[0]:
                    if not self.possible(g):
                        continue
                    out |= self.segs(sg, states)
                states = out
            elif s.op == "many":
                states = self.many(s, states)
            else:
                self.unk.append("part of the path is not resolved")
                return set()
        return states

    def possible(self, g):
        """a linear or curved edge can't be another kind"""
        for p, v in g:
            if p.op == "eq" and len(p.args) == 2 and v:
                x = [app_ for app_ in p.args if app_.op == "app" and app_.args[0] == ".geomType"]
                y = [k for k in p.args if k.op == "c"]
                if x and y and self.kinds.get(x[0].args[1]) not in (None, cval(y[0])):
                    return False
        return True

    def many(self, s, states):
        key, src, first, rest = s.args[:4]
        K = mk("k", key)
        kend = mk("kend", key, src)
        out = set()
        firsts = [sg for sg, g in first if self.possible(g)]
        rests = [sg for sg, g in rest if self.possible(g)]
        for sg in firsts:
            out |= self.segs_at(sg, states, {K: ZERO})
        if rests:
            last = set()
            for sg in rests:
                last |= self.segs_at(sg, set(out), {K: sub(kend, C(1))})
            return last | {x for x in out if x in last}
        return out

    def segs_at(self, segs, states, m):
        for s in segs:
            if s.op == "e":
                states = self.motion(s.args[0], states, m)
            elif s.op == "alt":
                out = set()
                for sg, g in s.args[0]:
                    if self.possible(g):
                        out |= self.segs_at(sg, states, m)
                states = out
            else:
                self.unk.append("nested loop in the path of an edge")
                return set()
        return states

    def motion(self, o, states, m):
        if not is_motion(o):
            self.unk.append("a command that is not a motion")
            return set()
        a = attrs(o)
        end = vec3(a.get("end"))
        where = where_obj(o)
        if m and end is not None:
            end = tuple(norm(subst(x, m)) for x in end)
        code = code_of(self.c, o)
        if end is None or code is None:
            self.unk.append("a motion is not resolved")
            return set()
        start = vec3(a.get("start"))
        if m and start is not None:
            start = tuple(norm(subst(x, m)) for x in start)
        flat = start is not None and all(norm(x) is norm(y) for x, y in zip(start[:2], end[:2]))
        out = set()
        for i, t in states:
            if code == "G0" or (flat and start[2] is not end[2] and a["end"].op == "obj" and self.vertical(o)):
                if t is not None and t < 1:
                    self.bad.append((f"{self.name(i)} is left before its end", where))
                else:
                    out.add((i, t))
                continue
            pos = where_on(tuple(norm(x) for x in end))
            if pos is None:
                if any(undef(x) for x in end):
                    self.unk.append(f"target {short(end[0])} is not resolved")
                else:
                    self.unk.append(f"target {short(end[0])} is not on an edge")
                continue
            out |= self.step(i, t, pos, where)
        return out

    def vertical(self, o):
        return o.args[0].name.startswith("Plunge") or o.args[0].name == "Retract"

    def step(self, i, t, pos, where):
        e, p = pos
        if i >= len(self.want):
            self.bad.append((f"{short(e)} is cut although nothing is left to cut", where))
            return set()
        we, a, b, n = self.want[i]
        if e is not we:
            x = norm(e)
            if undef(x):
                self.unk.append(f"edge {short(e)} is not resolved")
            else:
                self.bad.append((f"{short(e)} is cut where {n} is due", where))
            return set()
        f = along(p, a, b, e)
        if f is None:
            if not isinstance(p, tuple) and undef(p):
                self.unk.append(f"position {short(p)} is not resolved")
            else:
                self.bad.append((f"{n} is cut to {short(p) if not isinstance(p, tuple) else p[1]}, which is not on the way from {short(a)} to {short(b)}", where))
            return set()
        if f < (t or 0) or f > 1 or (t is not None and f == t and f > 0):
            self.bad.append((f"{n} is cut backwards or beyond its end", where))
            return set()
        if f == 1:
            return {(i + 1, None)}
        return {(i, f)}


# ------------------------------------------------------------------ scenes
KINDS = ("LINE", "CIRCLE", "ARC", "BSPLINE", "SPLINE", "OFFSET")


def wire_scene(R, sizes, special, link, stepover, whole=None):
    """wires of LINE edges, the edges in `special` of other kinds; link: (wire, edge index, the entry is the edge's start vertex)"""
    c = new(R)
    c.I.summaries_on = False
    c.I.motion_codes, c.I.cut_log = {}, []
    s, j = one_job(c, R)
    wires = [In(f"wire{k}", "Wire") for k in range(len(sizes))]
    edges = [[In(f"edge{k}{chr(97 + i)}", "Edge") for i in range(n)] for k, n in enumerate(sizes)]
    kinds = {}
    for k, es in enumerate(edges):
        for i, e in enumerate(es):
            kind = special.get((k, i), "LINE")
            kinds[e] = kind
            s.facts[mk("eq", *sorted((app(".geomType", e), C(kind)), key=lambda t: t.n))] = True
    by = dict(zip(wires, edges))

    def ordered(I, st, b, F, node):
        w = I.freeze(st, next(x for x in b.values() if isinstance(x, T)))
        es = by.get(w)
        if es is None:
            return [(st, app("OrderedEdges", w))]
        return [(st, I.new_list(st, [E(e) for e in es], F, node))]

    def nearest(I, st, b, F, node):
        ws = [I.freeze(st, x) for x in b.values() if isinstance(x, T)]
        w = next((x for x in ws if x in by), None)
        if w is None or link is None or wires.index(w) != link[0]:
            return [(st, mk("tup", C(9), by[w][0] if w is not None else In("target", "Edge"), num("param")))]
        if link[2]:
            return [(st, mk("tup", C(1), In("corner", "Vertex"), NONE))]
        e = by[w][link[1]]
        return [(st, mk("tup", C(1), e, num("param")))]

    def point(x):
        """(wire, corner) of a position"""
        if x.op == "app" and x.args[0] in ("OStart", "OEnd"):
            for k, es in enumerate(edges):
                if x.args[1] in es:
                    return k, (es.index(x.args[1]) + (x.args[0] == "OEnd")) % len(es)
        if x.op == "app" and x.args[0] == "VertexPt" and x.args[1] is In("corner", "Vertex"):
            return link[:2]
        return None

    def same(x, y):
        a, b = point(x), point(y)
        return None if a is None or b is None else a == b
    c.I.same = same

    def given(I, st, name, recv, args, kw, F, node):
        e = I.freeze(st, recv) if recv is not None else None
        if name == "Length" and kinds.get(e) == "LINE":
            k, i = next((k, es.index(e)) for k, es in enumerate(edges) if e in es)
            return [(st, C((0.002, 40.0, 0.02)[(k + i) % 3]))]       # short ones and long ones
        return None
    c.I.given = given
    c.I.cuts[("cq_cam.utils.utils", "wire_to_ordered_edges")] = ordered
    c.I.cuts[(RT, "distance_to_wire")] = nearest
    kw = {"stepover": stepover} if stepover is not None else {}
    r, x = c.call(s, c.fn(RT, "route_wires"), j, lst(c, s, *wires), **kw)
    want = []
    for k, es in enumerate(edges):
        ends = lambda e: (app("OStartParam", e), app("OEndParam", e))
        if link is not None and link[0] == k and link[2]:
            for q in list(range(link[1], len(es))) + list(range(link[1])):
                want.append((es[q], *ends(es[q]), f"edge {q} of wire {k}"))
        elif link is not None and link[0] == k:
            i, p = link[1], num("param")
            e = es[i]
            a, b = ends(e)
            want.append((e, p, b, f"edge {i} of wire {k} from the link to its end"))
            for q in list(range(i + 1, len(es))) + list(range(i)):
                want.append((es[q], *ends(es[q]), f"edge {q} of wire {k}"))
            want.append((e, a, p, f"edge {i} of wire {k} from its start to the link"))
        else:
            for q, e in enumerate(es):
                want.append((e, *ends(e), f"edge {q} of wire {k}"))
    return c, r, x, want, kinds


@prop("C15")
def coverage(R):
    R.rule("edges", "each edge of each wire is cut once, in order, from its start to its end", 6)
    R.rule("linked", "a wire that is entered along the way is cut from there all the way round", 6)
    R.rule("paths", "each segment of a pocket's path is cut once, in order and at its depth, all the way round when entered along the way", 6)

    R.rule("outline", "the path of a face's wire goes once around it, through its corners, each edge from its start to its end", 4)
    R.rule("polygons", "paths of known points are cut once around each, linked only within a stepover", 6)

    def check(R, job):
        kind, arg = job[0], job[1:]
        t = Tally(R)
        if kind in ("outline", "polygons"):
            from . import outline as ol
            from .levels import Unknown
            for name in arg[0]:
                if kind == "outline":
                    sc = ol.outline_scene(R, ol.WIRES[name[0]], ol.WIRES[name[1]] if name[1] else [])
                    name, judge, where = " around ".join(filter(None, (name[0], name[1]))), lambda sc: ol.judge_outline(*sc) + (None,), ("cq_cam.utils.geometry_op", "wire_to_path")
                else:
                    sc = ol.polygon_scene(R, ol.POLYGONS[name])
                    judge, where = lambda sc: ol.judge_polygons(*sc), (RT, "route_polyface_outers")
                try:
                    v, m, w = judge(sc)
                except Unknown as u:
                    v, m, w = None, str(u), None
                t.add(kind, name, v, m, w or fn_where(sc[0], *where))
            t.flush()
            return
        if kind == "wires":
            for name, rule, sizes, special, link, so in arg[0]:
                c, r, x, want, kinds = wire_scene(R, sizes, special, link, so)
                report(t, c, r, want, kinds, rule, name, fn_where(c, RT, "route_wires"))
        else:
            for name, sizes, link in arg[0]:
                c, r, want = path_scene(R, sizes, link)
                report_path(t, c, r, want, "paths", name, fn_where(c, RT, "route_polyface_outers"))
        t.flush()

    jobs = []
    plain = [("one wire with one edge", (1,)), ("one wire of three edges", (3,)), ("three wires of two, one and three edges", (2, 1, 3))]
    for so, son in ((None, ""), (C(2), ", stepover")):
        jobs.append(("wires", [(n + son, "edges", sz, {}, None, so) for n, sz in plain]))
    for k in KINDS[1:]:
        jobs.append(("wires", [(f"a wire with a {k} edge {p}", "edges", (n,), {(0, i): k}, None, None)
                               for p, n, i in (("alone", 1, 0), ("first", 2, 0), ("last", 2, 1))]))
    for k in KINDS:
        jobs.append(("wires", [(f"second wire of {n} edges entered within edge {i} ({k})", "linked", (1, n), {(1, i): k}, (1, i, False), C(2))
                               for n, i in ((1, 0), (3, 1), (2, 1), (3, 0), (3, 2))]))
    jobs.append(("wires", [(f"second wire of {n} edges entered at corner {i}", "linked", (1, n), {}, (1, i, True), C(2))
                           for n, i in ((1, 0), (2, 1), (3, 0), (3, 1), (3, 2))]))
    jobs.append(("paths", [("one path", (4,), None), ("three paths", (3, 4, 5), None)]))
    jobs.append(("paths", [("paths of three points and of 60", (3, 60, 3, 3), None)] + [
        (f"second path of {n} points entered within segment {i}", (4, n), (1, i)) for n, i in ((3, 0), (3, 1), (60, 41), (60, 58))]))
    jobs.append(("paths", [(f"second path of 4 points entered within segment {i}", (3, 4), (1, i)) for i in (0, 1, 2)]))
    from .outline import POLYGONS, WIRES
    jobs.append(("outline", [(n, None) for n in WIRES]))
    jobs.append(("outline", [("lines", n) for n in WIRES]))
    jobs += [("polygons", sorted(POLYGONS)[k::3]) for k in range(3)]
    parallel(R, jobs, check)


def report(t, c, r, want, kinds, rule, name, where):
    if not r:
        t.add(rule, name, False if reliable(c) else None, "there is no way to a path", where)
        return
    for st, v in r:
        fz = c.I.freeze(st, v)
        if fz.op != "lst":
            t.add(rule, name, None, "the path is not a known list")
            continue
        tr = Trace(c, want, kinds)
        tr.run(fz.args[0])
        if tr.bad and not tr.unk:
            m, w = tr.bad[0]
            t.add(rule, name, False, m, w or where)
        else:
            t.add(rule, name, None if tr.bad or tr.unk else True, (tr.unk or ["cut completely"])[0], where)


# --------------------------------------------------------------- polygons
def path_scene(R, sizes, link):
    c = new(R)
    c.I.summaries_on = False
    c.I.motion_codes, c.I.cut_log = {}, []
    s, j = one_job(c, R)
    faces, paths = [], []
    for k, n in enumerate(sizes):
        ps = [mk("tup", num(f"x{k}{i}"), num(f"y{k}{i}")) for i in range(n - 1)]
        ps.append(ps[0])
        l = c.I.new_list(s, [E(p) for p in ps], c.F, c.node)
        c.keep(s, f"l{k}", l)
        i = c.I.new_list(s, [], c.F, c.node)
        q, e = c.call(s, c.cls("PathFace"), l, i, num(f"z{k}"))
        s, f = q[0]
        c.keep(s, f"f{k}", f)
        faces.append(f)
        paths.append(ps)
    near = mk("tup", num("cx"), num("cy"))

    def nearest(I, st, b, F, node):
        fz = [I.freeze(st, x) for x in b.values() if isinstance(x, T)]
        k = next((k for k, ps in enumerate(paths) for x in fz if x.op == "lst" and tuple(y.args[0] for y in x.args[0]) == tuple(ps)), None)
        if link is not None and k == link[0]:
            return [(st, mk("tup", C(1), near, mk("tup", C(link[1]), num("fraction"))))]
        return [(st, mk("tup", C(99), near, mk("tup", ZERO, num("fraction"))))]
    c.I.cuts[(G, "distance_to_path")] = nearest
    r, x = c.call(s, c.fn(RT, "route_polyface_outers"), j, lst(c, s, *faces), stepover=C(2))
    want = []
    for k, ps in enumerate(paths):
        xy = lambda p: (p.args[0], p.args[1], num(f"z{k}"))
        if link is not None and link[0] == k:
            i = link[1]
            ring = ps[:-1]
            want.append([xy(near)] + [xy(p) for p in ring[i + 1:] + ring[:i + 1]] + [xy(near)])
        else:
            want.append([xy(p) for p in ps[1:]])
    return c, r, want


def report_path(t, c, r, want, rule, name, where):
    if not r:
        t.add(rule, name, False if reliable(c) else None, "there is no way to a path", where)
    for st, v in r:
        fz = c.I.freeze(st, v)
        if fz.op != "lst":
            t.add(rule, name, None, "the path is not a known list")
            continue
        v2, msg, w = points(c, fz.args[0], [p for ps in want for p in ps])
        t.add(rule, name, v2, msg, w or where)


def points(c, segs, want):
    """lateral feed motions of a grammar against the expected targets"""
    bad, unk = [], []

    def go(segs, states):
        for s in segs:
            if s.op == "alt":
                out = set()
                for sg, g in s.args[0]:
                    out |= go(sg, states)
                states = out
            elif s.op == "e" and is_motion(s.args[0]):
                o = s.args[0]
                a = attrs(o)
                end, code = vec3(a.get("end")), code_of(c, o)
                if code != "G1" or o.args[0].name.startswith("Plunge"):
                    if code is None:
                        unk.append("a motion is not resolved")
                    continue
                out = set()
                for i in states:
                    if i < len(want) and all(x is y for x, y in zip(want[i], end)):
                        out.add(i + 1)
                    elif end is None or any(undef(x) for x in end):
                        unk.append("a target is not resolved")
                    else:
                        due = "(" + ", ".join(map(short, want[i])) + ")" if i < len(want) else "nothing"
                        bad.append(("cut to (" + ", ".join(short(x) for x in end) + f") where {due} is due", where_obj(o)))
                states = out
            else:
                unk.append("part of the path is not resolved")
                return set()
        return states
    for i in go(segs, {0}):
        if i < len(want):
            bad.append(("the path ends before (" + ", ".join(map(short, want[i])) + ")", None))
    if unk:
        return None, unk[0], None
    if bad:
        return False, bad[0][0], bad[0][1]
    return True, "", None
