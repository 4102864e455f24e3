"""Pocket paths: what is made of a wire's edges, and how paths of known points are linked and cut."""
import math
from fractions import Fraction

from .common import *  # noqa
from .common import attrs, cval, fn_where, new, num, one_job, where_obj
from ..terms import C, NONE, T, In, app, mk, subterms
from ..engine import E
from ..walk import is_motion
from .path import G, code_of, edge_of, short, vec3
from .links import JOB, Value, prefixes
from .levels import Unknown, elems
from .reject import lst

RT = "cq_cam.routers"

# -------------------------------------------------------------- outlines
# edges of a face's outer wire and of its inner wire: (kind, length, reversed)
WIRES = {
    "lines": [("LINE", 3.0, 0), ("LINE", 4.0, 0), ("LINE", 5.0, 0)],
    "lines, some reversed": [("LINE", 3.0, 1), ("LINE", 4.0, 0), ("LINE", 5.0, 1)],
    "a reversed line and a curve": [("LINE", 3.0, 1), ("CIRCLE", .0042, 0)],
    "a curve and lines": [("CIRCLE", .0055, 0), ("LINE", 3.0, 0), ("LINE", 4.0, 1)],
    "reversed curves": [("CIRCLE", .0042, 1), ("BSPLINE", .0061, 1)],
    "a short curve between lines": [("LINE", 1.0, 0), ("CIRCLE", .0001, 1), ("LINE", 1.0, 0)],
    "one closed curve": [("CIRCLE", .0061, 0)],
    "one closed curve, reversed": [("BSPLINE", .0061, 1)],
}


def outline_scene(R, outer, inner):
    c = new(R)
    c.I.summaries_on, c.I.ext_ok, c.I.unroll = False, True, 60
    face, wo, wi = In("face", "Face"), In("outer", "Wire"), In("inner", "Wire")
    edges, kind = {wo: [], wi: []}, {}
    for w, es in ((wo, outer), (wi, inner)):
        for k, e in enumerate(es):
            x = In(f"{w.args[0]}{k}", "Edge")
            edges[w].append(x)
            kind[x] = e
    n = {e: (w, i, len(es)) for w, es in edges.items() for i, e in enumerate(es)}

    def ordered(I, st, b, F, node):
        w = I.freeze(st, next(x for x in b.values() if isinstance(x, T)))
        return [(st, I.new_list(st, [E(e) for e in edges[w]], F, node))] if w in edges else [(st, app("OrderedEdges", w))]
    c.I.cuts[("cq_cam.utils.utils", "wire_to_ordered_edges")] = ordered

    def given(I, st, name, recv, args, kw, F, node):
        w = I.freeze(st, recv)
        if w is face:
            if name == "outerWire":
                return [(st, wo)]
            if name == "innerWires":
                return [(st, I.new_list(st, [E(wi)] if inner else [], F, node))]
        if w in kind:
            if name == "Length":
                return [(st, C(kind[w][1]))]
            if name == "geomType":
                return [(st, C(kind[w][0]))]
            if name == "Closed":
                return [(st, C(n[w][2] == 1))]
        if name == "Orientation":
            x = next((e for e in kind if e in set(subterms(w))), None)
            if x is not None:
                return [(st, mk("ext", "OCP.TopAbs.TopAbs_" + ("REVERSED" if kind[x][2] else "FORWARD")))]
        return None
    c.I.given = given

    def spot(t):
        """(wire, number of the corner) or (edge, fraction of the way) of a point"""
        p = t
        if p.op != "app" or p.args[0] not in ("OStart", "OEnd", "PosO", ".startPoint", ".endPoint", ".positionAt"):
            return None
        e = p.args[1]
        if e not in kind:
            return None
        rev = kind[e][2]
        if p.args[0] == ".startPoint":
            f = rev
        elif p.args[0] == ".endPoint":
            f = 1 - rev
        elif p.args[0] == "OStart":
            f = 0
        elif p.args[0] == "OEnd":
            f = 1
        else:
            if p.args[2].op != "c":
                return None
            f = Fraction(cval(p.args[2])).limit_denominator(10 ** 6)
            if p.args[0] == ".positionAt":
                f = 1 - f if rev else f
        w, i, m = n[e]
        return (w, (i + f) % m)
    c.spot = spot

    def same(a, b):
        if a.op == b.op == "ext":
            return a is b
        x, y = spot(a), spot(b)
        if x is not None and y is not None:
            return x == y
        return None
    c.I.same = same
    c.I.bbox = lambda w, nm: C(-1.23456) if w is face and nm in ("zmin", "zmax") else None
    s, j = one_job(c, R)
    s = c.I.start() if s is None else s
    k = c.cls("PathFace")
    r, x = c.method(s, k, "from_cq_face", face, C(3))
    return c, r, (wo, wi), edges, kind


def turn(path, c, w, es, kind):
    """is this path the outline of the wire? (verdict, message)"""
    pts = []
    for p in path:
        q = elems(p, "a point") if p.op in ("tup", "lst") else None
        if q is None or len(q) != 2:
            raise Unknown(f"a point of the path is {short(p)}")
        ks = []
        for x, ax in zip(q, "xy"):
            if x.op != "attr" or x.args[1] not in "xy":
                raise Unknown(f"a coordinate of the path is {short(x)}")
            if x.args[1] != ax:
                return False, f"{x.args[1]} is taken as {ax}"
            ks.append(c.spot(x.args[0]))
        if None in ks:
            raise Unknown(f"a point of the path is not on a known edge: {short(q[0])}")
        if ks[0] != ks[1]:
            return False, "a point's coordinates are of two places"
        pts.append(ks[0])
    if any(p[0] is not w for p in pts):
        return False, "the path leaves its wire"
    at = [p[1] for p in pts]
    m = len(es)
    if len(at) < 2 or at[0] != at[-1]:
        return False, "the path is not closed"
    # once around, forwards or backwards all the way
    steps = [(b - a) % m for a, b in zip(at, at[1:])]
    steps = [x for x in steps if x]
    back = [m - x for x in steps]
    if sum(steps) != m and sum(back) != m:
        return False, f"the path goes {[str(x) for x in at]} along the edges of its wire, which is not once around"
    for i in range(m):
        if m > 1 and i not in at:
            return False, f"the path does not pass the corner between the edges {i - 1} and {i}"
    for i, e in enumerate(es):
        t, length, rev = kind[e]
        inside = [a for a in at if i < a < i + 1]
        if t != "LINE":
            want = int(length * 1000) - 2
            if len(inside) < want:
                return False, f"a curve of {length} has {len(inside)} points, not {want}"
    return True, ""


def judge_outline(c, r, wires, edges, kind):
    if not r:
        raise Unknown("there is no way to a face")
    for st, v in r:
        a = attrs(c.I.freeze(st, v))
        outer, inners = a.get("outer"), a.get("inners")
        d = a.get("depth")
        if outer is None or inners is None or d is None:
            raise Unknown("the face is not resolved")
        if d.op == "c" and abs(cval(d) + 1.23456) > 1e-6:
            return False, f"a face at -1.23456 has the depth {cval(d)}"
        ins = elems(inners, "the inner paths")
        if len(ins) != bool(edges[wires[1]]):
            return False, f"{len(ins)} inner paths of {int(bool(edges[wires[1]]))} inner wires"
        for p, w in zip([outer] + ins, wires):
            v, m = turn(elems(p, "a path"), c, w, edges[w], kind)
            if v is False:
                return v, f"{w.args[0]} wire: {m}"
    return True, ""


# -------------------------------------------------------------- polygons
def ring(*ps):
    return [tuple(map(float, p)) for p in ps] + [tuple(map(float, ps[0]))]


SQ = ring((0, 0), (10, 0), (10, 10), (0, 10))
# what is cut after one another
POLYGONS = {
    "squares, linked at a corner": [SQ, ring((.5, .5), (9.5, .5), (9.5, 9.5), (.5, 9.5))],
    "squares, linked at the last corner": [SQ, ring((9.5, .5), (9.5, 9.5), (.5, 9.5), (.5, .5))],
    "squares, linked at the second corner": [SQ, ring((.5, 9.5), (.5, .5), (9.5, .5), (9.5, 9.5))],
    "linked late within the first segment": [SQ, ring((-9, .5), (3, .5), (3, 8), (-9, 8))],
    "linked early within the first segment": [SQ, ring((-2, .5), (9, .5), (9, 8), (-2, 8))],
    "linked early within the second segment": [SQ, ring((3, 8), (-2, .5), (9, .5), (9, 8))],
    "linked late within the second segment": [SQ, ring((3, 8), (-9, .5), (2, .5), (9, 8))],
    "linked late within the last segment": [SQ, ring((3, .5), (3, 8), (-9, 8), (-9, .5))],
    "linked early within the last segment": [SQ, ring((9, .5), (9, 8), (-2, 8), (-2, .5))],
    "three, linked within segments": [SQ, ring((-3, .5), (9, .5), (9, 8)), ring((3, 1), (8, 7), (-3, 1))],
    "far from each other": [SQ, ring((30, 30), (35, 30), (35, 40)), ring((3, 3), (4, 5), (4, 3))],
    "far, then linked": [SQ, ring((30, 30), (35, 30), (35, 40)), ring((29, 30.5), (36, 30.5), (36, 45))],
    "just within and just beyond a stepover": [SQ, ring((-5, .999), (5, .999), (5, 9)), ring((-5, 2.001), (5, 2.001), (5, 9))],
    "a triangle backwards": [SQ, ring((-1, .3), (0, 7), (9, .3)), ring((-1, .3), (0, 7), (9, .3))],
}
STEP, DEPTH = 1.0, -2.0


def polygon_scene(R, polys):
    c = new(R)
    c.I.summaries_on, c.I.unroll = False, 60
    c.I.motion_codes, c.I.cut_log = {}, []
    s, j = one_job(c, R)
    faces = []
    for k, ps in enumerate(polys):
        l = lst(c, s, *[mk("tup", C(x), C(y)) for x, y in ps])
        q, e = c.call(s, c.cls("PathFace"), l, lst(c, s), C(DEPTH))
        s, f = q[0]
        c.keep(s, f"f{k}", f)
        faces.append(f)
    r, x = c.call(s, c.fn(RT, "route_polyface_outers"), j, lst(c, s, *faces), stepover=C(STEP))
    return c, r, polys


def on_segment(p, a, b):
    l = math.dist(a, b)
    t = 0 if not l else max(0, min(1, sum((x - y) * (z - y) for x, y, z in zip(p, a, b)) / l ** 2))
    q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
    return math.dist(p, q), t


def once_around(cut, poly):
    """do these points go once around the polygon, wherever they start?"""
    n = len(poly) - 1
    lens = [math.dist(a, b) for a, b in zip(poly, poly[1:])]
    starts = [sum(lens[:i]) for i in range(n)]
    total = sum(lens)

    def places(p):
        return [(starts[i] + t * lens[i]) % total for i in range(n) for d, t in [on_segment(p, poly[i], poly[i + 1])] if d < 1e-6]
    covered = 0
    way = None
    seen = []
    for a, b in zip(cut, cut[1:]):
        if math.dist(a, b) < 1e-9:
            continue
        # a segment of the polygon both are on
        seg = [(i, on_segment(a, poly[i], poly[i + 1]), on_segment(b, poly[i], poly[i + 1])) for i in range(n)]
        seg = [(i, x[1], y[1]) for i, x, y in seg if x[0] < 1e-6 and y[0] < 1e-6]
        if not seg:
            return f"the cut from {say(a)} to {say(b)} leaves the outline"
        i, x, y = seg[0]
        w = 1 if y > x else -1
        if way not in (None, w):
            return f"the cut turns around at {say(a)}"
        way = w
        for j, lo, hi in seen:
            if j == i and min(hi, max(x, y)) - max(lo, min(x, y)) > 1e-6:
                return f"the cut from {say(a)} to {say(b)} is done twice"
        seen.append((i, min(x, y), max(x, y)))
        covered += math.dist(a, b)
    if covered < total - 1e-5:
        return f"{covered:.3g} of {total:.3g} of an outline is cut"
    return None


def say(p):
    return "(" + ", ".join(f"{x:.4g}" for x in p) + ")"


def judge_polygons(c, r, polys):
    """-> (verdict, message, where) of the path, one of the links"""
    if not r:
        raise Unknown("there is no way to a path")
    value = Value({num(k): v for k, v in JOB.items()})
    n = 0
    for st, v in r:
        fz = c.I.freeze(st, v)
        if fz.op != "lst":
            raise Unknown("the path is not a known list")
        if any(value_holds(value, p, b) is False for p, b in st.facts.items()):
            continue
        for ms, guards, cut in prefixes(fz.args[0]):
            if any(value_holds(value, p, b) is False for p, b in guards):
                continue
            if cut:
                raise Unknown("the path has a loop")
            n += 1
            at, k, done = None, 0, []
            runs, links = [], []
            for o in ms:
                end, code = vec3(attrs(o).get("end")), code_of(c, o)
                if end is None or code is None or not is_motion(o):
                    raise Unknown("a motion is not resolved")
                p = tuple(None if x is NONE else value(x) for x in end)
                if any(x is None and y is not NONE for x, y in zip(p, end)):
                    raise Unknown(f"a motion's end is not resolved: {short(end[0])}")
                p = tuple(y if x is None else x for x, y in zip(p, at or (None,) * 3))
                if code != "G1" or at is None or at[:2] == p[:2]:
                    if code != "G1" or at is None or at[2] != p[2]:
                        if done:
                            runs.append(done)
                        done = []
                    at = p
                    if code == "G1" and p[2] is not None and p[2] <= DEPTH + 1e-9 and not done:
                        done = [(p[:2], o)]
                    continue
                if p[2] is None or abs(p[2] - DEPTH) > 1e-9:
                    return False, f"a cut is at {p[2]}, the area at {DEPTH}", where_obj(o)
                if not done:
                    done = [(at[:2], o)]
                done.append((p[:2], o))
                at = p
            if done:
                runs.append(done)
            # each run: outlines one after another, linked
            k = 0
            for run in runs:
                pts = [p for p, o in run]
                while len(pts) > 1 or k == 0:
                    if k >= len(polys):
                        return False, f"{say(pts[0])} to {say(pts[-1])} is cut after all outlines", where_obj(run[-1][1])
                    poly = polys[k]
                    if min(on_segment(pts[0], a, b)[0] for a, b in zip(poly, poly[1:])) > 1e-6:
                        return False, f"outline {k} is entered at {say(pts[0])}, which is not on it", where_obj(run[0][1])
                    total = sum(math.dist(a, b) for a, b in zip(poly, poly[1:]))
                    m, way = 1, 0.0
                    while m < len(pts) and way < total - 1e-6:
                        way += math.dist(pts[m - 1], pts[m])
                        m += 1
                    bad = once_around(pts[:m], poly)
                    if bad:
                        return False, f"outline {k}: {bad}", where_obj(run[min(m, len(run)) - 1][1])
                    k += 1
                    if m >= len(pts):
                        break
                    # a link
                    far = math.dist(pts[m - 1], pts[m])
                    if far > STEP + 1e-9 and k < len(polys):
                        return False, f"outline {k} is reached by a feed move of {far:.4g}, a stepover is {STEP}", where_obj(run[0][1])
                    pts = pts[m:]
            if k < len(polys):
                return False, f"outline {k} is not cut", None
    if not n:
        raise Unknown("there is no way to a path")
    return True, "cut once around, one after another", None


def value_holds(value, p, b):
    from .links import holds
    return holds(value, p, b)
