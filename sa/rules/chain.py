"""Concrete passes: wires of known edges, each reached by a rapid or linked at a known place to the one before it."""
from .common import *  # noqa
from .common import attrs, cval, fn_where, new, num, one_job, undef, where_obj
from ..terms import C, NONE, T, In, add, app, mk, subterms
from ..engine import E
from ..walk import is_motion, norm
from .path import edge_of, short, vec3
from .reject import lst
from .links import prefixes
from .levels import Unknown

RT = "cq_cam.routers"
# per wire: number of edges, kind of edges, how it is reached ("far" or edge index or "v" + vertex index)
CHAINS = {
    "passes of 2 edges, linked on the first": [(2, "LINE", "far"), (2, "LINE", 0), (2, "LINE", 0)],
    "passes of 2 edges, linked on the second, then far": [(2, "LINE", "far"), (2, "LINE", 1), (2, "LINE", "far")],
    "passes of 3 edges, linked in a corner": [(3, "LINE", "far"), (3, "LINE", "v1"), (3, "LINE", "v0")],
    "passes of 3 edges, linked in a corner, on an edge, then far": [(3, "LINE", "far"), (3, "LINE", "v2"), (3, "LINE", 2), (2, "LINE", "far")],
    "passes that are far from each other": [(2, "LINE", "far"), (3, "LINE", "far"), (1, "LINE", "far")],
    "passes of 2 arcs, linked on the second, then far": [(2, "CIRCLE", "far"), (2, "CIRCLE", 1), (2, "CIRCLE", "far")],
    "passes of 2 arcs, linked in a corner": [(2, "CIRCLE", "far"), (2, "CIRCLE", "v1"), (2, "CIRCLE", "far")],
    "an arc after a line": [(2, "LINE", "far"), (2, "CIRCLE", 0), (2, "LINE", 1)],
    "whole circles": [(1, "FULL", "far"), (1, "FULL", 0), (1, "FULL", "far")],
    "passes that start level in x with the end of the one before": [(2, "LINE", "far"), (2, "LINE", "far x"), (1, "LINE", "far x")],
    "passes that start level in y with the end of the one before": [(2, "LINE", "far"), (2, "LINE", "far y"), (1, "LINE", "far y")],
    "passes that start above the end of the one before": [(2, "LINE", "far"), (2, "LINE", "far xy"), (1, "LINE", "far xy")],
}


def chain_scene(R, wires):
    c = new(R)
    c.I.summaries_on, c.I.ext_ok, c.I.unroll = False, True, 60
    c.I.motion_codes, c.I.cut_log = {}, []
    s, j = one_job(c, R)
    ws, es, kind, at, of, corner = [], {}, {}, {}, {}, {}
    level = of["level"] = {}
    for k, (n, t, how) in enumerate(wires):
        w = In(f"wire{k}", "Wire")
        ws.append(w)
        es[w] = [In(f"edge{k}{chr(97 + i)}", "Edge") for i in range(n)]
        for i, e in enumerate(es[w]):
            kind[e], of[e] = t, (w, i)
        if isinstance(how, str) and how.startswith("far "):
            # coordinates that are level are those of one place: the end of the wire before, closed unless it is one edge
            for axis in how[4:]:
                p = ("corner", ws[-2], int(wires[k - 1][0] == 1), axis)
                level["corner", w, 0, axis] = level.get(p, p)
            how = "far"
        at[w] = how
        corner[In(f"corner{k}", "Vertex")] = w, int(how[1:]) if isinstance(how, str) and how != "far" else 0

    def asked(t):
        """the wire whose distance from the last position is asked for"""
        got = [x for x in subterms(t) if x in at]
        return got[-1] if len(set(got)) == 1 else None

    def ordered(I, st, b, F, node):
        w = I.freeze(st, next(x for x in b.values() if isinstance(x, T)))
        return [(st, I.new_list(st, [E(e) for e in es[w]], F, node))] if w in es else [(st, app("OrderedEdges", w))]
    c.I.cuts[("cq_cam.utils.utils", "wire_to_ordered_edges")] = ordered

    def given(I, st, name, recv, args, kw, F, node):
        r = I.freeze(st, recv)
        if r in kind:
            if name == "geomType":
                return [(st, C("CIRCLE" if kind[r] == "FULL" else kind[r]))]
            if name in ("Closed", "IsClosed"):
                return [(st, C(kind[r] == "FULL"))]
        if r.op == "app" and "BRepExtrema_DistShapeShape" in str(r.args[0]):
            # the wire is the last argument of the extrema
            w = next((x for x in reversed([y for y in r.args[1:] if isinstance(y, T)]) if asked(x) is not None and (x in at or x.op == "attr")), None)
            w = asked(w) if w is not None else None
            if w is None:
                return None
            how = at[w]
            if name == "Value":
                return [(st, C(100.0 if how == "far" else 0.5))]
            if name == "IsDone":
                return [(st, C(True))]
            if name == "SupportTypeShape2":
                return [(st, mk("ext", "OCP.BRepExtrema.BRepExtrema_SupportType.BRepExtrema_" + ("IsVertex" if isinstance(how, str) else "IsOnEdge")))]
            if name == "SupportOnShape2":
                return [(st, app("support", w))]
            if name == "ParOnEdgeS2":
                return [(st, mk("tup", num(f"at{w.args[0]}")))]
        return None
    c.I.given = given

    def ext(I, st, name, args, kw, F, node):
        a = [I.freeze(st, x) for x in args]
        if a and a[0].op == "app" and a[0].args[0] == "support":
            w = a[0].args[1]
            how = at[w]
            if name == "cq.Edge":
                return [(st, es[w][how] if not isinstance(how, str) else es[w][0])]
            if name == "cq.Vertex":
                return [(st, In(f"corner{w.args[0][4:]}", "Vertex"))]
        return None
    c.I.given_ext = ext

    def same(a, b):
        for x, y in ((a, b), (b, a)):
            k = [t for t in subterms(x) if t in corner]
            p = y if y.op == "app" and y.args[0] in ("OStart", "OEnd") else None
            if k and p is not None and p.args[1] in of:
                w, i = of[p.args[1]]
                n = len(es[w]) + (len(es[w]) == 1 and kind[es[w][0]] != "FULL")
                return corner[k[0]][0] is w and (i + (p.args[0] == "OEnd")) % n == corner[k[0]][1] % n
        if a in of and b in of or a.op == b.op == "ext":
            return a is b
        pa, pb = (x.op == "app" and x.args[0] in ("OStart", "OEnd", "PosP", "PosO") for x in (a, b))
        if pa and pb and a.args[1] in of and b.args[1] in of and a is not b:
            if kind[a.args[1]] == "FULL" and a.args[1] is b.args[1]:
                return True
            return False
        # coordinates: no two places share one but those that are level, and no height given is one of them
        if is_coord(a) and is_coord(b):
            p, q = place(a, es, of, kind), place(b, es, of, kind)
            if (p is not None or free(a)) and (q is not None or free(b)) and (p is not None or q is not None):
                return p == q
        return None
    c.I.same = same
    r, x = c.call(s, c.fn(RT, "route_wires"), j, lst(c, s, *ws), stepover=C(1.0))
    return c, r, x, ws, es, of, kind


def is_coord(x):
    return x.op in ("in", "attr", "poly", "app") or x is NONE


def free(x):
    return x.op == "in" and x.args[1] == "num"


def apart(guards):
    """False if the conditions say that two different places are level"""
    no = [p.args[0] for p, b in guards if p.op == "pos" and not b]
    return not any(add(x, y) is C(0) or cval(add(x, y)) == 0 for k, x in enumerate(no) for y in no[:k])


def place(x, es, of, kind):
    p = place_(x, es, of, kind)
    return of["level"].get(p, p)


def place_(x, es, of, kind):
    """a coordinate -> what it is a coordinate of, corners by their number; or None"""
    r = edge_of(x)
    if r is None:
        return None
    e, kd, arg, axis = r
    if e not in of:
        return None
    w, i = of[e]
    n = len(es[w]) + (len(es[w]) == 1 and kind[e] != "FULL")
    if kd == "OStart" or arg is not None and kd == "PosP" and norm(arg) is norm(app("OStartParam", e)):
        return "corner", w, i % n, axis
    if kd == "OEnd" or arg is not None and kd == "PosP" and norm(arg) is norm(app("OEndParam", e)):
        return "corner", w, (i + 1) % n, axis
    if kd == "PosO":
        q = as_poly(arg)
        if q is not None and set(q) <= {()}:
            f = q.get((), 0)
            if f in (0, 1):
                return "corner", w, (i + int(f)) % n, axis
    return kd, e, norm(arg) if arg is not None else None, axis


def judge_chain(c, r, x, ws, es, of, kind):
    if not r:
        raise Unknown("there is no way to a path")
    n = 0
    for st, v in r:
        fz = c.I.freeze(st, v)
        if fz.op != "lst":
            raise Unknown("the path is not a known list")
        for ms, guards, cut in prefixes(fz.args[0]):
            if len({p for p, b in guards}) != len(set(guards)):
                continue        # conditions that contradict each other
            if not apart(guards):
                continue
            if cut:
                raise Unknown("the path has a loop")
            prev = None
            for o in ms:
                if not is_motion(o):
                    raise Unknown("a command that is not a motion")
                a = attrs(o)
                start, end = vec3(a.get("start")), vec3(a.get("end"))
                if start is None or end is None:
                    raise Unknown("a motion is not resolved")
                if prev is not None:
                    for p, q in zip(prev, start):
                        p, q = norm(p), norm(q)
                        if p is q or p is NONE or q is NONE and p is NONE:
                            continue
                        pp, qq = place(p, es, of, kind), place(q, es, of, kind)
                        if pp is not None and pp == qq:
                            continue
                        if pp is not None and qq is not None and pp[0] == "corner" == qq[0] and pp[3] == qq[3] == "z":
                            continue
                        num_ = [y.op == "in" and y.args[1] == "num" or y.op == "c" for y in (p, q)]
                        if (pp is not None or num_[0]) and (qq is not None or num_[1]) or q is NONE:
                            return False, f"a motion to ({', '.join(short(y) for y in end)}) starts at {short(q)}, the one before it ends at {short(p)}", where_obj(o)
                        raise Unknown(f"{short(p)} against {short(q)}")
                    n += 1
                prev = end
    return True, f"{n} motions", None
