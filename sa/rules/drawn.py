"""What is drawn of a job: every motion after an operation's first, where the machine makes it."""
from . import prop
from .common import *  # noqa
from .common import AnalysisBroken, attrs, fn_where, new, num, one_job, parallel, undef, where_obj
from ..terms import C, NONE, T, In, app, attr, mk, show, subterms
from ..engine import E
from ..walk import vec
from ..models import LIB
from .path import Tally

PR = "cq_cam.operations.profile"
LINES = ("Rapid", "PlungeRapid", "Retract", "Cut", "PlungeCut")
ARCS = ("CircularCW", "CircularCCW")
VERT = ("PlungeRapid", "Retract", "PlungeCut")


def motion(c, s, cn, a, b, m=None):
    """an abstract motion from a to b (coordinates)"""
    def av(s, *cs):
        r, e = c.call(s, c.cls("AddressVector"), *cs)
        return r[0]
    start = NONE
    if a is not None:
        s, start = av(s, *a)
    s, end = av(s, *((NONE, NONE, b[2]) if cn in VERT else b))
    kw = dict(end=end, start=start)
    if cn in ARCS:
        s, kw["mid"] = av(s, *m)
        s, kw["center"] = av(s, num("xc"), num("yc"), NONE)
    r, e = c.call(s, c.cls(cn), **kw)
    if len(r) != 1 or e:
        raise AnalysisBroken(f"constructing {cn} has {len(r)} outcomes")
    return r[0]


def pos(t):
    """components of a position, or None"""
    if t.op == "app" and t.args[0] == "Vec" and len(t.args) == 4:
        return tuple(t.args[1:])
    return vec(t)


def shape_of(t):
    """(kind, points, transformation or None) of a drawn shape"""
    x = None
    if t.op == "app" and t.args[0] == "xform":
        t, x = t.args[1], t.args[2]
    if t.op == "app" and t.args[0] in ("OCP.AIS.AIS_Shape", "cq.Shape.cast") and len(t.args) == 2:
        t = t.args[1]
        if t.op == "attr" and t.args[1] == "wrapped":
            t = t.args[0]
    if t.op != "app":
        return None
    n, a = t.args[0], list(t.args[1:])
    if n == "OCP.AIS.AIS_Line":
        b = []
        for p in a:
            if p.op == "app" and p.args[0] == "OCP.Geom.Geom_CartesianPoint" and len(p.args) == 2:
                p = p.args[1]
                if p.op == "app" and p.args[0] == ".toPnt":
                    p = p.args[1]
            elif p.op == "app" and p.args[0] == "OCP.Geom.Geom_CartesianPoint" and len(p.args) == 4:
                p = app("Vec", *p.args[1:])
            b.append(p)
        a, n = b, "cq.Edge.makeLine"
    if n not in ("cq.Edge.makeLine", "cq.Edge.makeThreePointArc"):
        return None
    pts = [pos(p) for p in a]
    if None in pts or len(pts) != (2 if n.endswith("Line") else 3):
        return None
    return ("line" if n.endswith("Line") else "arc"), pts, x


def pts_show(ps):
    return " - ".join("(" + ", ".join(show(x) for x in p) + ")" for p in ps)


def reads(p, want):
    """drawn points against wanted ones: True, False, None"""
    if [tuple(x) for x in p] == [tuple(x) for x in want]:
        return True
    return None if any(undef(x) for q in p for x in q) else False


def single(R, cn):
    t = Tally(R)
    for as_edges in (True, False):
        for alt in (True, False):
            for arrow in (True, False):
                c = new(R)
                a = (num("x0"), num("y0"), num("z0"))
                b = (a[0], a[1], num("z1")) if cn in VERT else (num("x1"), num("y1"), num("z1"))
                m = (num("xm"), num("ym"), num("zm"))
                s, v = motion(c, c.state(), cn, a, b, m)
                w = where_cls(c, cn)
                c.I.ext_ok = True
                key = f"{cn}, as {'an edge' if as_edges else 'a shape'}{', other colour' if alt else ''}{', arrow' if arrow else ''}"
                if arrow:
                    o = c.I.deref(s, v)
                    if "arrow" in getattr(o, "attrs", {}):
                        o.attrs["arrow"] = C(True)
                r, e = c.method(s, v, "to_ais_shape", as_edges=C(as_edges), alt_color=C(alt))
                if e:
                    t.add("shape", key, False, "it cannot be drawn: an error is raised", w)
                want = [a, b] if cn in LINES else [a, m, b]
                kind = "line" if cn in LINES else "arc"
                same = mk("eq", *sorted((app("Vec", *a), app("Vec", *b)), key=show))
                drawn = None
                for st, x in r:
                    x = c.I.freeze(st, x)
                    if x is NONE:
                        # a motion that goes nowhere, or whose edge cannot be made, has no shape
                        ok = any(f.op == "eq" and v is True and {pos(y) for y in f.args} == {a, b} for f, v in st.facts.items())
                        raised = any(f.op == "raised" and v is True for f, v in st.facts.items())
                        if raised and cn in LINES:
                            continue
                        t.add("shape", key, True if ok or raised else (None if any(
                            undef(f) for f in st.facts) else False), "a motion that goes somewhere is not drawn", w)
                        continue
                    g = shape_of(x)
                    raised = any(f.op == "raised" and v is True for f, v in st.facts.items())
                    if g is None:
                        t.add("shape", key, None if undef(x) or x.op in ("app", "attr") else False, f"what is drawn: {show(x)[:120]}", w)
                        continue
                    if raised and kind == "arc" and g[0] == "line":
                        t.add("shape", key, reads(g[1], [a, b]), f"a line {pts_show(g[1])} is drawn for the arc "
                              f"{pts_show(want)}", w)
                        continue
                    v = reads(g[1], want) if g[0] == kind else False
                    t.add("shape", key, v, f"a {g[0]} {pts_show(g[1])} is drawn for the {kind} {pts_show(want)}", w)
                    drawn = True
                if not drawn:
                    t.add("shape", key, None if r else False, "it is never drawn", w)
    t.flush()


def where_cls(c, cn):
    k = c.cls(cn).args[0]
    n = getattr(k, "node", None)
    m = getattr(k, "module", None) or getattr(k, "mod", None)
    return f"{m.rel}:{n.lineno}" if n is not None and m is not None and hasattr(m, "rel") else "src/cq_cam/command.py"


# ------------------------------------------------------------------- jobs
N = [C(x) for x in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)]
A = lambda *i: tuple(C(float(x)) for x in i)    # noqa: E731
ROUTES = {      # (class, start or None, end, mid)
    "all kinds": [("Retract", None, A(0, 0, 10), None), ("Rapid", A(1, 2, 10), A(3, 4, 10), None),
                  ("PlungeRapid", A(3, 4, 10), A(3, 4, 1), None), ("PlungeCut", A(3, 4, 1), A(3, 4, -2), None),
                  ("Cut", A(3, 4, -2), A(7, 5, -2), None), ("CircularCW", A(7, 5, -2), A(9, 7, -2), A(8, 6.5, -2)),
                  ("CircularCCW", A(9, 7, -2), A(11, 8, -2), A(10, 7.5, -2)), ("Cut", A(11, 8, -2), A(12, 9, -3), None)],
    "a hole": [("Retract", None, A(0, 0, 10), None), ("Rapid", A(5, 2, 10), A(6, 6, 10), None),
               ("PlungeCut", A(6, 6, 10), A(6, 6, -4), None)],
    "standing still": [("Retract", None, A(0, 0, 10), None), ("Rapid", A(1, 1, 10), A(1, 1, 10), None),
                       ("Cut", A(1, 1, 10), A(1, 2, 10), None), ("Cut", A(1, 2, 10), A(1, 2, 10), None),
                       ("Cut", A(1, 2, 10), A(1, 3, 10), None)],
    "one motion": [("Retract", None, A(0, 0, 10), None)],
}
JOBS = {"one operation": ["all kinds"], "two operations": ["a hole", "all kinds"], "a tool change": ["T", "a hole", "T", "standing still"],
        "the first motion only": ["one motion", "a hole"], "nothing": []}


def scene(R, names):
    c = new(R)
    c.I.ext_ok, c.I.summaries_on, c.I.unroll = True, False, 60
    todo = []

    def cut(I, st, b, F, node):
        cmds = []
        for cn, a, e, m in ROUTES[todo[0]]:
            st, v = motion(c, st, cn, a, e, m)
            cmds.append(E(v))
        return [(st, I.new_list(st, cmds, F, node))]
    c.I.cuts[(PR, "profile")] = cut
    def same(a, b):
        a, b = pos(a), pos(b)
        if a is None or b is None or any(x.op != "c" for x in a + b):
            return None
        return a == b
    c.I.same = same
    s, j = one_job(c, R, tool_number=C(1), speed=C(1000), feed=C(100), coolant=NONE)
    tool, kw = 1, {}
    for n in names:
        if n == "T":        # the next operation is done with another tool
            tool += 1
            r, e = c.call(s, c.cls("Tool"), tool_number=C(tool), speed=C(1000), feed=C(100))
            s, kw["tool"] = r[0]
            c.keep(s, "tool", kw["tool"])
            continue
        todo[:] = [n]
        st = s.fork()
        l = c.I.new_list(st, [E(In("wire", "Wire"))], c.F, c.node)
        r, e = c.method(st, j, "wire_profile", l, offset=num("offset"), **kw)
        kw = {}
        if len(r) != 1:
            raise AnalysisBroken(f"{n}: {len(r)} outcomes")
        s, j = r[0]
        c.keep(s, "job", j)
    return c, s, j


def listed(v):
    """elements of a known list, or None"""
    if v is None or v.op != "lst" or any(x.op != "e" for x in v.args[0]):
        return None
    return [x.args[0] for x in v.args[0]]


def wanted(names):
    out = []
    for n in names:
        o = []
        for cn, a, e, m in (ROUTES[n][1:] if n != "T" else []):
            if a != e:
                o.append(("line", [a, e]) if cn in LINES else ("arc", [a, m, e]))
        out.append(o)
    return out


def compare(t, rule, key, shapes, want, w, plane, edges):
    """shapes: terms drawn for one or more operations"""
    got = []
    for x in shapes:
        g = shape_of(x)
        if g is None or any(undef(y) for p in g[1] for y in p):
            t.add(rule, key, None, f"{show(x)[:100]} is drawn")
            return
        if edges:
            ok = g[2] is attr(plane, "rG")
            t.add("place", key, ok if g[2] is None or not undef(g[2]) else None, f"a {g[0]} {pts_show(g[1])} is drawn " + (
                "in the job's coordinates, not in the world's" if g[2] is None else f"transformed by {show(g[2])[:80]}"), w)
        got.append((g[0], tuple(tuple(p) for p in g[1])))
    want = [(k, tuple(tuple(p) for p in ps)) for k, ps in want]
    miss = [x for x in want if got.count(x) < want.count(x)]
    more = [x for x in got if got.count(x) > want.count(x)]
    t.add(rule, key, not miss and not more, "; ".join(
        [f"a {k} {pts_show(p)} is not drawn" for k, p in miss[:2]] + [f"a {k} {pts_show(p)} is drawn {got.count((k, p))} times" for k, p in more[:2]]), w)


def job_case(R, item):
    name, view = item
    t = Tally(R)
    names = JOBS[name]
    c, s, j = scene(R, names)
    plane = In("top", "Plane")
    w = fn_where(c, "cq_cam.fluent", "Job", "show" if view == "shown" else "to_shapes")
    key = f"{name}, {view}"
    want = wanted(names)
    if view in ("edges", "shapes"):
        r, e = c.method(s, j, "to_shapes", as_edges=C(view == "edges"))
    else:
        mod = C("cq_editor.widgets" if view == "in the editor" else "ocp_vscode.show" if view == "in vscode" else "elsewhere")
        r, e = c.call(s, mk("cls", c.I.mod_lookup(s, c.prog.modules[LIB], "Viewer").args[0]), mod)
        s, so = r[0]
        c.keep(s, "viewer", so)
        r, e = c.method(s, j, "show", so)
    if e:
        t.add("drawn", key, False, "an error is raised", w)
    if not r and not e:
        t.add("drawn", key, None, "no outcome")
    for st, v in r:
        v = c.I.freeze(st, v)
        edges = view not in ("shapes", "in the editor")
        if view in ("edges", "shapes"):
            res = listed(v)
            if res is None:
                t.add("drawn", key, None, "the shapes are not known")
                continue
        else:
            o = attrs(c.I.freeze(st, so))
            res, labels = listed(o.get("shown")), listed(o.get("names"))
            if res is None or labels is None:
                t.add("drawn", key, None, "what is shown is not known")
                continue
            if len(res) != len(names):
                t.add("drawn", key, False, f"{len(res)} of {len(names)} operations are shown", w)
                continue
            t.add("labels", key, None if any(undef(x) for x in labels) else len(set(labels)) == len(names),
                  "operations are shown under the same name and replace each other", w)
        if edges:
            if view == "edges":
                compare(t, "drawn", key, res, [x for o in want for x in o], w, plane, True)
                continue
            for k, (x, o) in enumerate(zip(res, want)):
                x = listed(x)
                if x is None:
                    t.add("drawn", key, None, "the shapes are not known")
                    break
                compare(t, "drawn", f"{key}, operation {k}", x, o, w, plane, True)
            continue
        if len(res) != len(names):
            t.add("drawn", key, False, f"{len(res)} of {len(names)} operations are drawn", w)
            continue

        def leaves(g, tr, depth=0):
            """(shape, transformation) of everything connected to a group"""
            o = attrs(g)
            l, p = listed(o.get("shapes")), listed(o.get("placed"))
            if l is None or p is None:
                raise AnalysisBroken("the shapes of a group are not known")
            tr = tr + p[-1:]
            for x in l:
                if x.op == "obj" and "placed" in attrs(x) and depth < 4:
                    yield from leaves(x, tr, depth + 1)
                else:
                    yield x, tr
        for k, (g, o) in enumerate(zip(res, want)):
            ls = list(leaves(g, []))
            axes = [x for x, tr in ls if attr(plane, "origin") in set(subterms(x))]
            cut = [(x, tr) for x, tr in ls if x not in axes]
            compare(t, "drawn", f"{key}, operation {k}", [x for x, _ in cut], o, w, plane, False)
            trs = {tuple(tr) for _, tr in cut}
            for tr in trs:
                one = len(tr) == 1 and attr(plane, "rG") in set(subterms(tr[0])) and attr(plane, "fG") not in set(subterms(tr[0])) and \
                    not any(x.op == "app" and x.args[0] in (".Inverted", ".inverse", ".Transposed") for x in subterms(tr[0]))
                t.add("place", f"{key}, operation {k}", True if one else (None if any(undef(x) for x in tr) else False),
                      "motions are drawn " + ("without the job plane's placement" if not tr else "placed by " + ", ".join(show(x)[:60] for x in tr)), w)
    t.flush()


@prop("C25")
def drawn(R):
    R.rule("shape", "a motion is drawn as the line from its start to its end, an arc through its middle; one that goes nowhere is not drawn", 30)
    R.rule("drawn", "every motion of every operation but the first is drawn once, and nothing else is", 10)
    R.rule("place", "what is drawn is placed in the world by the job's plane, once", 8)
    R.rule("labels", "operations are shown under different names", 2)
    items = [("s", cn) for cn in LINES + ARCS] + [("j", (n, v)) for n in JOBS for v in (
        "edges", "shapes", "in the editor", "in vscode", "in another viewer")]

    def check(R, it):
        single(R, it[1]) if it[0] == "s" else job_case(R, it[1])
    parallel(R, items, check)
