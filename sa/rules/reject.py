"""Requests that make no sense are rejected instead of producing a program."""
from . import prop
from .common import *  # noqa
from .common import AnalysisBroken, fn_where, new, num, one_job, parallel, undef
from ..terms import C, NONE, T, ZERO, In, app, attr, mk, neg, show, subterms
from ..engine import E, KEPT
from .path import P, Q, G, clipper, opaque

D = {"tool_diameter": C(4)}


def lst(c, s, *vs):
    v = c.I.new_list(s, [E(x) for x in vs], c.F, c.node)
    c.keep(s, "arg", v)
    return v


def vec_arg(c, s, **kw):
    q, e = c.call(s, c.cls("AddressVector"), **kw)
    if len(q) != 1:
        raise AnalysisBroken("an AddressVector has several outcomes")
    return q[0]


def unclear(st):
    """is the way to this state known in terms of the inputs?"""
    return any(undef(p) or any(x.op == "app" and str(x.args[0]).startswith("?") for x in subterms(p))
               for p in st.facts if isinstance(p, T) and p.op not in ("raised",))


def why(st):
    out = []
    for p, v in st.facts.items():
        if isinstance(p, T) and p.op not in ("raised",):
            out.append(("" if v else "not ") + show(p))
    return "; ".join(out[:3])[:160]


# ------------------------------------------------------------------ requests
def pocket_face(z, engine="clipper", at="op", second=False, low=None):
    """areas at constant heights; at: op / avoid"""
    def f(c, s, j):
        cls = c.cls("PathFace")
        heights = [C(-1), C(z)] if second else [C(z)]

        def mkface(s, n, h):
            if engine == "clipper":
                q, e = c.call(s, cls, In(n + "o", "Path"), c.I.new_list(s, [], c.F, c.node), h)
                c.keep(q[0][0], n, q[0][1])
                return q[0]
            v = In(n, "Face")
            c.heights[n] = (low if low is not None and h.args[0] == z else h.args[0]), h.args[0]
            return s, v
        vs = []
        for k, h in enumerate(heights if at == "op" else [C(-1)]):
            s, v = mkface(s, f"A{k}", h)
            vs.append(v)
        ws = []
        for k, h in enumerate(heights if at == "avoid" else []):
            s, v = mkface(s, f"V{k}", h)
            ws.append(v)
        a, b = lst(c, s, *vs), lst(c, s, *ws)
        c.keep(s, "a", a)
        zero = [C(-2), C(2), C(2), C(-2), C(1)]
        if engine == "clipper":
            return c.call(s, c.fn(P, "pocket_clipper"), j, a, b, *zero, NONE)
        return c.call(s, c.fn(Q, "pocket_cq"), j, a, b, *zero)
    return f


def pocket_step(v, pair=False):
    def f(c, s, j):
        so = mk("tup", C(v[0]), C(v[1])) if pair else C(v)
        return c.method(s, j, "pocket", In("area", "Face"), stepover=so)
    return f


def drill(o, depth):
    def f(c, s, j):
        v = o(c, s) if callable(o) else o
        kw = {} if depth is None else {"depth": depth}
        return c.method(s, j, "drill", v, **kw)
    return f


def motion(cls, **ends):
    def f(c, s, j):
        s, v = vec_arg(c, s, **ends)
        s, w = vec_arg(c, s)
        return c.call(s, c.cls(cls), v, w)
    return f


ENTRY = {"profile": ("cq_cam.fluent", "Job", "profile"), "shapes": ("cq_cam.fluent", "Job", "profile"), "stepover": (P, "pocket"),
         "engine": (P, "pocket"), "drill": ("cq_cam.operations.drill", "Drill"), "tabs": ("cq_cam.operations.tabs", "EdgeTabs"),
         "vertical": ("cq_cam.command",), "edges": ("cq_cam.routers", "route_wires"), "flat": (P, "pocket")}


def requests():
    q = []

    def add(rule, name, ok, fn, job=None):
        q.append((rule, name, ok, fn, dict(job or D)))
    one = lambda kind: In("o", kind)
    for kind in ("Face", "Wire", "Workplane"):
        add("profile", f"profile of a {kind} with neither offset", False,
            lambda c, s, j, k=kind: c.method(s, j, "profile", one(k), outer_offset=NONE, inner_offset=NONE))
        add("profile", f"profile of a {kind} without a tool diameter", False,
            lambda c, s, j, k=kind: c.method(s, j, "profile", one(k)), {"tool_diameter": NONE})
        for given, o in (("outer", "inner_offset"), ("inner", "outer_offset")):
            add("profile", f"profile of a {kind} with an {given} offset only and without a tool diameter", False,
                lambda c, s, j, k=kind, o=o: c.method(s, j, "profile", one(k), **{o: NONE}), {"tool_diameter": NONE})
    add("profile", "profile with a tool that has no diameter either", False,
        lambda c, s, j: tooled(c, s, j, tool_number=C(3)), {"tool_diameter": NONE})
    add("profile", "profile with a tool that has a diameter", True,
        lambda c, s, j: tooled(c, s, j, tool_number=C(3), tool_diameter=C(5)), {"tool_diameter": NONE})
    for o in ("outer_offset", "inner_offset"):
        add("profile", f"profile without {o}", True, lambda c, s, j, o=o: c.method(s, j, "profile", one("Face"), **{o: NONE}))
        add("profile", f"profile with {o} zero and no other", True, lambda c, s, j, o=o: c.method(
            s, j, "profile", one("Face"), **{o: ZERO, ("inner_offset" if o[0] == "o" else "outer_offset"): NONE}))
    for kind in ("Edge", "Solid", "Vector"):
        add("shapes", f"profile of a {kind}", False, lambda c, s, j, k=kind: c.method(s, j, "profile", lst(c, s, one(k))))
        add("shapes", f"profile of a Face and a {kind}", False,
            lambda c, s, j, k=kind: c.method(s, j, "profile", lst(c, s, In("f", "Face"), one(k))))
    add("shapes", "profile of a Face and a Wire", True,
        lambda c, s, j: c.method(s, j, "profile", lst(c, s, In("f", "Face"), In("w", "Wire"))))
    # pockets
    for v in (0, -0.5, -1):
        add("stepover", f"pocket with a stepover of {v} tool radii", False, pocket_step(v))
    for v in ((0, 0), (0, -1), (-1, 1), (1, -2), (1, -3)):
        add("stepover", f"pocket with a stepover of {v[0]} tool radii plus {v[1]} (radius 2)", False, pocket_step(v, True))
    for v in (0.25, 1):
        add("stepover", f"pocket with a stepover of {v} tool radii", True, pocket_step(v))
    for v in ((0, 0.5), (1, -1), (-1, 3)):
        add("stepover", f"pocket with a stepover of {v[0]} tool radii plus {v[1]} (radius 2)", True, pocket_step(v, True))
    for n in ("", "Clipper", "occt"):
        add("engine", f"pocket with the engine {n!r}", False,
            lambda c, s, j, n=n: c.call(s, c.fn(P, "pocket"), j, lst(c, s, one("Face")), engine=C(n)))
    for n in ("clipper", "cq"):
        add("engine", f"pocket with the engine {n!r}", True,
            lambda c, s, j, n=n: c.call(s, c.fn(P, "pocket"), j, lst(c, s, one("Face")), engine=C(n)))
    for eng in ("clipper", "cq"):
        for at in ("op", "avoid"):
            for sec in (False, True):
                n = f"{eng} pocket, {'an area to avoid' if at == 'avoid' else 'an area'}"
                if sec:
                    n += " (the second of two)"
                add("above", n + " above the job plane", False, pocket_face(0.5, eng, at, sec))
                add("above", n + " slightly above the job plane", False, pocket_face(0.002, eng, at, sec))
                if eng == "cq":
                    add("above", n + " partly above the job plane", False, pocket_face(0.5, eng, at, sec, -0.25))
                for z in (0, -2):
                    add("above", n + f" at depth {z}", True, pocket_face(z, eng, at, sec))
    # drill
    d = In("depth", "num")
    add("drill", "drill without anything to drill", False, drill(NONE, d))
    add("drill", "drill with an empty list", False, drill(lambda c, s: lst(c, s), d))
    add("drill", "drill without a depth", False, drill(one("Face"), None))
    add("drill", "drill with depth None", False, drill(one("Face"), NONE))
    for kind in ("Edge", "Solid", "str"):
        add("drill", f"drill of a {kind}", False, drill(lambda c, s, k=kind: lst(c, s, one(k)), d))
        add("drill", f"drill of a Wire and a {kind}", False, drill(lambda c, s, k=kind: lst(c, s, In("w", "Wire"), one(k)), d))
    for kind in ("Face", "Wire", "Vector"):
        add("drill", f"drill of a {kind}", True, drill(lambda c, s, k=kind: lst(c, s, one(k)), d))
        add("drill", f"drill of a bare {kind}", True, drill(one(kind), C(0.5)))
    # tabs
    for sp, w in ((1, 2), (2, 2), (0, 1), (-1, 1)):
        add("tabs", f"edge tabs of width {w} spaced {sp}", False,
            lambda c, s, j, sp=sp, w=w: c.call(s, c.cls("EdgeTabs"), spacing=C(sp), width=C(w), height=C(1)))
    for sp, w in ((3, 2), (2.5, 2)):
        add("tabs", f"edge tabs of width {w} spaced {sp}", True,
            lambda c, s, j, sp=sp, w=w: c.call(s, c.cls("EdgeTabs"), spacing=C(sp), width=C(w), height=C(1)))
    # edges
    for k in ("BEZIER", "PARABOLA", "HYPERBOLA", "OTHER", "ELLIPSE"):
        add("edges", f"a path with an edge of type {k}", False, edge(k))
    for k in ("LINE", "CIRCLE", "BSPLINE", "OFFSET"):
        add("edges", f"a path with an edge of type {k}", True, edge(k))
    add("flat", "a pocket area that is not level", False, slope(1))
    for h in (0.01, 0.3, 0.5, 7):
        add("flat", f"a pocket area with a slope of {h}", False, slope(h))
    add("flat", "a pocket area that is level", True, slope(0))
    # vertical motions
    for cls in ("PlungeCut", "PlungeRapid", "Retract"):
        for ends in (dict(x=num("x")), dict(y=num("y")), dict(x=num("x"), y=num("y")), dict(x=num("x"), z=num("z")),
                     dict(y=num("y"), z=num("z")), dict(x=ZERO, z=num("z")), dict(y=ZERO)):
            add("vertical", f"{cls} to {', '.join(a + ('=0' if v is ZERO else '') for a, v in ends.items())}", False, motion(cls, **ends))
        add("vertical", f"{cls} to z", True, motion(cls, z=num("z")))
    return q


def edge(kind):
    def f(c, s, j):
        c.I.cuts.pop(("cq_cam.routers", "route_wires"))
        e = In("edge", "Edge")
        s.facts[mk("eq", *sorted((app(".geomType", e), C(kind)), key=lambda t: t.n))] = True
        return c.call(s, c.fn("cq_cam.routers", "route_wires"), j, lst(c, s, e))
    return f


def slope(h):
    """an area between the depths -2 and h - 2"""
    def f(c, s, j):
        c.heights["area"] = -2, h - 2
        c.I.cuts.pop((G, "offset_polyface"))
        c.I.cuts[("cq_cam.operations.pocket", "pocket_clipper")] = opaque("pocket_clipper", "list[?]")
        return c.method(s, j, "pocket", In("area", "Face"))
    return f


def tooled(c, s, j, **kw):
    q, e = c.call(s, c.cls("Tool"), **kw)
    s, t = q[0]
    c.keep(s, "tool", t)
    return c.method(s, j, "profile", In("o", "Face"), tool=t)


def run(R, name, ok, fn, jobargs, summaries):
    c = new(R)
    c.I.summaries_on = summaries
    c.I.cut_log, c.heights = [], {}

    def bbox(w, name):
        for x in [w, *subterms(w)]:
            if x.op == "in" and x.args[0] in c.heights and name[0] == "z":
                lo, hi = c.heights[x.args[0]]
                return C({"zmin": lo, "zmax": hi, "zlen": hi - lo}[name])
        return None
    c.I.bbox = bbox
    for f in ("route_wires", "route_polyface_outers"):
        c.I.cuts[("cq_cam.routers", f)] = opaque(f, "list[?]")
    for m in (P, Q):
        c.I.cuts[(m, "fill_pocket_contour_shrink")] = opaque("fills", "list[list[?]]")
    c.I.cuts[(G, "wire_to_path")] = opaque("path", "Path")
    clipper(c)
    c.I.cuts[(G, "offset_polyface")] = same_faces
    c.I.cuts[(G, "offset_face")] = same_faces
    s, j = one_job(c, R, **jobargs)
    return (c,) + tuple(fn(c, s, j))


def same_faces(I, st, b, F, node):
    v = next(x for x in b.values() if isinstance(x, T))
    return [(st, I.new_list(st, [E(v)], F, node))]


@prop("C16")
def rejections(R):
    R.rule("profile", "a profile needs an offset and a tool diameter", 4)
    R.rule("shapes", "only supported shapes are profiled", 3)
    R.rule("stepover", "the stepover of a pocket is positive", 5)
    R.rule("engine", "the pocket engine is one of the known ones", 2)
    R.rule("above", "no area of a pocket lies above the job plane", 4)
    R.rule("drill", "drilling needs a depth and something to drill, of a supported kind", 4)
    R.rule("tabs", "edge tabs are spaced wider than they are", 2)
    R.rule("edges", "only edges that can be expressed as motions are routed", 3)
    R.rule("flat", "areas of a pocket are level", 1)
    R.rule("vertical", "plunges and retractions move along Z only", 6)
    KEPT.clear()        # only whether a request is accepted matters here
    qs = requests()
    groups = {}
    for q in qs:
        groups.setdefault((q[0], len(groups) if q[0] == "above" else 0), []).append(q)

    def check(R, key):
        for rule, name, ok, fn, jobargs in groups[key]:
            try:
                c, r, e = run(R, name, ok, fn, jobargs, rule not in ("flat", "edges") and not (rule == "above" and name.startswith("cq")))
            except AnalysisBroken as x:
                R.notes.append(f"{name}: {x}")
                continue
            where = fn_where(c, *(ENTRY.get(rule) or ((Q, "pocket_cq") if name.startswith("cq") else (P, "pocket_clipper"))))
            if ok:
                v = True if r else (None if not e or any(unclear(s) for s, _ in e) else False)
                R.verdict(rule, name, v, "is accepted" if v else "is rejected although it is valid", where)
            elif not r and e:
                R.verdict(rule, name, True, "is rejected")
            elif not r:
                R.verdict(rule, name, None, "no outcome")
            else:
                s = next((s for s, _ in r if not unclear(s)), None)
                R.verdict(rule, name, None if s is None else False, "is accepted" + (f" when {why(s)}" if s is not None and why(s) else ""), where)
    parallel(R, list(groups), check)
