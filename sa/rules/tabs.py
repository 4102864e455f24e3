"""Tabs stay: their places on a wire, the pieces of the path over and between them, and their height."""
from fractions import Fraction

from . import prop
from .common import *  # noqa
from .common import attrs, cval, fn_where, new, num, one_job, parallel, undef
from ..terms import C, NONE, T, In, app, as_poly, mk, show, sub, subst, subterms
from ..engine import E
from ..models import REVERSED, eqp
from .path import G, Tally, short
from .reject import lst
from .steps import PR, U, Unknown, profile_scene

OT = "cq_cam.operations.tabs"


BOTTOM, TOP_OF_TABS = -3, -2


def tab_scene(R, kind, args, lengths, turned=(), types=(), zmin=BOTTOM, before=None):
    """apply_tabs on a wire of edges with these lengths -> (context, [(state, pieces or None for the wire itself)], edges)"""
    c = new(R)
    c.I.summaries_on, c.I.unroll, c.I.ext_ok = False, 60, True
    wire = In("wire", "Wire")
    edges = [In(f"edge{k}", "Edge") for k in range(len(lengths))]
    by = {wire: sum(lengths)}
    by.update(zip(edges, lengths))
    other = In("first wire", "Wire")
    others = [In(f"first{k}", "Edge") for k in range(len(before or ()))]
    by[other] = sum(before or ())
    by.update(zip(others, before or ()))
    c.moved = {}

    def bounds(e):
        p, q = app("OStartParam", e), app("OEndParam", e)
        return (q, p) if edges.index(e) in turned else (p, q)

    def ordered(I, st, b, F, node):
        w = I.freeze(st, next(x for x in b.values() if isinstance(x, T)))
        return [(st, I.new_list(st, [E(e) for e in (others if w is other else edges)], F, node))]

    def given(I, st, name, recv, args, kw, F, node):
        w = I.freeze(st, recv)
        if name == "Length" and w in by:
            return [(st, C(by[w]))]
        if name in ("move", "moved") and len(args) == 1:
            c.moved.setdefault(w, []).append(I.freeze(st, args[0]))
            return [(st, w)]
        if name == "_bounds" and w in edges:
            return [(st, mk("tup", *bounds(w)))]
        if name in ("FirstParameter", "LastParameter") and w.op == "app" and w.args[0] == "._geomAdaptor" and w.args[1] in edges:
            return [(st, bounds(w.args[1])[name == "LastParameter"])]
        return None

    def ext(I, st, name, args, kw, F, node):
        if name in ("cq.Wire.assembleEdges", "cq.Wire.combine"):
            return [(st, app("assembled", I.freeze(st, (list(args) + list(kw.values()))[0])))]
        return None
    c.I.given, c.I.given_ext = given, ext
    c.I.bbox = lambda w, n: C(zmin) if n in ("zmin", "zmax") else None
    c.I.cuts[(U, "wire_to_ordered_edges")] = ordered
    s, j = one_job(c, R)
    for k, e in enumerate(edges):
        s.facts[eqp(app(".Orientation", e), REVERSED)] = k in turned
        s.facts[eqp(app(".geomType", e), C("LINE"))] = k not in types
    q, e = c.call(s, c.cls(kind), **{k: C(v) for k, v in args.items()})
    if not q:
        raise Unknown("the tabs can't be made")
    s, tabs = q[0]
    if before:
        for e in others:
            s.facts[eqp(app(".Orientation", e), REVERSED)] = False
            s.facts[eqp(app(".geomType", e), C("LINE"))] = True
        c.keep(s, "tabs", tabs)
        r, x = c.call(s, c.fn(PR, "apply_tabs"), other, C(TOP_OF_TABS), tabs)
        if len(r) != 1:
            raise Unknown("the first wire has several outcomes")
        s = r[0][0]
        c.moved.clear()
    r, x = c.call(s, c.fn(PR, "apply_tabs"), wire, C(TOP_OF_TABS), tabs)
    out = []
    for st, v in r:
        fz = c.I.freeze(st, v)
        if fz is wire:
            out.append((st, None))
        elif fz.op == "app" and fz.args[0] == "assembled" and fz.args[1].op == "lst" and all(s.op == "e" for s in fz.args[1].args[0]):
            out.append((st, [s.args[0] for s in fz.args[1].args[0]]))
        else:
            raise Unknown("the wire with tabs is not resolved")
    return c, out, edges


# ------------------------------------------------------------------ oracle
def merged(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + EPS:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


EPS = 1e-9


def wanted(kind, args, lengths, types):
    """per edge: the parts of it, as fractions, that lie in a tab"""
    half = args["width"] / 2
    if kind == "EdgeTabs":
        out = []
        for k, L in enumerate(lengths):
            n = int(L // args["spacing"])
            if args.get("only") and k in types:
                n = 0
            out.append(merged((max(0.0, i / (n + 1) - half / L), min(1.0, i / (n + 1) + half / L)) for i in range(1, n + 1)))
        return out
    total, out, at = sum(lengths), [], 0.0
    for L in lengths:
        a, b = at / total, (at + L) / total
        rs = []
        for i in range(args["count"]):
            for turn in (-1, 0, 1):
                lo, hi = i / args["count"] + turn - half / total, i / args["count"] + turn + half / total
                lo, hi = max(a, lo), min(b, hi)
                if hi > lo + EPS:
                    rs.append(((lo - a) / (b - a), (hi - a) / (b - a)))
        out.append(merged(rs))
        at += L
    return out


# ------------------------------------------------------------------ pieces
def fraction(st, t, e):
    if t.op == "app" and len(t.args) > 1 and t.args[1] is e:
        if t.args[0] == "OStartParam":
            return 0.0
        if t.args[0] == "OEndParam":
            return 1.0
        if t.args[0] == "OParam" and isinstance(cval(t.args[2]), (int, float)):
            return float(cval(t.args[2]))
    s, q = app("OStartParam", e), app("OEndParam", e)
    p = as_poly(t)
    if p is not None and set(p) <= {((s, 1),), ((q, 1),)} and abs(sum(p.values()) - 1) < EPS:
        # between the first and last parameter: the same part of the length on a line, but not on any curve
        if st.facts.get(eqp(app(".geomType", e), C("LINE"))) is not True:
            raise Wrong("a tab on a curved edge is placed by the parameter of the curve instead of its length")
        return float(p.get(((q, 1),), 0))
    return None


def piece(c, st, t, edges):
    """(edge index, from, to, raised, (start, end)) of a part of an edge"""
    if t in edges:
        return edges.index(t), 0.0, 1.0, False, (app("OStart", t), app("OEnd", t))
    if t.op != "app" or t.args[0] != "NewEdge" or len(t.args) < 4:
        raise Unknown(f"{short(t)} is not a part of an edge")
    curve, p, q = t.args[1:4]
    own = [e for e in edges if e in set(subterms(curve))]
    if len(own) != 1:
        raise Unknown("the edge of a part is not known")
    e = own[0]
    a, b = fraction(st, p, e), fraction(st, q, e)
    if a is None or b is None:
        raise Unknown("where a part begins or ends is not known")
    rev = st.facts.get(eqp(app(".Orientation", t), REVERSED))
    if rev is None:
        raise Unknown("the orientation of a part is not known")
    plain = app(".Curve", app(".Curve", app("._geomAdaptor", e)))
    if curve is plain:
        raised = False
        if app(".location", e) not in c.moved.get(t, []) or len(c.moved[t]) != 1:
            raise Wrong(f"a part of edge {edges.index(e)} is not at the place of the edge")
    elif curve.op == "app" and "ProjectOnPlane" in str(curve.args[0]) and curve.args[1] is plain:
        raised = True
        z = height(curve.args[2])
        if abs(z - TOP_OF_TABS) > EPS:
            raise Wrong(f"a tab is cut at {z:g} instead of {TOP_OF_TABS}")
        if t in c.moved:
            raise Unknown("a raised part is moved")
    else:
        raise Unknown("the curve of a part is not known")
    first, last = (b, a) if rev else (a, b)
    pts = (app("CurvePt", curve, q if rev else p), app("CurvePt", curve, p if rev else q))
    return edges.index(e), first, last, raised, pts


def height(t):
    for x in subterms(t):
        if x.op == "app" and x.args[0] == "cq.Plane" and len(x.args) > 1:
            o = x.args[1]
            z = o.args[2] if o.op == "tup" and len(o.args) == 3 else o.args[3] if o.op == "app" and o.args[0] == "Vec" else None
            if z is not None and isinstance(cval(z), (int, float)):
                return float(cval(z))
    raise Unknown("the plane of the tabs is not known")


class Wrong(Exception):
    pass


def judge_tabs(c, out, edges, want, turned):
    if not out:
        raise Unknown("there is no way to a wire")
    for st, ps in out:
        if ps is None:
            if any(want):
                raise Wrong("the wire is left without tabs")
            continue
        seq, lines = [], {}
        for t in ps:
            if t.op == "app" and t.args[0] == "cq.Edge.makeLine":
                lines[len(seq)] = t.args[1:3]
            else:
                seq.append(piece(c, st, t, edges))
        got = [[] for e in edges]
        at = (0, 0.0)
        prev = None
        for n, (k, a, b, raised, pts) in enumerate(seq):
            if b < a - EPS:
                raise Wrong(f"edge {k} is cut backwards from {a:.3f} to {b:.3f}")
            if at[1] > 1 - EPS:
                at = (at[0] + 1, 0.0)
            if k != at[0] or abs(a - at[1]) > EPS:
                raise Wrong(f"the path goes on at {a:.3f} of edge {k} instead of {at[1]:.3f} of edge {at[0]}")
            if raised:
                got[k].append((a, b))
            if prev is not None:
                link = lines.get(n)
                if prev[3] != raised and link is None:
                    raise Wrong(f"at {a:.3f} of edge {k} there is no vertical edge between the path and the tab")
                if link is not None:
                    if prev[0] == k and (link[0] is not prev[4][1] or link[1] is not pts[0]):
                        if undef(link[0]) or undef(link[1]):
                            raise Unknown("a vertical edge is not resolved")
                        raise Wrong(f"the edge at {a:.3f} of edge {k} doesn't go from the end of one part to the start of the next")
            prev = (k, a, b, raised, pts)
            at = (k, b)
        if at[0] != len(edges) - 1 or at[1] < 1 - EPS:
            raise Wrong(f"the path ends at {at[1]:.3f} of edge {at[0]}")
        for k, (g, w) in enumerate(zip(got, want)):
            g = merged(x for x in g if x[1] - x[0] > EPS)
            if len(g) != len(w) or any(abs(x - y) > 1e-7 for p, q in zip(g, w) for x, y in zip(p, q)):
                say = lambda rs: ", ".join(f"{a:.3f} to {b:.3f}" for a, b in rs) or "nowhere"
                raise Wrong(f"edge {k} is raised at {say(g)} instead of {say(w)}")


EDGE = [  # spacing, width, lengths, only
    (4, 1, (10, 6)), (4, 1, (4, 3.9, 8)), (5, 2, (20,)), (3, 2.5, (9, 10, 11)), (4, 1, (10, 6), "LINE"), (9, 1, (5, 8)), (2, 0.5, (1.5, 13, 2)),
]
CLOSE = [(5, 4.9, (10.1, 10.1)), (3, 2.9, (6, 9.5))]
WIRE = [  # count, width, lengths
    (1, 1, (4, 6)), (2, 1, (4, 6)), (3, 1, (4, 6, 5)), (4, 2, (10, 10, 10, 10)), (4, 3, (10, 6, 10, 6)), (2, 1, (10,)), (3, 2, (12.5,)), (5, 2, (1, 1, 20, 1)),
    (2, 6, (2, 2, 5, 5, 2)), (1, 9, (2, 3, 6, 4)), (6, 0.5, (7, 3)), (3, 1, (1, 2, 3, 4, 5)), (8, 1.5, (10, 7, 10, 7)),
    (2, 2, (3, 4, 5)), (2, 2, (4, 4, 4)), (3, 2, (3, 5, 4, 3)), (2, 4, (8, 2, 8, 6)),    # tabs that end with an edge, begin with one
]
WIDE = [(4, 11, (10.1, 10.1, 10.1, 10.1)), (3, 4, (4, 5)), (2, 20, (10,))]


@prop("C23")
def tabs(R):
    R.rule("places", "a wire is cut from its first edge to its last, without gaps and forwards, raised to the height of the tabs exactly where the tabs are", 30)
    R.rule("height", "all levels of a profile are raised to the same height above the bottom of the wire", 4)
    R.rule("above", "levels above the tabs are left as they are", 4)

    def check(R, job):
        t = Tally(R)
        where = ""
        kind, rule = job[0], job[1]
        try:
            if rule == "height":
                zs, step, tall = job[2:]
                key = f"wires at {', '.join(map(str, zs))}, stepdown {step}, tabs {tall} high"
                c, r, x, W, ws = profile_scene(R, zs, step, tall)
                where = fn_where(c, PR, "profile")
                judge_height(c, r, W, ws, tall)
                v, m = True, "raised to the same height"
            else:
                args, lengths, types, turned, zmin = job[2:7]
                before = job[7] if len(job) > 7 else None
                key = f"{kind}({', '.join(f'{a}={b}' for a, b in args.items())}), edges of {', '.join(map(str, lengths))}" + (
                    f", reversed: {', '.join(map(str, turned))}" if turned else "") + (f", curved: {', '.join(map(str, types))}" if types else "") + (f", bottom at {zmin}" if zmin != BOTTOM else "") + (
                    f", after a wire with edges of {', '.join(map(str, before))}" if before else "")
                c, out, edges = tab_scene(R, kind, args, lengths, turned, types, zmin, before)
                where = fn_where(c, PR, "apply_tabs")
                if rule == "above":
                    v, m = all(ps is None for st, ps in out) if out else None, "left as it is"
                    if v is False:
                        m = "a wire at or above the height of the tabs is changed"
                else:
                    judge_tabs(c, out, edges, wanted(kind, args, lengths, types), turned)
                    v, m = True, "raised in the tabs"
        except Wrong as w:
            v, m = False, str(w)
        except Unknown as u:
            v, m = None, str(u)
        t.add(rule, key, v, m, where)
        t.flush()
    jobs = []
    for n, (sp, wd, ls, *only) in enumerate(EDGE + CLOSE):
        a = dict(spacing=sp, width=wd, height=1, **({"only": only[0]} if only else {}))
        for turned in ((), tuple(range(len(ls))), (len(ls) - 1,))[: 2 if len(ls) == 1 else 3]:
            jobs.append(("EdgeTabs", "places", a, ls, (1,) if only else (), turned, BOTTOM))
    jobs.append(("EdgeTabs", "places", dict(spacing=4, width=1, height=1), (10, 6), (0,), (), BOTTOM))
    jobs.append(("WireTabs", "places", dict(count=4, width=1, height=1), (10, 6, 3), (0, 2), (2,), BOTTOM))
    for ct, wd, ls in WIRE + WIDE:
        a = dict(count=ct, width=wd, height=1)
        for turned in ((), tuple(range(len(ls))), (len(ls) - 1,))[: 2 if len(ls) == 1 else 3]:
            jobs.append(("WireTabs", "places", a, ls, (), turned, BOTTOM))
    for first, ls in (((4, 6, 5), (10, 8, 10, 8)), ((10, 8, 10, 8), (4, 6, 5)), ((30,), (12, 9))):
        jobs.append(("WireTabs", "places", dict(count=3, width=2, height=1), ls, (), (), BOTTOM, first))
        jobs.append(("EdgeTabs", "places", dict(spacing=3, width=1, height=1), ls, (), (), BOTTOM, first))
    for z in (-2.1, -2.4, -2.6, -3.5):                  # a level anywhere below the top of the tabs is raised
        jobs.append(("WireTabs", "places", dict(count=2, width=1, height=1), (4, 6), (), (), z))
        jobs.append(("EdgeTabs", "places", dict(spacing=3, width=1, height=1), (4, 6), (), (), z))
    for z in (-2, -1.5, 0):
        jobs.append(("WireTabs", "above", dict(count=2, width=1, height=1), (4, 6), (), (), z))
        jobs.append(("EdgeTabs", "above", dict(spacing=3, width=1, height=1), (4, 6), (), (), z))
    for zs, step, tall in (((-3,), None, 1), ((-3,), 1, 1), ((-3, -5), 1, 2), ((-3, -5), None, 0.5), ((-4,), 1.5, 3), ((-2,), None, 4), ((-2, -5), 1, 3)):
        jobs.append(("profile", "height", zs, step, tall))
    parallel(R, jobs, check)


def judge_height(c, r, W, ws, tall):
    if not r:
        raise Unknown("there is no way to a path")
    for st, v in r:
        fz = c.I.freeze(st, v)
        if fz.op != "lst" or not all(s.op == "e" for s in fz.args[0]):
            raise Unknown("the wires are not a known list")
        for s in fz.args[0]:
            t = s.args[0]
            if t.op != "app" or t.args[0] != "tabbed":
                base = [w for w in ws if w in set(subterms(t))]
                if len(base) != 1:
                    raise Unknown("a level is not resolved")
                raise Wrong("a level is cut without the tabs")
            base = [w for w in ws if w in set(subterms(t.args[1]))]
            z = cval(t.args[2])
            if len(base) != 1 or not isinstance(z, (int, float)):
                raise Unknown("the height of the tabs is not resolved")
            if abs(z - (W.h[base[0]] + tall)) > EPS:
                raise Wrong(f"a level of a wire at {W.h[base[0]]} is raised to {z} with tabs {tall} high")
