"""Levels which profiles and pockets are cut down in."""

from . import prop
from .common import *  # noqa
from .common import attrs, cval, fn_where, new, num, one_job, ops_of, parallel, reliable, undef
from ..terms import C, FALSE, NONE, T, TRUE, ZERO, In, app, attr, mk, show, subterms
from ..engine import E
from .levels import Unknown, elems
from .path import G, P, Q, Tally, short
from .reject import lst

import fractions

Fr = fractions.Fraction

U = "cq_cam.utils.utils"
PR = "cq_cam.operations.profile"
RT = "cq_cam.routers"
CAP = 40
SLACK = Fr(1, 500)          # the code and its users round


def q(x):
    return Fr(str(x))


# heights of the wires that the offset leads to, stepdown
PROFILES = [((-3,), None), ((-3,), 0), ((-3,), 1), ((-3,), 2), ((-1,), 5), ((-0.5,), 0.2), ((-7,), 3), ((-2,), 2), ((-3.02,), 1), ((-3.1,), 1), ((-3.5,), 1), ((-3.9,), 1), ((-6.2,), 2), ((-2,), 0.25), ((-1.125,), 0.375),
            ((-3, -3), 1), ((-3, -1), 1), ((-1, -4), 2), ((-3,), 0.03)]
# the same with wires that are not level: heights of the lowest points, height, stepdown
SLOPED = [((-3,), 2, 1), ((-4, -1), 0.5, 0.7), ((-2,), 5, 1)]


def vector_z(t):
    if t.op == "app" and t.args[0] == "Vec":
        return t.args[1:4]
    raise Unknown(f"{short(t)} is not known")


class Wires:
    """wires at known heights, and what they are moved to"""

    def __init__(self, h, high=0):
        self.h, self.high = h, q(high)

    def base(self, t):
        while t.op == "app" and t.args[0] in ("moved", "tabbed"):
            t = t.args[1]
        return t

    def height(self, t):
        if t in self.h:
            return q(self.h[t])
        if t.op == "app" and t.args[0] == "tabbed":
            return self.height(t.args[1])
        if t.op == "app" and t.args[0] == "moved":
            x, y, z = vector_z(t.args[2])
            if x is not ZERO or y is not ZERO or cval(z) is None:
                raise Unknown(f"{short(t)} is not known")
            return self.height(t.args[1]) + q(cval(z))
        raise Unknown(f"{short(t)} is not known")

    def bbox(self, w, name):
        if name in ("zmin", "zmax"):
            try:
                z = self.height(w)
            except Unknown:
                return None
            if name == "zmax":
                z += self.high
            return C(int(z) if z.denominator == 1 else float(z))
        return None


def profile_scene(R, zs, step, tabs=False, high=0):
    c = new(R)
    c.I.summaries_on, c.I.unroll, c.I.ext_ok = False, CAP if not step or step > 0.1 else 4 * CAP, True
    ws = [In(f"offset {k}", "Wire") for k in range(len(zs))]
    W = Wires(dict(zip(ws, zs)), high)
    log = []

    def off(I, st, b, F, node):
        return [(st, I.new_list(st, [E(w) for w in ws], F, node))]

    def edges(I, st, b, F, node):       # a wire below the plane keeps its edges
        t = I.freeze(st, next(x for x in b.values() if isinstance(x, T)))
        return [(st, I.new_list(st, [E(app("edge of", t))], F, node))]

    def route(I, st, b, F, node):
        w = I.freeze(st, b["wires"] if "wires" in b else [x for x in b.values() if isinstance(x, T)][1])
        log.append(w)
        return [(st, w)]

    def tab(I, st, b, F, node):
        v = [I.freeze(st, x) for x in b.values() if isinstance(x, T)]
        return [(st, app("tabbed", *v[:2]))]

    def given(I, st, name, recv, args, kw, F, node):
        w = I.freeze(st, recv)
        if name == "Center" and w.op == "app" and w.args[0] == "edge of":
            z = next((x for x in subterms(w) if x in W.h or x.op == "app" and x.args[0] == "moved"), None)
            v = W.bbox(z, "zmin") if z is not None else None
            if v is not None:
                return [(st, app("Vec", num("cx"), num("cy"), v))]
        return None

    def ext(I, st, name, args, kw, F, node):
        if name == "cq.Wire.combine":
            l = I.freeze(st, (list(args) + list(kw.values()))[0])
            if l.op == "lst" and all(s.op == "e" for s in l.args[0]):
                return [(st, I.new_list(st, [E(app("combined", s.args[0])) for s in l.args[0]], F, node))]
        return None
    c.I.given, c.I.given_ext = given, ext
    c.I.bbox = W.bbox
    c.I.cuts[(G, "offset_wire")] = off
    c.I.cuts[(U, "compound_to_edges")] = edges
    c.I.cuts[(RT, "route_wires")] = route
    c.I.cuts[(PR, "apply_tabs")] = tab
    s, j = one_job(c, R)
    kw = {}
    if tabs:
        q_, e = c.call(s, c.cls("EdgeTabs"), spacing=C(9), width=C(1), height=C(tabs))
        s, kw["tabs"] = q_[0]
    r, x = c.call(s, c.fn(PR, "profile"), j, In("wire", "Wire"), C(1), NONE if step is None else C(step), **kw)
    return c, r, x, W, ws


def judge_profile(c, r, W, ws, step):
    for st, v in r:
        ls = elems(c.I.freeze(st, v), "what is cut")
        got = {w: [] for w in ws}
        for l in ls:
            b = W.base(l)
            if b not in got:
                raise Unknown(f"{short(l)} is not known")
            got[b].append(W.height(l))
        for w, hs in got.items():
            z = q(W.h[w])
            if not hs:
                return False, f"a wire at {float(z)} is not cut"
            if hs[-1] != z:
                return False, f"a wire at {float(z)} is cut at {float(hs[-1])} at last"
            last = Fr(0)
            if step:
                for h in hs:
                    if last - h > q(step) + SLACK:
                        return False, f"a wire at {float(z)} with a stepdown of {step} is cut from {float(last)} to {float(h)} at once"
                    if h >= last and last != 0:
                        return False, f"a level at {float(last)} is followed by one at {float(h)}"
                    last = h
            elif len(hs) > 1:
                return False, "without a stepdown a wire is cut more than once"
    return True, "levels at most one stepdown apart, down to the wire"


# area: depth; who lies inside whom (the outer one's depth has been reached there)
POCKETS = [((-3,), ()), ((-5, -2), ()), ((-1, -3), ((0, 1),)), ((-1, -3), ()), ((-2, -4, -7), ((0, 1), (0, 2), (1, 2))),
           ((-2, -4, -7), ((0, 1), (0, 2))), ((-2, -4, -5), ((0, 2),)), ((-0.7,), ()), ((-3.02, -2.9), ())]
# predicates of areas which are equal, contain the other one, are contained in it, or lie apart
RELATIONS = {
    "contains": lambda r: r in "=<", "covers": lambda r: r in "=<", "contains_properly": lambda r: r == "<",
    "within": lambda r: r in "=>", "covered_by": lambda r: r in "=>", "equals": lambda r: r == "=",
    "intersects": lambda r: r != " ", "disjoint": lambda r: r == " ", "overlaps": lambda r: False, "touches": lambda r: False,
}
STEPS = (None, 0, 1, 2, 0.3, 0.625, 1.25, 10)


def pocket_scene(R, depths, within, step, engine="clipper"):
    c = new(R)
    c.I.summaries_on, c.I.unroll, c.I.ext_ok = False, 60 if not step or step > 0.1 else 240, True
    n = len(depths)
    kind = "Path" if engine == "clipper" else "Wire"
    outs = [In(f"area {k}", "Path" if engine == "clipper" else "Face") for k in range(n)]
    passes = {k: [[In(f"pass {k}{a}{b}", kind) for b in range(2 - a)] for a in range(2)] for k in range(n)}
    z = {}
    for k in range(n):
        z[outs[k]] = depths[k]
        for row in passes[k]:
            for p in row:
                z[p] = depths[k]
    W = Wires(z)

    def build(I, st, b, F, node):
        out = []
        for k in range(n):
            if engine == "clipper":
                r, x = c.call(st, c.cls("PathFace"), outs[k], I.new_list(st, [], F, node), C(depths[k]))
                st, v = r[0]
            else:
                v = outs[k]
            out.append(E(v))
        return [(st, I.new_list(st, out, F, node))]

    def area(t):
        ks = {k for k in range(n) for x in subterms(t) if x is outs[k]}
        return ks.pop() if len(ks) == 1 else None

    c.fills, c.routes = [], []

    def fill(I, st, b, F, node):
        c.fills.append({n: I.freeze(st, x) for n, x in b.items() if isinstance(x, T)})
        k = area(I.freeze(st, next(x for x in b.values() if isinstance(x, T))))
        if k is None:
            return [(st, In("sequences", "list"))]
        rows = []
        for row in passes[k]:
            seq = []
            for p in row:
                v = p
                if engine == "clipper":
                    r, x = c.call(st, c.cls("PathFace"), p, I.new_list(st, [], F, node), C(depths[k]))
                    st, v = r[0]
                seq.append(E(v))
            rows.append(E(I.new_list(st, seq, F, mk("row", k, len(rows)))))
        return [(st, I.new_list(st, rows, F, node))]

    def route(I, st, b, F, node):
        c.routes.append({n: I.freeze(st, x) for n, x in b.items() if isinstance(x, T)})
        v = next((x for k, x in b.items() if k in ("poly_faces", "wires")), None)
        l = I.freeze(st, v if v is not None else [x for x in b.values() if isinstance(x, T)][1])
        return [(st, I.new_list(st, [E(app("cut", l))], F, node))]

    def given(I, st, name, recv, args, kw, F, node):
        if name in RELATIONS and args:
            a, b = area(I.freeze(st, recv)), area(I.freeze(st, args[0]))
            if a is not None and b is not None:
                return [(st, C(RELATIONS[name]("=" if a == b else "<" if (a, b) in within else ">" if (b, a) in within else " ")))]
        return None
    c.I.given = given
    c.I.bbox = W.bbox
    m = P if engine == "clipper" else Q

    def opaque(I, st, b, F, node):
        return [(st, app("converted", *[I.freeze(st, x) for x in b.values() if isinstance(x, T)][:1]))]
    for f in ("wire_to_path", "offset_polyface", "offset_face"):
        c.I.cuts[(G, f)] = opaque
    c.I.cuts[(m, "build_pocket_ops")] = build
    c.I.cuts[(m, "fill_pocket_contour_shrink")] = fill
    c.I.cuts[(RT, "route_polyface_outers" if engine == "clipper" else "route_wires")] = route
    s, j = one_job(c, R)
    fs = lst(c, s, In("face", "Face"))
    c.keep(s, "fs", fs)
    if engine == "clipper":
        for s2, m_ in c.I.getattr(j, "pocket", s, c.F, None):
            s, f = s2, m_
        r, x = c.call(s, f, fs, stepdown=NONE if step is None else C(step))
        out = []
        for st, v in r:
            ops = ops_of(c, st, v)
            if not ops:
                raise Unknown("the operation is not known")
            out.append((st, attrs(ops[-1]).get("commands")))
    else:
        r, x = c.call(s, c.fn(P, "pocket"), j, fs, stepdown=NONE if step is None else C(step), engine=C("cq"))
        out = r
    return c, out, W, passes


def judge_pocket(c, r, W, passes, depths, within, step, engine):
    index = {p: (k, a, b) for k, rows in passes.items() for a, row in enumerate(rows) for b, p in enumerate(row)}
    if not r:
        return False if reliable(c) else None, "there is no way to a result"
    for st, v in r:
        level = {k: Fr(0) for k in passes}          # what has been cut down to, by area
        done = {k: {} for k in passes}
        for m in elems(c.I.freeze(st, v), "the program"):
            if not (m.op == "app" and m.args[0] == "cut"):
                raise Unknown(f"{short(m)} is not known")
            row = []
            for f in elems(m.args[1], "a sequence"):
                if engine == "clipper":
                    a = attrs(f)
                    o, d = a.get("outer"), cval(a.get("depth", NONE))
                    while o is not None and o.op == "app" and o.args[0] in ("list", "builtins.list") or o.op == "lst" and len(o.args[0]) == 1:
                        o = o.args[1] if o.op == "app" else o.args[0][0].args[0]
                    if o not in index or d is None:
                        raise Unknown(f"a pass {short(o)} at {d} is not known")
                    row.append((o, q(d)))
                else:
                    row.append((W.base(f), W.height(f)))
            if not row:
                continue
            ks = {index[o][0] for o, d in row}
            zs = {d for o, d in row}
            if len(ks) != 1 or len(zs) != 1:
                return False, "passes of different areas or depths are cut in one go"
            k, z = ks.pop(), zs.pop()
            seq = next((a for a, x in enumerate(passes[k]) if x == [o for o, d in row]), None)
            if seq is None:
                return False, "the passes of a level are not those of the area, in their order"
            if z < q(depths[k]):
                return False, f"an area at {depths[k]} is cut at {float(z)}"
            have = min([level[k]] + [q(depths[a]) for a, b in within if b == k and level[a] == q(depths[a])])
            if step and have - z > q(step) + SLACK:
                return False, f"an area at {depths[k]} with a stepdown of {step} is cut from {float(have)} to {float(z)} at once"
            if z > level[k]:
                return False, f"a level at {float(level[k])} is followed by one at {float(z)}"
            cut = done[k].setdefault(z, [])
            if seq in cut:
                return False, "a sequence of passes is cut twice at a level"
            cut.append(seq)
            if len(cut) == len(passes[k]):
                level[k] = z
        for k in passes:
            if len(done[k].get(q(depths[k]), ())) != len(passes[k]):
                return False, f"an area at {depths[k]} is not cut completely at its depth"
            if any(len(v) != len(passes[k]) for v in done[k].values()):
                return False, "a level is not cut completely"
            if not step and len(done[k]) > 1:
                return False, "without a stepdown an area is cut more than once"
    return True, "levels at most one stepdown apart, down to the depth of the area"


@prop("C18")
def stepdown(R):
    R.rule("profile", "a profile is cut in levels at most one stepdown apart, the last one at the depth of the wire", 11)
    R.rule("pocket", "a pocket is cut in levels at most one stepdown apart, the last one at the depth of the area; each level completely", 40)

    def check(R, job):
        t = Tally(R)
        if job == "profile":
            for zs, high, step in [(zs, 0, step) for zs, step in PROFILES] + SLOPED:
                key = f"wires at {', '.join(map(str, zs))}, stepdown {step}" + (f", {high} high" if high else "")
                c, r, x, W, ws = profile_scene(R, zs, step, high=high)
                where = fn_where(c, PR, "profile")
                verdict(t, c, "profile", key, where, lambda: judge_profile(c, r, W, ws, step), r)
        else:
            engine, depths, within = job
            for step in STEPS + ((0.03,) if depths == (-3,) else ()):
                key = f"{engine}: areas at {', '.join(map(str, depths))}" + (
                    ", " + ", ".join(f"{b} in {a}" for a, b in within) if within else "") + f", stepdown {step}"
                c = None
                try:
                    c, r, W, passes = pocket_scene(R, depths, within, step, engine)
                except Unknown as u:
                    t.add("pocket", key, None, str(u), "")
                    continue
                where = fn_where(c, P if engine == "clipper" else Q, "pocket_" + engine)
                verdict(t, c, "pocket", key, where, lambda: judge_pocket(c, r, W, passes, depths, within, step, engine), r)
        t.flush()
    parallel(R, ["profile"] + [("clipper", d, w) for d, w in POCKETS] + [("cq", d, w) for d, w in POCKETS[:3]], check)


def verdict(t, c, rule, key, where, judge, r):
    u = c.I.unknown
    if "endless" in u and not r:
        return t.add(rule, key, False, "the levels do not come to an end", where)
    if "endless" in u or "unroll cap" in u:
        return t.add(rule, key, None, "the levels may not come to an end", where)
    if not r:
        return t.add(rule, key, False if reliable(c) else None, "there is no way to a result", where)
    try:
        v, m = judge()
    except Unknown as e:
        v, m = None, str(e)
    t.add(rule, key, v, m, where)
