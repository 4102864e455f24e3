"""Rules about the regions that are cut: offsets, boolean operations, fill, depth levels."""
import ast

from . import prop
from .common import *  # noqa
from .common import AnalysisBroken, attrs, cval, fn_where, new, num, one_job, parallel, undef
from ..terms import C, NONE, T, ZERO, In, add, app, as_poly, mk, mul, neg, show, sub, subterms
from .. import models
from ..engine import E
from .path import P, Q, G, Tally, clipper, flat_terms, opaque, short

OFFS = ("outer_offset", "inner_offset", "avoid_outer_offset", "avoid_inner_offset", "stepover")
DEFAULT = dict(outer_offset=-1, inner_offset=1, avoid_outer_offset=1, avoid_inner_offset=-1, stepover=0.5)


class Ops:
    """offsets and boolean operations that the analysed code carries out"""

    def __init__(self):
        self.offsets, self.bools = [], []
        self.seen = set()
        self.own = None

    def put(self, to, I, v):
        """v with the innermost function of the project that asks for it"""
        if v in self.seen:
            return
        self.seen.add(v)
        if self.own is None:
            self.own = {n: m.rel for m in I.prog.modules.values() if m.name.startswith("cq_cam")
                        for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.Lambda))}
        for n in reversed(I.active):
            if n in self.own:
                to.append((v, getattr(n, "name", "lambda"), f"{self.own[n]}:{n.lineno}"))
                return
        to.append((v, "?", "?"))

    def on_prim(self, I, st, v, F, node):
        n = v.args[0]
        if n in ("pc.Offset", "pc.Offset2"):
            self.put(self.offsets, I, v)
        elif n in ("pc.Execute", "pc.Execute2"):
            self.put(self.bools, I, v)

    def on_ext_call(self, I, st, name, recv, args, kw, F, node, *rest):
        if name == ".offset2D" and recv is not None:
            a = [I.freeze(st, x) for x in args]
            k = {n: I.freeze(st, x) for n, x in kw.items()}
            d = a[0] if a else k.get("d", NONE)
            kind = a[1] if len(a) > 1 else k.get("kind", C("arc"))
            self.put(self.offsets, I, app("offset2D", I.freeze(st, recv), d, kind))


class Region:
    def __init__(self, c, ops, results, raises, geo):
        self.c, self.ops, self.results, self.raises, self.geo = c, ops, results, raises, geo

    def logged(self, *names):
        return [(n, a, F, node) for n, a, F, node in self.c.I.cut_log if n in names]


def wirepath(I, st, b, F, node):
    w = b.get("wire")
    if w is None:
        w = next(x for x in b.values() if isinstance(x, T))
    return [(st, app("wirepath", I.freeze(st, w)))]


def whole(name, typ):
    """the offset area as one value"""
    def h(I, st, b, F, node):
        v = next((x for x in b.values() if isinstance(x, T) and typ in str(models.ty(I, st, x))), None)
        if v is None:
            v = next(x for x in b.values() if isinstance(x, T))
        return [(st, app(name, I.freeze(st, v)))]
    return h


def region(R, engine, avoid=False, kind="Face", kw=None, cut=("routers", "path"), summaries=False, holes=None):
    c = new(R)
    c.I.summaries_on = summaries
    c.I.motion_codes, c.I.cut_log = {}, []
    ops = Ops()
    c.I.hooks.append(ops)
    clipper(c)
    s, j = one_job(c, R)
    if holes is not None:
        def given(I, st, name, recv, args, kw, F, node):
            w = I.freeze(st, recv)
            while w.op == "app" and w.args[0] in ("xform", "moved"):
                w = w.args[1]
            if name in ("innerWires", "outerWire") and w.op in ("in", "In") and w.args[0] in ("areas", "avoid"):
                if name == "outerWire":
                    return [(st, In(f"{w.args[0]} outline", "Wire"))]
                return [(st, I.new_list(st, [E(In(f"{w.args[0]} hole {k}", "Wire")) for k in range(holes)], F, node))]
            return None

        def one(I, st, b, F, node):
            w = I.freeze(st, next(x for x in b.values() if isinstance(x, T)))
            return [(st, I.new_list(st, [E(app("offset of", w))], F, node))]
        c.I.given, c.I.unroll = given, 20
        c.I.cuts[(G, "offset_wire")] = one
    mod = P if engine == "clipper" else Q
    t = "PathFace" if engine == "clipper" else "Face"
    if "routers" in cut:
        for f in ("route_wires", "route_polyface_outers"):
            c.I.cuts[("cq_cam.routers", f)] = opaque(f, "list[?]")
    if "path" in cut:
        c.I.cuts[(G, "wire_to_path")] = wirepath
    if "offset" in cut:
        c.I.cuts[(G, "offset_polyface")] = whole("offarea", "PathFace")
        c.I.cuts[(G, "offset_face")] = whole("offface", "Face")
    if "ops" in cut:
        c.I.cuts[(mod, "build_pocket_ops")] = opaque("pocket_ops", f"list[{t}]")
    if "fill" in cut:
        c.I.cuts[(mod, "fill_pocket_contour_shrink")] = opaque("fills", "list[list[PathFace]]" if engine == "clipper" else "list[list[Wire]]")
    kw = dict(kw or {})
    one = kind == "Face"
    a, v = In("areas", kind), In("avoid", kind)
    if engine == "clipper":
        if avoid:
            kw["avoid_areas"] = v
        r, e = c.method(s, j, "pocket", a, **kw)
    else:
        lst = lambda x: c.I.new_list(s, [E(x)], c.F, c.node) if one else x
        if avoid:
            kw["avoid_areas"] = lst(v)
        r, e = c.call(s, c.fn(P, "pocket"), j, lst(a), engine=C("cq"), **kw)
    return Region(c, ops, r, e, ("areas", "avoid"))


# --------------------------------------------------------------------------
def unscaled(t):
    while t.op == "app" and t.args[0] in ("pc.up", "pc.down"):
        t = t.args[1]
    return t


def base_of(t, geo):
    """which boundary of which input does a path or wire come from: {(input, 'outer'|'inner'|'wire')}; None in it: unknown"""
    out = set()

    def go(x, part):
        if x.op in ("in", "In"):
            if x.args[0] in geo:
                out.add((x.args[0], part or "wire"))
        elif x.op in ("phi", "unk"):
            out.add(None)
        elif x.op == "idx":
            go(x.args[0], part)
        elif x.op == "attr":
            go(x.args[0], part or {"outer": "outer", "inners": "inner"}.get(x.args[1]))
        elif x.op == "app" and x.args[0] in (".outerWire", ".innerWires"):
            go(x.args[1], part or x.args[0][1:6])
        elif x.op == "app" and x.args[0] in ("xform", "moved", "wirepath", "pc.up", "pc.down", "offset2D", ".offset2D"):
            go(x.args[1], part)
        elif x.op == "many":
            for al in x.args[2:4]:
                for sg, _ in al:
                    for y in sg:
                        go(y, part)
        else:
            for a in x.args:
                for y in flat_terms(a):
                    go(y, part)
    go(t, None)
    return out


def off_cases():
    m = {n: num("m_" + n) for n in OFFS}
    d = {n: num("d_" + n) for n in OFFS}
    yield "default", {}, {n: (C(v), ZERO) for n, v in DEFAULT.items()}
    yield "multiples", dict(m), {n: (m[n], ZERO) for n in OFFS}
    yield "pairs", {n: mk("tup", m[n], d[n]) for n in OFFS}, {n: (m[n], d[n]) for n in OFFS}
    yield "zeros", {n: ZERO for n in OFFS[:4]}, {**{n: (ZERO, ZERO) for n in OFFS[:4]}, "stepover": (C(0.5), ZERO)}


def same_distance(d, e):
    """True / False / None"""
    if d is None:
        return None
    x = sub(d, e)
    v = cval(x)
    if x is ZERO or (isinstance(v, (int, float)) or hasattr(v, "numerator")) and abs(v) <= 1e-5:
        return True
    return None if undef(d) or any(y.op in ("in", "In") and y.args[0].startswith("$") for y in subterms(d)) else False


ROUND = {"arc", "pc.JT_ROUND"}


def offset_parts(v):
    """offset operation -> [(path, distance, ok)]: ok tells whether corners are rounded on a closed path"""
    if v.args[0] == "offset2D":
        return [(v.args[1], v.args[2], None if undef(v.args[3]) else cval(v.args[3]) == "arc")]
    out = []
    paths, d = v.args[1], unscaled(v.args[2])
    ps = paths.args if paths.op == "tup" else ()
    if ps and isinstance(ps[0], tuple):
        ps = ps[0]
    for p in ps:
        t = p.args[0] if p.op == "tup" and isinstance(p.args[0], tuple) else p.args
        if p.op != "tup" or len(t) != 3:
            out.append((p, d, None))
            continue
        j, e = t[1], t[2]
        ok = None
        if j.op == "ext" and e.op == "ext":
            ok = j.args[0].endswith("JT_ROUND") and e.args[0].endswith("ET_CLOSEDPOLYGON")
        out.append((t[0], d, ok))
    return out or [(paths, d, None)]


def counts(t, geo, weight, memo):
    """how many operations lie between a value and the geometry it comes from: a set of counts, None for unknown"""
    r = memo.get(t)
    if r is not None:
        return r
    w = weight(t)
    if t.op == "app" and t.args[0] in (".BoundingBox", ".Length", ".Area"):
        r = frozenset()                                 # measured, not cut
    elif w is not None:
        r = frozenset(None if x is None else x + w[0] for x in counts(w[1], geo, weight, memo))
    elif t.op == "idx":
        r = counts(t.args[0], geo, weight, memo)        # which element it is does not matter
    elif t.op in ("in", "In"):
        r = frozenset([0]) if t.args[0] in geo else (frozenset([None]) if t.args[0].startswith("$") else frozenset())
    elif t.op in ("phi", "unk", "top"):
        r = frozenset([None])
    elif t.op in ("lst", "many", "alt"):                # what it contains, not how often or when
        r = frozenset()
        for segs in (t.args[:1] if t.op == "lst" else [sg for al in (t.args[2:4] if t.op == "many" else t.args) for sg, _ in al]):
            for e in segs:
                r |= counts(e, geo, weight, memo)
    else:
        r = frozenset()
        for a in t.args:
            for x in flat_terms(a):
                r |= counts(x, geo, weight, memo)
    memo[t] = r
    return r


def offset_weight(t):
    if t.op == "app" and t.args[0] in (".offset2D", "offset2D", "pc.Offset", "pc.Offset2"):
        return 1, t.args[1]
    return None


@prop("C19")
def offsets(R):
    R.rule("used", "the boundaries that are cut or filled are the offset ones, offset once", 4)
    R.rule("all", "no kind of boundary is left without its offset", 6)
    R.rule("distance", "every boundary is offset by the requested distance (by default the tool radius, on the side away from the material that stays)", 12)
    R.rule("round", "offset paths are closed and rounded at corners, so that they keep their distance from the boundary", 4)

    R.rule("holes", "none of the holes of an area is lost", 12)

    def check(R, job):
        kind, arg = job[0], job[1:]
        t = Tally(R)
        r = mul(num("tool_diameter"), C(0.5))
        if kind == "holes":
            judge_holes(t, *arg)
        elif kind == "pocket":
            engine, avoid, case, fill = arg
            _, kw, want = next(x for x in off_cases() if x[0] == case)
            kw = {k: v for k, v in kw.items() if avoid or not k.startswith("avoid")}
            g = region(R, engine, avoid, kw=kw, cut=("routers", "path", "ops") + (() if fill else ("fill",)))
            if case == "default" and avoid:
                want = dict(want, outer_offset=(ZERO, ZERO))
            want = {k: add(mul(r, a), b) for k, (a, b) in want.items()}
            exp = {("areas", "outer"): want["outer_offset"], ("areas", "inner"): want["inner_offset"],
                   ("avoid", "outer"): want["avoid_outer_offset"], ("avoid", "inner"): want["avoid_inner_offset"],
                   ("pocket_ops", "outer"): neg(want["stepover"])}
            geo = {"areas", "avoid", "pocket_ops"}
            name = f"{engine} pocket, {case}" + (", avoid" if avoid else "") + (", fill" if fill else "")
            judge(t, g, exp, geo, name, fill)
        else:
            which, case = arg
            g, exp, geo = profile_scene(R, which, case, r)
            judge(t, g, exp, geo, f"{which}, {case}", True)
        t.flush()

    def judge_holes(t, engine, n):
        kw = next(x for x in off_cases() if x[0] == "multiples")[1]
        g = region(R, engine, True, kw=kw, cut=("routers", "path", "ops", "fill"), holes=n)
        want = [f"{a} hole {k}" for a in ("areas", "avoid") for k in range(n)]
        name = f"{engine} pocket, {n} holes"
        got, where, known = set(), "", True
        at = [(v, where) for v, fn, where in g.ops.bools] if engine == "clipper" else [
            (v, f"{F.module.rel}:{getattr(node, 'lineno', 0)}") for m, args, F, node in g.logged("pocket_ops") for v in args.values()]
        for v, where in at:
            for x in subterms(v):
                if x.op in ("phi", "unk", "top") or x.op in ("in", "In") and x.args[0].startswith("$"):
                    known = False
                if x.op in ("in", "In") and x.args[0] in want:
                    got.add(x.args[0])
        for w in want:
            t.add("holes", f"{name}: {w}", True if w in got else (False if where and known else None), f"{w} of {n} in an area is lost on the way to the pocket", where)

    def judge(t, g, exp, geo, name, strict):
        srcs = set()
        for v, fn, where in g.ops.offsets:
            for path, d, rnd in offset_parts(v):
                srcs |= base_of(path, geo)
        for k, e in exp.items():
            if e is not ZERO and (k[0] != "avoid" or "avoid," in name + ",") and (k[0] != "pocket_ops" or strict):
                t.add("all", f"{name}: {k[1]} of {k[0]}", True if k in srcs else (None if None in srcs or not srcs or any(
                    x and x[0] == k[0] and x[1] == "wire" for x in srcs) else False), "is never offset")
        memo = {}
        for v, fn, where in g.ops.bools if not strict else ():
            r = counts(v.args[1], geo, offset_weight, memo)
            known = r - {None}
            if r and not (0 in known and any(e is ZERO for e in exp.values())):
                t.add("used", f"{name}: paths combined in {fn}", False if known - {1} else (None if not known else True),
                      f"boundaries offset {' or '.join(map(str, sorted(known)))} times", where)
        for n, args, F, node in g.logged("pocket_ops", "route_wires") if not strict or "pocket" not in name else ():
            for k, v in sorted(args.items()):
                r = counts(v, geo, offset_weight, memo)
                if not r or (r & {0} and any(e is ZERO for e in exp.values())):
                    continue
                known = r - {None}
                t.add("used", f"{name}: {k} of {n}", False if known - {1} else (None if not known else True),
                      f"contains boundaries offset {' or '.join(map(str, sorted(known)))} times", f"{F.module.rel}:{getattr(node, 'lineno', 0)}")
        for v, fn, where in g.ops.offsets:
            for path, d, rnd in offset_parts(v):
                src = base_of(path, geo)
                key = f"{name}: {' '.join(sorted(' of '.join(s[::-1]) for s in src if s)) or 'fill'} in {fn}"
                t.add("round", key, rnd, f"offset of {short(path)} is not rounded at corners or not closed", where)
                ds = [exp.get(s) for s in src if s]
                if None in src or not src or None in ds:
                    if len(src - {None}):
                        t.add("distance", key, None, f"offset of {short(path)} by {show(d)}", where)
                        continue
                    ok = [same_distance(d, e) for e in exp.values()]
                    v2 = True if True in ok else (False if set(ok) == {False} else None)
                    t.add("distance", key, v2, f"offset by {show(d)}, which none of the requested offsets asks for", where)
                else:
                    ok = [same_distance(d, e) for e in ds]
                    v2 = False if False in ok else (None if None in ok else True)
                    t.add("distance", key, v2, f"offset by {show(d)}, expected {' or '.join(show(e) for e in ds)}", where)

    jobs = [("holes", e, n) for e in ("clipper", "cq") for n in (1, 2, 3)]
    jobs += [("pocket", "clipper", a, c, False) for a in (False, True) for c in ("default", "multiples", "pairs", "zeros")]
    jobs += [("pocket", "cq", a, c, False) for a, c in ((False, "default"), (True, "multiples"), (True, "pairs"), (True, "default"))]
    jobs += [("pocket", "clipper", False, c, True) for c in ("default", "pairs")]
    jobs += [("pocket", "cq", False, "multiples", True)]
    jobs += [("profile", w, c) for w in ("profile", "wire_profile") for c in ("default", "given", "zero", "tool")]
    parallel(R, jobs, check)


def profile_scene(R, which, case, r):
    c = new(R)
    c.I.summaries_on = False
    c.I.motion_codes, c.I.cut_log = {}, []
    ops = Ops()
    c.I.hooks.append(ops)
    s, j = one_job(c, R)
    c.I.cuts[("cq_cam.routers", "route_wires")] = opaque("route_wires", "list[?]")
    kw = {}
    o, i = C(1), C(-1)
    if case == "given":
        o, i = num("m_outer"), num("m_inner")
    elif case == "zero":
        o = i = ZERO
    if case in ("given", "zero"):
        kw = dict(outer_offset=o, inner_offset=i) if which == "profile" else dict(offset=o)
    if case == "tool":
        q, e = c.call(s, c.cls("Tool"), tool_diameter=num("new_diameter"))
        s, kw["tool"] = q[0]
        r = mul(num("new_diameter"), C(0.5))
    if which == "profile":
        q, e = c.method(s, j, "profile", In("shape", "Face"), **kw)
        exp = {("shape", "outer"): mul(r, o), ("shape", "inner"): mul(r, i)}
    else:
        q, e = c.method(s, j, "wire_profile", In("wire", "Wire"), **kw)
        exp = {("wire", "wire"): mul(r, o)}
    return Region(c, ops, q, e, ("shape", "wire")), exp, {"shape", "wire"}
