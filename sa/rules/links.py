"""The straight feed link between two passes of a pocket is never longer than the stepover."""
import itertools
import math
import random
from fractions import Fraction

from . import prop
from .common import *  # noqa
from .common import cval, fn_where, new, num, one_job, parallel, undef, where_obj, attrs
from ..terms import C, NONE, T, In, app, as_poly, mk, show, subst, subterms
from ..engine import E
from ..walk import is_motion, norm
from .path import G, Tally, code_of, short, vec3
from .reject import lst
from .steps import P, Q, Unknown, pocket_scene

RT = "cq_cam.routers"


# ---------------------------------------------------------------- numbers
class Value:
    """what a term is when the symbols have these values; None: not known"""

    def __init__(self, env):
        self.env, self.memo = env, {}

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = v = self.get(t)
        return v

    def get(self, t):
        if t in self.env:
            return self.env[t]
        if t.op == "c":
            v = cval(t)
            return float(v) if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) else None
        if t.op == "app":
            xs = [self(x) if isinstance(x, T) else None for x in t.args[1:]]
            if None in xs:
                return None
            n = t.args[0]
            try:
                if n in ("max", "min", "abs"):
                    return {"max": max, "min": min, "abs": abs}[n](*xs)
                if n in ("math.sqrt", "np.sqrt", "sqrt"):
                    return math.sqrt(xs[0])
                if n in ("math.hypot", "np.hypot"):
                    return math.hypot(*xs)
                if n in ("/", "div"):
                    return xs[0] / xs[1]
                if n in ("**", "pow"):
                    return xs[0] ** xs[1]
                if n in ("float", "num"):
                    return xs[0]
            except (ArithmeticError, ValueError, TypeError):
                pass
            return None
        p = as_poly(t)
        if p is None or set(p) == {((t, 1),)}:
            return None
        tot = 0.0
        for m, k in p.items():
            v = float(k)
            for a, e in m:
                x = self(a)
                if x is None:
                    return None
                try:
                    v *= x ** (float(e) if not isinstance(e, int) else e)
                except (ArithmeticError, ValueError):
                    return None
            tot += v
        return tot

    def fact(self, p):
        """is this proposition true? None: not known"""
        if p.op in ("and", "or"):
            xs = [self.fact(x) for x in (p.args[0] if isinstance(p.args[0], (tuple, list)) else p.args)]
            if p.op == "and":
                return False if False in xs else None if None in xs else True
            return True if True in xs else None if None in xs else False
        if p.op == "not":
            v = self.fact(p.args[0])
            return None if v is None else not v
        if p.op in ("pos", "zero", "eq"):
            d = self(p.args[0])
            if p.op == "eq":
                b = self(p.args[1])
                d = None if d is None or b is None else d - b
            if d is None:
                return None
            if abs(d) < 1e-12:
                d = 0
            return d > 0 if p.op == "pos" else d == 0
        return None


def flatten(segs, value, limit=400):
    """the lists of motions that are possible with these values (unknown facts are kept open) -> [(motions, open)]"""
    outs = [([], False)]
    for s in segs:
        if s.op == "e":
            outs = [(l + [s.args[0]], o) for l, o in outs]
        elif s.op == "alt":
            more = []
            for sg, g in s.args[0]:
                vs = [holds(value, p, b) for p, b in g]
                if False in vs:
                    continue
                for l2, o2 in flatten(sg, value, limit):
                    more += [(l + l2, o or o2 or None in vs) for l, o in outs]
            outs = more
        else:
            raise Unknown("part of the path is not resolved")
        if len(outs) > limit:
            raise Unknown("too many ways through the path")
    return outs


def holds(value, p, b):
    v = value.fact(p)
    return None if v is None else v == b


def on(a, b, p, eps=1e-6):
    """is p on the segment from a to b?"""
    dx, dy = b[0] - a[0], b[1] - a[1]
    l2 = dx * dx + dy * dy
    t = max(0.0, min(1.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2)) if l2 else 0.0
    return math.hypot(a[0] + t * dx - p[0], a[1] + t * dy - p[1]) < eps


def link_scene(R, sizes, stepover):
    """paths of symbolic points at one depth -> (context, results, points)"""
    c = new(R)
    c.I.summaries_on = False
    c.I.motion_codes, c.I.cut_log = {}, []
    s, j = one_job(c, R)
    faces, paths = [], []
    for k, n in enumerate(sizes):
        ps = [mk("tup", num(f"x{k}{i}"), num(f"y{k}{i}")) for i in range(n - 1)]
        ps.append(ps[0])
        l = c.I.new_list(s, [E(p) for p in ps], c.F, c.node)
        c.keep(s, f"l{k}", l)
        i = c.I.new_list(s, [], c.F, c.node)
        q, e = c.call(s, c.cls("PathFace"), l, i, num("z"))
        s, f = q[0]
        c.keep(s, f"f{k}", f)
        faces.append(f)
        paths.append(ps)
    kw = {} if stepover is None else {"stepover": stepover}
    r, x = c.call(s, c.fn(RT, "route_polyface_outers"), j, lst(c, s, *faces), **kw)
    return c, r, paths


JOB = {"op_safe_height": 1.0, "rapid_height": 10.0, "tool_diameter": 3.0, "feed": 300.0, "plunge_feed": 100.0}


def placements(sizes, n, seed):
    """closed paths of random points, each next to the one before: near, at, and beyond the stepover"""
    rnd = random.Random(seed)
    for i in range(n):
        step = rnd.choice((0.1, 0.3, 0.5, 0.9, 1.0, 1.5, 3.0, 12.0))
        env, x, y = {}, 0.0, 0.0
        env.update(JOB, stepover=step, z=-1.0)
        for k, m in enumerate(sizes):
            gap = step * rnd.choice((0.3, 0.8, 0.95, 1.1, 1.5, 3.0))
            size = rnd.choice((0.3, 1, 2, 6)) * max(step, .5)
            turn = rnd.random() * 2 * math.pi
            ox, oy = x + gap * math.cos(turn), y + gap * math.sin(turn)
            ps = [(ox, oy)]
            for q in range(1, m - 1):
                w = turn + (rnd.random() - .5) * math.pi
                r = size * (.2 + rnd.random())
                ps.append((ox + r * math.cos(w), oy + r * math.sin(w)))
            if rnd.random() < .4:           # a point further along is next to the path before, or the middle of a segment is
                rnd.shuffle(ps)
            elif rnd.random() < .5:
                mx, my = (ps[0][0] + ps[1][0]) / 2 - ox, (ps[0][1] + ps[1][1]) / 2 - oy
                ps = [(px - mx, py - my) for px, py in ps]
            for q, (px, py) in enumerate(ps):
                env[f"x{k}{q}"], env[f"y{k}{q}"] = px, py
            x, y = rnd.choice(ps)
        yield env


def judge_links(c, r, paths, limit, sizes, tier):
    """every feed motion that is not along a path is at most `limit` long"""
    if not r:
        raise Unknown("there is no way to a path")
    linked, unk = 0, None
    syms = None
    for env in placements(sizes, 300 if tier == "quick" else 3000, 7):
        value = Value({num(k): v for k, v in env.items()})
        far = limit(env)
        rings = [[(env[f"x{k}{i}"], env[f"y{k}{i}"]) for i in range(n - 1)] for k, n in enumerate(sizes)]
        edges = [(k, a, b) for k, ps in enumerate(rings) for a, b in zip(ps, ps[1:] + ps[:1])]
        for st, v in r:
            fz = c.I.freeze(st, v)
            if fz.op != "lst":
                raise Unknown("the path is not a known list")
            for ms, opened in flatten(fz.args[0], value):
                pos = None
                for o in ms:
                    if not is_motion(o):
                        raise Unknown("a command that is not a motion")
                    end, code = vec3(attrs(o).get("end")), code_of(c, o)
                    if end is None or code is None:
                        raise Unknown("a motion is not resolved")
                    if end[0] is NONE:
                        continue
                    to = (value(end[0]), value(end[1]))
                    if None in to:
                        raise Unknown(f"a target is not resolved: {short(end[0])}")
                    if code == "G1" and pos is not None:
                        d = math.dist(pos, to)
                        if d > 1e-9 and not any(on(a, b, pos) and on(a, b, to) for k, a, b in edges):
                            linked += 1
                            if not opened and not any(on(a, b, to, 1e-5) for k, a, b in edges):
                                at = ", ".join(f"{q:.3g}" for q in pos + to)
                                return False, f"a link goes to a point which is not on a path (from and to: {at})", where_obj(o)
                            if d > far * (1 + 1e-9) + 1e-9:
                                if opened:
                                    unk = "a condition for a link is not resolved"
                                    continue
                                at = ", ".join(f"{q:.3g}" for q in pos + to)
                                return False, f"a link of {d:.3g} is cut with a stepover of {env['stepover']:.3g} (from and to: {at})", where_obj(o)
                    pos = to
    if unk:
        return None, unk, None
    return True, f"{linked} links in the placements tried, none longer than the stepover", None


def wire_scene(R, stepover, sizes):
    """wires; the distance between them is what OCC says it is"""
    c = new(R)
    c.I.summaries_on = False
    c.I.ext_ok = True
    c.I.motion_codes, c.I.cut_log = {}, []
    s, j = one_job(c, R)
    wires = [In(f"wire{k}", "Wire") for k in range(len(sizes))]
    edges = [[In(f"edge{k}{chr(97 + i)}", "Edge") for i in range(n)] for k, n in enumerate(sizes)]
    for e in sum(edges, []):
        s.facts[mk("eq", *sorted((app(".geomType", e), C("LINE")), key=lambda t: t.n))] = True
    by = dict(zip(wires, edges))

    def ordered(I, st, b, F, node):
        w = I.freeze(st, next(x for x in b.values() if isinstance(x, T)))
        es = by.get(w)
        if es is None:
            return [(st, app("OrderedEdges", w))]
        return [(st, I.new_list(st, [E(e) for e in es], F, node))]
    c.I.cuts[("cq_cam.utils.utils", "wire_to_ordered_edges")] = ordered
    kw = {} if stepover is None else {"stepover": stepover}
    r, x = c.call(s, c.fn(RT, "route_wires"), j, lst(c, s, *wires), **kw)
    return c, r, wires, edges


def prefixes(segs, guards=()):
    """[(motions up to the first loop, guards)]"""
    outs = [([], tuple(guards), False)]
    for s in segs:
        more = []
        for l, g, done in outs:
            if done:
                more.append((l, g, done))
            elif s.op == "e":
                more.append((l + [s.args[0]], g, False))
            elif s.op == "alt":
                for sg, g2 in s.args[0]:
                    for l3, g3, d3 in prefixes(sg, g2):
                        more.append((l + l3, g + g3, d3))
            else:
                more.append((l, g, True))
        outs = more
        if len(outs) > 4000:
            raise Unknown("too many ways through the path")
    return outs


def measured(x, prev, wire, wires, wire_of):
    """is this the distance from the end of the previous wire to this one?"""
    ts = [t for t in subterms(x) if t.op == "app" and "DistShapeShape" in str(t.args[0])]
    if not ts:
        return False
    args = [a for a in ts[0].args[1:] if isinstance(a, T)]
    return any(a is wire for a in args) and any(a.op == "app" and "makeVertex" in str(a.args[0]) and all(norm(p) in map(norm, a.args[1:3]) for p in prev[:2])
                                               for a in args)


def judge_wire_links(c, r, wires, edges, given):
    if not r:
        raise Unknown("there is no way to a path")
    n, unk = 0, None
    wire_of = {e: k for k, es in enumerate(edges) for e in es}
    wire_of.update({w: k for k, w in enumerate(wires)})
    for st, v in r:
        fz = c.I.freeze(st, v)
        if fz.op != "lst":
            raise Unknown("the path is not a known list")
        for ms, guards, cut in prefixes(fz.args[0]):
            prev, last = None, None
            for o in ms:
                if not is_motion(o):
                    raise Unknown("a command that is not a motion")
                end, code = vec3(attrs(o).get("end")), code_of(c, o)
                if end is None or code is None:
                    raise Unknown("a motion is not resolved")
                if end[0] is NONE:
                    prev = last = None
                    continue
                here = {wire_of[t] for x in end[:2] for t in subterms(x) if t in wire_of}
                old, was = prev, last
                # a point that is found on a wire is on the wire after the last one
                prev, last = end, max(here) if here else None
                if code != "G1" or was is None or last is None or was == last or o.args[0].name.startswith("Plunge"):
                    continue
                n += 1
                if not given:
                    return False, "a feed motion goes from one wire to the next although there is no stepover", where_obj(o)
                vals = {t for p, b in guards for t in subterms(p) if t.op == "app" and t.args[0] == ".Value" or
                        t.op == "app" and "distance" in str(t.args[0]).lower()}
                for d, s in ((3.0, 2.0), (0.5, 0.3), (0.11, 0.1), (100.0, 1.0), (5.0, 4.9)):
                    env = {num(k): x for k, x in JOB.items()}
                    env[num("stepover")] = s
                    for t in vals:
                        env[t] = d if measured(t, old, wires[last], wires, wire_of) else 0.01
                    value = Value(env)
                    fs = [(p, holds(value, p, b)) for p, b in guards]
                    if any(h is False for p, h in fs):
                        continue
                    if any(h is None and set(subterms(p)) & (vals | {num("stepover")}) for p, h in fs):
                        unk = "a condition for a link is not resolved"
                        continue
                    return False, f"wires {d} apart are linked with a stepover of {s}", where_obj(o)
    if unk:
        return None, unk, None
    return True, f"{n} links, all at most the stepover" if n else "no links", None


@prop("C21")
def links(R):
    R.rule("paths", "between the paths of a pocket only a link of at most the stepover is cut, everything else is a rapid above", 4)
    R.rule("wires", "between the wires of a pocket a link is cut only when they are at most the stepover apart", 2)
    R.rule("stepover", "links are limited by the stepover that the pocket is filled with", 2)

    def check(R, job):
        t = Tally(R)
        kind, arg = job
        where = ""
        if kind == "paths":
            sizes, so = arg
            key = f"paths of {', '.join(str(n - 1) for n in sizes)} points, " + {"given": "a stepover", "none": "no stepover", "zero": "a stepover of 0"}[so]
            try:
                c, r, paths = link_scene(R, sizes, {"given": num("stepover"), "none": None, "zero": C(0)}[so])
                where = fn_where(c, RT, "route_polyface_outers")
                v, m, w = judge_links(c, r, paths, (lambda env: env["stepover"]) if so == "given" else (lambda env: 0.0), sizes, R.tier)
            except Unknown as u:
                v, m, w = None, str(u), None
            t.add("paths", key, v, m, w or where)
        elif kind == "wires":
            try:
                so, sizes = arg
                c, r, wires, edges = wire_scene(R, {"given": num("stepover"), "none": None, "zero": C(0)}[so], sizes)
                where = fn_where(c, RT, "route_wires")
                v, m, w = judge_wire_links(c, r, wires, edges, so == "given")
            except Unknown as u:
                v, m, w = None, str(u), None
            t.add("wires", f"wires of {', '.join(map(str, arg[1]))} edges, " + {"given": "a stepover", "none": "no stepover", "zero": "a stepover of 0"}[arg[0]], v, m, w or where)
        else:
            try:
                c, r, W, passes = pocket_scene(R, (-3,), set(), arg[1], arg[0])
                where = fn_where(c, P if arg[0] == "clipper" else Q, "pocket_" + arg[0])
                length = lambda x: x is not NONE and (cval(x) is not None or num("tool_diameter") in set(subterms(x)))
                fills = {x for b in c.fills for x in list(b.values())[1:] if x.op != "obj" and length(x)}
                routes = [b["stepover"] if "stepover" in b else next((x for x in list(b.values())[2:] if x.op not in ("obj", "lst")), None)
                          for b in c.routes]
                if len(fills) != 1 or not routes or any(undef(x) for x in fills):
                    v, m = None, "the stepover of the passes is not known"
                else:
                    f = next(iter(fills))
                    value = Value({num(k): x for k, x in JOB.items()})
                    odd = [x for x in routes if x is not None and x is not NONE and norm(x) is not norm(f)]
                    longer = [None if value(x) is None or value(f) is None else value(x) > value(f) + 1e-9 for x in odd]
                    if True in longer:
                        v, m = False, f"links may be as long as {short(odd[longer.index(True)])}, the passes are {short(f)} apart"
                    else:
                        v, m = None if None in longer else True, "the same stepover"
            except Unknown as u:
                v, m = None, str(u)
            t.add("stepover", f"{arg[0]}, stepdown {arg[1]}", v, m, where)
        t.flush()
    parallel(R, [("paths", (s, k)) for s, k in (((3, 4), "given"), ((4, 3), "given"), ((3, 3, 3), "given"), ((3, 3), "none"), ((3, 3), "zero"))]
             + [("wires", (k, n)) for k, n in (("given", (2, 2)), ("given", (1, 1)), ("given", (1, 1, 1)), ("none", (2, 2)), ("zero", (2, 2)))] + [("pass", (e, k)) for e in ("clipper", "cq") for k in (None, 1)], check)
