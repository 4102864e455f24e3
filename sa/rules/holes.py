"""Drilling: every hole that was asked for is drilled once, at its centre, to the full depth, in an order of nearest holes."""
import math
import random

from . import prop
from .common import *  # noqa
from .common import attrs, fn_where, new, num, one_job, parallel, where_obj
from ..terms import C, NONE, T, In, app, mk, subterms
from ..engine import E
from ..walk import is_motion
from .path import Tally, code_of, short, vec3
from .links import JOB, Value, flatten, holds
from .reject import lst
from .steps import Unknown

DR = "cq_cam.operations.drill"

SHAPES = {      # what is drilled -> the symbols of its holes
    "a vector": ["v"], "vectors": ["v", "v"], "3 vectors": ["v", "v", "v"],
    "a wire": ["w"], "wires": ["w", "w"], "3 wires": ["w", "w", "w"],
    "a face": ["f0"], "faces": ["f0", "f0"], "a face with a hole": ["f1"], "a face with 2 holes": ["f2"], "a face with 3 holes": ["f3"],
    "a vector, a wire and a face": ["v", "w", "f0"], "a face with 2 holes and a vector": ["f2", "v"], "a wire and a face with 2 holes": ["w", "f2"],
    "faces with and without a hole": ["f0", "f1", "f1"],
}
HOW = ("list", "alone", "Workplane")


ELSEWHERE = (-7.0, 77.0)


def hole_at(p, holes):
    """the hole whose centre this is; -1: certainly of none of them; None: not known"""
    for k, (h, kind, o) in enumerate(holes):
        if p is h and kind == "point":
            return k
    if p.op == "attr" and p.args[1] == "center" and p.args[0].op == "app" and p.args[0].args[0] == ".BoundingBox":
        return -1               # nor is that of a box around it
    if p.op != "app" or p.args[0] != ".Center" or len(p.args) != 2:
        return None
    face = p.args[1]
    if face.op == "app" and face.args[0] == "cq.Face.makeFromWires" and face.args[1].op == "in" and face.args[1].args[0].startswith("outer") \
            and not any(h is face.args[1] for h, kind, o in holes):
        return -1               # the outline of a face with holes in it
    for k, (h, kind, o) in enumerate(holes):
        if kind == "wire" and face.op == "app" and face.args[0] == "cq.Face.makeFromWires" and face.args[1] is h \
                and all(x.op in ("lst", "tup") and not x.args[0:1][0] for x in face.args[2:]):
            return k
        if face is o and o.args[1] == "Face":
            # its centre is that of the hole only if it has none in it
            return k if h.args[0].startswith("outer") else -1
        if face.op == "app" and face.args[0] == "cq.Face.makeFromWires" and face.args[1].op == "in" and face.args[1].args[0] == f"outer{o.args[0][4:]}" \
                and not h.args[0].startswith("outer"):
            # the face without its holes: its centre is not that of a hole
            return -1
        if face is h and kind == "wire":
            return -1           # the centre of a curve is not that of what it encloses
    return None


def scene(R, kinds, how, depth, at=None):
    c = new(R)
    c.I.summaries_on, c.I.unroll, c.I.motion_codes = False, 60, {}
    objs, holes, inner, outer = [], [], {}, {}
    for k, kind in enumerate(kinds):
        if kind == "v":
            o = In(f"point{k}", "Vector")
            holes.append((o, "point", o))
        elif kind == "w":
            o = In(f"wire{k}", "Wire")
            holes.append((o, "wire", o))
        else:
            o = In(f"face{k}", "Face")
            inner[o] = [In(f"inner{k}{chr(97 + i)}", "Wire") for i in range(int(kind[1]))]
            outer[o] = In(f"outer{k}", "Wire")
            holes += [(w, "wire", o) for w in inner[o]] or [(outer[o], "wire", o)]
        objs.append(o)
    wp = In("workplane", "Workplane")

    def given(I, st, name, recv, args, kw, F, node):
        w = I.freeze(st, recv)
        if w in inner and name == "Wires":
            return [(st, I.new_list(st, [E(x) for x in [outer[w]] + inner[w]], F, node))]
        if w in inner and name in ("innerWires", "outerWire"):
            if name == "outerWire":
                return [(st, outer[w])]
            return [(st, I.new_list(st, [E(x) for x in inner[w]], F, node))]
        if at is not None and name == "toLocalCoords" and len(args) == 1:
            k = hole_at(I.freeze(st, args[0]), holes)
            if k is not None:
                x, y = at[k] if k >= 0 else ELSEWHERE
                return [(st, app("Vec", C(x), C(y), C(0)))]
        if w is wp and name == "vals":
            return [(st, I.new_list(st, [E(x) for x in objs], F, node))]
        return None
    c.I.given = given
    s, j = one_job(c, R)
    if how == "Workplane":
        v = wp
        c.I.known = lambda o, n: mk("lst", tuple(E(x) for x in objs)) if o is wp and n == "objects" else None
    elif how == "alone":
        v = objs[0]
    else:
        v = lst(c, s, *objs)
    r, e = c.method(s, j, "drill", v, depth=depth)
    return c, r, e, holes


def judge(c, r, holes, placements):
    """placements: their number, or the coordinates the holes have been given"""
    if not r:
        raise Unknown("there is no way to a program")
    ways = []
    for st, jv in r:
        ops = attrs(c.I.freeze(st, jv)).get("operations")
        if ops is None or ops.op != "lst":
            raise Unknown("the operation is not known")
        ways.append((st, ops.args[0]))
    rnd = random.Random(5)
    frame = set()
    for n in range(placements if isinstance(placements, int) else 1):
        at = placements if not isinstance(placements, int) else [(rnd.uniform(-50, 50), rnd.uniform(-50, 50)) for h in holes]
        if isinstance(placements, int) and rnd.random() < .3:
            at = [(rnd.choice((0, 10, 20)) + .01 * rnd.random(), y * .1) for x, y in at]
        depth = rnd.choice((3.0, -3.0, 0.5))
        env = {num(k): v for k, v in JOB.items()}
        env[num("depth")] = depth
        value = Centres(env, holes, at)
        seen = False
        for st, segs in ways:
            if any(holds(value, p, b) is False for p, b in st.facts.items()):
                continue
            for ms, opened in programs(segs, value):
                if not opened and any(holds(value, p, b) is None and any(h[0] in set(subterms(p)) for h in holes)
                                      and p.op in ("pos", "zero") for p, b in st.facts.items()):
                    opened = True
                drilled, pos, z, where = [], None, None, None
                for o in ms:
                    if not is_motion(o):
                        raise Unknown("a command that is not a motion")
                    end, code = vec3(attrs(o).get("end")), code_of(c, o)
                    if end is None or code is None:
                        raise Unknown("a motion is not resolved")
                    if end[0] is not NONE:
                        pos = (value(end[0]), value(end[1]))
                        if None in pos:
                            raise Unknown(f"where a hole is drilled is not resolved: {short(end[0])}")
                    z = value(end[2]) if end[2] is not NONE else z
                    if code == "G1":
                        if z is None or pos is None:
                            raise Unknown("how deep a hole is drilled is not resolved")
                        k = min(range(len(at)), key=lambda i: (math.dist(at[i], pos) > 1e-6, i in drilled, math.dist(at[i], pos)))
                        if math.dist(at[k], pos) > 1e-6:
                            return False, f"a hole is drilled at {pos[0]:.3g}, {pos[1]:.3g}, where there is none (holes at {say(at)})", where_obj(o)
                        if abs(z + abs(depth)) > 1e-6:
                            return False, f"a hole is drilled to {z:g} with a depth of {depth:g}", where_obj(o)
                        drilled.append(k)
                        where = where_obj(o)
                # drilling a hole that was selected twice once is enough
                left = [i for i in range(len(at)) if i not in drilled and not any(at[i] == at[q] for q in drilled)]
                if opened:
                    if left or len(set(drilled)) < len(drilled):
                        raise Unknown("the holes that are drilled are not resolved")
                    continue
                seen = True
                if left or len(set(drilled)) < len(drilled):
                    return False, (f"{len(left)} of {len(at)} holes are not drilled" if left else "a hole is drilled more than once") + f" (holes at {say(at)})", where
                for i, k in enumerate(drilled[1:], 1):
                    near = min(math.dist(at[drilled[i - 1]], at[q]) for q in drilled[i:])
                    if math.dist(at[drilled[i - 1]], at[k]) > near + 1e-9:
                        return False, f"the hole that is drilled next is not the nearest (holes at {say([at[q] for q in drilled])})", where
        if not seen:
            raise Unknown("the order of holes is not resolved")
    return True, f"{len(holes)} holes, each once, in {len(ways)} orders", None


def programs(ops, value):
    """the motions of the last operation"""
    for os, o1 in flatten(ops, value):
        cmds = attrs(os[-1]).get("commands") if os else None
        if cmds is None or cmds.op != "lst":
            raise Unknown("the path is not a known list")
        for ms, o2 in flatten(cmds.args[0], value):
            yield ms, o1 or o2


def say(at):
    return "; ".join(f"{x:.3g}, {y:.3g}" for x, y in at)


class Centres(Value):
    """the centre of each hole is at these coordinates, seen from the job"""

    def __init__(self, env, holes, at):
        super().__init__(env)
        self.holes, self.at = holes, at

    def get(self, t):
        if t.op == "attr" and t.args[1] in ("x", "y") or t.op == "app" and t.args[0] in (".x", ".y", "x", "y"):
            inner, n = (t.args[0], t.args[1]) if t.op == "attr" else (t.args[1], t.args[0].lstrip("."))
            k = self.centre(inner)
            if k is not None:
                return (self.at[k] if k >= 0 else ELSEWHERE)[n == "y"]
            return None
        return super().get(t)

    def centre(self, t):
        """the hole whose centre, in job coordinates, this is"""
        return hole_at(t.args[1], self.holes) if t.op == "app" and t.args[0] == "xform" else None


@prop("C32")
def drilling(R):
    R.rule("holes", "each hole is drilled exactly once, at its centre and to the full depth, and the next one is always the nearest of those left", 12)
    R.rule("order", "the same, for up to six holes at known places, with several in a line, in a grid, at the same distance or at the same place", 10)

    def check(R, job):
        t = Tally(R)
        rule, name, how, kinds, at = job
        where = ""
        try:
            c, r, e, holes = scene(R, kinds, how, num("depth"), at)
            where = fn_where(c, DR, "Drill", "__post_init__")
            v, m, w = judge(c, r, holes, at or (200 if R.tier == "quick" else 2000))
        except Unknown as u:
            v, m, w = None, str(u), None
        t.add(rule, f"{name}, {how}", v, m, w or where)
        t.flush()
    jobs = [("holes", n, h, SHAPES[n], None) for n in SHAPES for h in HOW if h != "alone" or len(SHAPES[n]) == 1]
    for at in ORDER + random_places(0 if R.tier == "quick" else 40):
        kinds = ["v", "w", "v", "w", "f0", "v"][:len(at)]
        jobs.append(("order", "holes at " + say(at), "list", kinds, at))
    parallel(R, jobs, check, 60)


ORDER = [
    [(0, 0), (20, 0), (3, 0), (8, 0)], [(0, 0), (5, 1), (5, 4), (9, 4)], [(0, 0), (0, 10), (10, 0), (10, 10)],
    [(5, 5), (-5, 5), (5, -5), (-5, -5), (0, 0)], [(1, 2), (9, 2), (4, 2), (6, 2), (2, 2)], [(0, 0), (7, 7), (7, 7), (3, 3)],
    [(0, 0), (0, 0)], [(2, 1), (2, 9), (2, 4), (2, 5), (2, 2)], [(0, 0), (10, 0), (20, 0), (0, 9), (10, 9), (20, 9)],
    [(30, -4), (-8, 12), (0, 0), (17, 3), (16.5, 3), (-8, 12.5)], [(1, 1), (-1, -1), (2, -2), (-2.5, 2.5)], [(0, 0), (100, 0), (1, 60), (50, 0.5)],
]


def random_places(n):
    rnd = random.Random(11)
    return [[(round(rnd.uniform(-30, 30), 1), round(rnd.uniform(-30, 30), 1)) for i in range(rnd.randint(3, 6))] for k in range(n)]
