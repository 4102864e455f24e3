"""Rules about tool paths: the motions that operations generate."""
import time

from . import prop
from .common import *  # noqa
from .common import Ctx, AnalysisBroken, attrs, cval, fn_where, new, num, one_job, ops_of, parallel, reliable, undef, where_obj
from ..terms import C, NONE, T, TRUE, ZERO, In, add, app, as_poly, attr, mk, mul, neg, show, sub, subterms
from ..engine import kind_fact, kinds_of
from ..walk import Flow, Walk, is_motion, site, vec, same, eqfacts, norm, subst

P = "cq_cam.operations.pocket"
Q = "cq_cam.operations.pocket_cq"
G = "cq_cam.utils.geometry_op"


def opaque(name, typ):
    def h(I, st, b, F, node):
        I.cut_log.append((name, {k: I.freeze(st, v) for k, v in b.items() if isinstance(v, T)}, F, node))
        return [(st, In(name, typ))]
    return h


def clipper(c):
    """clipper's results stay unopened: a list of faces of an operation's tree; all paths turn the same way"""
    def tree(I, st, b, F, node):
        a = [I.freeze(st, x) for x in b.values() if isinstance(x, T)]
        return [(st, app("faces", *a))]
    c.I.cuts[(G, "poly_tree_to_poly_faces")] = tree
    c.I.orient = lambda p: TRUE


def vec3(t):
    """components of a position, known or not"""
    v = vec(t)
    if v is None and isinstance(t, T) and t is not NONE:
        v = tuple(attr(t, x) for x in "xyz")
    return v


class Motion:
    """one motion of a tool path with the conditions under which it is made"""
    __slots__ = ("obj", "cls", "code", "start", "end", "feed", "center", "mid", "facts", "where", "name")

    def known(self, *ts):
        return not any(undef(t) for t in ts)


def code_of(c, obj):
    """motion code of a command class, from its modal attribute"""
    k = c.I.motion_codes
    cls = obj.args[0]
    if cls not in k:
        v = None
        try:
            r, e = [], []
            for s, m in c.I.getattr(mk("cls", cls), "modal", c.state(), c.F, c.node):
                r2, _ = c.call(s, mk("ext", "builtins.str"), m)
                r += [t for _, t in r2]
            if len(set(r)) == 1 and isinstance(cval(r[0]), str):
                v = cval(r[0])
        except Exception:
            v = None
        k[cls] = v
    return k[cls]


def elements(segs, g=()):
    """every command of a path grammar with the conditions around it"""
    for s in segs:
        if s.op == "e":
            yield s.args[0], g
        elif s.op == "alt":
            for sg, gg in s.args[0]:
                yield from elements(sg, g + tuple(gg))
        elif s.op == "many":
            for al in s.args[2:4]:
                for sg, gg in al:
                    yield from elements(sg, g + tuple(gg))
        else:
            yield None, g


def motions(c, segs):
    out, opaque_segs = [], 0
    seen = set()
    for o, g in elements(segs):
        if o is None or not is_motion(o):
            opaque_segs += o is None
            continue
        f = frozenset(g)
        if (o, f) in seen:
            continue
        seen.add((o, f))
        a = attrs(o)
        m = Motion()
        m.obj, m.cls, m.code = o, o.args[0].name, code_of(c, o)
        m.start, m.end = vec3(a.get("start")), vec3(a.get("end"))
        m.center, m.mid = vec3(a.get("center")), vec3(a.get("mid"))
        m.feed, m.facts = a.get("feed", NONE), f
        s = site(o)
        m.where = where_obj(o) or (f"{s[0]}:{s[1]}" if s else None)
        m.name = f"{m.cls} in {s[2]}" if s and len(s) > 2 else m.cls
        out.append(m)
    return out, opaque_segs


class Scene:
    def __init__(self, name, c, st, job, paths, raises, geo=()):
        self.name, self.c, self.st, self.job, self.paths, self.raises, self.geo = name, c, st, job, paths, raises, geo
        self.opaque = 0
        self._m = None

    @property
    def motions(self):
        if self._m is None:
            self._m = []
            seen = set()
            for segs in self.paths:
                ms, o = motions(self.c, segs)
                self.opaque += o
                for m in ms:
                    if (m.obj, m.facts) not in seen:
                        seen.add((m.obj, m.facts))
                        self._m.append(m)
        return self._m


def pocket_cuts(c, engine):
    if engine == "clipper":
        c.I.cuts[(P, "build_pocket_ops")] = opaque("pocket_ops", "list[PathFace]")
        c.I.cuts[(P, "fill_pocket_contour_shrink")] = opaque("fills", "list[list[PathFace]]")
        c.I.cuts[(P, "apply_stepdown")] = opaque("stepped", "list[list[PathFace]]")
        c.I.cuts[(P, "determine_stepdown_start_depth")] = opaque("stepdown_start", "num?")
        c.I.cuts[(G, "offset_polyface")] = opaque("offset_areas", "list[PathFace]")
        c.I.cuts[(G, "PathFace.from_cq_face")] = opaque("pathface", "PathFace")
    else:
        c.I.cuts[(Q, "build_pocket_ops")] = opaque("pocket_ops", "list[Face]")
        c.I.cuts[(Q, "fill_pocket_contour_shrink")] = opaque("fills", "list[list[Wire]]")
        c.I.cuts[(G, "offset_face")] = opaque("offset_areas", "list[Face]")


def scene(R, which, hooks=(), job=None, summaries=True):
    c = new(R)
    c.I.summaries_on = summaries
    c.I.motion_codes = {}
    c.I.cut_log = []
    for h in hooks:
        c.I.hooks.append(h)
    s, j = one_job(c, R, **(job or {}))
    geo = ()
    direct = False
    if not summaries and (which.startswith("pocket") or which.endswith("stepdown")):
        for f in ("route_wires", "route_polyface_outers"):
            c.I.cuts[("cq_cam.routers", f)] = opaque("commands", "list[?]")
    if which == "wire_profile":
        r, e = c.method(s, j, "wire_profile", In("wire", "Wire"))
        geo = ("wire",)
    elif which == "wire_profile list":
        r, e = c.method(s, j, "wire_profile", In("wires", "list[Wire]"))
        geo = ("wires",)
    elif which == "wire_profile stepdown":
        r, e = c.method(s, j, "wire_profile", In("wires", "list[Wire]"), stepdown=num("stepdown"))
        geo = ("wires",)
    elif which == "profile":
        r, e = c.method(s, j, "profile", In("shape", "Workplane"))
        geo = ("shape",)
    elif which == "drill":
        r, e = c.method(s, j, "drill", In("holes", "Workplane"), depth=num("depth"))
        geo = ("holes",)
    elif which.startswith("drill "):
        r, e = c.method(s, j, "drill", In("holes", which[6:]), depth=num("depth"))
        geo = ("holes",)
    elif which == "pocket":
        pocket_cuts(c, "clipper")
        r, e = c.method(s, j, "pocket", In("areas", "list[Face]"), stepdown=num("stepdown"))
        geo = ("areas",)
    elif which.startswith("pocket avoid "):
        pocket_cuts(c, "clipper")
        k = which[13:]
        r, e = c.method(s, j, "pocket", In("areas", k), In("avoid", k))
        geo = ("areas", "avoid")
    elif which == "pocket cq avoid":
        pocket_cuts(c, "cq")
        r, e = c.call(s, c.fn(P, "pocket"), j, In("areas", "list[Face]"), In("avoid", "list[Face]"), engine=C("cq"))
        geo, direct = ("areas", "avoid"), True
    elif which == "pocket cq":
        pocket_cuts(c, "cq")
        r, e = c.call(s, c.fn(P, "pocket"), j, In("areas", "list[Face]"), engine=C("cq"))
        geo, direct = ("areas",), True
    elif which == "surface3d":
        r, e = c.method(s, j, "surface3d", o=In("faces", "list[Face]"))
        geo = ("faces",)
    else:
        raise AnalysisBroken(which)
    paths = []
    for s2, v in r:
        if direct:
            fz = c.I.freeze(s2, v)
        else:
            o = ops_of(c, s2, v)
            if not o:
                continue
            fz = attrs(o[-1]).get("commands")
        if fz is not None and fz.op == "lst":
            paths.append(fz.args[0])
        else:
            paths.append((mk("unk", "path"),))
    return Scene(which, c, s, j, paths, e, geo)


SCENES = ("wire_profile", "wire_profile stepdown", "drill", "pocket", "pocket cq")


def scenes(R, names=SCENES):
    for n in names:
        try:
            sc = scene(R, n)
        except AnalysisBroken as x:
            R.notes.append(f"{n}: {x}")
            continue
        yield sc


# --------------------------------------------------------------------------
def is_height(sc, z, facts=()):
    """is z one of the safe heights?  True / False / None"""
    hs = [num("rapid_height"), num("op_safe_height")]
    if any(z is h for h in hs):
        return True
    if z is NONE:
        return False
    if z.op == "app" and z.args[0] == "max":
        if any(a is h for a in z.args[1:] for h in hs):
            return True
    f = dict(facts)
    for h in hs:
        d = sub(z, h)
        if d is ZERO or f.get(mk("pos", d)) is True or f.get(mk("zero", d)) is True or f.get(mk("pos", neg(d))) is False:
            return True
        if d.op == "c" and isinstance(d.args[0], (int, float)) and d.args[0] > 0:
            return True
    if undef(z):
        return None
    ds = [sub(z, h) for h in hs]
    if any(h in subterms(z) for h in hs):
        return False if all(unbounded(d, f) for d in ds) else None
    return False


def unbounded(d, f):
    """can the sum d be arbitrarily low?  (it has a coordinate which no fact bounds from below)"""
    q = as_poly(d)
    if q is None:
        return False
    for mono, k in q.items():
        if len(mono) != 1 or mono[0][1] != 1:
            continue
        x = mono[0][0]
        if x.op == "app" and x.args[0] == "min" and k > 0 and any(isinstance(a, T) and unbounded(a, f) for a in x.args[1:]):
            return True
        if x.op != "attr":
            continue
        if any(x in subterms(a) for m2 in q for a, _ in m2 if a is not x):
            return False
        bound = False
        for p, v in f.items():
            if p.op in ("pos", "zero", "eq") and any(x in subterms(a) for a in p.args if isinstance(a, T)):
                e = as_poly(p.args[0]) if p.op == "pos" else None
                kk = e.get(mono) if e is not None else None
                if kk is None or (p.op == "pos" and (kk > 0) == (v == (k > 0))):
                    if not (p.op in ("zero", "eq") and v is False):
                        bound = True
        if not bound:
            return True
    return False


def moves_xy(m):
    """does the motion change x or y?  True / False / None"""
    rs = []
    for i in (0, 1):
        r = same(m.start[i], m.end[i], m.facts)
        rs.append(r)
    if False in rs:
        return True
    return None if None in rs else False


def moves_z(m):
    r = same(m.start[2], m.end[2], m.facts)
    return None if r is None else not r


class Tally:
    """one verdict per construct: bad beats undecided beats good"""

    def __init__(self, R):
        self.R, self.d = R, {}

    def add(self, rule, key, v, msg="", where=None):
        cur = self.d.get((rule, key))
        rank = {False: 0, None: 1, True: 2}
        if cur is None or rank[v] < rank[cur[0]]:
            self.d[(rule, key)] = (v, msg, where)

    def flush(self):
        for (rule, key), (v, msg, where) in self.d.items():
            self.R.verdict(rule, key, v, msg, where)


def pt(v):
    return "(" + ", ".join(short(x) for x in v) + ")"


def short(x):
    s = show(x)
    return s if len(s) < 60 else s[:28] + "…" + s[-28:]


@prop("C06")
def safe_rapids(R):
    R.rule("travel", "a rapid that moves in x or y starts and ends at the job's rapid height or operation safe height", 6)
    R.rule("descent", "a rapid ends at the rapid height, the operation safe height or the top of the stock, never below", 10)
    R.rule("entry", "the first motion of an operation's path is a rapid straight up to a safe height", 3)

    def check(R, name):
        t = Tally(R)
        sc = scene(R, name)
        for m in sc.motions:
            if m.code is None or m.start is None or m.end is None:
                t.add("descent", f"{sc.name}: {m.name}", None, "motion not resolved")
                continue
            if m.code != "G0":
                continue
            key = f"{sc.name}: {m.name}"
            xy = moves_xy(m)
            h0, h1 = is_height(sc, m.start[2], m.facts), is_height(sc, m.end[2], m.facts)
            if xy is not False:
                v = True if h0 and h1 else (None if None in (h0, h1) and False not in (h0, h1) else False)
                if v is False and xy is None:
                    v = None
                t.add("travel", key, v, f"rapid from {pt(m.start)} to {pt(m.end)}", m.where)
            v = h1
            if v is False and m.end[2] is not NONE:
                z = m.end[2]
                f = dict(m.facts)
                if z.op == "c" and isinstance(z.args[0], (int, float)):
                    v = z.args[0] >= 0
                elif f.get(mk("pos", z)) is True or f.get(mk("pos", neg(z))) is False:
                    v = True
            t.add("descent", key, v, f"rapid ends at z = {short(m.end[2])}", m.where)
        for i, segs in enumerate(sc.paths):
            for o in firsts(segs):
                if o is None:
                    continue
                if not is_motion(o):
                    continue
                a = attrs(o)
                st, en = vec3(a.get("start")), vec3(a.get("end"))
                key = f"{sc.name}: {o.args[0].name} in {(site(o) or ('', '', '?'))[2]}"
                if st is None or en is None or code_of(sc.c, o) is None:
                    t.add("entry", key, None, "motion not resolved")
                    continue
                flat = all(b is a2 or b is NONE for a2, b in zip(st[:2], en[:2]))
                v = code_of(sc.c, o) == "G0" and flat and is_height(sc, en[2])
                if v is None or (v is False and any(undef(x) for x in st + en)):
                    v = None
                t.add("entry", key, v, f"path starts with {code_of(sc.c, o)} from {pt(st)} to {pt(en)}", where_obj(o))
        t.flush()

    parallel(R, SCENES, check)


def firsts(segs):
    """commands which can come first in a path"""
    out = []
    empty = True
    for s in segs:
        if s.op == "e":
            if is_motion(s.args[0]):
                out.append(s.args[0])
                return out
            continue
        if s.op == "alt":
            e = False
            for sg, _ in s.args[0]:
                f = firsts(sg)
                out += [x for x in f if x is not None]
                e = e or None in f
            if not e:
                return out
        elif s.op == "many":
            for sg, _ in s.args[2]:
                out += [x for x in firsts(sg) if x is not None]
    out.append(None)
    return out


FEED = ("G1", "G2", "G3")


@prop("C07")
def plunges(R):
    R.rule("vertical", "a feed move that leaves a safe height (or the top of the stock) goes straight down", 4)
    R.rule("plunge feed", "a feed move that only lowers the tool from above the work runs at the job's plunge feed", 4)
    R.rule("lateral", "no lateral feed move starts at a safe height, in air, towards the work", 4)

    def check(R, name):
        t = Tally(R)
        pf = num("plunge_feed")
        sc = scene(R, name)
        any_lateral = {}
        for m in sc.motions:
            key = f"{sc.name}: {m.name}"
            if m.code is None or m.start is None or m.end is None:
                t.add("vertical", key, None, "motion not resolved")
                continue
            if m.code not in FEED:
                continue
            above = is_height(sc, m.start[2], m.facts)
            if above is False and m.start[2] is ZERO:
                above = True
            xy = moves_xy(m)
            if above is True and m.end[2] not in (num("rapid_height"), num("op_safe_height")) and moves_z(m) is False:
                continue        # the work itself is as high as the safe height
            if above is True:
                v = None if xy is None else (not xy and m.code == "G1")
                t.add("vertical", key, v, f"{m.code} from {pt(m.start)} to {pt(m.end)}", m.where)
                v = True if m.feed is pf else (None if undef(m.feed) else False)
                if xy is not False and v is False:
                    v = None        # reported by the rule above
                t.add("plunge feed", key, v, f"plunges at feed {short(m.feed)}", m.where)
            elif xy is True:
                t.add("lateral", key, True if above is False else None, f"starts at z = {short(m.start[2])}", m.where)
        t.flush()

    parallel(R, SCENES, check)


@prop("C08")
def continuous(R):
    R.rule("start", "every motion starts where each motion that can come before it on the path ended", 18)

    R.rule("chain", "passes of known edges, linked at known places: each motion starts where the one before it ended", 4)

    def check(R, name):
        if isinstance(name, tuple):
            from .chain import CHAINS, chain_scene, judge_chain
            from .levels import Unknown
            t = Tally(R)
            for n in name[1]:
                sc = chain_scene(R, CHAINS[n])
                try:
                    v, m, w = judge_chain(*sc)
                except Unknown as u:
                    v, m, w = None, str(u), None
                t.add("chain", n, v, m, w or fn_where(sc[0], "cq_cam.routers", "route_wires"))
            t.flush()
            return
        fl = Flow()
        sc = scene(R, name, [fl])
        fl.where = ""
        for p in sc.paths:
            Walk(fl.records, fl.check).run(p)
        by = {}
        for (w, cs), d in fl.verdicts().items():
            v = False if False in d.values() else (None if None in d.values() else True)
            by.setdefault((fl.cmds[cs], cs), []).append((v, w, d))
        t = Tally(R)
        for (cls, cs), vs in sorted(by.items(), key=str):
            key = f"{name}: {cls} in {cs[2] if len(cs) > 2 else '?'}"
            bad = [(w, d) for v, w, d in vs if v is False]
            if bad and reliable(sc.c):
                w, d = bad[0]
                ps = sorted(str(p[1]) for p, v in d.items() if v is False and p)
                t.add("start", key, False, f"in the path that {w or 'the operation'} builds it does not start at the end of the motion "
                      f"made at line {', '.join(ps)}", f"{cs[0]}:{cs[1]}")
            else:
                t.add("start", key, True if any(v is True for v, w, d in vs) else None, "predecessors not resolved",
                      f"{cs[0]}:{cs[1]}")
        t.flush()

    from .chain import CHAINS
    names = sorted(CHAINS)
    parallel(R, ["wire_profile", "wire_profile list", "drill", "pocket", "pocket cq"] + [("chain", names[k::3]) for k in range(3)], check)


class Level(Flow):
    """for each motion: is it vertical after each motion that can come before it?"""

    def __init__(self):
        super().__init__()
        self.vertical = {}

    def on_iteration(self, *a):
        pass

    def on_return(self, *a):
        pass

    def check(self, w, c, a, preds, facts, loops):
        end = vec(a.get("end"))
        out = self.vertical.setdefault(site(c), set())
        for p in preds.values():
            if p is None or end is None:
                out.add(None)
                continue
            f = dict(facts)
            f.update(p.facts)
            for e, asm in p.ends:
                if e is None:
                    out.add(None)
                    continue
                m = {x: y for x, y in asm}
                rs = [same(subst(x, m), subst(y, m), f) for x, y in zip(e[:2], end[:2])]
                out.add(False if False in rs else (None if None in rs else True))


def reaching(R, name):
    fl = Level()
    sc = scene(R, name, [fl])
    for p in sc.paths:
        Walk(fl.records, fl.check).run(p)
    return fl.vertical


@prop("C09")
def feeds(R):
    R.rule("feed", "every feed move carries the job's feed (lateral) or its plunge feed (straight down)", 12)
    R.rule("rapid", "a rapid carries no feed", 5)

    def check(R, name):
        t = Tally(R)
        pf, ff = num("plunge_feed"), In("feed", "num")
        sc = scene(R, name)
        reached = None
        for m in sc.motions:
            key = f"{sc.name}: {m.name}"
            if m.code == "G0":
                t.add("rapid", key, m.feed is NONE, f"rapid with feed {short(m.feed)}", m.where)
                continue
            if m.code not in FEED:
                t.add("feed", key, None, "motion not resolved")
                continue
            if m.feed is NONE:
                t.add("feed", key, False, f"{m.code} without a feed", m.where)
                continue
            xy = moves_xy(m) if m.start is not None and m.end is not None else None
            z = moves_z(m) if m.start is not None and m.end is not None else None
            if m.feed is ff:
                down = xy is False and z is True and is_height(sc, m.start[2], m.facts)
                t.add("feed", key, not down, "plunges at the cutting feed", m.where)
            elif m.feed is pf:
                v = True if xy is False else (None if xy is None else False)
                if v is None:
                    if reached is None:
                        reached = reaching(R, name)
                    ps = reached.get(site(m.obj))
                    if ps and False in ps and True not in ps:
                        v = False
                t.add("feed", key, v, f"lateral {m.code} at the plunge feed", m.where)
            else:
                t.add("feed", key, None if undef(m.feed) else False, f"feed is {short(m.feed)}", m.where)
        t.flush()

    parallel(R, SCENES, check)


# --------------------------------------------------------------------------
def edge_of(t):
    """the edge a coordinate comes from and where on it: (edge, what)"""
    t = norm(t)
    if t.op == "attr" and t.args[1] in "xyz":
        p = t.args[0]
        if p.op == "app" and p.args[0] in ("OStart", "OEnd"):
            return p.args[1], p.args[0], None, t.args[1]
        if p.op == "app" and p.args[0] in ("PosO", "PosP"):
            return p.args[1], p.args[0], p.args[2], t.args[1]
        if p.op == "app" and p.args[0] == ".arcCenter":
            return p.args[1], "centre", None, t.args[1]
    return None


def point_of(v):
    """(edge, kind, parameter) of a position whose x, y, z all come from one point of one edge"""
    if v is None:
        return None
    r = [edge_of(x) for x in v]
    if None in r or [x[3] for x in r] != ["x", "y", "z"] or len({x[:3] for x in r}) != 1:
        return None
    return r[0][:3]


def fraction(p):
    """parameter of a point -> fraction of the way from the edge's start to its end, if linear in both"""
    from fractions import Fraction
    from ..terms import as_poly
    edge, kind, arg = p
    if kind == "OStart":
        return Fraction(0)
    if kind == "OEnd":
        return Fraction(1)
    if kind == "PosO":
        q = as_poly(arg)
        if q is not None and set(q) <= {()}:
            return q.get((), Fraction(0))
        return None
    if kind == "PosP":
        q = as_poly(arg)
        if q is None:
            return None
        s, e = app("OStartParam", edge), app("OEndParam", edge)
        a, b = q.get(((s, 1),), 0), q.get(((e, 1),), 0)
        if len([k for k in q if k not in (((s, 1),), ((e, 1),))]) or a + b != 1:
            return None
        return b
    return None


@prop("C10")
def arcs(R):
    R.rule("direction", "an arc is cut clockwise (G2) exactly when its edge is traversed clockwise", 4)
    R.rule("centre", "an arc's centre is the centre of the edge's circle", 4)
    R.rule("points", "an arc starts, passes and ends at points of its edge, in the order of travel", 4)
    R.rule("split", "a closed circle is cut as arcs that each cover less than the whole circle", 2)
    R.rule("kind", "arcs are cut only where the edge is circular, and straight moves from end to end only along lines and arcs too short to cut", 4)

    def check(R, name):
        t = Tally(R)
        sc = scene(R, name)
        for m in sc.motions:
            key = f"{sc.name}: {m.name}"
            if m.code not in ("G2", "G3"):
                continue
            ps, pm, pe, pc = point_of(m.start), point_of(m.mid), point_of(m.end), point_of(m.center)
            if pc is None or pe is None:
                u = any(undef(x) for v in (m.center, m.end) if v for x in v)
                if not u and pc is None and m.center is not None:
                    t.add("centre", key, False, f"centre is {pt(m.center)}", m.where)
                else:
                    t.add("centre", key, None, "centre not resolved")
                continue
            e = pc[0]
            t.add("centre", key, pc[1] == "centre" and pe[0] is e, f"centre of {short(e)}, end on {short(pe[0])}", m.where)
            f = dict(m.facts)
            cw = f.get(mk("cw", e))
            if cw is None and f.get(mk("cwmixed", e)):
                t.add("direction", key, False, f"{m.code} both for edges traversed clockwise and counter-clockwise", m.where)
            else:
                t.add("direction", key, None if cw is None else (m.code == "G2") is cw,
                      f"{m.code} for an edge traversed {'clockwise' if cw else 'counter-clockwise'}", m.where)
            pts = [ps, pm, pe]
            if any(p is None for p in pts) or any(p[0] is not e for p in pts):
                bad = any(p is not None and p[0] is not e and not undef(p[0]) for p in pts)
                t.add("points", key, False if bad else None, "start, mid and end are not points of one edge", m.where)
                continue
            fr = [fraction(p) for p in pts]
            if None in fr:
                t.add("points", key, linked(m, pts), f"points at {[short(p[2]) if p[2] is not None else p[1] for p in pts]}",
                      m.where)
                continue
            t.add("points", key, 0 <= fr[0] < fr[1] < fr[2] <= 1, f"points at {[str(x) for x in fr]} of the edge", m.where)
            t.add("split", key, closed_ok(sc, m, e, fr), f"from {fr[0]} to {fr[2]} of the edge in one arc", m.where)
        for m in sc.motions:
            if m.code not in FEED:
                continue
            ps, pe = point_of(m.start), point_of(m.end)
            if pe is None:
                continue
            f = dict(m.facts)
            e = pe[0]
            key = f"{sc.name}: {m.name}"
            yes = kinds_of(f, e)
            no = {k[1] for k in (kind_fact(p) for p, v in f.items() if v is False) if k is not None and k[0] is e}
            if m.code != "G1":
                if yes:
                    t.add("kind", key, yes <= {"ARC", "CIRCLE"}, f"{m.code} for edges of type {', '.join(sorted(yes))}", m.where)
                else:
                    t.add("kind", key, True if "LINE" in no else None, "edge type not resolved")
            elif ps is not None and ps[0] is e and ps[1] in ("OStart", "OEnd") and pe[1] in ("OStart", "OEnd"):
                # a straight move from one end of an edge to the other (or none, between equal ends)
                if yes == {"LINE"}:
                    v = True
                elif yes or "LINE" in no:
                    v = ends_equal(f, e) or ps is pe or ps[1] == pe[1]
                    if v and not (no >= {"ARC", "CIRCLE"} or (yes and not yes & {"ARC", "CIRCLE"})):
                        v = all(f.get(mk("test", n, e)) is False for n in (".Closed", ".IsClosed"))
                else:
                    v = None
                t.add("kind", key, v, f"straight from {ps[1]} to {pe[1]} of an edge that may be "
                      + ("closed" if v is False and ps[1] == pe[1] else "curved"), m.where)
        t.flush()

    parallel(R, ("wire_profile", "profile", "pocket cq"), check)


def ends_equal(f, e):
    return f.get(mk("eq", *sorted((app("OStart", e), app("OEnd", e)), key=lambda z: z.n))) is True


def parameter(p):
    """the parameter, on its edge, of a point"""
    edge, kind, arg = p
    s, e = app("OStartParam", edge), app("OEndParam", edge)
    if kind == "OStart":
        return s
    if kind == "OEnd":
        return e
    if kind == "PosP":
        return arg
    if kind == "PosO":
        return add(s, mul(arg, sub(e, s)))
    return None


def linked(m, pts):
    """points of an arc that starts or ends inside an edge: is the middle one between the others
    wherever the arc starts and ends?"""
    a, b, c = (parameter(p) for p in pts)
    if None in (a, b, c):
        return None
    p, q = as_poly(sub(b, a)), as_poly(sub(c, a))
    if p is None or q is None or not q:
        return None
    if set(p) == set(q):
        ks = {p[k] / q[k] for k in q}
        if len(ks) == 1:
            return 0 < ks.pop() < 1
    lin = [k[0][0] for k in list(p) + list(q) if len(k) == 1 and k[0][1] == 1]
    if len(lin) != len([k for k in list(p) + list(q) if k]):
        return None
    e = pts[0][0]
    ends = (app("OStartParam", e), app("OEndParam", e))
    own = {k[0][0] for t in (a, c) for k in (as_poly(t) or {}) if k}
    if any(x.op in ("phi", "top", "unk") or x not in ends and x not in own for x in lin):
        return None
    return False        # some start or end of the arc has its middle outside


def closed_ok(sc, m, e, fr):
    f = dict(m.facts)
    if fr[2] - fr[0] < 1:
        return True
    cl = [f.get(mk("test", n, e)) for n in (".Closed", ".IsClosed")]
    if all(x is False for x in cl):
        return True
    if True in cl:
        return False
    same_ends = f.get(mk("eq", *sorted((app("OStart", e), app("OEnd", e)), key=lambda z: z.n)))
    return True if same_ends is False else None


# --------------------------------------------------------------------------
def transforms(t, geo, memo):
    """how many world-to-job transforms lie between a coordinate and the geometry it comes from:
    a set of counts, with None for what is not known"""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "idx":
        r = transforms(t.args[0], geo, memo)        # which element it is does not matter
    elif t.op in ("in", "In"):
        r = frozenset([0]) if t.args[0] in geo else frozenset()
    elif t.op in ("phi", "unk"):
        r = frozenset([None])
    elif t.op in ("lst", "many", "alt"):            # what it contains, not how often or when
        r = frozenset()
        for segs in (t.args[:1] if t.op == "lst" else [sg for al in (t.args[2:4] if t.op == "many" else t.args) for sg, _ in al]):
            for e in segs:
                r |= transforms(e, geo, memo)
    elif t.op == "app" and t.args[0] == "xform":
        inner = transforms(t.args[1], geo, memo)
        m = t.args[2]
        d = None
        if m.op == "attr" and m.args[0].op in ("in", "In", "top") and m.args[1] in ("fG", "rG"):
            d = 1 if m.args[1] == "fG" else -1
        r = frozenset(None if x is None or d is None else x + d for x in inner)
    else:
        r = frozenset()
        for a in t.args:
            for x in ((a,) if isinstance(a, T) else flat_terms(a)):
                r |= transforms(x, geo, memo)
    memo[t] = r
    return r


def flat_terms(a):
    if isinstance(a, T):
        yield a
    elif isinstance(a, (tuple, frozenset)):
        for x in a:
            yield from flat_terms(x)


class Mixed:
    """hook: shapes that are combined with one another"""

    def __init__(self):
        self.log = []

    def on_ext_call(self, I, st, name, recv, args, kw, F, node, *rest):
        if name in (".cut", ".intersect", ".fuse", ".split", ".distance", ".distances"):
            vals = [("receiver", I.freeze(st, recv) if recv is not None else None)]
            vals += [(f"argument {i + 1}", I.freeze(st, a)) for i, a in enumerate(args)]
            self.log.append((name, vals, f"{F.module.rel}:{node.lineno}"))


def own_plane(t, key, v, where):
    """a plane that is an operand: the job's plane, in world coordinates before the transformation or in job coordinates"""
    moved, p = 0, v
    while p.op == "app" and p.args[0] == "xform" and p.args[2].op == "attr" and p.args[2].args[1] == "fG":
        moved, p = moved + 1, p.args[1]
    if not (p.op == "app" and p.args[0] == "cq.Face.makePlane" and len(p.args) == 5) or moved > 1:
        return
    for i, what in ((1, "long"), (2, "wide")):
        x = p.args[i]
        if x is not NONE:
            small = x.op == "c" and isinstance(cval(x), (int, float)) and cval(x) < 10000
            t.add("plane", key, False if small else None, f"the plane is only {short(x)} {what}", where)
    for x, attr_, local, what in ((p.args[3], "origin", app("Vec", ZERO, ZERO, ZERO), "passes through"), (p.args[4], "zDir", app("Vec", ZERO, ZERO, C(1)), "faces along")):
        if moved:
            ok = True if x.op == "attr" and x.args[1] == attr_ and x.args[0] is In("top", "Plane") else False if own(x) else None
        else:
            ok = True if x is local else None
        t.add("plane", key, ok, f"the plane {what} {short(x)}, not the {attr_} of the job", where)


def own(x):
    """a vector that is known without the job's plane"""
    return x.op == "app" and x.args[0] == "Vec" and all(y.op == "c" for y in x.args[1:]) or x.op == "attr" and x.args[0] is In("top", "Plane")


@prop("C14")
def job_coordinates(R):
    R.rule("once", "every coordinate of a motion that comes from the geometry has been transformed from world to job coordinates once", 12)
    R.rule("mixed", "shapes that are cut or measured against one another while layers are made are both in job coordinates", 2)
    R.rule("plane", "the plane that layers are cut with is that of the job: through its origin, facing along its axis, unbounded", 1)
    R.rule("areas", "the areas handed to the pocket engines have been transformed from world to job coordinates once", 3)

    def check(R, name):
        t = Tally(R)
        mix = Mixed()
        sc = scene(R, name, [mix] if name.endswith("stepdown") else [], summaries=not name.startswith("pocket") and not name.endswith("stepdown"))
        geo = set(sc.geo)
        memo = {}

        def verdict(vs):
            r = frozenset()
            for x in vs:
                if x is not None and x is not NONE:
                    r |= transforms(x, geo, memo)
            known = r - {None}
            if known - {1}:
                return False, known
            if not known:
                return (None if r else "skip"), r
            return True, known

        if mix.log:
            geo.add("top")
            for what, vals, where in mix.log:
                for side, v in vals:
                    if v is None:
                        continue
                    own_plane(t, f"{name}: {side} of {what}", v, where)
                    ok, r = verdict([v])
                    if ok != "skip":
                        t.add("mixed", f"{name}: {side} of {what}", ok, f"transformed {sorted(map(str, r))} times: {short(v)}", where)
            geo.discard("top")
            memo.clear()
        if name.startswith("pocket"):
            seen = set()
            for what, args, F, node in sc.c.I.cut_log:
                if what not in ("pathface", "pocket_ops", "offset_areas"):
                    continue
                for k, v in sorted(args.items()):
                    src = sorted({x.args[0] for x in subterms(v) if x.op in ("in", "In") and x.args[0] in geo})
                    if not src:
                        continue
                    ok, r = verdict([v])
                    if ok == "skip":
                        continue
                    t.add("areas", f"{name}: {k} of {what} from {', '.join(src)}", ok, f"transformed {sorted(map(str, r))} times: {short(v)}")
        else:
            for m in sc.motions:
                for part, v in (("end", m.end), ("centre", m.center), ("middle", m.mid)):
                    if v is None:
                        continue
                    ok, r = verdict(v)
                    if ok == "skip":
                        continue
                    t.add("once", f"{name}: {part} of {m.name}", ok, f"transformed {sorted(map(str, r))} times: {pt(v)}", m.where)
        t.flush()

    parallel(R, ("wire_profile", "wire_profile stepdown", "profile", "drill Vector", "drill list[Vector]", "drill Wire", "drill Face", "pocket",
                 "pocket cq", "pocket cq avoid", "pocket avoid list[Face]", "pocket avoid Face", "pocket avoid Workplane"), check)
