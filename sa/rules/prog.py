"""Rules about the program text and the fluent interface."""
import itertools

from . import prop
from .common import *  # noqa
from .common import Ctx, attrs, cval, fn_where, gtext, jobs, members, new, num, one_job, ops_of, reliable
from ..terms import C, NONE, In, mk, show
from ..gtext import GROUPS, Hole

CODES = {
    "Path": {"RAPID": "G0", "LINEAR": "G1", "ARC_CW": "G2", "ARC_CCW": "G3", "CUBIC": "G5",
             "QUADRATIC_SPLINE": "G5.1", "NURBS": "G5.2"},
    "Position": {"DWELL": "G4", "ABSOLUTE": "G53", "PRIMARY_HOME": "G28", "SECONDARY_HOME": "G30"},
    "ProbeMode": {"ON_CONTACT_ERROR": "G38.2", "ON_CONTACT": "G38.3", "LOSE_CONTACT_ERROR": "G38.4",
                  "LOSE_CONTACT": "G38.5"},
    "CannedCycle": {"CANCEL": "G80", "DRILL_SIMPLE": "G81", "DRILL_DWELL": "G82", "DRILL_PECK": "G83",
                    "DRILL_RIGHT_TAP": "G84", "BORE": "G85", "BORE_DWELL_STOP": "G86", "BORE_BACK": "G87",
                    "BORE_DWELL_STOP_MANUAL": "G88", "BORE_DWELL": "G89"},
    "WorkPlane": {"XY": "G17", "XZ": "G18", "YZ": "G19"},
    "Unit": {"IMPERIAL": "G20", "METRIC": "G21"},
    "RadiusCompensation": {"OFF": "G40", "LEFT": "G41", "RIGHT": "G42"},
    "LengthCompensation": {"ON": "G43", "OFF": "G49"},
    "WorkOffset": {"OFFSET_1": "G54", "OFFSET_2": "G55", "OFFSET_3": "G56", "OFFSET_4": "G57", "OFFSET_5": "G58",
                   "OFFSET_6": "G59"},
    "PlannerControlMode": {"EXACT_PATH": "G61", "EXACT_STOP": "G61.1", "CONTINUOUS": "G64"},
    "DistanceMode": {"ABSOLUTE": "G90", "INCREMENTAL": "G91"},
    "ArcDistanceMode": {"ABSOLUTE": "G90.1", "INCREMENTAL": "G91.1"},
    "FeedRateControlMode": {"INVERSE_TIME": "G93", "UNITS_PER_MINUTE": "G94", "UNITS_PER_REVOLUTION": "G95"},
    "SpindleControlMode": {"SURFACE_SPEED": "G96", "RPM": "G97"},
    "CannedCycleReturnMode": {"RETRACT_HEIGHT": "G98", "LAST_HEIGHT": "G99"},
    "ProgramControlMode": {"PAUSE": "M0", "PAUSE_OPTIONAL": "M1", "END": "M2", "END_RESET": "M30"},
    "CutterState": {"ON_CW": "M3", "ON_CCW": "M4", "OFF": "M5"},
    "AutomaticChangerMode": {"TOOL_CHANGE": "M6"},
    "CoolantState": {"MIST": "M7", "FLOOD": "M8", "OFF": "M9"},
}


def enum_text(c, cname, member):
    """the text a member of a code enumeration prints as"""
    out = set()
    r, e = c.call(c.state(), mk("ext", "builtins.str"), c.enum(cname, member))
    for s, v in r:
        out.add(v)
    return out.pop() if len(out) == 1 else None


@prop("C12")
def codes(R):
    R.rule("code", "each member of a code enumeration prints as the RS-274/NGC code of its name", 50)
    R.rule("distinct", "no two members of one code enumeration print the same code", 15)
    R.rule("motion", "each motion command starts with the motion code of its kind", 6)
    c = new(R)
    for cname, tab in CODES.items():
        cls = None
        try:
            cls = c.cls(cname).args[0]
        except Exception:
            R.verdict("code", cname, None, "enumeration not found")
            continue
        where = f"{cls.module.rel}:{cls.node.lineno}"
        seen = {}
        for m in members(c, cname):
            t = enum_text(c, cname, m)
            txt = cval(t) if t is not None else None
            if not isinstance(txt, str):
                R.verdict("code", f"{cname}.{m}", None, "text not constant")
                continue
            got = gtext.WORD.match(txt)
            code = got and got.group(1).upper() + gtext.norm(got.group(2))
            if m in tab:
                R.verdict("code", f"{cname}.{m}", code == tab[m], f"prints {txt!r}, RS-274 has {tab[m]}", where)
            else:
                R.verdict("code", f"{cname}.{m}", None, "name not in the reference table")
            if txt in seen:
                R.verdict("distinct", cname, False, f"{seen[txt]} and {m} both print {txt!r}", where)
            seen[txt] = m
        R.verdict("distinct", cname, True)
    for n, want in (("Rapid", "G0"), ("Retract", "G0"), ("PlungeRapid", "G0"), ("Cut", "G1"), ("PlungeCut", "G1"),
                    ("CircularCW", "G2"), ("CircularCCW", "G3")):
        for texts in command_texts(c, n, (True, True, True), True):
            ls = gtext.lines(texts[1])
            first = ls[0].words[0] if ls and ls[0].words else None
            if first is None or not isinstance(first[1], str):
                R.verdict("motion", n, None, "text not resolved")
            else:
                R.verdict("motion", n, first[0] + first[1] == want, f"starts with {first[0]}{first[1]}, expected {want}",
                          fn_where(c, "cq_cam.command", n))


def level_arcs(R, c):
    """arcs whose points share coordinates: full circles, arcs that end level with where they start"""
    for what, same in (("a full circle", {"endx": "startx", "endy": "starty", "endz": "startz"}), ("ends level in x", {"endx": "startx"}),
                       ("a turn of a helix", {"endx": "startx", "endy": "starty"}), ("ends level in y", {"endy": "starty"}),
                       ("ends level in z", {"endz": "startz"}), ("all in one plane", {p + "z": "startz" for p in ("end", "center", "mid")}),
                       ("middle level in x", {"midx": "startx"}), ("middle level in y", {"midy": "starty"}),
                       ("ends at its middle", {"endx": "midx", "endy": "midy", "endz": "midz"})):
        for n, feed in itertools.product(("CircularCW", "CircularCCW"), (True, False)):
            w = fn_where(c, "cq_cam.command", n)
            key = f"{n}, {what}{', feed' if feed else ''}"
            for s, t in command_texts(c, n, (True,) * 3, feed, same=same):
                ls = [l for l in gtext.lines(t) if not l.empty()]
                if len(ls) != 1 or ls[0].raw or ls[0].comments:
                    R.verdict("syntax", key, None if any(l.raw for l in ls) else False, f"text {show(t)[:120]}", w)
                    continue
                l = ls[0]
                for a, letter in zip("xy", "IJ"):
                    vs = l.get(letter)
                    want = sub(num("center" + a), num("start" + a))
                    if len(vs) != 1 or not isinstance(vs[0], Hole):
                        R.verdict("centre", f"{key} {letter}", False, f"{len(vs)} {letter} words: {l.text}", w)
                    elif undef(vs[0].term):
                        R.verdict("centre", f"{key} {letter}", None, show(vs[0].term))
                    else:
                        R.verdict("centre", f"{key} {letter}", core(vs[0].term) is want,
                                  f"{letter} word carries {show(vs[0].term)}, expected {show(want)}", w)
                vs = l.get("F")
                R.verdict("feed", key, (len(vs) == 1 and isinstance(vs[0], Hole) and core(vs[0].term) is num("feed")) if feed else not vs,
                          f"F words {vs}: {l.text}", w)


def av(c, st, x, y, z):
    r, e = c.call(st, c.cls("AddressVector"), x=x, y=y, z=z)
    if len(r) != 1:
        raise AnalysisBroken("AddressVector has several outcomes")
    return r[0]


def command_texts(c, name, given, feed, start=True, same={}):
    """[(state, text)] of a motion command whose coordinates are given or None"""
    st = c.state()
    sx = lambda p: [num(same.get(p + a, p + a)) if g else NONE for a, g in zip("xyz", given)]
    plunge = name in ("Retract", "PlungeRapid", "PlungeCut")
    e = sx("end")
    if plunge:
        e = [NONE, NONE, e[2]]
    kw = {}
    st, kw["end"] = av(c, st, *e)
    c.keep(st, "end", kw["end"])
    if name.startswith("Circ"):
        for p in ("start", "center", "mid"):
            st, kw[p] = av(c, st, *[num(same.get(p + a, p + a)) for a in "xyz"])
            c.keep(st, p, kw[p])
    elif start:
        st, kw["start"] = av(c, st, NONE, NONE, NONE)
        c.keep(st, "start", kw["start"])
    else:
        kw["start"] = NONE
    if name.startswith("Circ") or "Cut" in name:
        kw["feed"] = num("feed") if feed else NONE
    r, ex = c.call(st, c.cls(name), **kw)
    out = []
    for s, o in r:
        c.keep(s, "cmd", o)
        rr, _ = c.call(s, mk("ext", "builtins.str"), o)
        out += rr
    return out


@prop("C11")
def words(R):
    R.rule("axes", "a motion command prints exactly one word per known coordinate, with that coordinate's own letter "
                   "and value", 20)
    R.rule("rounding", "axis words keep at least three decimals", 3)
    R.rule("centre", "arc words I, J, K are the centre's offsets from the arc's start point", 6)
    R.rule("feed", "an F word is printed exactly when the command has a feed, and carries it", 6)
    R.rule("syntax", "a motion command prints one line of well formed words, the motion code first", 10)
    R.rule("value", "a coordinate, centre offset or feed prints as a word of that value, to half a micrometre "
                    "(coordinates) or five micrometres per minute (feeds), without an exponent", 60)
    c = new(R)
    printed_values(R, c)
    level_arcs(R, c)
    for n in ("Rapid", "Retract", "PlungeRapid", "Cut", "PlungeCut", "CircularCW", "CircularCCW"):
        plunge = n in ("Retract", "PlungeRapid", "PlungeCut")
        circ = n.startswith("Circ")
        w = fn_where(c, "cq_cam.command", n)
        for given in itertools.product((True, False), repeat=3):
            if circ and given != (True, True, True):
                continue
            if plunge and given[:2] != (False, False):
                continue
            for feed in ((True, False) if (circ or "Cut" in n) else (False,)):
                key = f"{n}[{''.join(a for a, g in zip('xyz', given) if g) or '-'}{' feed' if feed else ''}]"
                texts = command_texts(c, n, given, feed)
                if not texts:
                    R.verdict("syntax", key, None, "no outcome")
                for s, t in texts:
                    ls = [l for l in gtext.lines(t) if not l.empty()]
                    if len(ls) != 1 or ls[0].raw or ls[0].comments:
                        R.verdict("syntax", key, None if any(l.raw for l in ls) else False,
                                  f"text {show(t)[:120]}", w)
                        continue
                    l = ls[0]
                    R.verdict("syntax", key, not l.bad and bool(l.words) and l.words[0][0] == "G" and
                              len(l.codes()) == 1, f"text {l.text}", w)
                    for a, letter, g in zip("xyz", "XYZ", given):
                        vs = l.get(letter)
                        src = "end" + a
                        if not g:
                            R.verdict("axes", f"{key} {letter}", not vs, f"{letter} word for an unknown coordinate: {l.text}", w)
                            continue
                        if len(vs) != 1 or not isinstance(vs[0], Hole):
                            R.verdict("axes", f"{key} {letter}", False, f"{len(vs)} {letter} words: {l.text}", w)
                            continue
                        h = vs[0].term
                        names = {x.args[0] for x in atoms(h) if x.op == "in"}
                        if undef(h):
                            R.verdict("axes", f"{key} {letter}", None, show(h))
                        else:
                            R.verdict("axes", f"{key} {letter}", names == {src} and core(h) is num(src),
                                      f"{letter} word carries {show(h)}", w)
                            d = rounding(h)
                            R.verdict("rounding", f"{key} {letter}", None if d is None else d >= 3,
                                      f"rounded to {d} decimals: {show(h)}", w)
                    if circ:
                        for a, letter in zip("xyz", "IJK"):
                            vs = l.get(letter)
                            if len(vs) != 1 or not isinstance(vs[0], Hole):
                                if a != "z" or len(vs) > 1:
                                    R.verdict("centre", f"{key} {letter}", False, f"{len(vs)} {letter} words: {l.text}", w)
                                continue
                            h = vs[0].term
                            want = sub(num("center" + a), num("start" + a))
                            if undef(h):
                                R.verdict("centre", f"{key} {letter}", None, show(h))
                            else:
                                R.verdict("centre", f"{key} {letter}", core(h) is want,
                                          f"{letter} word carries {show(h)}, expected {show(want)}", w)
                                d = rounding(h)
                                R.verdict("rounding", f"{key} {letter}", None if d is None else d >= 3,
                                          f"rounded to {d} decimals: {show(h)}", w)
                    if circ or "Cut" in n:
                        vs = l.get("F")
                        if feed:
                            ok = len(vs) == 1 and isinstance(vs[0], Hole) and core(vs[0].term) is num("feed")
                            R.verdict("feed", key, ok, f"F words {vs}: {l.text}", w)
                        else:
                            R.verdict("feed", key, not vs, f"F word without a feed: {l.text}", w)


VALUES = (0, 0.004, -0.004, 0.0014, 0.25, -0.9996, 1.2344, 12.5, -33.125, 4567.8912, -120, 1e-05,  0.1 + 0.2, 1000000.5)


def printed_values(R, c):
    """words printed for particular numbers: the printed text is folded from the source, nothing is run"""
    def show_of(key, cname, letter, want, tol, st, **kw):
        w = fn_where(c, "cq_cam.command", cname)
        r, e = c.call(st, c.cls(cname), **kw)
        texts = []
        for s, o in r:
            c.keep(s, "cmd", o)
            texts += c.call(s, mk("ext", "builtins.str"), o)[0]
        if not texts:
            R.verdict("value", key, False if e else None, f"{cname} cannot be printed", w)
        for s, t in texts:
            ls = [l for l in gtext.lines(t) if not l.empty()]
            vs = [v for l in ls for v in l.get(letter)]
            if any(isinstance(v, Hole) for v in vs) or any(l.raw for l in ls):
                R.verdict("value", key, None, f"text {show(t)[:80]}")
                continue
            bad = [b for l in ls for b in l.bad]
            if bad:
                R.verdict("value", key, False, f"{letter} {want} prints as {bad[0]!r}, which is not a word", w)
                continue
            ok = len(vs) == 1 and abs(float(vs[0]) - want) <= tol
            R.verdict("value", key, ok, f"{letter} {want} prints as {', '.join(letter + v for v in vs) or 'nothing'}", w)
    for v in VALUES:
        for a, letter in zip("xyz", "XYZ"):
            st, end = av(c, c.state(), *[C(v) if q == a else NONE for q in "xyz"])
            c.keep(st, "end", end)
            for cname in ("Rapid", "Cut") + (("Retract", "PlungeRapid", "PlungeCut") if a == "z" else ()):
                kw = {"feed": NONE} if "Cut" in cname else {}
                show_of(f"{cname} {letter} {v}", cname, letter, v, 0.00051, st.fork(), end=end, start=NONE, **kw)
        if v == 0 or v >= 0.0001:      # feeds below 1e-4 units a minute are outside the domain
            st, end = av(c, c.state(), C(1), NONE, NONE)
            c.keep(st, "end", end)
            show_of(f"Cut F {v}", "Cut", "F", v, 0.0051, st, end=end, start=NONE, feed=C(v))
        for a, letter in zip("xy", "IJ"):
            st, kw = c.state(), {}
            for p, xy in (("start", 2), ("center", v + 2), ("mid", 5), ("end", 7)):
                st, kw[p] = av(c, st, *[C(xy) if q == a else C(3) for q in "xyz"])
                c.keep(st, p, kw[p])
            show_of(f"CircularCW {letter} {v}", "CircularCW", letter, v, 0.00051, st, feed=NONE, **kw)


def core(h):
    """the value that a printed number is made from"""
    while h.op == "app" and h.args[0] in ("round", "int", "float", "str", "builtins.str", "format", "optimize", "builtins.round"):
        h = h.args[1] if h.args[1].op not in ("lst", "tup") else h
        if h.op in ("lst", "tup"):
            break
    return h


def rounding(h):
    """decimals kept; None when the text is not rounded by a constant"""
    while h.op == "app":
        if h.args[0] == "round":
            return cval(h.args[2]) if len(h.args) > 2 and h.args[2].op == "c" else (0 if len(h.args) == 2 else None)
        if h.args[0] in ("int",):
            return 0
        if h.args[0] in ("float", "str"):
            h = h.args[1]
        else:
            return None
    return None


# --------------------------------------------------------------------------
HISTORIES = {
    "no operation": [],
    "tool change": [dict(tool_number=C(2))],
    "tool and speed change": [dict(tool_number=C(2)), dict(speed=C(12000))],
    "speed and tool change": [dict(speed=C(12000)), dict(tool_number=C(2))],
    "drill": ["drill"],
    "tool change, drill": [dict(tool_number=C(2)), "drill"],
    "drill, tool change": ["drill", dict(tool_number=C(2))],
    "drill, drill": ["drill", "drill"],
    "two tool changes": [dict(tool_number=C(2)), dict(tool_number=C(3))],
}
LONG = {
    "130 operations": ["drill"] * 130,
    "20 tools, each used": [x for k in range(20) for x in (dict(tool_number=C(2 + k)), "drill")],
}
OPNAME = {"tool": "Tool Change", "speed": "Speed Change", "drill": "Drill"}


def drill_cut(c):
    """leave drilling out: an operation with one opaque motion"""
    def h(I, st, b, F, node):
        o = b["self"]
        st2, a = av(c, st, num("hx"), num("hy"), num("hz"))
        c.keep(st2, "drill_end", a)
        r, _ = c.call(st2, c.cls("Cut"), a, NONE, feed=num("feed"))
        st3, cmd = r[0]
        l = I.new_list(st3, [mk("e", cmd)], F, node)
        I.setattr(st3, o, "commands", l, None, F, node)
        return [(st3, NONE)]
    c.I.cuts[("cq_cam.operations.drill", "Drill.__post_init__")] = h


def run_history(c, st, j, hist):
    """-> [(state, job)]"""
    cur = [(st, j)]
    for step in hist:
        nxt = []
        for s, v in cur:
            if step == "drill":
                r, e = c.method(s, v, "drill", In("holes", "Workplane"), depth=num("depth"))
            else:
                r0, e = c.call(s, c.cls("Tool"), **step)
                r = []
                for s2, t in r0:
                    c.keep(s2, "tool", t)
                    rr, _ = c.method(s2, v, "update_tool", t)
                    r += rr
            for s2, v2 in r:
                c.keep(s2, "job", v2)
                nxt.append((s2, v2))
        cur = nxt
    return cur


def gcode(c, st, j):
    r, e = c.method(st, j, "to_gcode")
    return r, e


def op_comment(line, name):
    """is this line the comment that opens the operation called name?"""
    for cm in line.comments:
        for p in cm:
            if isinstance(p, Hole):
                for x in subterms(p.term):
                    if x.op == "c" and isinstance(x.args[0], str) and x.args[0].rstrip().endswith(name):
                        return True
            elif p.rstrip().endswith(name):
                return True
    return False


def kinds_of(hist, has_speed):
    out = []
    for h in hist:
        if h == "drill":
            out.append("Drill")
        elif "tool_number" in h:
            out.append("Tool Change")
        else:
            out.append("Speed Change")
    return out


def split(ls, names):
    """header lines, [lines of each operation], or None; the footer is in the last part"""
    cuts, i = [], 0
    for n in names:
        while i < len(ls) and not op_comment(ls[i], n):
            i += 1
        if i >= len(ls):
            return None
        cuts.append(i)
        i += 1
    if not cuts:
        return ls, []
    return ls[:cuts[0]], [ls[a:b] for a, b in zip(cuts, cuts[1:] + [len(ls)])]


def codes_of(ls):
    return [x for l in ls for x in l.codes()]


@prop("C01")
def frame(R):
    R.rule("header", "a program starts with a comment, then the modal preamble, then spindle start; no motion or "
                     "operation comes before them", 5)
    R.rule("order", "every operation appears exactly once, in the order in which it was added", 4)
    R.rule("footer", "after the last operation come the modal block, spindle stop, coolant stop when coolant is "
                     "used, and program end as the last line, once", 5)
    c = new(R)
    drill_cut(c)
    w = fn_where(c, "cq_cam.fluent", "Job", "to_gcode")
    for cool in (None, "FLOOD", "MIST"):
        for speed in (NONE, C(9000)):
            s, j = one_job(c, R, coolant=c.enum("CoolantState", cool) if cool else NONE, speed=speed, tool_number=C(1))
            for hname, hist in (HISTORIES if cool or speed is NONE else {**HISTORIES, **LONG}).items():
                key = f"{hname}; coolant {cool}; speed {'given' if speed is not NONE else 'None'}"
                names = kinds_of(hist, speed is not NONE)
                for s2, j2 in run_history(c, s, j, hist):
                    r, e = gcode(c, s2, j2)
                    if e or not r:
                        R.verdict("header", key, None, f"to_gcode: {len(r)} results, {len(e)} exceptions")
                    for s3, t in r:
                        check_frame(R, key, gtext.lines(t), names, cool, cval(speed), w)


def check_frame(R, key, ls, names, cool, speed, w):
    body = [l for l in ls if not l.empty()]
    raws = [l for l in body if l.raw and not l.comments]
    if raws:
        R.verdict("header", key, None, f"unresolved text {raws[0].text}")
        return
    sp = split(body, names)
    if sp is None:
        present = [n for n in set(names) if any(op_comment(l, n) for l in body)]
        missing = [n for n in set(names) if n not in present]
        R.verdict("order", key, False, f"operation {missing} missing from the program" if missing else
                  f"operations are not in the order added {names[:4]}", w)
        return
    for n in set(names):
        k = sum(op_comment(l, n) for l in body)
        R.verdict("order", f"{key}: {n}", k == names.count(n), f"operation {n!r} appears {k} times", w)
    if not names:
        # header and footer share the text: split at the second preamble
        idxs = [i for i, l in enumerate(body) if "G90" in l.codes()]
        if len(idxs) < 2:
            R.verdict("footer", key, False, "no closing modal block", w)
            R.verdict("header", key, bool(idxs), "no modal preamble", w)
            return
        head, rest = body[:idxs[1]], [body[idxs[1]:]]
    else:
        head, rest = sp
    hc = codes_of(head)
    problems = []
    if not head or head[0].words or not head[0].comments:
        problems.append("the first line is not a comment")
    for g in ("G90", "G94", "G17"):
        if g not in hc:
            problems.append(f"{g} missing before the first operation")
    if "M3" not in hc:
        problems.append("spindle not started before the first operation")
    else:
        m3 = next(i for i, l in enumerate(head) if "M3" in l.codes())
        if any(x in codes_of(head[m3:]) for x in ("M5",)):
            problems.append("spindle stopped again before the first operation")
        if "G90" in hc and not any("G90" in l.codes() for l in head[:m3 + 1]):
            problems.append("spindle start comes before the modal preamble")
        sw = [v for l in head for v in l.get("S")]
        if any(isinstance(v, Hole) for v in sw):
            R.verdict("header", key + " speed", None, f"S words {sw}")
        elif speed is None and sw:
            problems.append(f"S word {sw} though the job was made without a speed")
        elif speed is not None and sw != [str(speed)]:
            problems.append(f"spindle starts at {sw}, the job was made with speed {speed}")
        if cool and {"FLOOD": "M8", "MIST": "M7"}[cool] not in hc:
            problems.append("coolant not started")
    if any(x in hc for x in ("G1", "G2", "G3", "M30", "M2")):
        problems.append("motion or program end before the first operation")
    R.verdict("header", key, not problems, "; ".join(problems), w)
    tail = rest[-1]
    fp = []
    allc = codes_of(body)
    ends = [x for x in allc if x in ("M2", "M30")]
    if len(ends) != 1:
        fp.append(f"{len(ends)} program ends")
    elif not any(x in ("M2", "M30") for x in body[-1].codes()):
        fp.append("text after the program end")
    tc = codes_of(tail)
    if "M5" not in tc or (names and names[-1] == "Tool Change" and tc.count("M5") < 2):
        fp.append("spindle not stopped at the end")
    elif "M3" in tc and max(i for i, x in enumerate(tc) if x == "M3") > max(i for i, x in enumerate(tc) if x == "M5"):
        fp.append("spindle left running at the end")
    if cool:
        on = {"FLOOD": "M8", "MIST": "M7"}[cool]
        lastoff = max((i for i, x in enumerate(allc) if x == "M9"), default=-1)
        laston = max((i for i, x in enumerate(allc) if x == on), default=-1)
        if lastoff < laston:
            fp.append("coolant left on at the end")
    if "G90" not in tc:
        fp.append("no closing modal block after the last operation")
    R.verdict("footer", key, not fp, "; ".join(fp), w)


@prop("C02")
def preamble(R):
    R.rule("settings", "each modal block of the program selects the job's unit, work offset and path mode, absolute "
                       "distances, the XY plane, units per minute feed, and cancels compensation and cycles", 20)
    R.rule("groups", "no line holds two words of one modal group", 5)
    R.rule("nochange", "nothing between the opening block and the end of the program selects another unit, "
                       "distance mode, plane, work offset or feed mode", 5)
    c = new(R)
    drill_cut(c)
    w = fn_where(c, "cq_cam.command", "SafetyBlock", "__str__")
    cfgs = []
    for n in CODES["Unit"]:
        cfgs.append(("unit", "Unit", n))
    for n in CODES["WorkOffset"]:
        cfgs.append(("coordinate", "WorkOffset", n))
    for n in CODES["PlannerControlMode"]:
        cfgs.append(("controller_motion", "PlannerControlMode", n))
    for par, cname, member in cfgs:
        base = dict(unit=c.enum("Unit", "METRIC"), coordinate=c.enum("WorkOffset", "OFFSET_3"),
                    controller_motion=c.enum("PlannerControlMode", "EXACT_PATH"))
        want = {"units": "G21", "work offset": "G56", "path mode": "G61"}
        base[par] = c.enum(cname, member)
        want[{"unit": "units", "coordinate": "work offset", "controller_motion": "path mode"}[par]] = CODES[cname][member]
        want.update({"distance": "G90", "plane": "G17", "feed mode": "G94", "cutter compensation": "G40",
                     "length offset": "G49"})
        for cool in (None, "FLOOD"):
            s, j = one_job(c, R, coolant=c.enum("CoolantState", cool) if cool else NONE, speed=C(9000),
                           tool_number=C(1), **base)
            for hname in ("no operation", "tool and speed change", "drill"):
                hist = HISTORIES[hname]
                names = kinds_of(hist, True)
                for s2, j2 in run_history(c, s, j, hist):
                    r, e = gcode(c, s2, j2)
                    for s3, t in r:
                        body = [l for l in gtext.lines(t) if not l.empty()]
                        key = f"{par}={member}; {hname}; coolant {cool}"
                        check_modal(R, key, body, names, want, w)


def check_modal(R, key, body, names, want, w):
    if any(l.raw for l in body):
        R.verdict("settings", key, None, "unresolved text " + next(l.text for l in body if l.raw))
        return
    for l in body:
        cs = l.codes()
        gs = [GROUPS.get(x) for x in cs]
        dup = sorted({g for g in gs if g and gs.count(g) > 1})
        R.verdict("groups", key, not dup, f"line {l.text!r} has two words of group {dup}", w)
    sp = split(body, names)
    if sp is None:
        R.verdict("settings", key, None, "operations not found")
        return
    idx = [i for i, l in enumerate(body) if "G90" in l.codes()]
    start = next((i for i, l in enumerate(body) if any(x in ("M3", "M4") for x in l.codes())), None)
    if start is None:
        R.verdict("settings", key, None, "no spindle start")
        return
    blocks = [("opening", body[:start])]
    if names:
        last = sp[1][-1]
        stop = [l for l in last]
        m5 = [i for i, l in enumerate(stop) if "M5" in l.codes()]
        m6 = [i for i, l in enumerate(stop) if "M6" in l.codes()]
        frm = 0
        if m6:
            frm = m6[-1] + 1
        blocks.append(("closing", stop[frm:]))
    else:
        blocks.append(("closing", body[start + 1:]))
    for bn, blk in blocks:
        st = {}
        for x in codes_of(blk):
            g = GROUPS.get(x)
            if g:
                st[g] = x
        for g, code in want.items():
            R.verdict("settings", f"{key}; {bn} {g}", st.get(g) == code, f"{bn} block leaves {g} at {st.get(g)}, the job "
                      f"needs {code}", w)
    seen = set()
    for l in body:
        for x in l.codes():
            g = GROUPS.get(x)
            if g in ("units", "distance", "plane", "work offset", "feed mode", "arc distance"):
                if g == "arc distance":
                    R.verdict("nochange", f"{key} {g}", x != "G90.1", f"{x} makes arc centres absolute, but arc words are relative", w)
                else:
                    R.verdict("nochange", f"{key} {g}", x == want.get(g), f"{x} where the job needs {want.get(g)}", w)


# --------------------------------------------------------------------------
TOOLS = [dict(zip(("tool_number", "speed"), v)) for v in itertools.product((None, 0, 1, 2, 150), (None, 0, 800, 1000, 2000))]


@prop("C04")
def toolchange(R):
    R.rule("kind", "a different tool number inserts one tool change, otherwise a different speed one spindle "
                   "restart, otherwise nothing", 20)
    R.rule("change", "a tool change stops spindle and coolant, selects the new tool and its length offset, changes "
                     "the tool, then restarts spindle and coolant", 5)
    R.rule("speed", "the block that follows the change runs the spindle at the speed now in force", 5)
    R.rule("default", "without a tool the job is unchanged", 1)
    c = new(R)
    w = fn_where(c, "cq_cam.fluent", "Job", "update_tool")
    wt = fn_where(c, "cq_cam.command", "ToolChange", "__str__")
    for jn in (None, 0, 1):
        for js in (None, 1000):
            for cool in (None, "FLOOD", "MIST"):
                s, j = one_job(c, R, tool_number=C(jn), speed=C(js),
                               coolant=c.enum("CoolantState", cool) if cool else NONE)
                for s2, j2 in c.method(s, j, "update_tool")[0]:
                    o = ops_of(c, s2, j2)
                    R.verdict("default", f"job tool {jn} speed {js}", None if o is None else o == [],
                              "an operation appears without a tool", w)
                for tool in TOOLS:
                    tn, ts = tool["tool_number"], tool["speed"]
                    r0, _ = c.call(s, c.cls("Tool"), tool_number=C(tn), speed=C(ts))
                    for s1, t in r0:
                        c.keep(s1, "tool", t)
                        r, e = c.method(s1, j, "update_tool", t)
                        key = f"job tool {jn} speed {js} coolant {cool}, tool {tn} speed {ts}"
                        if e or not r:
                            R.verdict("kind", key, None if not e else False, f"{len(r)} results, {len(e)} exceptions", w)
                        for s2, j2 in r:
                            c.keep(s2, "job2", j2)
                            gr, ge = gcode(c, s2, j2)
                            for s3, text in gr:
                                check_change(R, key, text, jn, js, cool, tn, ts, w, wt)


def check_change(R, key, text, jn, js, cool, tn, ts, w, wt):
    body = [l for l in gtext.lines(text) if not l.empty()]
    if any(l.raw for l in body):
        R.verdict("kind", key, None, "unresolved text")
        return
    eff = js if ts is None else ts
    want = "Tool Change" if tn is not None and tn != jn else (
        "Speed Change" if ts is not None and ts != js else None)
    ops = [n for n in ("Tool Change", "Speed Change") for l in body if op_comment(l, n)]
    # judge by the codes, not by the names of operations
    cs = codes_of(body)
    changes = cs.count("M6")
    starts = cs.count("M3") + cs.count("M4")
    wantn = (1, 2) if want == "Tool Change" else ((0, 2) if want == "Speed Change" else (0, 1))
    R.verdict("kind", key, (changes, starts) == wantn,
              f"{changes} tool changes and {starts - 1} spindle restarts, expected {wantn[0]} and {wantn[1] - 1}", w)
    if want is None or (changes, starts) != wantn:
        return
    words = [(l_, v) for l in body for l_, v in l.words]
    code = [a + v if isinstance(v, str) else a for a, v in words]
    second = [i for i, x in enumerate(code) if x in ("M3", "M4")][1]
    sp = [v for a, v in words[second:] if a == "S"]
    nxt = next((i for i, x in enumerate(code) if i > second and x[0] == "M" and GROUPS.get(x) in ("spindle", "stop")), len(code))
    sp = [v for a, v in words[second:nxt] if a == "S"]
    if eff is None:
        R.verdict("speed", key, not sp, f"S word {sp} though no speed is set", w)
    else:
        R.verdict("speed", key, sp == [str(eff)], f"spindle restarts at {sp}, speed in force is {eff}", w)
    on = {"FLOOD": "M8", "MIST": "M7"}.get(cool)
    if want == "Tool Change":
        m6 = code.index("M6")
        first = [i for i, x in enumerate(code) if x in ("M3", "M4")][0]
        problems = []
        if "M5" not in code[first:m6]:
            problems.append("spindle not stopped before the change")
        if on and "M9" not in code[first:m6]:
            problems.append("coolant not stopped before the change")
        ln = next(l for l in body if "M6" in l.codes())
        before = [l for l in body[:body.index(ln) + 1]]
        tw = [v for l in before for v in l.get("T")]
        hw = [v for l in body for v in l.get("H")]
        if tw[-1:] != [str(tn)]:
            problems.append(f"T word {tw}, new tool is {tn}")
        if hw[-1:] != [str(tn)]:
            problems.append(f"H word {hw}, new tool is {tn}")
        if "G43" not in code[:second]:
            problems.append("length offset not enabled")
        if second < m6:
            problems.append("spindle restarted before the change")
        if on and on not in code[m6:nxt]:
            problems.append("coolant not restarted after the change")
        if any(x in ("G1", "G2", "G3", "M30", "M2", "M0") for x in code[first:second]):
            problems.append("unexpected code inside the change")
        R.verdict("change", key, not problems, "; ".join(problems), wt)


@prop("C05")
def tool_effect(R):
    R.rule("settings", "after a tool is given, the job's diameter, number, feed and speed are the tool's where it "
                       "sets them and the previous ones elsewhere", 16)
    R.rule("receiver", "the job that the tool was given to keeps its own settings", 16)
    R.rule("others", "a tool changes no other setting of the job", 16)
    R.rule("persist", "giving the same tool again changes nothing more", 4)
    R.rule("stays", "a setting that a later tool leaves open stays what the tools before made it", 64)
    R.rule("used", "an operation that is given a tool is generated with that tool's settings, after the change", 3)
    c = new(R)
    w = fn_where(c, "cq_cam.fluent", "Job", "update_tool")
    fields = ("tool_diameter", "tool_number", "feed", "speed")
    jv = dict(tool_diameter=C(3), tool_number=C(1), feed=C(100), speed=C(1000))
    tv = dict(tool_diameter=C(6), tool_number=C(2), feed=C(200), speed=C(2000))
    s, j = one_job(c, R, coolant=NONE, **jv)
    others = ("plunge_feed", "rapid_height", "op_safe_height", "name", "precision", "unit", "plane", "coordinate", "distance",
              "arc_distance", "controller_motion", "coolant", "top", "start_speed")
    before = attrs(c.I.freeze(s, j))
    low = dict(tool_diameter=C(1), tool_number=C(0), feed=C(33), speed=C(300))
    for tv, mask in itertools.product((tv, low), itertools.product((True, False), repeat=4)):
        kw = {f: (tv[f] if m else NONE) for f, m in zip(fields, mask)}
        r0, _ = c.call(s, c.cls("Tool"), **kw)
        for s1, t in r0:
            c.keep(s1, "tool", t)
            key = "tool sets " + (",".join(f"{f} {show(tv[f])}" for f, m in zip(fields, mask) if m) or "nothing")
            for s2, j2 in c.method(s1, j, "update_tool", t)[0]:
                c.keep(s2, "job2", j2)
                a = attrs(c.I.freeze(s2, j2))
                own = attrs(c.I.freeze(s2, j))
                bad = [f for f in fields if own.get(f) is not None and own[f].op == "c" and own[f] is not jv[f]]
                R.verdict("receiver", key, not bad, f"the job the tool is given to changes its own {', '.join(bad)}", w)
                bad = [f for f in others if f in before and f in a and a[f] is not before[f]]
                R.verdict("others", key, not bad, f"{', '.join(f'{f} {show(before[f])} becomes {show(a[f])}' for f in bad)}", w)
                for f, m in zip(fields, mask):
                    want = tv[f] if m else jv[f]
                    got = a.get(f)
                    R.verdict("settings", f"{key}: {f}", None if got is None else got is want,
                              f"{f} is {show(got) if got is not None else '?'}, expected {show(want)}", w)
                n1 = ops_of(c, s2, j2)
                for s3, j3 in c.method(s2, j2, "update_tool", t)[0]:
                    n2 = ops_of(c, s3, j3)
                    b = attrs(c.I.freeze(s3, j3))
                    ok = None if n1 is None or n2 is None else (
                        len(n1) == len(n2) and all(b.get(f) is a.get(f) for f in fields))
                    R.verdict("persist", key, ok, "the same tool given twice inserts another change", w)
    tv = dict(tool_diameter=C(6), tool_number=C(2), feed=C(200), speed=C(2000))
    # two tools after one another: what the second leaves open stays as the first one set it
    tv2 = dict(tool_diameter=C(1), tool_number=C(0), feed=C(33), speed=C(300))
    for m1 in itertools.product((True, False), repeat=4):
        k1 = {f: (tv[f] if m else NONE) for f, m in zip(fields, m1)}
        for m2 in ((False,) * 4, (True, False, False, False), (False, True, False, False), (False, False, True, False), (False, False, False, True), (True,) * 4):
            k2 = {f: (tv2[f] if m else NONE) for f, m in zip(fields, m2)}
            key = " then ".join((",".join(f for f, m in zip(fields, mm) if m) or "nothing") for mm in (m1, m2))
            for s1, t1 in c.call(s, c.cls("Tool"), **k1)[0]:
                c.keep(s1, "first tool", t1)
                for s2, j2 in c.method(s1, j, "update_tool", t1)[0]:
                    c.keep(s2, "job2", j2)
                    for s3, t2 in c.call(s2, c.cls("Tool"), **k2)[0]:
                        c.keep(s3, "second tool", t2)
                        for s4, j4 in c.method(s3, j2, "update_tool", t2)[0]:
                            a = attrs(c.I.freeze(s4, j4))
                            for f, x, y in zip(fields, m1, m2):
                                want = tv2[f] if y else tv[f] if x else jv[f]
                                got = a.get(f)
                                R.verdict("stays", f"tools set {key}: {f}", None if got is None else got is want,
                                          f"{f} is {show(got) if got is not None else '?'}, expected {show(want)}", w)
    # operations take the updated job
    seen = []

    def cut(I, st, b, F, node):
        jb = [v for v in b.values() if I.cls_of(st, v) is not None and I.cls_of(st, v).name == "Job"]
        seen.append([attrs(I.freeze(st, v)) for v in jb])
        st2, l = st, I.new_list(st, [], F, node)
        return [(st2, l)]
    c.I.cuts[("cq_cam.operations.profile", "profile")] = cut
    c.I.cuts[("cq_cam.operations.pocket", "pocket")] = cut

    def dcut(I, st, b, F, node):
        o = b["self"]
        seen.append([attrs(I.freeze(st, v)) for v in st.heap[o.args[0]].attrs.values()
                     if I.cls_of(st, v) is not None and I.cls_of(st, v).name == "Job"])
        I.setattr(st, o, "commands", I.new_list(st, [], F, node), None, F, node)
        return [(st, NONE)]
    c.I.cuts[("cq_cam.operations.drill", "Drill.__post_init__")] = dcut
    for op, args in (("profile", [In("shape", "Workplane")]), ("wire_profile", [In("wire", "Wire")]),
                     ("pocket", [In("areas", "Workplane")]), ("drill", [In("holes", "Workplane")])):
      masks = [(True,) * 4] + [tuple(k == n for n in range(4)) for k in range(4)]
      for vals, mask in itertools.product((tv, tv2), masks):
        given = {f: vals[f] for f, m in zip(fields, mask) if m}
        want = {**jv, **given}
        key = f"{op}, tool sets {', '.join(f'{f} {show(v)}' for f, v in given.items())}"
        r0, _ = c.call(s, c.cls("Tool"), **given)
        for s1, t in r0:
            c.keep(s1, "tool", t)
            del seen[:]
            kw = {"depth": num("depth")} if op == "drill" else {}
            r, e = c.method(s1, j, op, *args, tool=t, **kw)
            wo = fn_where(c, "cq_cam.fluent", "Job", op)
            if not seen:
                R.verdict("used", key, None, "generator not reached")
            for js in seen:
                if not any(f in a for a in js for f in fields):
                    R.verdict("used", key, None, "the job that reaches the generator is not resolved")
                for a in js:
                    bad = [f for f in fields if a.get(f) is not None and a.get(f) is not want[f]]
                    R.verdict("used", key, not bad, f"generated with another {', '.join(bad)}", wo)
            for s2, j2 in r:
                o = ops_of(c, s2, j2)
                if o is not None:
                    names = [cval(attrs(x).get("name", NONE)) for x in o]
                    first = "Tool Change" if "tool_number" in given else "Speed Change" if "speed" in given else None
                    R.verdict("used", f"{key}: order", len(o) == 1 + (first is not None) and first in (None, names[0]),
                              f"operations are {names}", wo)


@prop("C03")
def immutable(R):
    R.rule("receiver", "a fluent call leaves the job it is called on as it was", 8)
    R.rule("prefix", "the returned job keeps the receiver's operations and adds its own after them", 4)
    R.rule("arguments", "a fluent call leaves its list arguments and its tool as they were", 3)
    c = new(R)

    def empty(I, st, b, F, node):
        return [(st, I.new_list(st, [], F, node))]
    c.I.cuts[("cq_cam.operations.profile", "profile")] = empty
    c.I.cuts[("cq_cam.operations.pocket", "pocket")] = empty

    def dcut(I, st, b, F, node):
        o = b["self"]
        I.setattr(st, o, "commands", I.new_list(st, [], F, node), None, F, node)
        return [(st, NONE)]
    c.I.cuts[("cq_cam.operations.drill", "Drill.__post_init__")] = dcut
    c.I.cuts[("cq_cam.operations.op3d", "Surface3D.__post_init__")] = dcut
    s0, j0 = one_job(c, R, tool_number=C(1), speed=C(1000), feed=C(100), tool_diameter=C(3), coolant=NONE)
    bases = [("empty job", s0, j0)]
    for s, j in run_history(c, s0, j0, [dict(tool_number=C(2))]):
        bases.append(("job with one operation", s, j))
    tools = [None] + [dict(tool_number=C(n), speed=C(sp), feed=C(f), tool_diameter=C(d)) for n, sp, f, d in (
        (None, None, None, None), (7, None, None, None), (None, 5000, None, None), (2, 1000, 50, 8), (7, 5000, 50, 8),
        (None, None, 50, None), (None, None, None, 8), (1, 1000, 50, 3))]
    calls = [("profile", [In("shape", "Workplane")], {}), ("wire_profile", [In("wire", "Wire")], {}),
             ("wire_profile list", ["wires"], {}), ("pocket", [In("areas", "Workplane")], {}),
             ("pocket lists", ["faces", "faces2"], {}),
             ("drill", [In("holes", "Workplane")], {"depth": num("depth")}),
             ("surface3d", [], {}), ("update_tool", [], {}), ("to_gcode", [], {})]
    for bname, s, j in bases:
        c.keep(s, "base", j)
        for cname, args, kw in calls:
            for tool in tools:
                meth = cname.split(" ")[0]
                if tool is not None and meth in ("surface3d", "to_gcode"):
                    continue
                if bname != "empty job" and tool is not None and tool is not tools[5]:
                    continue
                st = s.fork()
                k = dict(kw)
                held = []
                if tool is not None:
                    st, t = c.call(st, c.cls("Tool"), **tool)[0][0]
                    c.keep(st, "tool", t)
                    held.append(("tool", t))
                    if meth == "update_tool":
                        args = [t]
                    else:
                        k["tool"] = t
                elif meth == "update_tool":
                    args = []
                a2 = []
                for i, a in enumerate(args):
                    if a in ("wires", "faces", "faces2"):
                        ty = "Wire" if a == "wires" else "Face"
                        l = c.I.new_list(st, [mk("e", In(f"{a}{q}", ty)) for q in range(2)], c.F, c.node)
                        st.heap[(("arg", i), 0)] = st.heap.pop(l.args[0])
                        l = mk("ref", (("arg", i), 0))
                        c.keep(st, f"arg{i}", l)
                        held.append((f"argument {i + 1}", l))
                        a = l
                    a2.append(a)
                before = c.I.freeze(st, j)
                hb = [c.I.freeze(st, v) for _, v in held]
                r, e = c.method(st, j, meth, *a2, **k)
                key = f"{cname} on {bname}, " + ("no tool" if tool is None else "tool " + ",".join(
                    f"{n}" for n, v in tool.items() if v is not NONE))
                w = fn_where(c, "cq_cam.fluent", "Job", meth)
                for s2, j2 in r:
                    after = c.I.freeze(s2, j)
                    if after is before:
                        R.verdict("receiver", key, True)
                    else:
                        A, B = attrs(before), attrs(after)
                        diff = [n for n in B if B.get(n) is not A.get(n)]
                        if all(same_list(A.get(n), B[n]) for n in diff):
                            R.verdict("receiver", key, True)
                        elif any(undef(B[n]) and not (n == "operations" and exact(A.get(n)) and exact(B[n]) and
                                                      len(A[n].args[0]) != len(B[n].args[0])) for n in diff):
                            R.verdict("receiver", key, None, f"unresolved {diff}")
                        else:
                            R.verdict("receiver", key, False, f"{meth} changes {', '.join(diff)} of the job it is called on", w)
                    for (hn, hv), b4 in zip(held, hb):
                        R.verdict("arguments", f"{key}: {hn}", c.I.freeze(s2, hv) is b4, f"{meth} changes its {hn}", w)
                    if meth == "to_gcode":
                        continue
                    o1 = attrs(before).get("operations")
                    o2 = attrs(c.I.freeze(s2, j2)).get("operations")
                    if o1 is None or o2 is None or o1.op != "lst" or o2.op != "lst":
                        R.verdict("prefix", key, None, "operations not resolved")
                        continue
                    names = lambda o: [attrs(x.args[0]).get("name") if x.op == "e" else x for x in o.args[0]]
                    n1, n2 = names(o1), names(o2)
                    least = 0 if meth == "update_tool" else 1
                    R.verdict("prefix", key, n2[:len(n1)] == n1 and len(n2) >= len(n1) + least,
                              f"operations {[show(x) for x in n1]} become {[show(x) for x in n2]}", w)


def exact(t):
    return t is not None and t.op == "lst" and all(x.op == "e" for x in t.args[0])


def same_list(a, b):
    """lists of the same operations (an operation refers back to a job, so it is compared by name and commands)"""
    if not (exact(a) and exact(b)) or len(a.args[0]) != len(b.args[0]):
        return False
    for x, y in zip(a.args[0], b.args[0]):
        p, q = attrs(x.args[0]), attrs(y.args[0])
        if not p or set(p) != set(q) or any(p[n] is not q[n] for n in p if n != "job"):
            return False
    return True


NAMES = ("a(b)c", "x)G0 X99", "x\nG0 X99", "x\rG0 X99", "x\r\nM3", "((", "))G1 Z-9(", "\n", "%\nM30", "tail\n", "\r)")


@prop("C13")
def injection(R):
    R.rule("comment", "text taken from the job's name never contains a character that ends the comment it is in", 8)
    R.rule("only", "a job's or operation's name appears only inside comments", 4)
    c = new(R)
    drill_cut(c)
    w = fn_where(c, "cq_cam.command", "comment")
    s, j = one_job(c, R, tool_number=C(1), speed=C(1000), coolant=NONE, name=In("name", "str"))
    for hname, hist in HISTORIES.items():
        for s2, j2 in run_history(c, s, j, hist):
            r, e = gcode(c, s2, j2)
            for s3, t in r:
                for i, l in enumerate(gtext.lines(t)):
                    out = [h for h in l.raw] + [v for _, v in l.words if isinstance(v, Hole)]
                    for h in out:
                        if any(x.op == "in" and x.args[0] == "name" for x in atoms(h.term)):
                            R.verdict("only", f"{hname} line {i + 1}", False, f"the name is printed outside a comment: {l.text}", w)
                    for b in l.bad:
                        if "name" in b:
                            R.verdict("only", f"{hname} line {i + 1}", False, f"the name is printed outside a comment: {l.text}", w)
                    for cm in l.comments:
                        for p in cm:
                            if not isinstance(p, Hole):
                                continue
                            for ch, nm in (("(", "("), (")", ")"), ("\n", "line feed"), ("\r", "carriage return")):
                                v = gtext.chars_possible(p.term, ch)
                                R.verdict("comment", f"{hname} line {i + 1} {nm}", None if v is None else not v,
                                          f"a {nm} in the text can end the comment early: {show(p.term)[:100]}", w)
                R.verdict("only", hname, True)
    # particular names, whose text is folded from the source
    plain = {}
    for name in ("Job",) + NAMES:
        s, j = one_job(c, R, tool_number=C(1), speed=C(1000), coolant=NONE, name=C(name))
        for hname in ("no operation", "tool and speed change", "drill"):
            for s2, j2 in run_history(c, s, j, HISTORIES[hname]):
                for s3, t in gcode(c, s2, j2)[0]:
                    ls = gtext.lines(t)
                    key = f"{hname} named {name!r}"
                    if any(h for l in ls for h in l.raw):
                        R.verdict("comment", key, None, "text not resolved")
                        continue
                    got = [[(a, str(v)) for a, v in l.words] + l.bad for l in ls]
                    if name == "Job":
                        plain[hname] = got
                        continue
                    if hname not in plain:
                        R.verdict("comment", key, None, "text not resolved")
                        continue
                    extra = [x for x in got if x not in plain[hname]]
                    cr = any(ch in p for l in ls for cm in l.comments for p in cm if isinstance(p, str) for ch in "\r(")
                    R.verdict("comment", key, got == plain[hname] and not cr,
                              f"a job named {name!r} gives the program {extra[0] if extra else 'other lines'}"
                              if got != plain[hname] else f"the name {name!r} keeps a character that ends a comment", w)


@prop("C24")
def save(R):
    R.rule("content", "saving writes exactly the program text to the named file", 2)
    R.rule("mode", "the file is opened for writing text from its start, and closed", 2)
    log = []

    class H:
        def on_ext_call(self, I, st, name, recv, args, kw, F, node, *rest):
            log.append((name, recv, [I.freeze(st, a) for a in args], {k: I.freeze(st, v) for k, v in kw.items() if isinstance(v, T)}))
    c = new(R)
    drill_cut(c)
    c.I.hooks.append(H())
    w = fn_where(c, "cq_cam.fluent", "Job", "save_gcode")
    s, j = one_job(c, R, tool_number=C(1), speed=C(1000), coolant=NONE)
    for hname in ("no operation", "tool and speed change", "drill"):
        for s2, j2 in run_history(c, s, j, HISTORIES[hname]):
            text = [t for _, t in gcode(c, s2, j2)[0]]
            del log[:]
            r, e = c.method(s2, j2, "save_gcode", In("file_name", "str"))
            opens = [x for x in log if x[0] in ("builtins.open", "open", ".open", "io.open")]
            writes = [x for x in log if x[0] in (".write", ".writelines", ".write_text")]
            prints = [x for x in log if x[0] == "builtins.print"]
            if not r:
                R.verdict("content", hname, False, "saving never succeeds", w)
                continue
            if not writes and not prints:
                opaque = [x[0] for x in log if any(In("file_name", "str") in set(subterms(a)) for a in x[2])]
                R.verdict("content", hname, None if opaque and not opens else False, "nothing is written to the file", w)
                continue
            if prints:
                R.verdict("content", hname, None, "written by print")
                continue
            whole = [t for x in writes for t in x[2][:1]]
            ok = any(strcat(whole) is t for t in text)
            R.verdict("content", hname, ok, f"written text differs from the program: {show(strcat(whole))[:100]}", w)
            for x in opens:
                fn = x[2][0] if x[2] else None
                mode = x[2][1] if len(x[2]) > 1 else x[3].get("mode")
                mv = cval(mode) if mode is not None else "r"
                R.verdict("mode", f"{hname} file", In("file_name", "str") in atoms(fn) if fn is not None else None,
                          "another file is opened", w)
                R.verdict("mode", f"{hname} mode", None if mv is None else ("w" in mv or "x" in mv) and "b" not in mv,
                          f"file opened with mode {mv!r}", w)


@prop("C29")
def zeros(R):
    R.rule("zero", "an explicit zero for a height, feed, tool number or speed is used as given", 5)
    R.rule("default", "an omitted height takes the default of the job's unit, an omitted plunge feed takes the feed", 5)
    c = new(R)
    w = fn_where(c, "cq_cam.fluent", "Job", "__init__")
    for unit, rh, sh in (("METRIC", 10, 1), ("IMPERIAL", 0.4, 0.04)):
        for how in ("zero", "None", "omitted", "given"):
            g = {"zero": C(0), "None": NONE, "omitted": "default", "given": None}[how]
            kw = dict(plunge_feed=g, rapid_height=g, op_safe_height=g, unit=c.enum("Unit", unit))
            if how == "given":
                kw.update({k: num(k) for k in ("plunge_feed", "rapid_height", "op_safe_height")})
            r, e = jobs(c, **kw)
            for s, j in r:
                a = attrs(c.I.freeze(s, j))
                for f, d in (("plunge_feed", num("feed")), ("rapid_height", C(rh)), ("op_safe_height", C(sh))):
                    got = a.get(f)
                    key = f"{f} {how}, {unit}"
                    if got is None or (undef(got)):
                        R.verdict("zero" if how == "zero" else "default", key, None, "not resolved")
                        continue
                    want = C(0) if how == "zero" else (num(f) if how == "given" else d)
                    if f == "plunge_feed" and how in ("None", "omitted"):
                        want = next((x for x in subterms(got) if x.op == "in" and x.args[0] == "feed"), want)
                    same = got is want or (got.op == "c" and want.op == "c" and got.args[0] == want.args[0])
                    R.verdict("zero" if how == "zero" else "default", key, same,
                              f"{f} is {show(got)}, expected {show(want)}", w)
    # zeros of a tool
    s, j = one_job(c, R, tool_number=C(1), speed=C(1000), feed=C(100), tool_diameter=C(3), coolant=NONE)
    wu = fn_where(c, "cq_cam.fluent", "Job", "update_tool")
    for f in ("tool_number", "speed", "feed", "tool_diameter"):
        r0, _ = c.call(s, c.cls("Tool"), **{f: C(0)})
        for s1, t in r0:
            c.keep(s1, "tool", t)
            for s2, j2 in c.method(s1, j, "update_tool", t)[0]:
                a = attrs(c.I.freeze(s2, j2))
                got = a.get(f)
                R.verdict("zero", f"tool {f}", None if got is None else cval(got) == 0,
                          f"{f} 0 of the tool becomes {show(got) if got is not None else '?'}", wu)
    # zero words are printed
    for n, field, letter in (("Cut", "feed", "F"), ("CircularCW", "feed", "F"), ("StartSequence", "speed", "S")):
        st = c.state()
        if n == "StartSequence":
            r, e = c.call(st, c.cls(n), speed=C(0), coolant=NONE)
        else:
            kw = {}
            for p in ("end", "start") + (("center", "mid") if n != "Cut" else ()):
                st, kw[p] = av(c, st, num(p + "x"), num(p + "y"), num(p + "z"))
                c.keep(st, p, kw[p])
            r, e = c.call(st, c.cls(n), feed=C(0), **kw)
        for s1, o in r:
            c.keep(s1, "cmd", o)
            for s2, t in c.call(s1, mk("ext", "builtins.str"), o)[0]:
                ls = gtext.lines(t)
                vs = [v for l in ls for v in l.get(letter)]
                R.verdict("zero", f"{n} {letter}0", vs == ["0"], f"{n} with {field} 0 prints {show(t)[:80]}",
                          fn_where(c, "cq_cam.command", n))
    # zero coordinates are printed
    for n in ("Rapid", "Cut"):
        st, end = av(c, c.state(), C(0), C(0), C(0))
        c.keep(st, "end", end)
        for s1, o in c.call(st, c.cls(n), end, NONE)[0]:
            c.keep(s1, "cmd", o)
            for s2, t in c.call(s1, mk("ext", "builtins.str"), o)[0]:
                ls = gtext.lines(t)
                got = [(l_, v) for l in ls for l_, v in l.words if l_ in "XYZ"]
                R.verdict("zero", f"{n} at the origin", None if undef(t) else got == [("X", "0"), ("Y", "0"), ("Z", "0")] or (
                    [a for a, _ in got] == ["X", "Y", "Z"]), f"{n} to the origin prints {show(t)[:80]}",
                    fn_where(c, "cq_cam.command", n))
