"""Profiles: which wires are cut, in which order, and with which settings."""
from . import prop
from .common import *  # noqa
from .common import attrs, fn_where, new, num, one_job, parallel
from ..terms import C, NONE, T, In, app, mk, show, subterms
from ..engine import E
from .reject import lst
from .path import Tally

PR = "cq_cam.operations.profile"

SHAPES = {      # what is profiled: w a wire, f<n> a face with n inner wires
    "a wire": ["w"], "wires": ["w", "w"], "a face": ["f0"], "a face with a hole": ["f1"], "a face with 2 holes": ["f2"],
    "faces with holes": ["f1", "f2"], "a face with a hole and a wire": ["f1", "w"], "a wire and a face with 2 holes": ["w", "f2"],
    "faces with and without holes": ["f0", "f2", "f0", "f1"],
    "a face with 30 holes": ["f30"], "20 faces with holes": ["f2"] * 20,
}
HOW = ("list", "alone", "Workplane")
OFFSETS = ("both", "outer only", "inner only", "zero both")


def offsets(which):
    """(outer, inner)"""
    return (NONE if which.endswith("inner only") else ZERO if which.startswith("zero") else num("outer_offset"),
            NONE if which.endswith("outer only") else ZERO if which.startswith("zero") else num("inner_offset"))


def profiled(R, kinds, how, which, opts):
    c = new(R)
    c.I.summaries_on, c.I.unroll = False, 80
    objs, outers, inners, inner, outer = [], [], [], {}, {}
    for k, kind in enumerate(kinds):
        if kind == "w":
            o = In(f"wire{k}", "Wire")
            outers.append(o)
        else:
            o = In(f"face{k}", "Face")
            inner[o] = [In(f"inner{k}{chr(97 + i)}", "Wire") for i in range(int(kind[1:]))]
            outer[o] = In(f"outer{k}", "Wire")
            outers.append(outer[o])
            inners += inner[o]
        objs.append(o)
    wp = In("workplane", "Workplane")

    def given(I, st, name, recv, args, kw, F, node):
        w = I.freeze(st, recv)
        if w in inner and name in ("innerWires", "outerWire"):
            return [(st, outer[w])] if name == "outerWire" else [(st, I.new_list(st, [E(x) for x in inner[w]], F, node))]
        if w is wp and name == "vals":
            return [(st, I.new_list(st, [E(x) for x in objs], F, node))]
        return None
    c.I.given = given
    s, j = one_job(c, R, tool_number=C(1), speed=C(1000), feed=C(100), coolant=NONE)
    if how == "Workplane":
        v = wp
        c.I.known = lambda o, n: mk("lst", tuple(E(x) for x in objs)) if o is wp and n == "objects" else None
    elif how == "alone":
        v = objs[0]
    else:
        v = lst(c, s, *objs)

    def cut(I, st, b, F, node):
        vals = [I.freeze(st, x) for x in b.values() if isinstance(x, T)]
        return [(st, I.new_list(st, [E(app("pass of", *[x for x in vals if x.op != "obj"])),
                                     E(app("pass end", *[x for x in vals if x.op != "obj"]))], F, node))]
    c.I.cuts[(PR, "profile")] = cut
    kw = {}
    zero = which.startswith("zero")
    if which.endswith("wires"):
        kw["offset"] = ZERO if zero else num("offset")
        meth = "wire_profile"
    else:
        kw["outer_offset"], kw["inner_offset"] = offsets(which)
        meth = "profile"
    if opts:
        kw["stepdown"] = num("stepdown")
        kw["tabs"] = In("tabs", "Tabs")
    r, e = c.method(s, j, meth, v, **kw)
    return c, r, e, outers, inners


@prop("C27")
def inner_first(R):
    R.rule("order", "the inner wires of what is profiled are cut before any outer wire, each group in the order in which it was given", 20)
    R.rule("once", "each wire that has an offset is profiled once and no other", 20)
    R.rule("settings", "outer wires are profiled with the outer offset, inner wires with the inner one, all with the stepdown "
                       "and the tabs that were given", 20)
    c0 = new(R)
    wp, ww = fn_where(c0, "cq_cam.fluent", "Job", "profile"), fn_where(c0, "cq_cam.fluent", "Job", "wire_profile")
    items = [(n, k, h, o, x) for n, k in SHAPES.items() for h in HOW for o in OFFSETS for x in (True, False)
             if (h != "alone" or len(k) == 1)]
    items += [(n, k, h, o, True) for n, k in SHAPES.items() for h in HOW for o in ("zero outer only", "zero inner only") if h != "alone" or len(k) == 1]
    items += [(n, k, h, o, x) for n, k in (("a wire", ["w"]), ("wires", ["w"] * 2), ("3 wires", ["w"] * 3), ("30 wires", ["w"] * 30))
              for h in ("list", "alone") for o in ("wires", "zero wires") for x in (True, False) if h != "alone" or len(k) == 1]

    def check(R, chunk):
        t = Tally(R)
        for name, kinds, how, which, opts in [i for k, i in enumerate(items) if k % 8 == chunk]:
            key = f"{name}, {how}, {which}{', stepdown and tabs' if opts else ''}"
            w = ww if which.endswith("wires") else wp
            c, r, e, outers, inners = profiled(R, kinds, how, which, opts)
            if not r:
                t.add("once", key, None if not e else False, "it is rejected", w)
                continue
            oo, io = ((ZERO if which.startswith("zero") else num("offset"), None) if which.endswith("wires") else
                      [None if x is NONE else x for x in offsets(which)])
            want = ([(x, io) for x in inners] if io is not None else []) + ([(x, oo) for x in outers] if oo is not None else [])
            for st, jv in r:
                ops = attrs(c.I.freeze(st, jv)).get("operations")
                if ops is None or ops.op != "lst" or not ops.args[0] or any(x.op != "e" for x in ops.args[0]):
                    t.add("once", key, None, "the operation is not known")
                    continue
                cmds = attrs(ops.args[0][-1].args[0]).get("commands")
                if cmds is None or cmds.op != "lst" or any(x.op != "e" or x.args[0].op != "app" or
                                                           x.args[0].args[0] not in ("pass of", "pass end") for x in cmds.args[0]):
                    t.add("once", key, None, "the commands are not known")
                    continue
                got = [x.args[0] for x in cmds.args[0] if x.args[0].args[0] == "pass of"]
                ends = [x.args[0] for x in cmds.args[0] if x.args[0].args[0] == "pass end"]
                wires = [next((v for v in g.args[1:] if v in outers or v in inners), None) for g in got]
                if None in wires:
                    t.add("once", key, None, "a wire is not known")
                    continue
                full = [x.args[0].args[1:] for x in cmds.args[0]]
                whole = full[::2] == full[1::2] and len(got) == len(ends)
                t.add("once", key, whole and sorted(x.n for x in wires) == sorted(x.n for x, _ in want),
                      f"profiled are {[show(x) for x in wires]} of {[show(x) for x, _ in want]}" if whole else
                      "the motions of a wire are not kept whole", w)
                t.add("order", key, wires == [x for x, _ in want] if sorted(x.n for x in wires) == sorted(x.n for x, _ in want) else None,
                      f"wires are cut in the order {[show(x) for x in wires]}", w)
                bad = []
                for x, g in zip(wires, got):
                    o = io if x in inners else oo
                    for v, nm in [(o, "offset")] + ([(num("stepdown"), "stepdown"), (In("tabs", "Tabs"), "tabs")] if opts else []):
                        if v is not None and v not in g.args:
                            bad.append(f"{show(x)} without its {nm}")
                    if not opts and any(v in g.args for v in (num("stepdown"), In("tabs", "Tabs"))):
                        bad.append(f"{show(x)} with settings that were not given")
                t.add("settings", key, not bad, "; ".join(bad[:3]), w)
        t.flush()
    parallel(R, range(8), check)
