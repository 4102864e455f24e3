"""Readable print of an abstract tool path (debugging and diagnostics)."""
from .terms import show


def lines(segs, ind=0, out=None, full=False):
    out = [] if out is None else out
    p = "  " * ind
    for s in segs:
        if s.op == "e":
            v = s.args[0]
            if v.op == "obj":
                a = dict(v.args[1])
                out.append(p + v.args[0].name + " " + " ".join(f"{k}={short(x)}" for k, x in a.items() if k in (
                    "end", "start", "feed", "center", "mid", "speed", "tool_number", "coolant")))
            else:
                out.append(p + show(v)[:200])
        elif s.op == "many":
            out.append(p + f"LOOP line {s.args[0][1]} over {show(s.args[1])[:160]}")
            for nm, alts in (("first", s.args[2]), ("rest", s.args[3])):
                for segs2, g in alts:
                    out.append(p + f" {nm}: " + (" & ".join(f"{show(q)[:70]}={v}" for q, v in g)[:300]))
                    lines(segs2, ind + 2, out)
        elif s.op == "alt":
            out.append(p + "ALT")
            for segs2, g in s.args[0]:
                out.append(p + " | " + (" & ".join(f"{show(q)[:70]}={v}" for q, v in g)[:300]))
                lines(segs2, ind + 2, out)
        else:
            out.append(p + s.op + " " + show(s)[:200])
    return out


def short(v):
    if v.op == "obj" and v.args[0].name == "AddressVector":
        return "(" + ", ".join(show(dict(v.args[1])[k])[:110] for k in "xyz") + ")"
    return show(v)[:120]
