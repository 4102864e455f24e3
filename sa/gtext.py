"""Abstract G-code: string terms -> lines of words, without running anything."""
import re

from .terms import T, C, show
from . import models  # noqa


class Hole:
    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return "{" + show(self.term)[:60] + "}"


def parts(t):
    """flat list of str constants and Hole"""
    if t.op == "c" and isinstance(t.args[0], str):
        return [t.args[0]]
    if t.op == "str":
        out = []
        for x in t.args:
            out.extend(parts(x))
        return out
    if t.op == "app" and t.args[0] == "sjoin" and len(t.args) == 3:
        sep, seq = t.args[1], t.args[2]
        segs = seq.args if seq.op == "tup" else (seq.args[0] if seq.op == "lst" else None)
        if segs is None and isinstance(seq, tuple):
            segs = seq
        if segs is not None and sep.op == "c" and all(s.op != "many" and s.op != "alt" and s.op != "spread" and s.op != "unk" for s in segs):
            out = []
            for i, s in enumerate(segs):
                if i:
                    out.append(sep.args[0])
                out.extend(parts(s.args[0] if s.op == "e" else s))
            return out
    return [Hole(t)]


class Line:
    def __init__(self):
        self.words = []      # (letter, value str | Hole)
        self.comments = []   # list of part lists
        self.raw = []        # holes standing for whole text
        self.bad = []        # text that is not a word
        self.text = ""

    def __repr__(self):
        return self.text

    def codes(self):
        return [l + v for l, v in self.words if l in "GM" and isinstance(v, str)]

    def get(self, letter):
        return [v for l, v in self.words if l == letter]

    def empty(self):
        return not (self.words or self.comments or self.raw or self.bad)


WORD = re.compile(r"^([A-Za-z])([+-]?\d+(?:\.\d*)?|[+-]?\.\d+)$")


def lines(t):
    """Lines of an abstract program text"""
    out, cur = [], Line()
    tok, com = [], None          # current token pieces / comment pieces

    def flush():
        nonlocal tok
        if not tok:
            return
        if len(tok) == 1 and isinstance(tok[0], str):
            m = WORD.match(tok[0])
            if m:
                cur.words.append((m.group(1).upper(), norm(m.group(2))))
            else:
                cur.bad.append(tok[0])
        elif len(tok) == 1:
            cur.raw.append(tok[0])
        elif len(tok) == 2 and isinstance(tok[0], str) and len(tok[0]) == 1 and tok[0].isalpha() and isinstance(tok[1], Hole):
            cur.words.append((tok[0].upper(), tok[1]))
        else:
            cur.bad.append("".join(str(x) for x in tok))
        tok = []

    def push(x):
        if isinstance(x, str) and tok and isinstance(tok[-1], str):
            tok[-1] += x
        else:
            tok.append(x)

    for p in parts(t):
        if isinstance(p, Hole):
            cur.text += str(p)
            if com is not None:
                com.append(p)
            else:
                push(p)
            continue
        for ch in p:
            if ch != "\n":
                cur.text += ch
            if com is not None:
                if ch == ")":
                    cur.comments.append(com)
                    com = None
                elif ch == "\n":
                    cur.bad.append("line break inside a comment")
                    cur.comments.append(com)
                    com = None
                    out.append(cur)
                    cur = Line()
                elif com and isinstance(com[-1], str):
                    com[-1] += ch
                else:
                    com.append(ch)
            elif ch == "(":
                flush()
                com = []
            elif ch in " \t":
                flush()
            elif ch == "\n":
                flush()
                out.append(cur)
                cur = Line()
            else:
                push(ch)
    if com is not None:
        cur.bad.append("unclosed comment")
        cur.comments.append(com)
    flush()
    out.append(cur)
    return out


def norm(v):
    """01 -> 1, 1.0 -> 1"""
    s = v.lstrip("+")
    neg = s.startswith("-")
    s = s.lstrip("-")
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    s = s.lstrip("0") or "0"
    if s.startswith("."):
        s = "0" + s
    return ("-" if neg and s != "0" else "") + s


# RS-274/NGC modal groups
GROUPS = {}
for _g, _c in {
    "motion": "G0 G1 G2 G3 G5 G5.1 G5.2 G38.2 G38.3 G38.4 G38.5 G80 G81 G82 G83 G84 G85 G86 G87 G88 G89",
    "plane": "G17 G18 G19", "distance": "G90 G91", "arc distance": "G90.1 G91.1", "feed mode": "G93 G94 G95",
    "units": "G20 G21", "cutter compensation": "G40 G41 G42", "length offset": "G43 G43.1 G49",
    "retract mode": "G98 G99", "work offset": "G54 G55 G56 G57 G58 G59", "path mode": "G61 G61.1 G64",
    "spindle mode": "G96 G97 G50",
    "stop": "M0 M1 M2 M30 M60", "spindle": "M3 M4 M5", "coolant": "M7 M8 M9", "tool change": "M6",
}.items():
    for _x in _c.split():
        GROUPS[_x] = _g


def chars_possible(t, ch, depth=0):
    """May character ch occur in the text of string term t?  True / False / None (unknown)"""
    if t.op == "c":
        v = t.args[0]
        return ch in (v if isinstance(v, str) else str(v))
    if t.op == "str":
        return anyof(chars_possible(x, ch, depth + 1) for x in t.args)
    if t.op == "app":
        n = t.args[0]
        if n in (".replace", "str.replace") and len(t.args) >= 4:
            base, a, b = _args(t)[:3]
            if len(_args(t)) == 3 and a.op == "c" and a.args[0] == ch:
                return chars_possible(b, ch)
            return anyof((chars_possible(base, ch), chars_possible(b, ch)))
        if n in (".strip", ".lstrip", ".rstrip", ".upper", ".lower", ".title", ".capitalize", "str", "builtins.str"):
            return chars_possible(_args(t)[0], ch)
        if n in ("round", "abs", "len", "int", "float"):
            return False
        return None
    if t.op == "in":
        ty = t.args[1].rstrip("?")
        if ty in ("num", "int", "float"):
            return False
        if ty == "str":
            return True
        return None
    if t.op == "enum":
        return False
    if t.op in ("poly",):
        return False
    return None


def _args(t):
    """arguments of a call term, the receiver first; keyword tuple dropped"""
    out = []
    for a in t.args[1:]:
        if isinstance(a, T):
            if a.op == "tup":
                out.extend(a.args)
            elif a.op == "lst":
                out.extend(x.args[0] for x in a.args[0] if x.op == "e")
            else:
                out.append(a)
        elif isinstance(a, tuple):
            out.extend(x for x in a if isinstance(x, T))
    return out


def anyof(it):
    r = False
    for x in it:
        if x:
            return True
        if x is None:
            r = None
    return r
