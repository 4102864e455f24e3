"""Scenario helpers shared by the rules."""
import os
import pickle
import select
import signal
import sys
import time

from ..entry import Ctx, job  # noqa
from ..terms import *  # noqa
from ..terms import C, NONE, T, ZERO, In, app, atoms, mk, show, subterms
from ..loader import AnalysisBroken
from .. import gtext


def num(n):
    return In(n, "num")


BASE = dict(plunge_feed=num("plunge_feed"), rapid_height=num("rapid_height"), op_safe_height=num("op_safe_height"),
            tool_diameter=num("tool_diameter"), unit="default", plane="default", coordinate="default",
            distance="default", arc_distance="default", controller_motion="default")


def new(R, **cuts):
    c = Ctx()
    R.use(c.I)
    return c


def one_job(c, R, st=None, **kw):
    """the Job built from these arguments, when construction has one outcome"""
    st = st or c.state()
    a = dict(BASE)
    a.update(kw)
    st0 = st.fork()
    r, e = job(c, st, **a)
    if len(r) != 1:
        # a branch on a quantity: take the usual case, in which quantities are positive
        for n in ("feed", "plunge_feed", "rapid_height", "op_safe_height", "tool_diameter", "speed"):
            st0.facts[mk("pos", num(n))] = True
        r, e = job(c, st0, **a)
    if len(r) != 1:
        raise AnalysisBroken(f"constructing a Job has {len(r)} outcomes")
    return r[0]


def jobs(c, **kw):
    a = dict(BASE)
    a.update(kw)
    return job(c, c.state(), **a)


def cval(t):
    return t.args[0] if t.op == "c" else None


def attrs(o):
    return dict(o.args[1]) if isinstance(o, T) and o.op == "obj" else {}


def ops_of(c, st, jv):
    """frozen operations of a job -> list of terms or None"""
    o = attrs(c.I.freeze(st, jv)).get("operations")
    if o is None or o.op != "lst":
        return None
    out = []
    for s in o.args[0]:
        if s.op != "e":
            return None
        out.append(s.args[0])
    return out


def members(c, name):
    """members of an enum class, read from the source"""
    cls = c.cls(name).args[0]
    return [n for n in cls.assigns]


def reliable(c):
    return not any("cap" in k for k in c.I.unknown)


def where_obj(o):
    """file:line of the expression which created an abstract object"""
    if isinstance(o, T) and o.op == "obj" and len(o.args) > 2 and isinstance(o.args[2], tuple):
        s = o.args[2]
        while isinstance(s, tuple) and s and isinstance(s[0], tuple):
            s = s[0]
        if len(s) >= 2 and isinstance(s[0], str):
            return f"{s[0]}:{s[1]}" if s[0].endswith(".py") else f"src/{s[0].replace('.', '/')}.py:{s[1]}"
    return None


class _Shim:
    """what evidence needs of an interpreter that ran in another process"""

    def __init__(self, I):
        self.stats, self.unknown = I.stats, I.unknown
        self.prog = _Shim.__new__(_Shim)
        d = I.prog.digest.hexdigest()
        self.prog.n_modules, self.prog.n_functions, self.prog.hex = I.prog.n_modules, I.prog.n_functions, d

    @property
    def digest(self):
        return self

    def hexdigest(self):
        return self.hex


def parallel(R, items, fn, limit=240):
    """run fn(R, item) for every item in a process of its own and collect the verdicts in R;
    an item which needs more than `limit` seconds stays undecided"""
    items = list(items)
    work = []
    for it in items:
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                R.ok, R.bad, R.und, R.interps, R.notes = {}, {}, {}, [], []
                try:
                    fn(R, it)
                except AnalysisBroken as x:
                    R.notes.append(f"{it}: {x}")
                except Exception as x:      # an analyser error is not a verdict
                    R.notes.append(f"{it}: analysis stopped: {type(x).__name__}: {x}")
                    if os.environ.get("CQCAM_DEBUG"):
                        import traceback
                        traceback.print_exc()
                with os.fdopen(w, "wb") as f:
                    pickle.dump((R.ok, R.bad, R.und, [_Shim(I) for I in R.interps], R.notes), f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        work.append((it, pid, r))
    end = time.time() + limit
    for it, pid, r in work:
        data = b""
        while True:
            ready, _, _ = select.select([r], [], [], max(0.0, end - time.time()))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                data = None
                break
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        try:
            ok, bad, und, interps, notes = pickle.loads(data)
        except Exception:
            R.notes.append(f"{it}: not analysed within {limit} s" if data is None else f"{it}: analysis ended early")
            continue
        for k, m in ok.items():
            if k not in R.bad and k not in R.und:
                R.ok.setdefault(k, m)
        for k, m in und.items():
            if k not in R.bad:
                R.ok.pop(k, None)
                R.und.setdefault(k, m)
        for k, m in bad.items():
            R.ok.pop(k, None)
            R.und.pop(k, None)
            R.bad.setdefault(k, m)
        R.interps += interps
        R.notes += notes
        if interps and R.prog is None:
            R.prog = interps[0].prog


def fn_where(c, module, *path):
    m = c.prog.modules.get(module)
    if m is None:
        return module
    body = m.tree.body
    line = 1
    for p in path:
        for n in body:
            if getattr(n, "name", None) == p:
                body, line = n.body, n.lineno
                break
    return f"{m.rel}:{line}"


def undef(t):
    """does the term contain something the analysis does not know?"""
    return any(x.op in ("phi", "top", "unk") for x in subterms(t)) or t.op in ("phi", "top", "unk")
