"""Entry points: the public Job interface, with abstract inputs."""
import ast

from . import models
from .terms import *  # noqa
from .terms import mk, C, NONE, TRUE, FALSE
from .engine import Fr, Interp, Lst, State, E, Inst  # noqa
from .loader import AnalysisBroken, Program


class Ctx:
    """one analysis session: interpreter + call helper"""

    def __init__(self, prog=None, hooks=()):
        self.I = Interp(prog, hooks)
        self.prog = self.I.prog
        m = self.prog.modules.get("cq_cam.fluent")
        if m is None:
            raise AnalysisBroken("module cq_cam.fluent is missing")
        self.node = ast.parse("entry()").body[0].value
        self.node.lineno, self.node.col_offset = 0, 0
        self.F = Fr(("entry",), m, None, 0, (), None)

    def state(self):
        st = State()
        st.frames[self.F.fid] = {}
        return st

    def cls(self, name):
        c = models.find_class(self.I, name)
        if c is None:
            raise AnalysisBroken(f"class {name} is missing")
        return mk("cls", c)

    def enum(self, cname, member):
        return mk("enum", self.cls(cname).args[0], member)

    def fn(self, module, name, st=None):
        m = self.prog.modules.get(module)
        v = self.I.mod_lookup(st or self.state(), m, name) if m else None
        if v is None:
            raise AnalysisBroken(f"{module}.{name} is missing")
        return v

    def call(self, st, fv, *args, **kw):
        """-> (returns [(state, value)], raises [(state, exc)])"""
        self.I.handlers.append([])
        try:
            r = self.I.call(fv, list(args), kw, st, self.F, self.node)
        finally:
            exc = self.I.handlers.pop()
        return r, exc

    def method(self, st, obj, name, *args, **kw):
        out, exc = [], []
        for s, m in self.I.getattr(obj, name, st, self.F, self.node):
            r, e = self.call(s, m, *args, **kw)
            out += r
            exc += e
        return out, exc

    def keep(self, st, name, v):
        """make a value survive garbage collection"""
        st.set(self.F.fid, name, v)


JOB_ARGS = {
    "top": "Plane", "feed": "num", "speed": "num?", "tool_diameter": "num?", "tool_number": "int?", "name": "str",
    "plunge_feed": "num?", "rapid_height": "num?", "op_safe_height": "num?", "precision": "int",
    "unit": "enum:Unit", "plane": "enum:WorkPlane", "coordinate": "enum:WorkOffset", "distance": "enum:DistanceMode",
    "arc_distance": "enum:ArcDistanceMode", "controller_motion": "enum:PlannerControlMode",
    "coolant": "enum:CoolantState?",
}


def job(c, st, **given):
    """construct an abstract Job -> [(state, ref)].  given: argument -> term, or "default" to omit it"""
    kw = {}
    for n, t in JOB_ARGS.items():
        v = given.get(n)
        if v == "default":
            continue
        kw[n] = v if v is not None else In(n, t)
    r, e = c.call(st, c.cls("Job"), **kw)
    for s, v in r:
        c.keep(s, "job", v)
    return r, e
