"""What the third-party libraries do, in terms of provenance terms.

Nothing here looks at cq_cam: it is the semantics of cadquery, OCP, numpy,
pyclipper, shapely, opencamlib and the Python builtins which cq_cam calls.
"""
import ast

import math
from .terms import *  # noqa
from .terms import T, mk, C, NONE, TRUE, FALSE, ZERO, TOP

# inputs which the entry points declare to be > 0
POSITIVE = {}

ALWAYS_TRUE = {"AIS", "Wire", "Edge", "Face", "Shape", "Workplane", "Plane", "Vector", "Matrix", "Location",
               "BoundingBox", "Vertex", "Compound", "Solid", "PolyNode", "Polygon", "tuple", "Point", "Point3"}
SCALARS = {"float", "int", "num", "bool"}
OPAQUE_ATTRS = {"Operation": {"job"}, "Drill": {"job"}, "Surface3D": {"job"}, "Node": {"tree", "parent"}}
LIST_MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "add", "update"}
STAR_EXT = {"cq.Vertex.makeVertex": 3, "cq.Vector": 3}

SHAPES = {"Wire", "Edge", "Face", "Compound", "Solid", "Shell", "Vertex", "CompSolid"}
REVERSED = mk("ext", "OCP.TopAbs.TopAbs_REVERSED")
FORWARD = mk("ext", "OCP.TopAbs.TopAbs_FORWARD")

LIB = "sa_lib"
# classes of the program which are replaced by an abstract model (name, methods it must have)
CLASS_MODELS = {("cq_cam.utils.tree", "Tree"): ("TreeModel", {"next_unlocked", "sequences"})}
EXT_CLASSES = {
    "OCP.BRepTools.BRepTools_WireExplorer": "BRepTools_WireExplorer",
    "OCP.TopExp.TopExp_Explorer": "TopExp_Explorer",
    "pc.Pyclipper": "Pyclipper",
    "pc.PyclipperOffset": "PyclipperOffset",
    "OCP.AIS.AIS_MultipleConnectedInteractive": "AIS_Group",
    "ocl.STLSurf": "STLSurf",
    "ocl.BatchDropCutter": "BatchDropCutter",
}


def norm_ext(name):
    for a, b in (("cadquery.occ_impl.shapes.", "cq."), ("cadquery.occ_impl.geom.", "cq."),
                 ("cadquery.cq.", "cq."), ("cadquery.", "cq."),
                 ("numpy.", "np."), ("pyclipper.", "pc."), ("opencamlib.", "ocl.")):
        if name.startswith(a):
            name = b + name[len(a):]
    if name in ("cadquery", "cq.cq", "cq.occ_impl"):
        return "cq"
    if name in ("cq.occ_impl.shapes", "cq.occ_impl.geom"):
        return "cq"
    if name.startswith("cq.cq."):
        name = name[3:]
    return {"numpy": "np", "pyclipper": "pc", "opencamlib": "ocl"}.get(name, name)


# ------------------------------------------------------------------ types
METHOD_RET = {
    "wirepath": "Path", "offarea": "list[PathFace]", "offface": "list[Face]",
    ".outerWire": "Wire", ".innerWires": "list[Wire]", ".Edges": "list[Edge]", ".Wires": "list[Wire]",
    ".Faces": "list[Face]", ".Vertices": "list[Vertex]", ".offset2D": "list[Wire]", ".BoundingBox": "BoundingBox",
    ".Center": "Vector", ".startPoint": "Vector", ".endPoint": "Vector", ".positionAt": "Vector",
    ".arcCenter": "Vector", ".normal": "Vector", ".paramAt": "float", ".Length": "float", ".Area": "float",
    ".geomType": "str", ".Closed": "bool", ".IsClosed": "bool", ".isClosed": "bool", ".location": "Location",
    ".cut": "Shape", ".fuse": "Shape", ".intersect": "Shape", ".positions": "list[Vector]",
    ".normalized": "Vector", ".cross": "Vector", ".dot": "float", ".combine": "Workplane", ".add": "Workplane",
    ".vals": "list[?]", ".val": "?", ".contains": "bool", ".radius": "float", ".normalAt": "Vector",
    ".toVec": "Vector",
    "OStart": "Vector", "OEnd": "Vector", "PosO": "Vector", "PosP": "Vector", "Vec": "Vector", "CurvePt": "Vector",
    "OStartParam": "float", "OEndParam": "float", "OParam": "float",
    "OrderedEdges": "list[Edge]", "cq.Wire.combine": "list[Wire]", "cq.Wire.assembleEdges": "Wire",
    "cq.Edge.makeLine": "Edge", "cq.Edge.makeThreePointArc": "Edge", "cq.Edge.makeCircle": "Edge",
    "cq.Face.makeFromWires": "Face", "cq.Face.makePlane": "Face", "cq.Edge": "Edge", "cq.Wire": "Wire",
    "cq.Face": "Face", "cq.Vertex": "Vertex", "cq.Vertex.makeVertex": "Vertex", "cq.Shape": "Shape",
    "cq.Workplane": "Workplane", "cq.Plane": "Plane", "cq.Location": "Location", "OCP.AIS.AIS_Line": "AIS", "OCP.AIS.AIS_Shape": "AIS",
    "np.linspace": "list[float]", "np.linspaceX": "list[float]", "np.arange": "list[float]", "linfrac": "float",
    "range": "list[int]", "count": "list[int]", "len": "int", "math.sqrt": "float", "math.hypot": "float",
    "math.floor": "int", "math.ceil": "int", "int": "int", "float": "float", "round": "float",
    "abs": "num", "sum": "num", "pc.up": "scaled", "pc.Execute2": "PolyNode",
    "shapely.Polygon": "Polygon", "ocl.CLPoint": "CLPoint", ".getDiameter": "float", ".index": "int", ".count": "int",
    "DropCutter": "list[CLPoint]", "str": "str", "repr": "str", ".toTuple": "Point3", ".Value": "float",
    ".Orientation": "Orientation", "pc.Orientation": "bool", "faces": "list[PathFace]", ".keys": "list[?]", "//": "num", "%": "num", "member": "bool",
}
ATTR_TY = {
    ("BoundingBox", None): "float", ("Vector", "x"): "float", ("Vector", "y"): "float", ("Vector", "z"): "float",
    ("Vector", "Length"): "float", ("Workplane", "objects"): "list[?]", ("Plane", "fG"): "Matrix",
    ("Plane", "rG"): "Matrix", ("Plane", "origin"): "Vector", ("Plane", "xDir"): "Vector",
    ("Plane", "yDir"): "Vector", ("Plane", "zDir"): "Vector",
    ("PolyNode", "Childs"): "list[PolyNode]", ("PolyNode", "Contour"): "scaled", ("PolyNode", "depth"): "int",
    ("PathFace", "outer"): "Path", ("PathFace", "inners"): "list[Path]", ("PathFace", "depth"): "num",
    ("CLPoint", "x"): "float", ("CLPoint", "y"): "float", ("CLPoint", "z"): "float",
}
SAME = {"xform", "moved"}


def base_ty(t):
    return t[:-1] if isinstance(t, str) and t.endswith("?") and t != "?" else t


def elem_ty(t):
    if isinstance(t, str):
        if t.startswith("list[") and t.endswith("]"):
            return t[5:-1]
        if t == "Path":
            return "Point"
        if t in ("Point", "Point3"):
            return "float"
    return "?"


def ty(I, st, v):
    if st is not None and v in st.types:
        return st.types[v]
    op = v.op
    if op == "c":
        x = cval(v)
        return {int: "int", float: "float", bool: "bool", str: "str", type(None): "NoneType"}.get(type(x), "?")
    if op == "in":
        return base_ty(v.args[1])
    if op in ("poly",):
        return "float"
    if op in ("k", "kend"):
        return "int"
    if op == "str":
        return "str"
    if op == "tup":
        return "tuple"
    if op == "prop":
        return "bool"
    if op == "lst":
        return "list"
    if op in ("obj", "enum", "cls"):
        return v.args[0]
    if op == "app":
        n = v.args[0]
        if n in SAME:
            return ty(I, st, v.args[1])
        if n == "SubShapes":
            k = v.args[2]
            kind = k.args[0].split("_")[-1].capitalize() if k.op == "ext" else "Shape"
            return f"list[{kind}]"
        if n in ("reversed", "sorted", "list", "tuple", "iter", "removed"):
            t = ty(I, st, v.args[1])
            return t if t != "list" else "?"
        if n == "pc.down":
            t = v.args[1]
            return "float" if numeric(I, st, t) else "Path"
        if n in ("max", "min"):
            ts = {ty(I, st, x) for x in v.args[1:]}
            return "int" if ts == {"int"} else "float"
        if n in ("pick",):
            return "?"
        if n == ".add" and ty(I, st, v.args[1]) == "Vector":
            return "Vector"
        return METHOD_RET.get(n, "?")
    if op == "attr":
        b = ty(I, st, v.args[0])
        r = ATTR_TY.get((b, v.args[1])) or ATTR_TY.get((b, None))
        if r:
            return r
        if v.args[1] in ("x", "y", "z", "zmin", "zmax", "xmin", "xmax", "ymin", "ymax"):
            return "float"
        if v.args[1] == "objects":
            return "list[?]"
        return "?"
    if op == "idx":
        return elem_ty(ty(I, st, v.args[0]))
    if op == "slice":
        return ty(I, st, v.args[0])
    if op == "ref" and st is not None:
        o = st.heap.get(v.args[0])
        if o is not None:
            return getattr(o, "cls", None) or getattr(o, "kind", "?")
    return "?"


def value_class(cls):
    """plain value objects: their identity and construction site do not matter"""
    return not any(c.name in ("Command", "Job", "Operation") for c in cls.mro)


def is_seq_type(t):
    return isinstance(t, str) and (t.startswith("list") or t in ("tuple", "Path", "Point", "Point3"))


def numeric(I, st, v):
    if v.op in ("poly", "k", "kend"):
        return True
    if is_num_const(v):
        return True
    return ty(I, st, v) in ("float", "int", "num")


def simple_type(I, st, v):
    """a type name without alternatives or None, or "?" """
    if nullable(I, st, v):
        return "?"
    if numeric(I, st, v):
        return "num"
    t = ty(I, st, v)
    if isinstance(t, str) and "?" not in t and "|" not in t and t not in (
            "NoneType", "tuple", "list", "dict", "set", "ext", "int", "bool", "float"):
        return t
    return "?"


def nullable(I, st, v):
    if v.op == "in":
        if not v.args[1].endswith("?"):
            return False
        return st is None or st.facts.get(mk("isnone", v)) is not False
    if v.op == "phi":
        if st is not None and st.types.get(v, "?") != "?":
            return False
        if v.args[0] and v.args[0][0] == "deep":
            return False
        return st is None or st.facts.get(mk("isnone", v)) is not False
    if v.op in ("attr", "idx"):
        t = ty(I, st, v)
        if t == "?" and any(a.op == "phi" for a in atoms(v)):
            return st is None or st.facts.get(mk("isnone", v)) is not False
    if v.op == "app" and v.args[0] in ("call", "dictget"):
        return st is None or st.facts.get(mk("isnone", v)) is not False
    return False


def nonempty_type(I, st, v):
    if v.op == "app":
        n, a = v.args[0], v.args[1:]
        if n == "count":
            return True
        if n in ("np.linspace", "np.linspaceX"):
            return min_value(a[2]) >= 1
        if n in ("list", "tuple", "sorted", "reversed", "enumerate", "iter"):
            return nonempty_type(I, st, a[0])
    return False


def min_value(t):
    if is_num_const(t):
        return cval(t)
    if t.op == "app" and t.args[0] == "max":
        return max(min_value(x) for x in t.args[1:])
    if t.op == "app" and t.args[0] in ("len",):
        return 0
    return float("-inf")


def can_raise(callee, typ):
    callee = callee or ""
    if typ == "StopIteration":
        return callee == "next"
    if typ == "TypeError":
        return False
    if typ == "AttributeError":
        return callee in (".BasisCurve",)
    if not isinstance(typ, str):
        return False
    if callee.startswith(("math.", "builtins.", "Vec", "len")):
        return False
    if typ in ("BaseException", "Exception", "RuntimeError"):
        return True
    if typ == "ValueError":
        return callee in (".offset2D", "cq.Wire.assembleEdges", "cq.Face.makeFromWires", "int", "float", ".index")
    if typ == "StdFail_NotDone":
        return callee in (".offset2D", "cq.Wire.assembleEdges", "cq.Face.makeFromWires",
                          "cq.Edge.makeLine", "cq.Edge.makeThreePointArc") or callee.startswith("OCP.")
    if typ in ("IndexError", "KeyError", "ZeroDivisionError"):
        return False
    return callee.startswith((".", "cq.", "OCP.", "pc.", "ocl."))


# ------------------------------------------------------------------ attributes
def ext_attr(I, st, v, name):
    t = ty(I, st, v)
    if name == "wrapped":
        return v
    if v.op == "grp":
        return mk("meth", v, name)
    if v.op == "in" and I.known is not None:
        r = I.known(v, name)
        if r is not None:
            return r
    if name == "Length" and t == "Vector":
        return app("Length", v)
    if name in ("zmin", "zmax", "xmin", "xmax", "ymin", "ymax", "zlen") and v.op == "app" and v.args[0] == ".BoundingBox":
        w = v.args[1]
        if I.bbox is not None:
            r = I.bbox(w, name)
            if r is not None:
                return r
        if w.op == "app" and w.args[0] == "moved" and w.args[2].op == "app" and w.args[2].args[0] == "Vec":
            d = {"x": 1, "y": 2, "z": 3}[name[0]]
            r = ext_attr(I, st, app(".BoundingBox", w.args[1]), name)
            return r if name.endswith("len") else add(r, w.args[2].args[d])
    if v.op == "app" and v.args[0] == "Vec" and name in "xyz":
        return v.args[1 + "xyz".index(name)]
    return attr(v, name)


def type_name(c):
    """canonical name of a class term"""
    if c.op == "ext":
        return c.args[0].split(".")[-1]
    if c.op == "cls":
        return c.args[0]
    return None


def sub_type(t, n):
    """is type t a kind of n?  True / False / None"""
    if t == n:
        return True
    if t == "?" or t is None:
        return None
    if not isinstance(t, str) and not isinstance(n, str):
        return n in getattr(t, "mro", [t])
    if not isinstance(t, str):
        if n in ("object",):
            return True
        for c in t.mro:
            for b in c.bases:
                if b.op == "ext" and b.args[0].split(".")[-1] == n:
                    return True
        return False
    if not isinstance(n, str):
        return False
    if n == "object":
        return True
    if n == "Shape":
        return t in SHAPES
    if t == "Shape" and n in SHAPES:
        return None
    if n in ("Number", "Real"):
        return t in ("int", "float", "num", "bool")
    if n == "int" and t == "bool":
        return True
    if t == "num" and n in ("int", "float"):
        return None
    if n in ("tuple",):
        return t in ("tuple", "Point", "Point3")
    if n == "list":
        return t == "list" or t.startswith("list[") or t == "Path"
    if n in ("Sequence", "Iterable", "Collection"):
        return is_seq_type(t) or t in ("str",)
    return False


def alternatives(t):
    return t.split("|") if isinstance(t, str) else [t]


def isinstance_(I, v, c, st):
    if c.op == "tup" or c.op == "union":
        names = [type_name(x) for x in c.args]
    else:
        segs = I.segs_of(st, c) if c.op in ("lst", "ref") else None
        if segs is not None:
            names = [type_name(s.args[0]) for s in segs if s.op == "e"]
        else:
            names = [type_name(c)]
    return isinst_names(I, v, names, st)


def isinst_names(I, v, names, st):
    if v is NONE:
        return "NoneType" in names
    cl = I.cls_of(st, v)
    if cl is not None and v.op != "cls":
        return any(sub_type(cl, n) for n in names)
    o = I.deref(st, v)
    if o is not None:
        return any(o.kind == n or n in ("Iterable", "Sequence", "Collection", "object") for n in names)
    t = ty(I, st, v)
    alts = alternatives(t)
    res = []
    for a in alts:
        rs = [sub_type(a, n) for n in names]
        # int and float together cover numbers
        if a == "num" and "int" in names and "float" in names:
            rs = [True]
        res.append(True if True in rs else (None if None in rs else False))
    none = nullable(I, st, v)
    if all(r is True for r in res) and not none:
        return True
    if all(r is False for r in res):
        return False
    # facts about other types of the same value
    p = mk("isinst", v, "|".join(sorted(n if isinstance(n, str) else n.name for n in names)))
    return p


def narrow(I, st, v, names, val):
    """refine the recorded type of v after an isinstance test"""
    t = ty(I, st, v)
    names = names.split("|")
    if val:
        keep = [a for a in alternatives(t) if a != "?" and any(sub_type(a, n) is not False for n in names)]
        if keep and t != "?":
            st.types[v] = "|".join(keep)
        elif len(names) == 1:
            st.types[v] = names[0]
        elif set(names) <= {"int", "float"}:
            st.types[v] = "num"
    else:
        alts = alternatives(t)
        if len(alts) > 1:
            keep = [a for a in alts if not any(sub_type(a, n) is True for n in names)
                    and not (a == "num" and {"int", "float"} <= set(names))]
            if keep:
                st.types[v] = "|".join(keep)


def eqp(a, b):
    return mk("eq", *sorted((a, b), key=lambda t: t.n))


def rev_fact(st, e):
    """is edge e known to be traversed against its curve?"""
    r = st.facts.get(eqp(app(".Orientation", e), REVERSED))
    if r is not None:
        return r
    f = st.facts.get(eqp(app(".Orientation", e), FORWARD))
    return None if f is None else (not f)


def derive(st, prop, val):
    """facts implied by others which must survive a join"""
    if prop.op == "pos":
        d = prop.args[0]
        if not val and st.facts.get(mk("pos", neg(d))) is False:
            st.facts[zero_prop(d)] = True
        for x in (d, neg(d)):
            if x.op == "attr" and x.args[1] == "z" and x.args[0].op == "app" and x.args[0].args[0] == ".normal":
                clockwise(st, x.args[0].args[1])
    elif prop.op == "eq" and any(a.op == "app" and a.args[0] == ".Orientation" for a in prop.args):
        for a in prop.args:
            if a.op == "app" and a.args[0] == ".Orientation":
                clockwise(st, a.args[1])
    elif prop.op == "zero":
        a = prop.args[0]
        if a.op == "attr" and a.args[1] == "z" and a.args[0].op == "app" and a.args[0].args[0] == ".normal":
            clockwise(st, a.args[0].args[1])


def clockwise(st, e):
    """direction of an edge seen from above, once its normal and orientation are known"""
    n = attr(app(".normal", e), "z")
    up, down = st.facts.get(mk("pos", n)), st.facts.get(mk("pos", neg(n)))
    r = rev_fact(st, e)
    if r is None:
        return
    if st.facts.get(zero_prop(n)) is False:
        up = (not down) if up is None and down is not None else up
        down = (not up) if up is not None else down
    if up or down:
        u = bool(up)
        st.facts[mk("cw", e)] = u if r else not u
        st.facts.pop(mk("cwmixed", e), None)


# ------------------------------------------------------------------ vectors
def is_vec(I, st, v):
    return (v.op == "app" and v.args[0] == "Vec") or ty(I, st, v) == "Vector"


def comps(v):
    if v.op == "app" and v.args[0] == "Vec":
        return list(v.args[1:])
    return [attr(v, c) for c in "xyz"]


def vec_map(v, f):
    return app("Vec", *[f(c) for c in comps(v)])


def vec_binop(op, a, b, va, vb):
    if isinstance(op, (ast.Add, ast.Sub)) and va and vb:
        f = add if isinstance(op, ast.Add) else sub
        return app("Vec", *[f(x, y) for x, y in zip(comps(a), comps(b))])
    if isinstance(op, ast.Mult):
        v, k = (a, b) if va else (b, a)
        return vec_map(v, lambda c: mul(c, k))
    if isinstance(op, ast.Div) and va:
        return vec_map(a, lambda c: div(c, b))
    return app("vecop" + type(op).__name__, a, b)


def to_vec(I, st, args):
    if not args:
        return app("Vec", ZERO, ZERO, ZERO)
    if len(args) == 1:
        v = args[0]
        if v.op == "tup":
            return to_vec(I, st, list(v.args))
        if is_vec(I, st, v):
            return v
        if ty(I, st, v) == "Point":
            return app("Vec", idx(v, ZERO), idx(v, C(1)), ZERO)
        if v.op == "app" and v.args[0] == ".toTuple":
            return app("VertexPt", v.args[1])
        if ty(I, st, v) == "Point3":
            return app("Vec", *[idx(v, C(i)) for i in range(3)])
        return app("cq.Vector", v)
    if len(args) == 2 and not any(a.op == "star" for a in args):
        return app("Vec", args[0], args[1], ZERO)
    if len(args) == 3 and not any(a.op == "star" for a in args):
        return app("Vec", *args)
    return app("cq.Vector", *args)


# ------------------------------------------------------------------ strings
def to_str(I, x, st, F, node):
    if x.op == "c":
        return [(st, C(str(cval(x))))]
    if x.op == "str":
        return [(st, x)]
    c = I.cls_of(st, x)
    if c is None and x.op == "in" and isinstance(x.args[1], str) and x.args[1].startswith("enum:"):
        c = find_class(I, base_ty(x.args[1])[5:])
    if c is not None and x.op != "cls":
        f = I.class_attr(st, c, "__str__") or I.class_attr(st, c, "__repr__")
        if f and f[1] == "method":
            from .engine import FnObj
            out = []
            for s, v in I.call(mk("fn", FnObj(f[2], f[0].module, f[0]), NONE), [x], {}, st, F, node):
                out.append((s, v if v.op in ("str", "c") else strcat([app("str", v) if v.op == "ref" else v])))
            return out
        if x.op == "enum":
            return [(st, C(f"{c.name}.{x.args[1]}"))]
    return [(st, strcat_one(I.freeze(st, x)))]


def strcat_one(v):
    return v if v.op == "str" else mk("str", v)


def to_repr(I, x, st, F, node):
    c = I.cls_of(st, x)
    if c is None and x.op == "in" and isinstance(x.args[1], str) and x.args[1].startswith("enum:"):
        c = find_class(I, base_ty(x.args[1])[5:])
    if c is not None and x.op != "cls":
        f = I.class_attr(st, c, "__repr__")
        if f and f[1] == "method":
            from .engine import FnObj
            return I.call(mk("fn", FnObj(f[2], f[0].module, f[0]), NONE), [x], {}, st, F, node)
    if x.op == "c":
        return [(st, C(repr(cval(x))))]
    return [(st, mk("str", app("repr", I.freeze(st, x))))]


def find_class(I, name):
    for m in I.prog.modules.values():
        for b in m.names.get(name, []):
            if isinstance(b, ast.ClassDef):
                return I.class_of(m, b)
    return None


# ------------------------------------------------------------------ dicts
def _entries(o):
    return [s for s in o.segs]


def dict_get(I, v, i, st, F, node, default, raising=False):
    from .engine import E
    o = I.deref(st, v)
    if i.op == "c" or i.op == "enum":
        segs = list(o.segs)
        exact = True
        for s in reversed(segs):
            if s.op == "e" and s.args[0].op == "tup":
                k = s.args[0].args[0]
                if k is i:
                    return [(st, s.args[0].args[1])]
                if k.op != i.op:
                    exact = False
            else:
                exact = False
        if exact:
            if o.extra is not NONE:
                out = []
                for s2, d in I.call(o.extra, [], {}, st, F, node):
                    s2 = s2.fork()
                    oo = I.deref(s2, v)
                    s2.heap[v.args[0]] = oo.with_(oo.segs + (E(tup([i, d])),))
                    out.append((s2, d))
                return out
            if raising:
                I.throw(st, mk("exc", "KeyError"), F, node)
                return []
            return [(st, default)]
    else:
        i = I.freeze(st, i)
        for s in reversed(o.segs):
            if s.op == "e" and s.args[0].op == "tup" and s.args[0].args[0] is i and s.args[0].args[1].op != "member":
                return [(st, s.args[0].args[1])]
    if o.extra is not NONE or any(_is_member(s) for s in o.segs):
        return [(st, mk("grp", v, i))]
    vals = [s.args[0].args[1] for s in o.segs if s.op == "e" and s.args[0].op == "tup"]
    keys = [s.args[0].args[0] for s in o.segs if s.op == "e" and s.args[0].op == "tup"]
    if vals and len(vals) == len(o.segs) and all(k.op in ("c", "enum", "cls", "ext") for k in keys) and len(vals) <= 8:
        out = []
        for k, x in zip(keys, vals):
            s2 = I.assume(st, eqp(i, k), True)
            if s2 is not None:
                out.append((s2, x))
        s2 = st
        for k in keys:
            s2 = I.assume(s2, eqp(i, k), False) if s2 is not None else None
        if s2 is not None:
            if raising:
                I.throw(s2, mk("exc", "KeyError"), F, node)
            else:
                out.append((s2, default))
        return out
    return [(st, app("dictget", I.freeze(st, v), i))]


KEY_ITER = {"min", "max", "sorted", "sum", "any", "all", "tuple", "list", "enumerate", "zip", "reversed", "map", "filter"}


def _is_member(s):
    if s.op == "e":
        return s.args[0].op == "tup" and len(s.args[0].args) == 2 and s.args[0].args[1].op == "member"
    if s.op == "many":
        return any(_is_member(x) for a, _ in s.args[2] | s.args[3] for x in a)
    return False


# ------------------------------------------------------------------ builtin containers
def _upd(I, st, recv, segs):
    o = I.deref(st, recv)
    st.heap[recv.args[0]] = o.with_(tuple(segs))


def call_builtin_method(I, recv, name, args, kw, st, F, node):
    from .engine import E, Lst
    st = st.fork()
    if recv.op == "grp":
        return grp_method(I, recv, name, args, kw, st, F, node)
    if recv.op in ("c", "str"):
        return str_method(I, recv, name, args, kw, st, F, node)
    o = I.deref(st, recv)
    segs = list(o.segs) if isinstance(o, Lst) else list(I.segs_of(st, recv) or ())
    kind = o.kind if isinstance(o, Lst) else (recv.args[1] if recv.op == "lst" and len(recv.args) > 1 else "list")
    if kind == "dict":
        return dict_method(I, recv, o, segs, name, args, kw, st, F, node)
    mutators = LIST_MUTATORS | {"discard"}
    if name in mutators:
        I.emit("on_mutate", I, st, recv, name, F, node)
        if not isinstance(o, Lst):
            I.note("mutation of frozen list")
            return [(st, NONE)]
    if name in ("append", "add"):
        if name == "append":
            I.emit("on_extend", I, st, recv, (E(args[0]),), F, node)
        _upd(I, st, recv, segs + [E(args[0])])
        return [(st, NONE)]
    if name in ("extend", "update"):
        I.list_extend(st, recv, args[0], F, node)
        return [(st, NONE)]
    if name == "insert":
        i = args[0]
        if i is ZERO:
            _upd(I, st, recv, [E(args[1])] + segs)
        elif is_num_const(i) and all(s.op == "e" for s in segs):
            segs.insert(int(cval(i)), E(args[1]))
            _upd(I, st, recv, segs)
        else:
            _upd(I, st, recv, [mk("spread", app("inserted", I.freeze(st, recv), I.freeze(st, i), I.freeze(st, args[1])))])
        return [(st, NONE)]
    if name == "pop":
        i = args[0] if args else C(-1)
        if kind == "set":
            fz = I.freeze(st, recv)
            _upd(I, st, recv, [mk("spread", app("removed", fz, app("pick", fz)))])
            return [(st, app("pick", fz))]
        t = I.segs_truth(st, o.segs)
        v = I.lst_pop(st, recv, i, F, node)
        return [] if v is None else [(st, v)]
    if name in ("remove", "discard"):
        x = I.freeze(st, args[0])
        for j, s in enumerate(segs):
            if s.op == "e" and s.args[0] is args[0]:
                if all(y.op == "e" for y in segs[:j]):
                    _upd(I, st, recv, segs[:j] + segs[j + 1:])
                    return [(st, NONE)]
        _upd(I, st, recv, [mk("spread", app("removed", I.freeze(st, recv), x))] if segs else [])
        return [(st, NONE)]
    if name == "clear":
        _upd(I, st, recv, [])
        return [(st, NONE)]
    if name == "reverse":
        _upd(I, st, recv, I.rev_segs(tuple(segs)))
        return [(st, NONE)]
    if name == "sort":
        if not (len(segs) <= 1 and all(s.op == "e" for s in segs)):
            I.cur_frame, I.cur_node = F, node
            _upd(I, st, recv, sorted_known(I, st, segs, kw) or [mk("spread", sorted_term(I, st, recv, kw))])
        return [(st, NONE)]
    if name == "copy":
        return [(st, I.new_list(st, segs, F, node, kind))]
    if name == "index":
        if len(args) == 1:
            for j, s in enumerate(segs):
                if s.op != "e":
                    break
                if s.args[0] is args[0]:
                    return [(st, C(j))]
        I.may_raise(st, ".index", F, node)
        return [(st, app(".index", I.freeze(st, recv), *[I.freeze(st, a) for a in args]))]
    if name in ("intersection", "union", "difference"):
        v = mk("spread", app("set" + name, I.freeze(st, recv), *[I.freeze(st, a) for a in args]))
        return [(st, I.new_list(st, [v], F, node, "set"))]
    if name in ("items", "keys", "values", "get", "setdefault") and not isinstance(o, Lst):
        return [(st, app("." + name, recv, *args))]
    return [(st, app("." + name, I.freeze(st, recv), *[I.freeze(st, a) for a in args]))]


def sorted_known(I, st, segs, kw):
    """elements whose keys are constants, in order"""
    if len(segs) > (60 if I.unroll else 12) or not all(s.op == "e" for s in segs):
        return None
    key, rev = kw.get("key", NONE), kw.get("reverse", FALSE)
    if not isinstance(cval(rev), (bool, int)):
        return None
    ks = []
    for s in segs:
        k = s.args[0]
        if key is not NONE:
            try:
                r = I.call(key, [k], {}, st.fork(), I.cur_frame, I.cur_node)
            except Exception:
                return None
            if len(r) != 1:
                return None
            k = r[0][1]
        k = plain_key(I.freeze(st, k))
        if k is None:
            return None
        ks.append(k)
    if len({type(k) is tuple for k in ks}) > 1:
        return None
    order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=bool(cval(rev)))
    return [segs[i] for i in order]


def plain_key(t):
    if is_num_const(t):
        return cval(t)
    if t.op == "tup" and all(is_num_const(x) for x in t.args):
        return tuple(cval(x) for x in t.args)
    return None


def sorted_term(I, st, v, kw):
    fz = I.freeze(st, v)
    if fz.op == "lst" and len(fz.args[0]) == 1 and fz.args[0][0].op == "spread":
        fz = fz.args[0][0].args[0]
    key = kw.get("key", NONE)
    rev = kw.get("reverse", FALSE)
    if key is not NONE:
        # the key of a generic element
        el = mk("in", "$el", elem_ty(ty(I, st, fz)))
        try:
            el = generic_elem(I, st, v) or el
            from .engine import Fr
            r = I.call(key, [el], {}, st.fork(), I.cur_frame, I.cur_node)
            key = tup([el, r[0][1]]) if r else TOP
        except Exception:
            key = TOP
    return app("sorted", fz, key, rev)


def generic_elem(I, st, v):
    segs = I.segs_of(st, v)
    if segs is None or len(segs) != 1:
        return None
    s = segs[0]
    k = mk("kany", ("sort",))
    r = I.seg_elem(s, k)
    return r[0][0] if len(r) == 1 else None


def grp_method(I, recv, name, args, kw, st, F, node):
    from .engine import E
    d, key = recv.args
    o = I.deref(st, d)
    if name == "append":
        I.emit("on_mutate", I, st, d, name, F, node)
        _upd(I, st, d, list(o.segs) + [E(tup([key, mk("member", args[0])]))])
        return [(st, NONE)]
    if name == "extend":
        segs = I.segs_of(st, args[0]) or (mk("spread", args[0]),)
        _upd(I, st, d, list(o.segs) + list(I.map_segs(segs, lambda x: tup([key, mk("member", x)]))))
        return [(st, NONE)]
    return [(st, app("." + name, I.freeze(st, recv), *[I.freeze(st, a) for a in args]))]


def dict_method(I, recv, o, segs, name, args, kw, st, F, node):
    from .engine import E
    if name == "get":
        return dict_get(I, recv, args[0], st, F, node, args[1] if len(args) > 1 else NONE)
    if name == "setdefault":
        k, d = args[0], args[1] if len(args) > 1 else NONE
        I.emit("on_mutate", I, st, recv, name, F, node)
        if k.op in ("c", "enum"):
            r = dict_get(I, recv, k, st, F, node, mk("missing"))
            if len(r) == 1 and r[0][1].op == "missing":
                _upd(I, st, recv, segs + [E(tup([k, d]))])
                return [(st, d)]
            return r
        dl = I.deref(st, d)
        if dl is not None and not dl.segs:
            return [(st, mk("grp", recv, I.freeze(st, k)))]
        _upd(I, st, recv, segs + [E(tup([I.freeze(st, k), d]))])
        return [(st, d)]
    if name == "pop":
        I.emit("on_mutate", I, st, recv, name, F, node)
        r = dict_get(I, recv, args[0], st, F, node, args[1] if len(args) > 1 else NONE, raising=len(args) < 2)
        for s, v in r:
            ob = I.deref(s, recv)
            _upd(I, s, recv, [x for x in ob.segs if not (x.op == "e" and x.args[0].args[0] is args[0])])
        return r
    if name == "update":
        I.emit("on_mutate", I, st, recv, name, F, node)
        extra = []
        if args:
            extra = list(I.segs_of(st, args[0]) or ())
        extra += [E(tup([C(k), v])) for k, v in kw.items()]
        _upd(I, st, recv, segs + extra)
        return [(st, NONE)]
    if name in ("keys", "values", "items"):
        if all(s.op == "e" and s.args[0].op == "tup" and s.args[0].args[1].op != "member"
               and s.args[0].args[0].op in ("c", "enum", "cls", "ext") for s in segs):
            f = {"keys": lambda x: idx(x, ZERO), "values": lambda x: idx(x, C(1)), "items": lambda x: x}[name]
            return [(st, I.new_list(st, [E(f(s.args[0])) for s in segs], F, node))]
        if any(_is_member(s) for s in segs) or not segs:
            if not segs:
                return [(st, I.new_list(st, [], F, node))]
            return [(st, app("." + name, I.freeze(st, recv)))]
        f = {"keys": lambda x: idx(x, ZERO), "values": lambda x: idx(x, C(1)), "items": lambda x: x}[name]
        return [(st, I.new_list(st, I.map_segs(tuple(segs), f), F, node))]
    return [(st, app("." + name, I.freeze(st, recv), *[I.freeze(st, a) for a in args]))]


def str_method(I, recv, name, args, kw, st, F, node):
    if name == "join":
        segs = I.segs_of(st, args[0])
        o = I.deref(st, args[0])
        if segs is not None and getattr(o, "kind", None) == "dict":
            segs = I.map_segs(segs, lambda x: idx(x, ZERO))
        elif getattr(o, "kind", None) == "set" and len(segs) > 1:
            segs = None
        if segs is None:
            return [(st, mk("str", app("join", recv, I.freeze(st, args[0]))))]
        if all(s.op == "e" for s in segs):
            parts = []
            for i, s in enumerate(segs):
                if i:
                    parts.append(recv)
                parts.append(s.args[0])
            return [(st, strcat(parts))]
        return [(st, mk("str", mk("sjoin", recv, tuple(I.freeze(st, s) for s in segs))))]
    if name == "format":
        return str_format(I, recv, args, kw, st, F, node)
    if recv.op == "c" and all(a.op == "c" for a in args):
        s = cval(recv)
        if name in ("split", "strip", "lstrip", "rstrip", "lower", "upper", "replace", "startswith", "endswith",
                    "rsplit", "splitlines", "isdigit", "find", "count", "title", "capitalize", "index", "rstrip",
                    "removeprefix", "removesuffix"):
            try:
                r = getattr(s, name)(*[cval(a) for a in args])
            except Exception:
                return [(st, TOP)]
            if isinstance(r, list):
                from .engine import E
                return [(st, I.new_list(st, [E(C(x)) for x in r], F, node))]
            return [(st, C(r))]
    if recv.op == "str" and name in ("strip", "rstrip", "lstrip"):
        # outer constant whitespace only
        parts = list(recv.args)
        if not args:
            if name != "rstrip" and parts[0].op == "c":
                parts[0] = C(cval(parts[0]).lstrip())
            if name != "lstrip" and parts[-1].op == "c":
                parts[-1] = C(cval(parts[-1]).rstrip())
            return [(st, strcat(parts))]
    t = app("." + name, recv, *[I.freeze(st, a) for a in args])
    if name in ("split", "rsplit", "splitlines", "partition", "startswith", "endswith", "find", "count", "index",
                "isdigit"):
        return [(st, t)]
    return [(st, mk("str", t))]


def str_format(I, recv, args, kw, st, F, node):
    import string
    if recv.op != "c":
        return [(st, mk("str", app(".format", recv, *args)))]
    res = [(st, [])]
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(cval(recv)):
        res = [(s, p + [C(lit)]) for s, p in res]
        if field is None:
            continue
        if field == "":
            field = str(auto)
            auto += 1
        v = args[int(field)] if field.isdigit() and int(field) < len(args) else kw.get(field, TOP)
        nxt = []
        for s, p in res:
            if spec:
                rr = [(s, app("format", I.freeze(s, v), C(spec)))]
            else:
                rr = (to_repr if conv == "r" else to_str)(I, v, s, F, node)
            for s2, t in rr:
                nxt.append((s2, p + [t]))
        res = nxt
    return [(s, strcat(p)) for s, p in res]


# ------------------------------------------------------------------ external functions
SIG = {
    "cq.Edge.makeLine": [("v1",), ("v2",)],
    "cq.Edge.makeThreePointArc": [("v1",), ("v2",), ("v3",)],
    "cq.Face.makeFromWires": [("outerWire",), ("innerWires", mk("lst", (), "list"))],
    "cq.Face.makePlane": [("length", NONE), ("width", NONE), ("basePnt", app("Vec", ZERO, ZERO, ZERO)),
                          ("dir", app("Vec", ZERO, ZERO, C(1)))],
    "cq.Wire.combine": [("listOfWires",)],
    "cq.Wire.assembleEdges": [("listOfEdges",)],
    "np.linspace": [("start",), ("stop",), ("num", C(50)), ("endpoint", TRUE)],
    ".offset2D": [("d",), ("kind", C("arc"))],
    ".positionAt": [("d",), ("mode", C("length"))],
    ".paramAt": [("d",)],
    ".transformShape": [("tMatrix",)],
    ".translate": [("vector",)],
    ".moved": [("loc",)],
    ".toLocalCoords": [("obj",)],
    ".toWorldCoords": [("tuplePoint",)],
    "shapely.Polygon": [("shell", NONE), ("holes", NONE)],
    "pc.scale_to_clipper": [("value",), ("scale", NONE)],
    "pc.scale_from_clipper": [("value",), ("scale", NONE)],
    "builtins.round": [("number",), ("ndigits", NONE)],
    "builtins.sum": [("iterable",), ("start", ZERO)],
    "builtins.enumerate": [("iterable",), ("start", ZERO)],
    ".AddPath": [("path",), ("poly_type",), ("closed", TRUE)],
}


def bind_sig(name, args, kw):
    sig = SIG.get(name)
    if sig is None or any(a.op == "star" for a in args):
        return list(args), dict(kw)
    out = list(args)
    kw = dict(kw)
    for p in sig[len(args):]:
        if p[0] in kw:
            out.append(kw.pop(p[0]))
        elif len(p) > 1:
            out.append(p[1])
        else:
            break
    return out, kw


LIB_FUNCS = {"map": "map_", "filter": "filter_", "itertools.chain": "chain", "functools.reduce": "reduce_",
             "itertools.starmap": "starmap", "itertools.accumulate": None,
             "itertools.chain.from_iterable": "chain_from_iterable", "itertools.takewhile": "takewhile",
             "itertools.dropwhile": None, "contextlib.suppress": None}


def lib_value(I, st, name):
    m = I.prog.modules.get(LIB)
    return I.mod_lookup(st, m, name) if m else None


def fz_args(I, st, args, kw):
    return [I.freeze(st, a) for a in args] + [mk("kw", k, I.freeze(st, v)) for k, v in sorted(kw.items())]


def call_ext(I, name, args, kw, st, F, node):
    I.emit("on_ext_call", I, st, name, None, args, kw, F, node, None)
    if I.given_ext is not None:
        r = I.given_ext(I, st, name, args, kw, F, node)
        if r is not None:
            return r
    if name in EXT_CLASSES:
        c = lib_value(I, st, EXT_CLASSES[name])
        if c is not None:
            return I.call(c, args, kw, st, F, node)
    short = name[9:] if name.startswith("builtins.") else name
    if name.startswith("builtins.") and short in KEY_ITER:
        args = list(args)
        for i, a in enumerate(args):        # iterating over a dictionary gives its keys
            o = I.deref(st, a) if isinstance(a, T) and a.op == "ref" else None
            if getattr(o, "kind", None) == "dict" and o.segs:
                st, args[i] = dict_method(I, a, o, list(o.segs), "keys", [], {}, st.fork(), F, node)[0]
    lf = LIB_FUNCS.get(short)
    if lf:
        f = lib_value(I, st, lf)
        if f is not None:
            return I.call(f, args, kw, st, F, node)
    if name.startswith("super."):
        return [(st, NONE)]
    args, kw = bind_sig(name, args, kw)
    if name.startswith("builtins."):
        f = globals().get("b_" + short.replace(".", "_"))
        if f:
            return f(I, args, kw, st, F, node)
        import builtins
        o = getattr(builtins, short, None)
        if isinstance(o, type) and issubclass(o, BaseException):
            return [(st, app(short, *fz_args(I, st, args, kw)))]
        return [(st, app(short, *fz_args(I, st, args, kw)))]
    f = EXT_FN.get(name)
    if f:
        return f(I, args, kw, st, F, node)
    if name in ("_prim",) or name.endswith("._prim"):
        a = [I.freeze(st, a) for a in args[1:]]
        I.emit("on_prim", I, st, mk("app", cval(args[0]), *a), F, node)
        return [(st, app(cval(args[0]), *a))]
    if name == "_any":
        vals = []
        for sg in I.segs_of(st, args[0]) or ():
            vals.extend(I.seg_values(I.freeze(st, sg)))
        if not vals:
            return []
        v = vals[0]
        for w in vals[1:]:
            v = lgg(v, w, ("any", I.ctxid(F, node)), ("u",))
        return [(st, v)]
    if name.startswith("logging.") or name.startswith("warnings."):
        return [(st, app(name))]
    a = fz_args(I, st, args, kw)
    if name in ("cq.Edge", "cq.Face", "cq.Wire", "cq.Shape", "cq.Compound", "cq.Vertex") and len(a) == 1:
        t = ty(I, st, a[0])
        if t in SHAPES or t == "Shape":
            if t == "Shape" and name != "cq.Shape":
                st = st.fork()
                st.types[a[0]] = name[3:]
            return [(st, a[0])]
    I.may_raise(st, name, F, node)
    v = app(name, *a)
    if name == "OCP.BRepBuilderAPI.BRepBuilderAPI_MakeEdge":
        st = st.fork()
        v = app("NewEdge", *a)
        st.facts[eqp(app(".Orientation", v), REVERSED)] = False
        st.types[v] = "Edge"
    return [(st, v)]


def const_fold(f, args):
    try:
        return C(f(*[cval(a) for a in args]))
    except Exception:
        return None


def b_len(I, args, kw, st, F, node):
    v = args[0]
    segs = I.segs_of(st, v)
    if segs is not None and all(s.op == "e" for s in segs):
        return [(st, C(len(segs)))]
    fz = I.freeze(st, v)
    if I.length is not None:
        n = I.length(fz)
        if n is not None:
            return [(st, C(n))]
    if segs is not None:
        n = ZERO
        for s in segs:
            if s.op == "e":
                n = add(n, C(1))
            elif s.op == "spread":
                b, d = lenbase(s.args[0])
                n = add(n, add(app("len", b), C(d)))
            else:
                b, d = lenbase(mk("lst", (I.freeze(st, s),), "list"))
                n = add(n, add(app("len", b), C(d)))
        return [(st, n)]
    b, d = lenbase(fz)
    return [(st, add(app("len", b), C(d)))]


def b_range(I, args, kw, st, F, node):
    a = [I.freeze(st, x) for x in args]
    if len(a) == 1:
        a = [ZERO, a[0], C(1)]
    elif len(a) == 2:
        a = [a[0], a[1], C(1)]
    if a[0] is ZERO and a[2] is C(1) and a[1].op == "app" and a[1].args[0] == "len":
        return [(st, app("range", ZERO, a[1], C(1)))]
    return [(st, app("range", *a))]


def b_enumerate(I, args, kw, st, F, node):
    return [(st, app("enumerate", I.freeze(st, args[0]), args[1] if len(args) > 1 else ZERO))]


def b_zip(I, args, kw, st, F, node):
    return [(st, app("zip", *[I.freeze(st, a) for a in args]))]


def pick_by(I, which, args, kw, st, F, node):
    """the element of a list of single elements whose key is the largest or smallest"""
    segs = I.segs_of(st, args[0]) if len(args) == 1 else [E(a) for a in args]
    if not segs or not all(s.op == "e" for s in segs) or set(kw) != {"key"}:
        return None
    keys = []
    for s in segs:
        r = I.call(kw["key"], [s.args[0]], {}, st, F, node)
        if len(r) != 1:
            return None
        st, k = r[0]
        keys.append(I.freeze(st, k))
    plain = [plain_key(k) for k in keys]
    if all(k is not None for k in plain) and len({type(k) is tuple for k in plain}) == 1:
        return [(st, segs[plain.index((max if which == "max" else min)(plain))].args[0])]
    if len(keys) > 3 or not all(is_scalar(k) for k in keys):
        return None
    states = [(st, 0)]
    for i in range(1, len(keys)):
        more = []
        for s, cur in states:
            d = sub(keys[i], keys[cur]) if which == "max" else sub(keys[cur], keys[i])
            more += [(s2, i if b else cur) for s2, b in I.branch(s, mk("pos", d))]
        states = more
    return [(s, segs[i].args[0]) for s, i in states]


def _minmax(which):
    def f(I, args, kw, st, F, node):
        if len(args) == 1 and not kw:
            segs = I.segs_of(st, args[0])
            if segs is not None and segs and all(s.op == "e" for s in segs):
                args = [s.args[0] for s in segs]
            else:
                return [(st, app(which, I.freeze(st, args[0])))]
        elif len(args) == 1 or kw:
            r = pick_by(I, which, args, kw, st, F, node) if I.unroll else None
            if r is not None:
                return r
            return [(st, app(which + "_by", *fz_args(I, st, args, {k: (v if v.op != "fn" else v) for k, v in kw.items()})))]
        if any(a is NONE for a in args):
            I.throw(st, mk("exc", "TypeError"), F, node)
            return []
        flat = []
        for a in args:
            a = I.freeze(st, a)
            if a.op == "app" and a.args[0] == which and len(a.args) > 2:
                flat.extend(a.args[1:])
            else:
                flat.append(a)
        consts = [a for a in flat if is_num_const(a)]
        rest = []
        for a in flat:
            if not is_num_const(a) and a not in rest:
                rest.append(a)
        if consts:
            k = (max if which == "max" else min)(cval(c) for c in consts)
            if not rest:
                return [(st, C(k))]
            rest.append(C(k))
        # drop arguments known to be dominated
        keep = list(rest)
        for a in rest:
            for b in rest:
                if a is b or a not in keep or b not in keep:
                    continue
                if is_scalar(a) and is_scalar(b):
                    ge = I.fact(st, mk("pos", sub(b, a)))
                    if ge is False and which == "max" and b in keep:
                        keep.remove(b)      # b <= a
                    elif ge is False and which == "min" and a in keep:
                        keep.remove(a)      # a >= b
        if len(keep) == 1:
            return [(st, keep[0])]
        return [(st, app(which, *sorted(keep, key=lambda t: t.n)))]
    return f


b_max = _minmax("max")
b_min = _minmax("min")


def b_abs(I, args, kw, st, F, node):
    v = I.freeze(st, args[0])
    if is_num_const(v):
        return [(st, C(abs(cval(v))))]
    p = I.fact(st, mk("pos", v))
    if p is True or I.sign(st, v) in ("+", "0+"):
        return [(st, v)]
    n = I.fact(st, mk("pos", neg(v)))
    if n is True or I.sign(st, v) in ("-", "0-"):
        return [(st, neg(v))]
    # |x| and |-x| are the same number
    w = neg(v)
    key = lambda t: (show(t).count("-"), t.n)
    if v is NONE:
        I.throw(st, mk("exc", "TypeError"), F, node)
        return []
    return [(st, app("abs", min((v, w), key=key)))]


def b_round(I, args, kw, st, F, node):
    v = I.freeze(st, args[0])
    if v is NONE:
        I.throw(st, mk("exc", "TypeError"), F, node)
        return []
    if is_num_const(v) and (len(args) < 2 or args[1] is NONE):
        return [(st, C(round(cval(v))))]
    if is_num_const(v) and len(args) > 1 and is_num_const(args[1]):
        return [(st, C(round(cval(v), int(cval(args[1])))))]
    return [(st, app("round", v, args[1] if len(args) > 1 else NONE))]


def b_int(I, args, kw, st, F, node):
    if args and is_num_const(args[0]):
        return [(st, C(int(cval(args[0]))))]
    if args and args[0] is NONE:
        I.throw(st, mk("exc", "TypeError"), F, node)
        return []
    if args and ty(I, st, args[0]) == "int":
        return [(st, args[0])]
    return [(st, app("int", *[I.freeze(st, a) for a in args]))]


def b_float(I, args, kw, st, F, node):
    if args and is_scalar(args[0]) and numeric(I, st, args[0]):
        return [(st, args[0])]
    return [(st, app("float", *[I.freeze(st, a) for a in args]))]


def b_str(I, args, kw, st, F, node):
    return to_str(I, args[0], st, F, node) if args else [(st, C(""))]


def b_repr(I, args, kw, st, F, node):
    return to_repr(I, args[0], st, F, node)


def b_bool(I, args, kw, st, F, node):
    return [(s, C(b)) for s, b in I.branch(st, args[0])]


def _mklist(kind):
    def f(I, args, kw, st, F, node):
        from .engine import Lst
        st = st.fork()
        if not args:
            return [(st, I.new_list(st, [], F, node, kind))]
        v = args[0]
        segs = I.segs_of(st, v)
        o = I.deref(st, v)
        if segs is None:
            segs = (mk("spread", I.freeze(st, v)),)
        if isinstance(o, Lst) and o.kind == "dict":
            if kind == "dict":
                return [(st, I.new_list(st, segs, F, node, "dict", o.extra))]
            segs = I.map_segs(segs, lambda x: idx(x, ZERO))
        if isinstance(o, Lst) and o.kind == "set" and kind == "list":
            if not (len(segs) <= 1 and all(s.op == "e" for s in segs)):
                segs = (mk("spread", app("unordered", I.freeze(st, v))),)
        if v.op == "app" and v.args[0] == "unordered" and kind == "list":
            segs = (mk("spread", v),)
        if kind == "set" and len(segs) > 1 and all(s.op == "e" for s in segs):
            seen = []
            for s in segs:
                if s not in seen:
                    seen.append(s)
            segs = tuple(seen)
        return [(st, I.new_list(st, segs, F, node, kind))]
    return f


b_list = _mklist("list")
b_set = _mklist("set")
b_frozenset = _mklist("set")
_b_dict = _mklist("dict")


def b_dict(I, args, kw, st, F, node):
    from .engine import E
    out = []
    for s, v in _b_dict(I, args, {}, st, F, node):
        o = I.deref(s, v)
        s.heap[v.args[0]] = o.with_(o.segs + tuple(E(tup([C(k), x])) for k, x in kw.items()))
        out.append((s, v))
    return out


def b_dict_fromkeys(I, args, kw, st, F, node):
    """an ordered collection without repetitions"""
    from .engine import E
    v = args[0]
    segs = I.segs_of(st, v)
    if segs is None or not all(s.op == "e" for s in segs):
        return [(st, app("dict.fromkeys", *fz_args(I, st, args, kw)))]
    seen = []
    for s in segs:
        k = I.freeze(st, s.args[0])
        if k not in seen:
            seen.append(k)
    st = st.fork()
    x = args[1] if len(args) > 1 else NONE
    return [(st, I.new_list(st, [E(tup([k, x])) for k in seen], F, node, "dict"))]


def b_tuple(I, args, kw, st, F, node):
    if not args:
        return [(st, tup([]))]
    segs = I.segs_of(st, args[0])
    if segs is not None:
        segs = tuple(I.freeze(st, s) if s.op != "e" else s for s in segs)
        if all(s.op == "e" for s in segs):
            return [(st, tup([s.args[0] for s in segs]))]
        if len(segs) == 1 and segs[0].op == "spread":
            return [(st, segs[0].args[0])]
        return [(st, mk("lst", tuple(I.freeze(st, s) for s in segs), "tuple"))]
    return [(st, app("tuple", I.freeze(st, args[0])))]


def b_iter(I, args, kw, st, F, node):
    v = args[0]
    t = ty(I, st, v)
    cl = I.cls_of(st, v)
    if v is NONE or is_num_const(v) or t in SCALARS or cl is not None or (
            isinstance(t, str) and t in ALWAYS_TRUE and not is_seq_type(t)):
        I.throw(st, mk("exc", "TypeError"), F, node)
        return []
    return [(st, v)]


def b_next(I, args, kw, st, F, node):
    v = args[0]
    segs = I.segs_of(st, v)
    if segs is None:
        I.may_raise(st, "next", F, node)
        return [(st, app("next", I.freeze(st, v)))]
    t = I.segs_truth(st, tuple(segs))
    out = []
    if t is not True:
        s2 = st.fork() if t is False else I.assume(st, t, False)
        if s2 is not None:
            if len(args) > 1:
                out.append((s2, args[1]))
            else:
                I.throw(s2, mk("exc", "StopIteration"), F, node)
    if t is not False:
        s3 = st if t is True else I.assume(st, t, True)
        if s3 is not None:
            out.extend(I.ends_of(s3, list(segs), True, F, node))
    return out


def b_sorted(I, args, kw, st, F, node):
    st = st.fork()
    segs = I.segs_of(st, args[0])
    if segs is not None and len(segs) <= 1 and all(s.op == "e" for s in segs):
        return [(st, I.new_list(st, segs, F, node))]
    I.cur_frame, I.cur_node = F, node
    known = sorted_known(I, st, segs, kw) if segs is not None else None
    if known:
        return [(st, I.new_list(st, known, F, node))]
    return [(st, I.new_list(st, [mk("spread", sorted_term(I, st, args[0], kw))], F, node))]


def b_reversed(I, args, kw, st, F, node):
    segs = I.segs_of(st, args[0])
    if segs is not None:
        st = st.fork()
        return [(st, I.new_list(st, I.rev_segs(tuple(segs)), F, node))]
    return [(st, app("reversed", I.freeze(st, args[0])))]


def b_sum(I, args, kw, st, F, node):
    segs = I.segs_of(st, args[0])
    start = args[1] if len(args) > 1 else ZERO
    so = I.segs_of(st, start) if start is not ZERO else None
    if so is not None:
        f = lib_value(I, st, "sum_lists")
        return I.call(f, [args[0], start], {}, st, F, node)
    if segs is not None and all(s.op == "e" for s in segs):
        t = start
        for s in segs:
            t = add(t, I.freeze(st, s.args[0]))
        return [(st, t)]
    return [(st, add(start, app("sum", I.freeze(st, args[0]))))]


def _anyall(is_any):
    def f(I, args, kw, st, F, node):
        segs = I.segs_of(st, args[0])
        if segs is None:
            return [(st, mk("prop", mk("anyp" if is_any else "allp", I.freeze(st, args[0]))))]
        out = []
        cur = [st]
        for s in segs:
            nxt = []
            for x in cur:
                if s.op == "e":
                    for y, b in I.branch(x, s.args[0]):
                        if b == is_any:
                            out.append((y, C(is_any)))
                        else:
                            nxt.append(y)
                else:
                    p = mk("anyp" if is_any else "allp", I.freeze(x, s))
                    for y, b in I.branch(x, mk("prop", p)):
                        if b == is_any:
                            out.append((y, C(is_any)))
                        else:
                            nxt.append(y)
            cur = nxt
        return out + [(x, C(not is_any)) for x in cur]
    return f


b_any = _anyall(True)
b_all = _anyall(False)


def b_isinstance(I, args, kw, st, F, node):
    return I.isinstance(args[0], args[1], st)


def b_type(I, args, kw, st, F, node):
    c = I.cls_of(st, args[0])
    if c is not None:
        return [(st, mk("cls", c))]
    return [(st, app("type", I.freeze(st, args[0])))]


def b_getattr(I, args, kw, st, F, node):
    v, n = args[0], args[1]
    if n.op != "c":
        return [(st, app("getattr", *[I.freeze(st, a) for a in args]))]
    c = I.cls_of(st, v)
    if c is not None and len(args) > 2:
        o = I.deref(st, v)
        has = I.class_attr(st, c, cval(n)) or (o is not None and cval(n) in o.attrs) or (
            v.op == "obj" and any(a == cval(n) for a, _ in v.args[1]))
        if not has:
            return [(st, args[2])]
    return I.getattr(v, cval(n), st, F, node)


def b_hasattr(I, args, kw, st, F, node):
    v, n = args
    c = I.cls_of(st, v)
    if c is not None and n.op == "c":
        o = I.deref(st, v)
        return [(st, C(bool(I.class_attr(st, c, cval(n)) or (o is not None and cval(n) in o.attrs))))]
    return [(st, mk("prop", mk("hasattr", I.freeze(st, v), n)))]


def b_setattr(I, args, kw, st, F, node):
    st = st.fork()
    if args[1].op == "c":
        I.setattr(st, args[0], cval(args[1]), args[2], None, F, node)
    return [(st, NONE)]


def b_print(I, args, kw, st, F, node):
    return [(st, NONE)]


def b_object(I, args, kw, st, F, node):
    return [(st, app("object", C(I.ctxid(F, node))))]


def b_open(I, args, kw, st, F, node):
    st = st.fork()
    return [(st, app("open", *fz_args(I, st, args, kw)))]


def b_divmod(I, args, kw, st, F, node):
    a, b = [I.freeze(st, x) for x in args]
    return [(st, tup([app("//", a, b), app("%", a, b)]))]


def b_pow(I, args, kw, st, F, node):
    return [(st, power(*[I.freeze(st, x) for x in args[:2]]))]


def b_id(I, args, kw, st, F, node):
    if I.unroll and args[0].op == "ref":
        return [(st, C(I.idtab.setdefault(args[0], 7000 + len(I.idtab))))]
    return [(st, app("id", I.freeze(st, args[0])))]


# ---- non builtin functions
def f_vector(I, args, kw, st, F, node):
    a = [x if x.op != "ref" else I.freeze(st, x) for x in args]
    return [(st, to_vec(I, st, a))]


def f_copy(I, args, kw, st, F, node):
    from .engine import Inst, Lst
    st = st.fork()
    v = args[0]
    o = I.deref(st, v)
    if isinstance(o, Inst):
        c = I.class_attr(st, o.cls, "__copy__")
        if c:
            out = []
            for s, m in I.getattr(v, "__copy__", st, F, node):
                out.extend(I.call(m, [], {}, s, F, node))
            return out
        r = I.alloc(st, Inst(o.cls, dict(o.attrs), o.site), (I.site(F, node), "copy"))
        I.emit("on_copy", I, st, v, r, F, node)
        return [(st, r)]
    if isinstance(o, Lst):
        return [(st, I.new_list(st, o.segs, F, node, o.kind, o.extra))]
    if v.op == "obj":
        r = I.alloc(st, Inst(v.args[0], dict(v.args[1]), v.args[2] if len(v.args) > 2 else None), (I.site(F, node), "copy"))
        return [(st, r)]
    return [(st, v)]


def f_replace(I, args, kw, st, F, node):
    out = []
    for s, r in f_copy(I, args, {}, st, F, node):
        o = I.deref(s, r)
        if o is not None:
            for k, v in kw.items():
                o = o.set(k, v)
            s.heap[r.args[0]] = o
        out.append((s, r))
    return out


def f_partial(I, args, kw, st, F, node):
    return [(st, mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items()))))]


def f_count(I, args, kw, st, F, node):
    start = args[0] if args else kw.get("start", ZERO)
    step = args[1] if len(args) > 1 else kw.get("step", C(1))
    return [(st, app("count", start, NONE, step))]


def f_pairwise(I, args, kw, st, F, node):
    return [(st, app("pairwise", I.freeze(st, args[0])))]


def f_islice(I, args, kw, st, F, node):
    fz = I.freeze(st, args[0])
    if len(args) == 2:
        return [(st, slice_(fz, ZERO, args[1]))]
    return [(st, slice_(fz, args[1], args[2]))]


def f_defaultdict(I, args, kw, st, F, node):
    st = st.fork()
    return [(st, I.new_list(st, [], F, node, "dict", args[0] if args else NONE))]


def f_linspace(I, args, kw, st, F, node):
    a = [I.freeze(st, x) for x in args]
    if I.unroll and all(is_num_const(x) for x in a[:3]) and 0 <= cval(a[2]) <= 40:
        lo, hi, n = float(cval(a[0])), float(cval(a[1])), int(cval(a[2]))
        ends = not (len(a) >= 4 and a[3] is FALSE)
        d = (hi - lo) / max(1, n - 1 if ends else n)
        vs = [hi if ends and n > 1 and i == n - 1 else lo + i * d for i in range(n)]
        return [(st, I.new_list(st, [mk("e", C(int(x) if x == int(x) else x)) for x in vs], F, node))]
    if len(a) >= 4 and a[3] is FALSE:
        return [(st, app("np.linspaceX", *a[:3]))]
    v = app("np.linspace", *a[:3])
    if is_num_const(a[2]) and 1 <= cval(a[2]) <= 12:
        return [(st, tup([idx(v, C(i)) for i in range(int(cval(a[2])))]))]
    return [(st, v)]


def f_arange(I, args, kw, st, F, node):
    a = [I.freeze(st, x) for x in args]
    if len(a) == 1:
        a = [ZERO, a[0], C(1)]
    elif len(a) == 2:
        a = [a[0], a[1], C(1)]
    if I.unroll and all(is_num_const(x) for x in a[:3]) and cval(a[2]) != 0:
        lo, hi, step = (Fraction(str(cval(x))) for x in a[:3])
        n = max(0, math.ceil((hi - lo) / step))
        if n <= 4 * I.unroll:
            return [(st, I.new_list(st, [mk("e", C(float(lo + i * step) if (lo + i * step).denominator != 1 else int(lo + i * step))) for i in range(n)], F, node))]
    return [(st, app("np.arange", *a[:3]))]


def f_up(I, args, kw, st, F, node):
    a = [I.freeze(st, x) for x in args if x is not NONE]
    return [(st, app("pc.up", *a))]


def f_orientation(I, args, kw, st, F, node):
    v = I.freeze(st, args[0])
    r = I.orient(v) if I.orient else None
    return [(st, app("pc.Orientation", v) if r is None else r)]


def f_reverse(I, args, kw, st, F, node):
    """ReversePath returns the reversed path"""
    return [(st, mk("lst", (mk("rev", mk("spread", I.freeze(st, args[0]))),)))]


def f_down(I, args, kw, st, F, node):
    a = [I.freeze(st, x) for x in args if x is not NONE]
    v = app("pc.down", *a)
    if v.op == "app" and v.args[0] == "pc.down" and not numeric(I, st, a[0]):
        # a fresh, growable list
        st = st.fork()
        return [(st, I.new_list(st, [mk("spread", v)], F, node))]
    return [(st, v)]


def f_sqrt(I, args, kw, st, F, node):
    v = I.freeze(st, args[0])
    if is_num_const(v) and cval(v) >= 0:
        r = cval(v) ** 0.5
        return [(st, C(int(r) if r == int(r) else r))]
    return [(st, app("math.sqrt", v))]


def f_hypot(I, args, kw, st, F, node):
    t = ZERO
    for a in args:
        a = I.freeze(st, a)
        t = add(t, mul(a, a))
    return [(st, app("math.sqrt", t))]


def f_dist(I, args, kw, st, F, node):
    a, b = [I.freeze(st, x) for x in args]
    t = ZERO
    for i in range(2):
        d = sub(idx(a, C(i)), idx(b, C(i)))
        t = add(t, mul(d, d))
    return [(st, app("math.sqrt", t))]


def f_isclose(I, args, kw, st, F, node):
    return [(st, mk("prop", mk("close", *sorted([I.freeze(st, a) for a in args[:2]], key=lambda t: t.n))))]


def f_identity(I, args, kw, st, F, node):
    return [(st, args[0])]


def f_location(I, args, kw, st, F, node):
    a = [I.freeze(st, x) for x in args]
    if len(a) == 1 and is_vec(I, st, a[0]):
        return [(st, app("Loc", a[0]))]
    if len(a) == 1 and a[0].op == "tup":
        return [(st, app("Loc", to_vec(I, st, list(a[0].args))))]
    return [(st, app("cq.Location", *a))]


def f_plane(I, args, kw, st, F, node):
    return [(st, app("cq.Plane", *fz_args(I, st, args, kw)))]


def f_makeline(I, args, kw, st, F, node):
    I.may_raise(st, "cq.Edge.makeLine", F, node)
    a = [I.freeze(st, x) for x in args]
    a = [to_vec(I, st, [x]) if (x.op == "tup" or is_vec(I, st, x)) else x for x in a]
    st = st.fork()
    v = app("cq.Edge.makeLine", *a)
    st.facts[eqp(app(".Orientation", v), REVERSED)] = False
    return [(st, v)]


def f_degrees(name):
    def f(I, args, kw, st, F, node):
        return [(st, app(name, *[I.freeze(st, a) for a in args]))]
    return f


EXT_FN = {
    "cq.Vector": f_vector, "copy.copy": f_copy, "copy.deepcopy": f_copy, "dataclasses.replace": f_replace,
    "functools.partial": f_partial, "itertools.count": f_count, "itertools.pairwise": f_pairwise,
    "itertools.islice": f_islice, "collections.defaultdict": f_defaultdict, "np.linspace": f_linspace,
    "np.arange": f_arange, "pc.scale_to_clipper": f_up, "pc.Orientation": f_orientation, "pc.ReversePath": f_reverse, "pc.scale_from_clipper": f_down, "math.sqrt": f_sqrt,
    "np.sqrt": f_sqrt, "math.hypot": f_hypot, "np.hypot": f_hypot, "math.dist": f_dist, "math.isclose": f_isclose,
    "np.isclose": f_isclose, "cq.Location": f_location, "cq.Plane": f_plane, "cq.Edge.makeLine": f_makeline,
    "typing.cast": lambda I, a, k, st, F, n: [(st, a[1])],
    "collections.deque": lambda I, a, k, st, F, n: b_list(I, a[:1], {}, st, F, n),
    "collections.OrderedDict": lambda I, a, k, st, F, n: b_dict(I, a, k, st, F, n),
    "math.fabs": lambda I, a, k, st, F, n: b_abs(I, a, k, st, F, n),
    "np.abs": lambda I, a, k, st, F, n: b_abs(I, a, k, st, F, n),
    "operator.attrgetter": lambda I, a, k, st, F, n: [(st, mk("getter", "attr", a[0]))],
    "operator.itemgetter": lambda I, a, k, st, F, n: [(st, mk("getter", "item", a[0]))],
}


# ------------------------------------------------------------------ methods of external objects
def unlocate(loc):
    """vector of a pure translation"""
    if loc.op == "app" and loc.args[0] == "Loc":
        return loc.args[1]
    return None


def move_term(w, vec):
    if w.op == "app" and w.args[0] == "moved" and w.args[2].op == "app" and w.args[2].args[0] == "Vec" and (
            vec.op == "app" and vec.args[0] == "Vec"):
        return app("moved", w.args[1], app("Vec", *[add(a, b) for a, b in zip(comps(w.args[2]), comps(vec))]))
    return app("moved", w, vec)


def call_method(I, recv, name, args, kw, st, F, node):
    I.emit("on_ext_call", I, st, "." + name, recv, args, kw, F, node, None)
    if I.given is not None:
        r = I.given(I, st, name, recv, args, kw, F, node)
        if r is not None:
            return r
    t = ty(I, st, recv)
    full = "." + name
    args, kw = bind_sig(full, args, kw)
    if recv.op == "app" and recv.args[0].startswith(("logging.", "warnings.")):
        return [(st, NONE)]
    if recv.op == "attr" and recv.args[0].op == "mod":
        pass
    a = [I.freeze(st, x) for x in args]
    if t == "Vector":
        return vec_method(I, recv, name, a, kw, st, F, node)
    if name in ("startPoint", "endPoint") and not a:
        return [(st, edge_point(I, st, recv, name))]
    if name == "positionAt" and a:
        I.may_raise(st, full, F, node)
        return [(st, position_at(I, st, recv, a))]
    if name == "paramAt" and len(a) == 1:
        r = rev_fact(st, recv)
        if r is not None:
            return [(st, app("OParam", recv, sub(C(1), a[0]) if r else a[0]))]
        return [(st, app(".paramAt", recv, a[0]))]
    if name == "transformShape" and len(a) == 1:
        return [(st, app("xform", recv, a[0]))]
    if name == "toLocalCoords" and len(a) == 1:
        x = to_vec(I, st, [a[0]]) if a[0].op == "tup" else a[0]
        return [(st, app("xform", x, attr(recv, "fG")))]
    if name == "toWorldCoords" and len(a) == 1:
        x = to_vec(I, st, [a[0]]) if a[0].op == "tup" else a[0]
        return [(st, app("xform", x, attr(recv, "rG")))]
    if name in ("moved", "located") and len(a) == 1 and name == "moved":
        v = unlocate(a[0])
        if v is not None:
            return [(st, move_term(recv, v))]
        return [(st, app("movedL", recv, a[0]))]
    if name == "translate" and len(a) == 1:
        v = to_vec(I, st, [a[0]]) if a[0].op == "tup" else a[0]
        return [(st, move_term(recv, v))]
    if name == "Orientation" and len(a) == 1:
        st = st.fork()
        p = eqp(app(".Orientation", recv), REVERSED)
        if a[0] is REVERSED:
            st.facts[p] = True
        elif a[0] is FORWARD:
            st.facts[p] = False
        else:
            st.facts.pop(p, None)
        I.emit("on_ext_mutate", I, st, recv, full, a, F, node)
        return [(st, NONE)]
    if name == "IsNull" and not a:
        # the element after the last one of an explored sequence is null
        if recv.op == "idx":
            seq, i = recv.args
            if seq.op == "app" and seq.args[0] in ("OrderedEdges", "SubShapes"):
                p = mk("pos", sub(app("len", seq), i))
                return [(st, I.prop(st, p, True))]
        return [(st, mk("prop", mk("isnull", recv)))]
    if name in ("Closed", "IsClosed", "isClosed", "IsDone", "contains", "IsInside_s", "isValid", "isInside"):
        return [(st, mk("prop", mk("test", full, recv, *a)) if I.fact(st, mk("test", full, recv, *a)) is None
                 else C(I.fact(st, mk("test", full, recv, *a))))]
    if name == "move" and t in SHAPES:
        I.emit("on_ext_mutate", I, st, recv, full, a, F, node)
        return [(st, recv)]
    if name in ("items", "keys", "values") and not a:
        return [(st, app(full, recv))]
    if name in ("Perform", "Hide", "ShowAll", "Update", "Connect", "SetColor", "SetLineArrowDraw",
                "SetLocalTransformation", "write", "Add", "Projector") or (name == "Location" and a):
        I.may_raise(st, full, F, node)
        st = st.fork()
        I.emit("on_ext_mutate", I, st, recv, full, a, F, node)
        if name in ("Connect", "SetLocalTransformation", "write"):
            st.log = st.log + ((full, recv, tuple(a), I.where(F, node)),)
        return [(st, NONE)]
    if name == "__get__":
        return [(st, recv)]
    if recv.op == "app" and recv.args[0] == "NewEdge" and name in ("Edge", "Shape"):
        return [(st, recv)]
    if name in ("append", "extend", "sort", "remove", "insert", "reverse", "pop", "add") and (
            is_seq_type(t) or recv.op in ("idx", "slice")) and t != "Workplane":
        return seq_mut(I, recv, name, args, kw, st, F, node)
    I.may_raise(st, full, F, node)
    if name == "getDiameter":
        return [(st, app(full, recv))]
    extra = [mk("kw", k, I.freeze(st, v)) for k, v in sorted(kw.items())]
    v = app(full, recv, *a, *extra)
    return [(st, v)]


def seq_mut(I, recv, name, args, kw, st, F, node):
    """in-place change of a list which is only known by its provenance"""
    I.emit("on_mutate", I, st, recv, name, F, node)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
        st = st.fork()
        l = I.new_list(st, [mk("spread", recv)], F, node)
        I.rebind(st, node.func.value, l, F, node)
        return call_builtin_method(I, l, name, args, kw, st, F, node)
    I.note("mutation of opaque sequence")
    return [(st, TOP)]


def edge_point(I, st, e, name):
    if e.op == "app" and e.args[0] == "cq.Edge.makeLine":
        return e.args[1] if name == "startPoint" else e.args[2]
    r = rev_fact(st, e)
    if r is None:
        return app("." + name, e)
    first = (name == "startPoint") != r
    if e.op == "app" and e.args[0] == "NewEdge" and len(e.args) >= 4:
        # a trimmed curve: its ends are the parameters it was made with
        return app("CurvePt", e.args[1], e.args[2] if name == "startPoint" else e.args[3])
    return app("OStart" if first else "OEnd", e)


def position_at(I, st, e, a):
    mode = a[1] if len(a) > 1 else C("length")
    r = rev_fact(st, e)
    d = a[0]
    if mode.op == "c" and cval(mode) == "parameter":
        if d.op == "app" and d.args[0] in ("OStartParam", "OEndParam", "OParam") and d.args[1] is e:
            return app("PosP", e, d)
        return app("PosP", e, d)
    if mode.op == "c" and cval(mode) == "length":
        if r is not None:
            return app("PosO", e, sub(C(1), d) if r else d)
        return app(".positionAt", e, d)
    return app(".positionAt", e, d, mode)


def vec_method(I, v, name, a, kw, st, F, node):
    if name == "toTuple":
        return [(st, tup(comps(v)))]
    if name == "add" and len(a) == 1 and is_vec(I, st, a[0]):
        return [(st, vec_binop(ast.Add(), v, a[0], True, True))]
    if name == "sub" and len(a) == 1 and is_vec(I, st, a[0]):
        return [(st, vec_binop(ast.Sub(), v, a[0], True, True))]
    if name == "multiply" and len(a) == 1:
        return [(st, vec_map(v, lambda c: mul(c, a[0])))]
    if name == "transform" and len(a) == 1:
        return [(st, app("xform", v, a[0]))]
    if name in ("toPnt", "toDir"):
        return [(st, app("." + name, v))]
    if name == "dot" and len(a) == 1:
        t = ZERO
        for x, y in zip(comps(v), comps(a[0])):
            t = add(t, mul(x, y))
        return [(st, t)]
    if name == "normalized":
        return [(st, app(".normalized", v))]
    return [(st, app("." + name, v, *a))]
