"""Behaviour of the stateful third-party objects cq_cam uses, written as plain
classes which the abstract interpreter runs instead of the real libraries.
`_prim(name, *args)` is an uninterpreted library function."""


class BRepTools_WireExplorer:
    def __init__(self, wire=None, face=None):
        self.seq = _prim("OrderedEdges", wire)
        self.i = 0

    def Init(self, wire, face=None):
        self.seq = _prim("OrderedEdges", wire)
        self.i = 0

    def More(self):
        return self.i < len(self.seq)

    def Current(self):
        return self.seq[self.i]

    def Next(self):
        self.i = self.i + 1


class TopExp_Explorer:
    def __init__(self, shape=None, kind=None, avoid=None):
        self.seq = _prim("SubShapes", shape, kind)
        self.i = 0

    def Init(self, shape, kind, avoid=None):
        self.seq = _prim("SubShapes", shape, kind)
        self.i = 0

    def More(self):
        return self.i < len(self.seq)

    def Current(self):
        return self.seq[self.i]

    def Value(self):
        return self.seq[self.i]

    def Next(self):
        self.i = self.i + 1


class Pyclipper:
    def __init__(self):
        self.paths = []

    def AddPath(self, path, poly_type, closed=True):
        self.paths.append((path, poly_type, closed))
        return True

    def AddPaths(self, paths, poly_type, closed=True):
        for path in paths:
            self.paths.append((path, poly_type, closed))
        return True

    def Clear(self):
        self.paths = []

    def Execute(self, clip_type, subj_fill=0, clip_fill=0):
        return _prim("pc.Execute", tuple(self.paths), clip_type, subj_fill, clip_fill)

    def Execute2(self, clip_type, subj_fill=0, clip_fill=0):
        return _prim("pc.Execute2", tuple(self.paths), clip_type, subj_fill, clip_fill)

    def GetBounds(self):
        return _prim("pc.Bounds", tuple(self.paths))


class PyclipperOffset:
    def __init__(self, miter_limit=2.0, arc_tolerance=0.25):
        self.miter = miter_limit
        self.tol = arc_tolerance
        self.paths = []

    def AddPath(self, path, join_type, end_type):
        self.paths.append((path, join_type, end_type))

    def AddPaths(self, paths, join_type, end_type):
        for path in paths:
            self.paths.append((path, join_type, end_type))

    def Clear(self):
        self.paths = []

    def Execute(self, delta):
        return _prim("pc.Offset", tuple(self.paths), delta, self.miter, self.tol)

    def Execute2(self, delta):
        return _prim("pc.Offset2", tuple(self.paths), delta, self.miter, self.tol)


class STLSurf:
    def __init__(self):
        self.triangles = []

    def addTriangle(self, t):
        self.triangles.append(t)


class BatchDropCutter:
    def __init__(self):
        self.points = []
        self.cutter = None
        self.stl = None
        self.ran = False

    def setCutter(self, c):
        self.cutter = c

    def setSTL(self, s):
        self.stl = s

    def setSampling(self, s):
        pass

    def setThreads(self, s):
        pass

    def appendPoint(self, p):
        self.points.append(p)

    def run(self):
        self.ran = True

    def getCLPoints(self):
        return _prim("DropCutter", self.cutter, tuple(self.stl.triangles), tuple(self.points), self.ran)


def map_(f, *xs):
    if len(xs) == 1:
        for x in xs[0]:
            yield f(x)
    else:
        for x in zip(*xs):
            yield f(*x)


def filter_(f, xs):
    for x in xs:
        if x if f is None else f(x):
            yield x


def starmap(f, xs):
    for x in xs:
        yield f(*x)


def chain(*xs):
    for x in xs:
        for y in x:
            yield y


def chain_from_iterable(xs):
    for x in xs:
        for y in x:
            yield y


def takewhile(f, xs):
    for x in xs:
        if not f(x):
            break
        yield x


def sum_lists(xs, start):
    out = list(start)
    for x in xs:
        out.extend(x)
    return out


def reduce_(f, xs, init):
    acc = init
    for x in xs:
        acc = f(acc, x)
    return acc


class TreeModel:
    """Stands for cq_cam.utils.tree.Tree: which node comes next, and how the nodes
    are grouped into sequences, is left open; every value is one that was put in."""

    def __init__(self, root):
        self.objs = [root]
        self.n = 0
        self.root = NodeModel(self, root)

    @property
    def next_unlocked(self):
        self.n = self.n + 1
        if _prim("TreeDone", self.n):
            raise StopIteration()
        return NodeModel(self, _any(self.objs))

    @property
    def sequences(self):
        return [[_any(self.objs) for i in _prim("TreeSequence", j)] for j in _prim("TreeSequences")]


class NodeModel:
    def __init__(self, tree, obj):
        self.tree = tree
        self.obj = obj

    def lock(self):
        _prim("TreeLock", self.obj)

    def branch(self, branches):
        branches = list(branches)
        _prim("TreeBranch", self.obj, tuple(branches))
        for x in branches:
            self.tree.objs.append(x)
        return branches


class AIS_Group:
    def __init__(self):
        self.shapes = []
        self.placed = []

    def Connect(self, shape):
        self.shapes.append(shape)

    def SetLocalTransformation(self, t):
        self.placed.append(t)


class Viewer:
    """a show_object function"""

    def __init__(self, module):
        self.__module__ = module
        self.shown = []
        self.names = []

    def __call__(self, shape, name=None, options=None):
        self.shown.append(shape)
        self.names.append(name)
