"""records the netgen mesh built by the code under test"""


class PointId(int):
    @property
    def nr(self):
        return int(self)


class Pnt(tuple):
    def __new__(cls, *a):
        return tuple.__new__(cls, a)


class MeshPoint:
    def __init__(self, p):
        self.p = tuple(p)


class Element1D:
    def __init__(self, vertices, surfaces=(), index=1, edgenr=1, **k):
        self.points = [int(v) for v in vertices]
        self.vertices = self.points
        self.surfaces, self.index, self.edgenr = surfaces, index, edgenr


class Element2D:
    def __init__(self, index=1, vertices=(), **k):
        self.index, self.vertices = index, [int(v) for v in vertices]


class FaceDescriptor:
    def __init__(self, surfnr=None, domin=0, domout=0, bc=0, **k):
        self.surfnr, self.domin, self.domout, self.bc = surfnr, domin, domout, bc


class Mesh:
    def __init__(self, *a, **k):
        self.dim = 3
        self.pts, self.els2, self.els1, self.fds, self.bcnames = [], [], [], [], {}

    def SetGeometry(self, g):
        self.geo = g

    def Add(self, o, *a, **k):
        if isinstance(o, MeshPoint):
            self.pts.append(o.p)
            return PointId(len(self.pts))
        if isinstance(o, Element2D):
            self.els2.append(o)
            return len(self.els2) - 1
        if isinstance(o, Element1D):
            self.els1.append(o)
            return len(self.els1) - 1
        if isinstance(o, FaceDescriptor):
            self.fds.append(o)
            return len(self.fds)
        raise TypeError(f"netgen stub: Add({type(o)})")

    def SetBCName(self, i, name):
        self.bcnames[i] = name

    def Points(self):
        return self.pts

    def Elements2D(self):
        return self.els2

    def Elements1D(self):
        return self.els1
