class Pnt(tuple):
    def __new__(cls, *a):
        return tuple.__new__(cls, a)


class Vec(Pnt):
    pass


class Plane:
    def __init__(self, *a):
        self.args = a


class Cylinder(Plane):
    pass


class CSGeometry:
    def __init__(self):
        self.objs = []

    def SetBoundingBox(self, *a):
        self.box = a

    def Add(self, o, *a):
        self.objs.append(o)
        return len(self.objs) - 1
