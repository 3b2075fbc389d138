"""Stub of the ngsolve API used by the code under test, evaluated symbolically.
Semantics of every operation mirror the installed library (probed; conformance
is re-checked by replaying witnesses of every path on the real library)."""
import builtins as _b
import sys as _sys
import types as _types

LOG = []

from ._cf import *            # noqa
from ._cf import (CoefficientFunction, CF, Parameter, specialcf, x, y, z, pi, sqrt, exp, log, sin, cos, tan, atan,
                  asin, acos, sinh, cosh, atan2, erf, floor, ceil, pow, IfPos, InnerProduct, OuterProduct, Norm, Id, Zero, Trace,
                  Sym, Skew, Det, Inv, Cof, Cross, Conj, NgException, MappedPoint, NonFinite)
from ._fe import *            # noqa
from ._fe import (BitArray, BaseVector, Mesh, Region, FESpace, L2, VectorL2, H1, VectorH1, FacetFESpace, Periodic,
                  Compress, Discontinuous, ProductSpace, GridFunction, BilinearForm, LinearForm, TaskManager, VTKOutput,
                  Integrate, Interpolate, BoundaryFromVolumeCF, grad, Grad, div, ORDER_POLICY, NodeId, ElementId, VOL, BND,
                  BBND, BBBND, VERTEX, EDGE, FACE, CELL, ELEMENT, FACET)
from . import _cf, _fe, _measure
from ._measure import dx, ds

comp = _types.ModuleType('ngsolve.comp')
comp.ProxyFunction = _fe.ProxyFunction
comp.SumOfIntegrals = _measure.SumOfIntegrals
comp.DifferentialSymbol = _measure.Symbol
comp.Integral = _measure.Integral
comp.VectorValued = _fe.VectorValued
comp.ProductSpace = ProductSpace
comp.Region = Region
comp.GridFunction = GridFunction
comp.FESpace = FESpace
comp.Mesh = Mesh
comp.VorB = _fe.VorB
comp.BilinearForm = BilinearForm
comp.LinearForm = LinearForm
fem = _types.ModuleType('ngsolve.fem')
fem.CoefficientFunction = CF
fem.Parameter = Parameter
fem.IfPos = IfPos
la = _types.ModuleType('ngsolve.la')
la.BaseVector = BaseVector
la.InnerProduct = InnerProduct
la.CreateVVector = lambda n, *a, **k: BaseVector(n)
CreateVVector = la.CreateVVector
webgui = _types.ModuleType('ngsolve.webgui')
for _m in (comp, fem, la, webgui):
    _sys.modules[_m.__name__] = _m


class _Geo:
    dim = 2

    def GenerateMesh(self, *a, **k):
        return self

    spec = {'dim': 2, 'cells': [('default', (0, 1, 2))], 'facets': ['bottom', 'right', 'left']}


unit_square = _Geo()
unit_cube = _Geo()


class _Scene:
    def Redraw(self, *a, **k):
        LOG.append(('SceneRedraw', self))


def Draw(*a, **k):
    LOG.append(('Draw', a, k))
    return _Scene()


webgui.Draw = Draw


def Redraw(*a, **k):
    LOG.append(('Redraw', a))


def SetNumThreads(n):
    pass


class solvers:
    pass


def __getattr__(name):
    from vlib.sym import EncodingError
    if name.startswith('__'):
        raise AttributeError(name)
    raise AttributeError(f"stub ngsolve has no '{name}'")
