"""Meshes, regions, spaces, grid functions, vectors and forms of the stub."""
from __future__ import annotations

import builtins
from fractions import Fraction
import enum
import itertools
import os
import re

from vlib import sym
from vlib import engine as _eng
from vlib.sym import Sc, EncodingError
from vlib.engine import Num, engine, lift
from . import _cf, _measure
from ._cf import CoefficientFunction, as_cf, mk, leaf, Ctx, NgException, is_number, MappedPoint


# ------------------------------------------------------------------- BitArray

class BitArray:
    def __init__(self, n):
        if isinstance(n, BitArray):
            self.bits = builtins.list(n.bits)
        elif isinstance(n, (builtins.list, tuple)):
            self.bits = [bool(b) for b in n]
        else:
            self.bits = [False] * int(n)

    def __len__(self):
        return len(self.bits)

    def __iter__(self):
        return iter(self.bits)

    def Clear(self, i=None):
        if i is None:
            self.bits = [False] * len(self.bits)
        else:
            self.bits[i] = False

    def Set(self, i=None):
        if i is None:
            self.bits = [True] * len(self.bits)
        else:
            self.bits[i] = True

    def NumSet(self):
        return sum(self.bits)

    def __getitem__(self, i):
        if isinstance(i, slice):
            b = BitArray(0)
            b.bits = self.bits[i]
            return b
        return self.bits[i]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            ids = range(len(self.bits))[i]
            if isinstance(v, BitArray):
                for k, j in enumerate(ids):
                    self.bits[j] = v.bits[k]
            else:
                for j in ids:
                    self.bits[j] = bool(v)
        else:
            self.bits[i] = bool(v)

    def _b(self, o, f):
        b = BitArray(0)
        if len(o) != len(self):
            raise NgException("BitArray sizes differ")
        b.bits = [f(p, q) for p, q in zip(self.bits, o.bits)]
        return b

    def __and__(self, o):
        return self._b(o, lambda p, q: p and q)

    def __or__(self, o):
        return self._b(o, lambda p, q: p or q)

    def __xor__(self, o):
        return self._b(o, lambda p, q: p != q)

    def __invert__(self):
        b = BitArray(0)
        b.bits = [not p for p in self.bits]
        return b

    def __iand__(self, o):
        self.bits = (self & o).bits
        return self

    def __ior__(self, o):
        self.bits = (self | o).bits
        return self

    def __eq__(self, o):
        return isinstance(o, BitArray) and self.bits == o.bits

    def __hash__(self):
        return id(self)

    def __str__(self):
        return "0: " + "".join('1' if b else '0' for b in self.bits)


# -------------------------------------------------------------------- vectors

class _Lazy:
    """linear combination of vectors, evaluated on assignment"""

    def __init__(self, fn, size):
        self.fn = fn
        self.size = size

    def values(self):
        return self.fn()

    def __add__(self, o):
        return _vadd(self, o, 1)

    def __sub__(self, o):
        return _vadd(self, o, -1)

    def __neg__(self):
        return _vscale(self, -1)

    def __mul__(self, s):
        return _vscale(self, s)

    __rmul__ = __mul__

    def Evaluate(self):
        v = BaseVector(self.size)
        v.e[:] = self.values()
        return v


def _vals(v):
    if hasattr(v, 'values'):
        return v.values()
    raise TypeError(f"not a vector: {type(v)}")


def _vadd(a, b, s):
    if not hasattr(b, 'values'):
        return NotImplemented
    return _Lazy(lambda: [p + q if s > 0 else p - q for p, q in zip(_vals(a), _vals(b))], a.size)


def _vscale(a, s):
    if isinstance(s, _cf.Parameter):
        s = s.Get()
    k = lift(s)
    if k is None:
        return NotImplemented
    return _Lazy(lambda: [k * p for p in _vals(a)], a.size)


class BaseVector:
    """Entries are exact symbolic scalars; views share the storage."""

    def __init__(self, size=0, store=None, ids=None):
        if store is None:
            store = [sym.S0] * int(size)
            ids = builtins.list(range(int(size)))
        self.e = _Store(store, ids)
        self.store = store
        self.ids = ids

    @property
    def size(self):
        return len(self.ids)

    def __len__(self):
        return len(self.ids)

    def values(self):
        return [self.store[i] for i in self.ids]

    def Range(self, a, b):
        return BaseVector(store=self.store, ids=self.ids[a:b])

    def CreateVector(self, copy=False):
        v = BaseVector(len(self))
        if copy:
            v.e[:] = self.values()
        return v

    def Copy(self):
        return self.CreateVector(True)

    @property
    def data(self):
        return self

    @data.setter
    def data(self, expr):
        if expr is self:
            return
        vals = _vals(expr)
        if len(vals) != len(self):
            raise NgException("vector sizes differ")
        for i, v in zip(self.ids, builtins.list(vals)):
            self.store[i] = v

    def Assign(self, v, s):
        self.data = _vscale(v, s)

    def Add(self, v, s):
        self.data = _vadd(self, _vscale(v, s), 1)

    def __iadd__(self, o):
        self.data = _vadd(self, o, 1)
        return self

    def __isub__(self, o):
        self.data = _vadd(self, o, -1)
        return self

    def __imul__(self, s):
        self.data = _vscale(self, s)
        return self

    def __itruediv__(self, s):
        self.data = _vscale(self, Num(sym.S1) / s)
        return self

    def __add__(self, o):
        return _vadd(self, o, 1)

    def __sub__(self, o):
        return _vadd(self, o, -1)

    def __neg__(self):
        return _vscale(self, -1)

    def __mul__(self, s):
        return _vscale(self, s)

    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            return BaseVector(store=self.store, ids=self.ids[i])
        if i < 0 or i >= len(self.ids):
            raise IndexError
        return tainted(self.store[self.ids[i]])

    def __setitem__(self, i, v):
        if isinstance(i, BitArray):
            if len(i) != len(self.ids):
                raise NgException("BitArray size does not match the vector")
            ids = [k for k, b in zip(self.ids, i.bits) if b]
        elif isinstance(i, slice):
            ids = self.ids[i]
        elif isinstance(i, int):
            ids = [self.ids[i]]
        else:
            raise TypeError("bad vector index")
        if hasattr(v, 'values'):
            for k, s in zip(ids, builtins.list(_vals(v))):
                self.store[k] = s
        else:
            s = lift(v)
            if s is None:
                raise TypeError("vector entries are numbers")
            for k in ids:
                self.store[k] = s

    def __iter__(self):
        return iter([Num(s) for s in self.values()])

    def InnerProduct(self, o, conjugate=True):
        return vector_inner(self, o)

    def Norm(self):
        return vector_norm(self)

    def SetRandom(self, *a):
        raise EncodingError("random vector")

    def FV(self):
        return self

    def NumPy(self):
        raise EncodingError("NumPy view of a symbolic vector")


class _Store:
    def __init__(self, store, ids):
        self.store, self.ids = store, ids

    def __setitem__(self, sl, vals):
        for i, v in zip(self.ids[sl], vals):
            self.store[i] = v


def vector_inner(a, b):
    t = sym.S0
    for p, q in zip(_vals(a), _vals(b)):
        t = t + p * q
    return tainted(t)


def tainted(s):
    """not a number, if it was computed from a value that is none"""
    from vlib.engine import engine
    nans = engine().nans
    return Num(s, nan=True) if nans and nans & s.vars() else Num(s)


def vector_norm(a):
    from . import _cf
    n = vector_inner(a, a)
    return Num(_cf.s_sqrt(n.sc), nan=n.nan)


# --------------------------------------------------------------------- meshes

class VorB(enum.Enum):
    VOL = 0
    BND = 1
    BBND = 2
    BBBND = 3


VOL, BND, BBND, BBBND = VorB.VOL, VorB.BND, VorB.BBND, VorB.BBBND


class NODE_TYPE(enum.Enum):
    VERTEX = 0
    EDGE = 1
    FACE = 2
    CELL = 3
    ELEMENT = 4
    FACET = 5


VERTEX, EDGE, FACE, CELL, ELEMENT, FACET = builtins.list(NODE_TYPE)


class ORDER_POLICY(enum.Enum):
    CONSTANT = 0
    NODETYPE = 1
    VARIABLE = 2
    OLDSTYLE = 3


class NodeId:
    def __init__(self, type, nr):
        self.type, self.nr = type, nr

    def __eq__(self, o):
        return isinstance(o, NodeId) and (self.type, self.nr) == (o.type, o.nr)

    def __hash__(self):
        return hash((self.type, self.nr))


class ElementId(NodeId):
    pass


class Elem:
    def __init__(self, nr, mat, index, facets=(), vertices=(), vb=VOL):
        self.nr, self.mat, self.index, self.facets, self.vertices, self._vb = nr, mat, index, tuple(facets), tuple(vertices), vb
        self.edges = self.facets

    def VB(self):
        return self._vb


class Region:
    def __init__(self, mesh, vb, names, indices):
        self.mesh, self.vb, self.names, self.indices = mesh, vb, names, tuple(indices)

    def VB(self):
        return self.vb

    def Mask(self):
        b = BitArray(len(self.names))
        for i in self.indices:
            b[i] = True
        return b

    def Elements(self):
        els = self.mesh.cells if self.vb is VOL else self.mesh.bels
        return [e for e in els if e.index in self.indices]

    def Names(self):
        return tuple(self.names[i] for i in self.indices)

    def _c(self, ids):
        return Region(self.mesh, self.vb, self.names, sorted(set(ids)))

    def __add__(self, o):
        return self._c(set(self.indices) | set(o.indices))

    def __mul__(self, o):
        return self._c(set(self.indices) & set(o.indices))

    def __sub__(self, o):
        return self._c(set(self.indices) - set(o.indices))

    def __invert__(self):
        return self._c(set(range(len(self.names))) - set(self.indices))


class Mesh:
    """cells: list of (material, facets); facets: name of the boundary region or
    None for an interior facet."""

    def __init__(self, spec=None, *a, **k):
        if not isinstance(spec, dict):
            if isinstance(spec, Mesh):
                spec = spec.spec
            elif hasattr(spec, 'spec'):
                spec = spec.spec
            else:
                self.ngmesh = spec
                spec = {'dim': getattr(spec, 'dim', 2), 'cells': [], 'facets': []}
        self.spec = spec
        self.dim = spec.get('dim', 2)
        self.materials = builtins.list(spec.get('materials') or dict.fromkeys(m for m, _ in spec['cells']))
        # one boundary region entry per name occurrence, as the library reports them
        self.boundaries = builtins.list(spec.get('boundaries') or [f for f in dict.fromkeys(spec['facets']) if f is not None])
        self.points = [tuple(p) for p in spec.get('points', [])]
        self.cells = [Elem(i, m, self.materials.index(m), f) for i, (m, f) in enumerate(spec['cells'])]
        bverts = spec.get('boundary_vertices', {})
        self.facet_names = builtins.list(spec['facets'])
        self.bels = [Elem(n, name, self.boundaries.index(name), (j,), bverts.get(j, ()), BND) for n, (j, name) in enumerate(
            (j, f) for j, f in enumerate(spec['facets']) if f is not None)]
        self.periodic_pairs = builtins.list(spec.get('periodic', []))
        self.deformation = None

    @property
    def ne(self):
        return len(self.cells)

    @property
    def nfacet(self):
        return len(self.facet_names)

    nedge = nfacet

    @property
    def nv(self):
        return len(self.points)

    def GetNE(self, vb):
        return len(self.cells) if vb is VOL else len(self.bels)

    def GetMaterials(self):
        return tuple(self.materials)

    def GetBoundaries(self):
        return tuple(self.boundaries)

    def GetBBoundaries(self):
        return ()

    def _region(self, vb, names, pattern):
        if isinstance(pattern, Region):
            return pattern
        if isinstance(pattern, (builtins.list, tuple)):
            ids = [i if isinstance(i, int) else names.index(i) for i in pattern]
        else:
            try:
                rx = re.compile(pattern)
            except re.error as err:
                raise NgException(str(err))
            ids = [i for i, n in enumerate(names) if rx.fullmatch(n)]
        return Region(self, vb, names, ids)

    def Materials(self, pattern):
        return self._region(VOL, self.materials, pattern)

    def Boundaries(self, pattern):
        return self._region(BND, self.boundaries, pattern)

    def Elements(self, vb=VOL):
        return builtins.list(self.cells) if vb is VOL else builtins.list(self.bels)

    def _regionwise(self, names, values, default):
        if isinstance(values, dict):
            vals = {}
            for i, n in enumerate(names):
                for k, v in values.items():
                    if re.fullmatch(k, n):
                        vals[i] = as_cf(v)
            vals = [vals.get(i) for i in range(len(names))]
        else:
            vals = [as_cf(v) for v in values]
        return vals

    def MaterialCF(self, values, default=None):
        if not isinstance(values, (dict, builtins.list, tuple)):
            return as_cf(values)
        vals = self._regionwise(self.materials, values, default)
        return self._pick(vals, default, self.materials)

    def BoundaryCF(self, values, default=None):
        vals = self._regionwise(self.boundaries, values, default)
        return self._pick(vals, default, self.boundaries)

    def _pick(self, vals, default, names):
        known = [v for v in vals if v is not None]
        d = None if default is None else as_cf(default)
        shape = known[0]._dims if known else (d._dims if d is not None else ())

        def fn(ctx):
            if ctx.region is None:
                raise EncodingError("region-wise coefficient evaluated without a region")
            i = ctx.region if isinstance(ctx.region, int) else names.index(ctx.region)
            v = vals[i] if vals[i] is not None else d
            if v is None:
                return [sym.S0] * _cf._prod(shape)
            return v._eval(ctx)
        c = leaf('regionwise', shape, fn)
        c._keep = vals
        return c

    def RegionCF(self, vb, values, default=None):
        return self.MaterialCF(values, default) if vb is VOL else self.BoundaryCF(values, default)

    def SetDeformation(self, gf):
        self.deformation = gf

    def UnsetDeformation(self):
        self.deformation = None

    def GetPeriodicNodePairs(self, nt):
        return builtins.list(self.periodic_pairs)

    def GetPeriodicNodePairsIdentification(self):
        return []

    def Curve(self, *a):
        return self

    def __call__(self, *pt, **kw):
        return MappedPoint(self, pt)

    def __getitem__(self, v):
        i = v.nr if hasattr(v, 'nr') else v
        return _Vertex(i, self.points[i])

    @property
    def vertices(self):
        return [_Vertex(i, p) for i, p in enumerate(self.points)]

    def __reduce__(self):
        return (Mesh, (self.spec,))


class _Vertex:
    def __init__(self, nr, point):
        self.nr, self.point = nr, point


# --------------------------------------------------------------------- spaces

_counter = [0]


class FESpace(object):
    vdim = 1              # components of a function
    kind = 'fespace'

    def __init__(self, mesh=None, order=1, order_policy=ORDER_POLICY.CONSTANT, **flags):
        if isinstance(order, Num):
            order = order.__index__()
        self.mesh = mesh
        self.globalorder = int(order)
        self.flags = {'order': int(order), **flags}
        self.order_policy = order_policy
        self.el_order = {}
        self.updated = True
        self.parent = None

    # wrappers keep the class (the real library returns other types)
    @property
    def components(self):
        return ()

    @property
    def leafs(self):
        return [self]

    def __mul__(self, o):
        return ProductSpace([self, o])

    def __pow__(self, n):
        return VectorValued(self, int(n))

    def SetOrder(self, node, order=None):
        if order is None:
            raise EncodingError("SetOrder by type")
        if self.order_policy not in (ORDER_POLICY.VARIABLE, ORDER_POLICY.OLDSTYLE, ORDER_POLICY.NODETYPE):
            raise NgException("In SetOrder: the order policy is constant")
        self.el_order[node.nr] = order.__index__() if isinstance(order, Num) else int(order)
        self.updated = False

    def GetOrder(self, node):
        return self.el_order.get(node.nr, self.globalorder)

    def UpdateDofTables(self):
        self.updated = True

    def Update(self):
        self.updated = True

    def FinalizeUpdate(self):
        self.updated = True

    def _sites(self):
        """list of (site id, ndof)"""
        raise EncodingError(f"dofs of {type(self)}")

    @property
    def ndof(self):
        return sum(n for _, n in self._sites())

    def _site_dofs(self):
        out, k = {}, 0
        for s, n in self._sites():
            out[s] = builtins.list(range(k, k + n))
            k += n
        return out

    def _region_sites(self, region):
        raise EncodingError("region dofs")

    def GetDofs(self, region):
        b = BitArray(self.ndof)
        sd = self._site_dofs()
        for s in self._region_sites(region):
            for d in sd[s]:
                b[d] = True
        return b

    def GetDofNrs(self, el):
        sd = self._site_dofs()
        facets = isinstance(self._root() if isinstance(self, _Wrapped) else self, FacetFESpace)
        if isinstance(el, ElementId):
            el = [e for e in self.mesh.Elements(el.type) if e.nr == el.nr][0]
        elif isinstance(el, NodeId):
            if facets != (el.type != ELEMENT):
                raise EncodingError(f"dofs of node {el} of {type(self).__name__}")
            return tuple(sd[el.nr])
        if facets:
            if el._vb is BND:
                return tuple(sd[el.facets[0]])
            return tuple(d for f in el.facets for d in sd[f])
        return tuple(sd[el.nr])

    def FreeDofs(self, coupling=False):
        b = BitArray(self.ndof)
        b.Set()
        return b

    def Elements(self, vb=VOL):
        return self.mesh.Elements(vb)

    def TrialFunction(self):
        return ProxyFunction(self, 'trial')

    def TestFunction(self):
        return ProxyFunction(self, 'test')

    def TnT(self):
        return self.TrialFunction(), self.TestFunction()

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise AttributeError(f"{type(self).__name__} has no attribute {k} in the stub")

    @property
    def dim(self):
        return 1

    @property
    def type(self):
        return self.kind


def _cell_ndof(dim, p):
    if dim == 1:
        return p + 1
    if dim == 2:
        return (p + 1) * (p + 2) // 2
    return (p + 1) * (p + 2) * (p + 3) // 6


class L2(FESpace):
    kind = 'l2ho'

    def _sites(self):
        if not self.updated:
            raise NgException("space not updated after SetOrder")
        return [(c.nr, _cell_ndof(self.mesh.dim, self.el_order.get(c.nr, self.globalorder))) for c in self.mesh.cells]

    def _region_sites(self, region):
        return [e.nr for e in region.Elements()] if region.VB() is VOL else []


class VectorL2(L2):
    kind = 'VectorL2'

    @property
    def components(self):
        if '_comps' not in self.__dict__:
            self._comps = [L2(self.mesh, order=self.globalorder, order_policy=self.order_policy) for _ in range(self.mesh.dim)]
        return self._comps

    def SetOrder(self, node, order=None):
        raise NgException("FESpace::SetOrder not overloaded for VectorL2")

    def Update(self):
        for c in self.components:
            c.Update()

    def _sites(self):
        per = [c._sites() for c in self.components]
        return [(s[0][0], sum(n for _, n in s)) for s in zip(*per)]

    @property
    def vshape(self):
        return (self.mesh.dim,)


class H1(FESpace):
    kind = 'h1ho'

    def _nodal(self):
        return self.mesh.spec.get('strip') and self.globalorder == 1 and not self.el_order

    def _sites(self):
        if self._nodal():
            return [(('v', i), 1) for i in range(len(self.mesh.points))]
        return [('v', i) for i in range(0)] + [(c.nr, _cell_ndof(self.mesh.dim, self.globalorder)) for c in self.mesh.cells]

    def _region_sites(self, region):
        if self._nodal():
            return sorted({('v', i) for e in region.Elements() for i in _corners(self.mesh, e)})
        return [e.nr for e in region.Elements()]


def _corners(mesh, e):
    """vertices of a cell of a row of unit squares"""
    return [i for i, p in enumerate(mesh.points) if p[0] in (e.nr, e.nr + 1)]


class VectorH1(H1):
    kind = 'VectorH1'

    @property
    def vshape(self):
        return (self.mesh.dim,)

    def _sites(self):
        if self._nodal():
            return [(('v', i, c), 1) for c in range(self.mesh.dim) for i in range(len(self.mesh.points))]
        return super()._sites()

    def _region_sites(self, region):
        if self._nodal():
            return [('v', i, c) for c in range(self.mesh.dim) for _, i in super(VectorH1, self)._region_sites(region)]
        return super()._region_sites(region)


class FacetFESpace(FESpace):
    kind = 'facet'

    def _sites(self):
        n = self.globalorder + 1 if self.mesh.dim == 2 else (self.globalorder + 1) * (self.globalorder + 2) // 2
        return [(j, n) for j in range(self.mesh.nfacet)]

    def _region_sites(self, region):
        if region.VB() is VOL:
            s = {f for e in region.Elements() for f in e.facets}
        else:
            s = {f for e in region.Elements() for f in e.facets}
        return sorted(s)


class _Wrapped(FESpace):
    def __init__(self, space):
        self.base = space
        self.mesh = space.mesh
        self.globalorder = space.globalorder
        self.flags = space.flags
        self.order_policy = space.order_policy
        self.el_order = space.el_order
        self.parent = None

    @property
    def updated(self):
        return self.base.updated

    def _sites(self):
        return self.base._sites()

    def _region_sites(self, r):
        return self.base._region_sites(r)

    def _root(self):
        b = self
        while isinstance(b, _Wrapped):
            b = b.base
        return b

    @property
    def vshape(self):
        return self.base.vshape


class Compress(_Wrapped):
    def __init__(self, fespace=None, active_dofs=None, **kw):
        super().__init__(fespace)
        if active_dofs is None:
            raise EncodingError("Compress without dofs")
        if len(active_dofs) != fespace.ndof:
            raise NgException("Compress: wrong number of dofs")
        self.active = BitArray(active_dofs)

    @property
    def ndof(self):
        return self.active.NumSet()

    def GetDofNrs(self, el):
        nr, k = {}, 0
        for i, a in enumerate(self.active.bits):
            nr[i] = k if a else -1
            k += bool(a)
        return tuple(nr[d] for d in self.base.GetDofNrs(el))

    def GetDofs(self, region):
        full = self.base.GetDofs(region)
        b = BitArray(0)
        b.bits = [f for f, a in zip(full.bits, self.active.bits) if a]
        return b


class Periodic(_Wrapped):
    def __init__(self, fespace, phase=None, use_idnrs=None, **kw):
        super().__init__(fespace)


class Discontinuous(_Wrapped):
    def __init__(self, fespace, *a, **k):
        super().__init__(fespace)


class ProductSpace(FESpace):
    kind = 'product'

    def __init__(self, spaces):
        flat = []
        for s in spaces:
            if type(s) is ProductSpace:
                flat.extend(s._comps)
            else:
                flat.append(s)
        self._comps = flat
        self.mesh = flat[0].mesh
        self.globalorder = max(s.globalorder for s in flat)
        self.flags = {}
        self.el_order = {}
        self.updated = True
        self.parent = None

    @property
    def components(self):
        return tuple(self._comps)

    def __getitem__(self, i):
        return self._comps[i]

    @property
    def ndof(self):
        return sum(c.ndof for c in self._comps)

    def Range(self, i):
        a = sum(c.ndof for c in self._comps[:i])
        return _ProductRange(a, a + self._comps[i].ndof)

    def TrialFunction(self):
        return [s.TrialFunction() for s in self._comps]

    def TestFunction(self):
        return [s.TestFunction() for s in self._comps]

    def FreeDofs(self, coupling=False):
        b = BitArray(self.ndof)
        b.Set()
        return b

    def GetDofs(self, region):
        b = BitArray(0)
        for c in self._comps:
            b.bits.extend(c.GetDofs(region).bits)
        return b


class _ProductRange:
    def __init__(self, a, b):
        self.start, self.stop = a, b


class VectorValued(ProductSpace):
    def __init__(self, base, n):
        super().__init__([base] * n) if type(base) is not ProductSpace else None
        self._comps = [base] * n
        self._basespace = base

    def __mul__(self, o):
        return ProductSpace2([self, o])

    def TrialFunction(self):
        return ProxyFunction(self, 'trial')

    def TestFunction(self):
        return ProxyFunction(self, 'test')


class ProductSpace2(ProductSpace):
    """product whose factors may be vector valued (factors are not flattened)"""

    def __init__(self, spaces):
        flat = []
        for s in spaces:
            if type(s) is ProductSpace2:
                flat.extend(s._comps)
            else:
                flat.append(s)
        self._comps = flat
        self.mesh = flat[0].mesh
        self.globalorder = max(s.globalorder for s in flat)
        self.flags = {}
        self.el_order = {}
        self.updated = True
        self.parent = None

    def __mul__(self, o):
        return ProductSpace2([self, o])


ProductSpace.__mul__ = lambda self, o: ProductSpace2([*self._comps, o])
FESpace.__mul__ = lambda self, o: ProductSpace2([self, o])


def _shape(space):
    """dims of a function of the space"""
    if isinstance(space, VectorValued):
        return (len(space._comps),) + _shape(space._basespace)
    if isinstance(space, (ProductSpace, ProductSpace2)):
        raise NgException("no single function for a product space")
    if hasattr(type(space), 'vshape'):
        try:
            return space.vshape
        except AttributeError:
            return ()
    return ()


# ---------------------------------------------------------- functions on spaces

class ProxyFunction(CoefficientFunction):
    def __init__(self, space, role):
        self._init('leaf', (), _shape(space), _cf._unbound(f"{role} function"))
        self.space = space
        self.role = role
        self._grad = None
        self._others = {}

    def Deriv(self):
        return grad(self)

    def Trace(self):
        return self

    @property
    def trace(self):
        return self

    def Operator(self, name):
        if name not in self._others:
            raise EncodingError(f"proxy operator {name}")
        return self._others[name]

    @property
    def derivname(self):
        return 'grad'

    @property
    def isTest(self):
        return self.role == 'test'

    def anti_dt(self):
        raise EncodingError("dt")


def grad(f):
    if not isinstance(f, (ProxyFunction, GridFunction)):
        raise Exception("cannot form grad")
    if f._grad is None:
        m = f.space.mesh.dim
        f._grad = leaf('grad', f._dims + (m,), f._gradient if isinstance(f, GridFunction) else _cf._unbound("gradient"))
        f._grad._of = f
    return f._grad


Grad = grad


def div(f):
    if not isinstance(f, (ProxyFunction, GridFunction)):
        raise Exception("cannot form div")
    g = grad(f)
    d = f._dims
    m = f.space.mesh.dim
    if not d or d[-1] != m:
        raise NgException("div of a scalar")
    n = _cf._prod(d[:-1])
    return mk('div', (g,), d[:-1], lambda ctx, a: [_cf._sum(a[(i * m + k) * m + k] for k in range(m)) for i in range(n)])


class GridFunction(CoefficientFunction):
    def __init__(self, space, name='gfu', nested=False, _vec=None, **kw):
        self.space = space
        self.name = name
        try:
            dims = _shape(space)
        except NgException:
            dims = (sum(max(1, _cf._prod(_shape(c))) for c in space._comps),)
        self._init('leaf', (), dims, None)
        self._grad = None
        self._vec = _vec
        self._comps = None
        self._set = None

    @property
    def vec(self):
        if self._vec is None:
            self._vec = BaseVector(self.space.ndof)
        return self._vec

    @property
    def components(self):
        if self._comps is None:
            out, k = [], 0
            for i, s in enumerate(self.space.components):
                n = s.ndof
                out.append(GridFunction(s, f"{self.name}.{i}", _vec=BaseVector(store=self.vec.store, ids=self.vec.ids[k:k + n])))
                k += n
            self._comps = tuple(out)
        return self._comps

    def _compute(self, ctx):
        sp = self.space
        if isinstance(sp, ProductSpace):
            return [x for c in self.components for x in c._eval(ctx)]
        root = sp._root() if isinstance(sp, _Wrapped) else sp
        if isinstance(root, L2) and ctx.bind.get('boundary'):       # functions of L2 have no values on the boundary: zero in the library
            return [sym.S0] * builtins.max(1, _cf._prod(self._dims))
        if isinstance(sp, Compress):
            if type(sp.base) is L2 and sp.base.globalorder == 0 and not sp.base.el_order and ctx.element is not None:
                live = [i for i, b in enumerate(sp.active.bits) if b]
                return [self.vec.store[self.vec.ids[live.index(ctx.element)]] if ctx.element in live else sym.S0]
            return self._expand(ctx)
        if root.globalorder == 0 and not root.el_order:
            if isinstance(root, FacetFESpace):
                if ctx.facet is None:
                    raise EncodingError("facet function evaluated off the facets")
                return [self.vec.store[self.vec.ids[ctx.facet]]]
            if isinstance(root, L2) and not isinstance(root, VectorL2):
                el = ctx.element
                if el is None and sp.mesh.ne == 1:
                    el = 0
                if el is None:
                    raise EncodingError("function evaluated without an element")
                return [self.vec.store[self.vec.ids[el]]]
        if type(sp) is VectorH1 or type(sp) is Periodic and type(root) is VectorH1:
            return self._expand(ctx)
        if type(sp) is L2 and not sp.el_order:
            return [_cf._sum(d * _monomial(ctx, a) for a, d in self._local(ctx))]
        raise EncodingError("value of a grid function not bound")

    def _expand(self, ctx):
        """sum of the basis functions of the element"""
        phi = _basis(self.space)
        el = 0 if ctx.element is None and self.space.mesh.ne == 1 else ctx.element
        if phi is None or el is None:
            raise EncodingError("value of a function on a compressed space")
        at = [c._eval(ctx)[0] for c in (_cf.x, _cf.y)]
        out = [sym.S0] * builtins.max(1, _cf._prod(self._dims))
        for d, f in zip(self.vec.ids, phi):
            if el in f:
                out = [o + self.vec.store[d] * v for o, v in zip(out, f[el](at))]
        return out

    def _local(self, ctx):
        """(exponents, coefficient) of the polynomial on the current element: functions of L2 are
        represented by monomials, of which the dofs are the coefficients"""
        el = 0 if ctx.element is None and self.space.mesh.ne == 1 else ctx.element
        if el is None:
            raise EncodingError("function evaluated without an element")
        dofs = self.space._site_dofs()[el]
        return builtins.list(zip(_exponents(self.space.mesh.dim, self.space.globalorder), (self.vec.store[self.vec.ids[d]] for d in dofs)))

    def _gradient(self, ctx):
        sp = self.space
        if isinstance(sp, ProductSpace):
            return [x for c in self.components for x in c._gradient(ctx)]
        if type(sp) is not L2 or sp.el_order:
            raise EncodingError("gradient of a grid function not bound")
        out = []
        for j in range(sp.mesh.dim):
            terms = [d * Sc.const(a[j]) * _monomial(ctx, tuple(e - (i == j) for i, e in enumerate(a))) for a, d in self._local(ctx) if a[j]]
            out.append(_cf._sum(terms) if terms else sym.S0)
        return out

    def Set(self, cf, *a, **k):
        from . import LOG
        cf = as_cf(cf)
        LOG.append(('Set', self, cf, k))
        self._set = cf
        comps = self.space.components or (self.space,)
        if all(type(c) is L2 and c.globalorder == 0 and not c.el_order for c in comps):
            try:
                vals = [cf._eval(_cf.Ctx({}, e.nr, None, e.nr)) for e in self.space.mesh.cells]
            except EncodingError:
                return
            for d, v in enumerate(v[i] for i in range(len(comps)) for v in vals):
                self.vec.store[self.vec.ids[d]] = v
        elif all(type(c) is L2 and not c.el_order for c in comps):
            dofs = []
            for i, c in enumerate(comps):
                for e in c.mesh.cells:
                    dofs += _taylor(cf, i, e, c.mesh.dim, c.globalorder)
            for k, v in zip(self.vec.ids, dofs):
                self.vec.store[k] = v

    Interpolate = Set

    def Save(self, filename, parallel=False):
        from . import LOG
        LOG.append(('Save', self, filename))
        FILES[os.path.abspath(str(filename))] = builtins.list(self.vec.values())
        import pathlib
        pathlib.Path(str(filename)).touch()

    def Load(self, filename, parallel=False):
        from . import LOG
        LOG.append(('Load', self, filename))
        if os.path.abspath(str(filename)) not in FILES or not os.path.exists(str(filename)):
            raise NgException(f"File {filename} does not exist!")
        vals = FILES[os.path.abspath(str(filename))]
        for i, v in zip(self.vec.ids, vals):
            self.vec.store[i] = v

    def Update(self):
        pass

    def Deriv(self):
        return grad(self)


def _exponents(dim, p):
    return sorted(a for a in itertools.product(range(p + 1), repeat=dim) if sum(a) <= p)


def _monomial(ctx, a):
    out = sym.S1
    for c, n in zip((_cf.x, _cf.y, _cf.z), a):
        if n:
            for _ in range(n):
                out = out * c._eval(ctx)[0]
    return out


def _taylor(cf, i, e, dim, p):
    """coefficients of component i on element e, which is a polynomial of the space; otherwise they are left open"""
    al = _exponents(dim, p)
    names = [f"set@{k}" for k in range(dim)]
    pts = [Sc.var(n) for n in names]
    at0 = {sym.VARS.index[n]: sym.S0 for n in names}
    try:
        v = cf._eval(_cf.Ctx({'point': pts + [None] * (3 - dim)}, e.nr, None, e.nr))[i]
        out, rest = [], v
        for a in al:
            t, c = v, 1
            for n, k in zip(names, a):
                for m in range(k):
                    t, c = t.diff(n), c * (m + 1)
            t = t.subs(at0) / Sc.const(c)
            out.append(t)
            for q, k in zip(pts, a):
                for _ in range(k):
                    t = t * q
            rest = rest - t
        if rest.is_zero():
            return out
    except (EncodingError, ZeroDivisionError):
        pass
    return [engine().fresh('dof') for _ in al]


FILES: dict = {}


def Interpolate(cf, space, bonus_intorder=0):
    cf = as_cf(cf)
    r = leaf('interpolate', cf._dims, _cf._unbound("interpolation"))
    r._of = (cf, space)
    from . import LOG
    LOG.append(('Interpolate', r, cf, space))
    return r


def BoundaryFromVolumeCF(cf):
    cf = as_cf(cf)
    r = mk('bndfromvol', (cf,), cf._dims, lambda ctx, a: a)
    return r


def Integrate(cf, mesh, VOL_or_BND=None, order=5, definedon=None, region_wise=False, element_wise=False, heapsize=0, **kw):
    """one unknown number per (integrand normal form, region set, order)"""
    from . import LOG
    cf = as_cf(cf)
    vb = VOL if VOL_or_BND is None else VOL_or_BND
    if definedon is None:
        where = ('vol' if vb is VOL else 'bnd', '*')
    else:
        where = ('vol' if definedon.VB() is VOL else 'bnd', tuple(sorted(definedon.Names())))
    vals = None
    if INTEGRATE is _default_integrate and getattr(mesh, 'spec', {}).get('strip'):
        vals = _integrate_strip(cf, order, mesh, mesh._region(vb, mesh.materials if vb is VOL else mesh.boundaries, '.*') if definedon is None else definedon)
    if vals is None:
        vals = INTEGRATE(cf, where, order)
    LOG.append(('Integrate', cf, where, order))
    if not cf._dims:
        return vals[0]
    return tuple(vals)


def _default_integrate(cf, where, order):
    v = cf._eval(Ctx())
    return [Num(_eng.fn_sc(f"int{where}", s)) for s in v]


INTEGRATE = _default_integrate

BOOLE = [(Fraction(i, 4), Fraction(w, 90)) for i, w in enumerate((7, 32, 12, 32, 7))]
SIMPSON = [(Fraction(i, 2), Fraction(w, 6)) for i, w in enumerate((1, 4, 1))]
NINTH = [(Fraction(i, 8), Fraction(w, 28350)) for i, w in enumerate((989, 5888, -928, 10496, -4540, 10496, -928, 5888, 989))]


def _integrate_strip(cf, order, mesh, region):
    """integral over cells or boundary facets of a row of unit squares, exact for polynomials up to the degree asked for in each
    coordinate, but not beyond the next odd one; the midpoint rule for orders 0 and 1, as the library"""
    rule = NINTH if order > 5 else BOOLE if order > 3 else SIMPSON if order > 1 else [(Fraction(1, 2), Fraction(1))]
    total = [sym.S0] * builtins.max(1, _cf._prod(cf._dims))

    def add(point, weight, element, facet):
        bind = {'point': [Sc.const(point[0]), Sc.const(point[1]), Sc.const(0)], 'boundary': facet is not None}
        v = cf._eval(Ctx(bind, mesh.cells[element].index, facet, element))
        for i, x in enumerate(v):
            total[i] = total[i] + x * Sc.const(weight)
    for e in region.Elements():
        if region.VB() is VOL:
            for s, w in rule:
                for t, u in rule:
                    add((e.nr + s, t), w * u, e.nr, None)
        else:
            (x0, y0), (x1, y1) = (mesh.points[v] for v in e.vertices)
            element = [c.nr for c in mesh.cells if e.facets[0] in c.facets][0]
            for s, w in rule:
                add((x0 + s * (x1 - x0), y0 + s * (y1 - y0)), w, element, e.facets[0])
    return [Num(x) for x in total]


class Matrix:
    """operator of a form: an uninterpreted linear map, recorded"""

    def __init__(self, form, what):
        self.form, self.what = form, what
        self.size = 0

    def Inverse(self, freedofs=None, inverse='', **kw):
        from . import LOG
        LOG.append(('Inverse', self, freedofs, inverse))
        inv = Matrix(self, ('inverse', inverse))
        if hasattr(self, 'undo') and freedofs is None:
            inv.apply = self.undo
        return inv

    def __mul__(self, v):
        if not hasattr(v, 'values'):
            return NotImplemented
        f = self.apply if hasattr(self, 'apply') else None
        if f is None:
            n = len(_vals(v))
            return _Lazy(lambda: [sym.S0] * n, n)
        return _Lazy(lambda: f(_vals(v)), len(_vals(v)))

    @property
    def T(self):
        return self


class _Form:
    def __init__(self, *a, **k):
        self.parts = []
        self.assembled = 0
        self.linearized = 0

    def __iadd__(self, o):
        if isinstance(o, _measure.SumOfIntegrals):
            self.parts.append(o)
        elif isinstance(o, _measure.Integral):
            self.parts.append(_measure.SumOfIntegrals([o]))
        else:
            raise TypeError("form += needs integrals")
        return self

    def Add(self, o):
        self.__iadd__(o)
        return self

    def integrals(self):
        return [i for p in self.parts for i in p]

    @property
    def integrators(self):
        return self.integrals()


def _leaves(cf, out, seen):
    if id(cf) in seen:
        return
    seen.add(id(cf))
    if isinstance(cf, ProxyFunction):
        out.append(cf)
    for a in getattr(cf, '_args', ()):
        _leaves(a, out, seen)


def _assemble0(form, bilinear):
    """Assembly over piecewise constant spaces on cells (or facets) of unit size: the dofs of different cells (facets) do
    not couple. Returns {site: local matrix or vector}, or None for anything else."""
    space = form.space
    if space is None or type(space) in (ProductSpace, ProductSpace2):
        return None
    comps = space.components or (space,)
    live = None
    if type(comps[0]) is Compress and len(comps) == 1:
        live = [i for i, b in enumerate(comps[0].active.bits) if b]
        comps = (comps[0].base,)
    for c in comps:
        if type(c) not in (L2, FacetFESpace) or c.globalorder or c.el_order:
            return None
    n = len(comps)
    facets = type(comps[0]) is FacetFESpace
    local = {s: [[sym.S0] * n for _ in range(n if bilinear else 1)] for s, _ in comps[0]._sites() if live is None or s in live}
    for it in form.integrals():
        dom, on = it.symbol.domain(), it.symbol.definedon
        if dom not in ('cell', 'cellboundary') or facets and dom == 'cell':
            return None
        proxies = []
        _leaves(it.coef, proxies, set())
        trial = [p for p in proxies if p.role == 'trial']
        test = [p for p in proxies if p.role == 'test']
        if len(test) != 1 or len(trial) > bilinear or any(p.space is not space for p in proxies):
            return None
        for e in space.mesh.cells:
            if isinstance(on, Region) and e.index not in on.indices:
                continue
            if on is not None and not isinstance(on, Region):
                return None
            for f in (e.facets if dom == 'cellboundary' else (None,)):
                row = local.get(f if facets else e.nr)
                if row is None:
                    continue
                for i in range(n):
                    for j in range(n if trial else 1):
                        b = {id(test[0]): [sym.S1 if k == i else sym.S0 for k in range(n)]}
                        if trial:
                            b[id(trial[0])] = [sym.S1 if k == j else sym.S0 for k in range(n)]
                        v = lift(it.factor) * it.coef._eval(_cf.Ctx(b, e.nr, f, e.nr))[0]
                        if bilinear:
                            row[i][j] = row[i][j] + v
                        else:
                            row[0][i] = row[0][i] + v
    return local


def _basis(space):
    """a basis of a compressed space on a row of unit squares: per dof {cell: function of the coordinates}, or None. Functions of L2
    are monomials, those of H1 of order one are nodal"""
    if type(space) is Periodic and not space.mesh.periodic_pairs:
        space = space.base
    if type(space) not in (Compress, VectorH1) or not space.mesh.spec.get('strip'):
        return None
    base, mesh = space.base if type(space) is Compress else space, space.mesh
    phi = []
    if type(base) is L2:
        def monomial(a):
            def fn(at):
                v = sym.S1
                for c, n in zip(at, a):
                    for _ in range(n):
                        v = v * c
                return [v]
            return fn
        for e, n in base._sites():
            phi += [{e: monomial(a)} for a in _exponents(2, base.el_order.get(e, base.globalorder))]
    elif type(base) is VectorH1 and base._nodal():
        def nodal(p, e, c):
            def fn(at):
                X = at[0] - Sc.const(e)
                v = (X if p[0] == e + 1 else sym.S1 - X) * (at[1] if p[1] == 1 else sym.S1 - at[1])
                return [v if k == c else sym.S0 for k in range(2)]
            return fn
        for c in range(2):
            for i, p in enumerate(mesh.points):
                phi.append({e.nr: nodal(p, e.nr, c) for e in mesh.cells if i in _corners(mesh, e)})
    else:
        return None
    return [f for f, b in zip(phi, space.active.bits) if b] if type(space) is Compress else phi


def _assemble_basis(form, bilinear):
    """dense assembly of forms without derivatives in such a basis; quadrature exact for polynomials of degree 5 in each coordinate"""
    space = form.space
    if space is None:
        return None
    try:
        phi = _basis(space)
        if phi is None:
            return None
        n = len(phi)
        out = [[sym.S0] * n if bilinear else sym.S0 for _ in range(n)]
        for it in form.integrals():
            dom, on = it.symbol.domain(), it.symbol.definedon
            proxies = []
            _leaves(it.coef, proxies, set())
            trial, test = ([p for p in proxies if p.role == r] for r in ('trial', 'test'))
            if dom != 'cell' or len(test) != 1 or len(trial) != bilinear or any(p.space is not space for p in proxies):
                return None
            if on is not None and not isinstance(on, Region):
                return None
            for e in space.mesh.cells:
                if on is not None and e.index not in on.indices:
                    continue
                here = [i for i, f in enumerate(phi) if e.nr in f]
                for s, w in BOOLE:
                    for t, u in BOOLE:
                        at = [Sc.const(e.nr + s), Sc.const(t)]
                        values = {i: phi[i][e.nr](at) for i in here}
                        scale = lift(it.factor) * Sc.const(w * u)
                        for i in here:
                            for j in (here if bilinear else [None]):
                                b = {id(test[0]): values[i], 'point': at + [Sc.const(0)]}
                                if bilinear:
                                    b[id(trial[0])] = values[j]
                                v = it.coef._eval(_cf.Ctx(b, e.index, None, e.nr))[0] * scale
                                if bilinear:
                                    out[i][j] = out[i][j] + v
                                else:
                                    out[i] = out[i] + v
        return out
    except (EncodingError, _cf.NonFinite, KeyError, AttributeError, TypeError):
        return None


def _solve(A, b):
    """Gaussian elimination of a symmetric positive definite system"""
    A, b, n = [r[:] for r in A], b[:], len(b)
    for k in range(n):
        for i in range(k + 1, n):
            if A[i][k].is_zero():
                continue
            f = _cf.divide(A[i][k], A[k][k])
            A[i] = [p - f * q for p, q in zip(A[i], A[k])]
            b[i] = b[i] - f * b[k]
    x = [None] * n
    for k in reversed(range(n)):
        r = b[k]
        for j in range(k + 1, n):
            r = r - A[k][j] * x[j]
        x[k] = _cf.divide(r, A[k][k])
    return x


def _try_assemble0(form, bilinear):
    try:
        return _assemble0(form, bilinear)
    except (EncodingError, _cf.NonFinite, KeyError, AttributeError, TypeError):
        return None


class BilinearForm(_Form):
    def __init__(self, space=None, condense=False, **flags):
        super().__init__()
        self.space = space
        self.condense = condense
        self.flags = flags
        self.mat = Matrix(self, 'mat')
        self.harmonic_extension = Matrix(self, 'harmonic_extension')
        self.harmonic_extension_trans = Matrix(self, 'harmonic_extension_trans')
        self.inner_solve = Matrix(self, 'inner_solve')

    def Assemble(self, *a, **k):
        self.assembled += 1
        if not hasattr(self.mat, 'apply'):
            local = _try_assemble0(self, True)
            if local:
                sites, n = builtins.list(local), len(next(iter(local.values())))
                diag = [local[t][i][i] for i in range(n) for t in sites]
                if all(local[t][i][j].is_zero() for t in sites for i in range(n) for j in range(n) if i != j):
                    self.mat.apply = lambda v: [p * q for p, q in zip(diag, v)]
                    self.mat.undo = lambda v: [_cf.divide(q, p) for p, q in zip(diag, v)]
            else:
                full = _assemble_basis(self, True)
                if full:
                    self.mat.apply = lambda v: [_cf._sum(p * q for p, q in zip(r, v)) for r in full]
                    self.mat.undo = lambda v: _solve(full, v)
        return self

    def AssembleLinearization(self, vec, *a, **k):
        self.linearized += 1

    def Apply(self, x, y=None):
        if y is None:
            raise EncodingError("Apply without output")


class LinearForm(_Form):
    def __init__(self, space=None, **flags):
        super().__init__()
        self.space = space
        self._vec = None

    @property
    def vec(self):
        if self._vec is None:
            self._vec = BaseVector(self.space.ndof)
        return self._vec

    def Assemble(self, *a, **k):
        self.assembled += 1
        local = _try_assemble0(self, False)
        if local:
            n = len(next(iter(local.values()))[0])
            for d, v in enumerate(local[t][0][i] for i in range(n) for t in local):
                self.vec.store[self.vec.ids[d]] = v
        else:
            full = _assemble_basis(self, False)
            if full:
                for d, v in zip(self.vec.ids, full):
                    self.vec.store[d] = v
        return self


class TaskManager:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class VTKOutput:
    def __init__(self, ma, coefs=(), names=(), filename='vtkout', subdivision=0, only_element=-1, **kw):
        self.ma, self.coefs, self.names, self.filename, self.subdivision = ma, builtins.list(coefs), builtins.list(names), filename, subdivision
        self.count = 0

    def Do(self, time=-1, vb=VOL, drawelems=None):
        from . import LOG
        LOG.append(('VTK', self, time, drawelems))
        self.count += 1
        return self.filename
