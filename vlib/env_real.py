"""Concrete side of the environment: the same scenario on the real library."""
from __future__ import annotations

import contextlib
import math
from fractions import Fraction


class Skip(Exception):
    pass


class Assumption(Exception):
    """the given inputs do not satisfy a stated precondition"""


class RealEnv:
    symbolic = False

    def __init__(self, inputs, thorough=False):
        self.inputs = inputs
        self.failures = []
        self.findings = []
        self.checked = 0
        self.thorough = thorough
        self.log = []
        self.replaceable()

    # inputs
    def _get(self, name):
        v = self.inputs.get(name)
        if v is None:
            raise Skip(f"no value for input {name}")
        return Fraction(v)

    def real(self, name, **kw):
        return float(self._get(name))

    def reals(self, names, **kw):
        return [self.real(n) for n in names.split()]

    def int(self, name, lo=None, hi=None):
        return int(self._get(name))

    def bool(self, name):
        return self.int(name) == 1

    def choose(self, name, options):
        return list(options)[self.int(name)]

    def decimal(self, name, digits, lo=0, hi=10):
        exact = Fraction(int(self._get(name)), 10**digits)
        return float(exact), exact

    def scratch(self):
        import os
        return os.getcwd()      # every replay has its own

    def nan(self):
        return math.nan

    def matrix(self, rows):
        import ngsolve as ngs
        n = len(rows)
        ij = [(i, j) for i in range(n) for j in range(n)]
        return ngs.la.SparseMatrixd.CreateFromCOO([i for i, _ in ij], [j for _, j in ij], [float(rows[i][j]) for i, j in ij], n, n)

    def vector(self, values):
        import ngsolve as ngs
        v = ngs.BaseVector(len(values))
        for i, x in enumerate(values):
            v[i] = float(x)
        return v

    def applied(self, cfg, blf, state):
        x = self.vector(state)
        y = x.CreateVector()
        blf.Apply(x, y)
        return list(y)

    def loaded(self, cfg, lf):
        lf.Assemble()
        return list(lf.vec)

    def same_number(self, label, a, exact):
        self.checked += 1
        if not float(a) == float(exact):
            self._fail(label, f"got {float(a)!r}, expected {float(exact)!r}")

    def unit_vector(self, name, dim=2):
        v = [float(self._get(f"{name}{i}")) for i in range(dim)]
        n = math.sqrt(sum(x * x for x in v))
        return [x / n for x in v]

    def assume(self, cond):
        if not cond:
            raise Assumption()

    def stop(self):
        raise Skip("stop")

    # meshes
    current = None

    def strip(self, materials=('default',), bottom='bottom', top='top', left='left', right='right', periodic=False):
        """a row of quadrilaterals, one per material"""
        import ngsolve as ngs
        import netgen.meshing as nm
        n = len(materials)
        bottom = [bottom] * n if isinstance(bottom, str) else list(bottom)
        top = [top] * n if isinstance(top, str) else list(top)
        m = nm.Mesh(dim=2)
        pb = [m.Add(nm.MeshPoint(nm.Pnt(i, 0, 0))) for i in range(n + 1)]
        pt = [m.Add(nm.MeshPoint(nm.Pnt(i, 1, 0))) for i in range(n + 1)]
        mats = list(dict.fromkeys(materials))
        for i, name in enumerate(mats):
            m.Add(nm.FaceDescriptor(surfnr=i + 1, domin=1, bc=i + 1))
            m.SetMaterial(i + 1, name)
        for i, name in enumerate(materials):
            m.Add(nm.Element2D(mats.index(name) + 1, [pb[i], pb[i + 1], pt[i + 1], pt[i]]))
        names = list(dict.fromkeys(bottom + top + [left, right]))
        for i in range(n):
            m.Add(nm.Element1D([pb[i], pb[i + 1]], index=names.index(bottom[i]) + 1))
        for i in range(n):
            m.Add(nm.Element1D([pt[i + 1], pt[i]], index=names.index(top[i]) + 1))
        m.Add(nm.Element1D([pt[0], pb[0]], index=names.index(left) + 1))
        m.Add(nm.Element1D([pb[n], pt[n]], index=names.index(right) + 1))
        for i, name in enumerate(names):
            m.SetBCName(i, name)
        if periodic:
            for p, q in ((pb[0], pb[n]), (pt[0], pt[n])):
                m.AddPointIdentification(p, q, identnr=1, type=nm.IdentificationType.PERIODIC)
        mesh = ngs.Mesh(m)
        self.current = mesh
        return mesh

    def cube(self):
        import ngsolve as ngs
        from netgen.csg import unit_cube
        self.current = ngs.Mesh(unit_cube.GenerateMesh(maxh=2.0))
        return self.current

    def mesh(self, dim):
        return self.strip() if dim == 2 else self.cube()

    def triangulation(self, mesh):
        import ngsolve as ngs
        return ([v.point[:2] for v in mesh.vertices], [[v.nr for v in e.vertices] for e in mesh.Elements(ngs.VOL)],
                [([v.nr for v in e.vertices], e.mat) for e in mesh.Elements(ngs.BND)])

    # forms
    @staticmethod
    def replaceable():
        """NGSolve cannot Replace() inside slices: spell a slice as the tuple of its components"""
        import ngsolve as ngs
        CF = ngs.CF
        get = CF.__getitem__
        if getattr(CF, '_spelled', False):
            return
        CF._spelled = True

        def __getitem__(cf, idx):
            out = get(cf, idx)
            ids = idx if isinstance(idx, tuple) else (idx,)
            if not any(isinstance(i, slice) for i in ids):
                return out
            d = list(cf.dims)
            flat = [0]
            for n, i in zip(d, ids):
                r = range(n)[i] if isinstance(i, slice) else [i]
                flat = [f * n + k for f in flat for k in r]
            comps = [get(cf, k) if len(d) == 1 else get(cf, (k // d[1], k % d[1])) for k in flat]
            new = ngs.CF(tuple(comps), dims=tuple(out.dims))
            return new
        CF.__getitem__ = __getitem__

        inner = ngs.InnerProduct

        def InnerProduct(a, b, *args, **kw):
            if a is b and isinstance(a, CF):
                b = 1.0 * b
            return inner(a, b, *args, **kw)
        ngs.InnerProduct = InnerProduct

    @contextlib.contextmanager
    def recording(self, interpolants=None):
        """while the forms are built, dx and ds record instead of building C++ integrals"""
        import sys
        import ngsolve as ngs
        from vlib.measure import Symbol, integral
        rec = {id(ngs.dx): Symbol('dx'), id(ngs.ds): Symbol('ds')}
        mods = [m for n, m in sys.modules.items() if n == 'ngsolve' or n == 'dream' or n.startswith('dream.')]
        saved = [(m, k, v) for m in mods for k, v in list(vars(m).items()) if id(v) in rec]
        mul = ngs.CF.__mul__
        keep = ngs.Interpolate

        def __mul__(a, b):
            return integral(a, b) if isinstance(b, Symbol) else mul(a, b)
        try:
            for m, k, v in saved:
                setattr(m, k, rec[id(v)])
            ngs.CF.__mul__ = __mul__
            if interpolants is not None:
                ngs.Interpolate = interpolants
            yield
        finally:
            ngs.Interpolate = keep
            ngs.CF.__mul__ = mul
            for m, k, v in saved:
                setattr(m, k, v)

    def region_names(self, region):
        mesh = region.mesh
        import ngsolve as ngs
        names = mesh.GetBoundaries() if region.VB() == ngs.BND else mesh.GetMaterials()
        mask = region.Mask()
        return [n for i, n in enumerate(names) if mask[i]]

    def facet(self, name, i=0):
        """number of a facet of the strip mesh: bottom/top of cell i, left, right, inner (between cells i and i+1)"""
        mesh = self.current
        n = mesh.ne
        want = {'bottom': (i + .5, 0), 'top': (i + .5, 1), 'left': (0, .5), 'inner': (i + 1, .5), 'right': (n, .5)}[name]
        for f in mesh.facets:
            pts = [mesh[v].point for v in f.vertices]
            mid = [sum(p[k] for p in pts) / len(pts) for k in (0, 1)]
            if abs(mid[0] - want[0]) + abs(mid[1] - want[1]) < 1e-9:
                return f.nr
        raise Skip('no such facet')

    def _on_facet(self, cf, facet, element):
        import ngsolve as ngs
        mesh = self.current
        ind = ngs.GridFunction(ngs.FacetFESpace(mesh, order=0))
        ind.vec[:] = 0
        ind.vec[facet] = 1
        el = ngs.GridFunction(ngs.L2(mesh, order=0))
        el.vec[:] = 0
        el.vec[element] = 1
        comps = [cf] if not cf.dims else [cf[k] for k in range(cf.dim)]
        return [ngs.Integrate(c * ind * el * ngs.dx(element_boundary=True), mesh) for c in comps]

    # evaluation
    _mesh = None

    def _point(self, point=None):
        import ngsolve as ngs
        if self.current is not None:
            return self.current(0.3, 0.4) if self.current.dim == 2 else self.current(0.3, 0.4, 0.2)
        if RealEnv._mesh is None:
            from netgen.geom2d import unit_square
            RealEnv._mesh = ngs.Mesh(unit_square.GenerateMesh(maxh=2.0))
        return RealEnv._mesh(0.3, 0.4)

    def value(self, cf, bind=None, point=None, region=None, facet=None, element=None):
        import ngsolve as ngs
        if isinstance(cf, (int, float)):
            return [float(cf)]
        rep = {}
        for k, v in (bind or {}).items():
            if not isinstance(v, (list, tuple)):
                v = [v]
            dims = tuple(k.dims)
            rep[k] = ngs.CF(tuple(float(x) for x in v), dims=dims) if dims else ngs.CF(float(v[0]))
        if point is not None:
            for c, s in zip(point, (ngs.x, ngs.y, ngs.z)):
                if c is not None:
                    rep[s] = ngs.CF(float(c))
        if isinstance(cf, ngs.Parameter) and not rep:
            return [float(cf.Get())]
        if rep:
            cf = (ngs.CF(cf) if False else cf).Replace(rep)
        if facet is not None:
            return self._on_facet(cf, facet, element)
        if region is not None or element is not None:
            mip = self.at(region, facet, element)
        else:
            mip = self._point()
        v = cf(mip)
        return [float(x) for x in v] if isinstance(v, (tuple, list)) else [float(v)]

    def at(self, region, facet, element):
        if region is not None and facet is None:
            return self.current(region + 0.3, 0.4) if self.current.dim == 2 else self.current(0.3, 0.4, 0.35)
        raise Skip("no located evaluation on the real side")

    def num(self, cf, *a, **k):
        return self.value(cf, *a, **k)[0]

    def deriv(self, fn, args, direction):
        def cd(h):
            p = fn([a + h * d for a, d in zip(args, direction)])
            m = fn([a - h * d for a, d in zip(args, direction)])
            return [(x - y) / (2 * h) for x, y in zip(p, m)]
        h = 1e-3
        a, b = cd(h), cd(h / 2)
        return [(4 * y - x) / 3 for x, y in zip(a, b)]

    # goals
    def _fail(self, label, detail):
        self.failures.append({'label': label, 'detail': str(detail)})

    def prove(self, label, cond, detail='', **k):
        self.checked += 1
        if not cond:
            self._fail(label, detail)

    def holds(self, label, cond, detail=''):
        self.prove(label, bool(cond), detail)
        return bool(cond)

    @staticmethod
    def close(x, y, tol=None, scale=1.0):
        if x == y:
            return True
        if math.isnan(x) or math.isnan(y) or math.isinf(x) or math.isinf(y):
            return False
        tol = tol or 1e-6
        return abs(x - y) <= tol * max(abs(x), abs(y), min(scale, 1.0) if scale else 1.0, 1e-6)

    def eq(self, label, a, b, tol=None):
        self.checked += 1
        a, b = _flat(a), _flat(b)
        if len(a) != len(b):
            return self._fail(label, f"{len(a)} components, expected {len(b)}")
        scale = max([abs(float(x)) for x in a + b if math.isfinite(float(x))] + [0.0])
        for i, (x, y) in enumerate(zip(a, b)):
            if not (self.close(float(x), float(y), tol) or abs(float(x) - float(y)) <= 1e-9 * scale):
                return self._fail(label, f"component {i}: got {x!r}, expected {y!r}")

    def le(self, label, a, b, tol=None):
        self.checked += 1
        a, b = float(a), float(b)
        if not (a <= b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1.0)):
            self._fail(label, f"{a!r} <= {b!r} fails")

    def lt(self, label, a, b):
        self.checked += 1
        if not float(a) < float(b):
            self._fail(label, f"{a!r} < {b!r} fails")

    def known(self, label, a, truth, wrong, finding):
        n = len(self.failures)
        self.eq(label, a, truth)
        if len(self.failures) > n:
            f = self.failures[n:]
            del self.failures[n:]
            self.eq(label, a, wrong)
            if len(self.failures) == n:
                self.findings.append(finding)
            else:
                self.failures[n:] = f

    def known_error(self, label, fn, exc, finding):
        try:
            return fn()
        except exc:
            self.findings.append(finding)
            return None

    def raises(self, label, exc, fn):
        self.checked += 1
        try:
            fn()
        except exc:
            return True
        except Exception as err:
            self._fail(label, f"raised {type(err).__name__} instead: {err}")
            return False
        self._fail(label, "did not raise")
        return False

    def refused(self, fn):
        try:
            return fn()
        except Exception as err:
            self.last_error = err
            return None

    def fail(self, label, detail=''):
        self.prove(label, False, detail)

    def note(self, *a):
        pass

    def same_text(self, label, a, b):
        self.prove(label, a == b, detail=f"{a!r} != {b!r}")


def _flat(a):
    if isinstance(a, (list, tuple)):
        out = []
        for x in a:
            out += _flat(x)
        return out
    if hasattr(a, 'tolist'):
        return _flat(a.tolist())
    return [a]
