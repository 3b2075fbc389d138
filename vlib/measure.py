"""Recording measures and integral sums, used by the stub and by the replay on
the real library (there by wrapping ngs.dx / ngs.ds)."""


class Symbol:
    def __init__(self, kind, kwargs=None):
        self.kind = kind
        self.kwargs = dict(kwargs or {})

    def __call__(self, definedon=None, element_boundary=False, skeleton=False, bonus_intorder=0, **kw):
        k = dict(self.kwargs)
        if definedon is not None:
            k['definedon'] = definedon
        if element_boundary:
            k['element_boundary'] = True
        if skeleton:
            k['skeleton'] = True
        if bonus_intorder:
            k['bonus_intorder'] = bonus_intorder
        k.update(kw)
        return Symbol(self.kind, k)

    @property
    def definedon(self):
        return self.kwargs.get('definedon')

    @property
    def element_boundary(self):
        return bool(self.kwargs.get('element_boundary'))

    @property
    def skeleton(self):
        return bool(self.kwargs.get('skeleton'))

    @property
    def bonus_intorder(self):
        return self.kwargs.get('bonus_intorder', 0)

    def __rmul__(self, o):
        return integral(o, self)

    def domain(self):
        """'cell', 'cellboundary', 'boundary' (skeleton facets of the boundary), 'surface'"""
        if self.kind == 'dx':
            if self.element_boundary:
                return 'cellboundary'
            if self.skeleton:
                return 'innerfacets'
            return 'cell'
        return 'boundary' if self.skeleton else 'surface'


def integral(coef, symbol):
    return SumOfIntegrals([Integral(1, coef, symbol)])


class Integral:
    def __init__(self, factor, coef, symbol):
        self.factor = factor
        self.coef = coef
        self.symbol = symbol


class SumOfIntegrals:
    def __init__(self, items=()):
        self.items = list(items)

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __add__(self, o):
        if isinstance(o, SumOfIntegrals):
            return SumOfIntegrals(self.items + o.items)
        if o == 0:
            return self
        return NotImplemented

    __radd__ = __add__

    def __iadd__(self, o):
        return self + o

    def __sub__(self, o):
        return self + (-o)

    def __isub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return SumOfIntegrals([Integral(-i.factor, i.coef, i.symbol) for i in self.items])

    def __mul__(self, f):
        return SumOfIntegrals([Integral(f * i.factor, i.coef, i.symbol) for i in self.items])

    __rmul__ = __mul__

    def Compile(self, *a, **k):
        return self

    def MakeLinear(self, *a, **k):
        return self
