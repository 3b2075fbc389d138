from vlib.measure import Symbol, Integral, SumOfIntegrals, integral

dx = Symbol('dx')
ds = Symbol('ds')
