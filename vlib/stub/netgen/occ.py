def __getattr__(name):
    raise AttributeError(f"netgen.occ.{name} is outside the encoding")
