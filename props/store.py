"""Pickles of symbolic values: the file holds a ticket, the value is kept here (the real side uses the real pickle)."""
import contextlib
import copy


def snapshot(v):
    if isinstance(v, dict):
        return {snapshot(k): snapshot(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(snapshot(x) for x in v)
    try:
        return copy.deepcopy(v)
    except Exception:
        return v


@contextlib.contextmanager
def pickles(env):
    if not env.symbolic:
        yield
        return
    import pickle
    kept = []
    keep = pickle.dump, pickle.load

    def dump(obj, file, *a, **kw):
        kept.append(snapshot(obj))
        file.write(b"ticket %d" % (len(kept) - 1))

    def load(file, *a, **kw):
        text = file.read()
        if not text.startswith(b"ticket "):
            raise pickle.UnpicklingError(text)
        return snapshot(kept[int(text[7:])])
    try:
        pickle.dump, pickle.load = dump, load
        yield
    finally:
        pickle.dump, pickle.load = keep
