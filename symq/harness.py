"""Registry of harnesses."""
import itertools

HARNESSES = {}


class H:
    def __init__(self, prop, name, fn, grid, thorough, variants, filt, max_paths, uf):
        self.prop, self.name, self.fn = prop, name, fn
        self.grid, self.tgrid, self.variants = grid, thorough, variants
        self.filt, self.max_paths, self.uf = filt, max_paths, uf

    @property
    def id(self):
        return "%s.%s" % (self.prop, self.name)

    def tasks(self, tier):
        grid = dict(self.grid)
        if tier == "thorough":
            grid.update(self.tgrid)
        keys = list(grid)
        out = []
        for vals in itertools.product(*[grid[k] for k in keys]):
            p = dict(zip(keys, vals))
            if self.filt and not self.filt(**p):
                continue
            out.append(p)
        return out


def harness(prop, name=None, thorough=None, variants=(), filt=None, max_paths=4000, uf=False, **grid):
    def deco(fn):
        h = H(prop, name or fn.__name__, fn, grid, thorough or {}, list(variants), filt, max_paths, uf)
        assert h.id not in HARNESSES, h.id
        HARNESSES[h.id] = h
        return fn
    return deco


def load_all(prop=None):
    import importlib
    import os
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py" and (prop is None or f.lower().startswith(prop.lower())):
            importlib.import_module("symq.props." + f[:-3])
    return HARNESSES
