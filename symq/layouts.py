"""The result of an expression depends on the elements and the shape of its operands only.  Each expression is
evaluated once on ordinary arrays and once on arrays with the same elements laid out differently in memory
(column order, strided, reversed, read-only), or of another shape (no elements, one element, a column, three
dimensions); the second result is the first with the elements rearranged accordingly."""
import copy
from symq.harness import harness
from symq.independent import OPS, Ctx, snap, same, wrapped

LAYOUTS = ["columns", "strided", "reversed", "readonly", "diagonal"]
SHAPES = {"empty": (0,), "one": (1,), "column": (2, 1), "deep": (1, 2, 1), "empty2": (0, 2), "long": (1100,), "wide": (67, 71)}

# expressions that treat each element by itself (operands: q, p, n, uq, up of one shape, and scalars)
ELEM = {
    "C01": {k: OPS["C01"][k] for k in ("rescale", "rescale-same", "rescale-text", "dimensionless", "rescale-dims")},
    "C05": {"add": lambda c: c.q + c.p, "sub": lambda c: c.q - c.p, "mod": lambda c: c.q % c.p, "add-unit": lambda c: c.q + c.ub, "unit-sub": lambda c: c.ub - c.q, "number": lambda c: c.n + 1.0,
            "rnumber": lambda c: 1.0 + c.n, "rsub": lambda c: 1.0 - c.n, "add-0d": lambda c: c.q + c.z, "0d-add": lambda c: c.z + c.p, "0d-sub": lambda c: c.z - c.p, "list": lambda c: c.n + [5.0], "rlist": lambda c: [5.0] - c.n,
            "array": lambda c: c.n + c.arr, "rarray": lambda c: c.arr - c.n, "half": lambda c: c.n + 0.25, "rhalf": lambda c: 0.75 - c.n, "mod-half": lambda c: c.n % 0.75, "half-list": lambda c: c.n - [0.25]},
    "C06": {"half": lambda c: c.q * 0.5, "rhalf": lambda c: 0.25 * c.q, "over-number": lambda c: c.q / 4, "number-over": lambda c: 0.5 / c.q, "half-list": lambda c: c.q * [0.25], "floor": lambda c: c.n // 0.75, "cube": lambda c: c.q ** 3.0,
            "mul": lambda c: c.q * c.p, "div": lambda c: c.q / c.p, "one": lambda c: c.q * 1, "first": lambda c: c.q ** 1, "second": lambda c: c.q ** 2, "minus": lambda c: c.q ** -1, "root": lambda c: c.q ** 0.5,
            "unit": lambda c: c.q * c.va, "runit": lambda c: c.va / c.q, "rdiv": lambda c: 1 / c.q, "array": lambda c: c.arr * c.va, "array-q": lambda c: c.arr / c.q, "q-array": lambda c: c.q * c.arr, "scalar": lambda c: c.q * c.s,
            "neg": lambda c: -c.q, "abs": lambda c: abs(c.q)},
    "C07": {"iadd": lambda c: iop(c, "__iadd__", c.p), "isub": lambda c: iop(c, "__isub__", c.z), "imul": lambda c: iop(c, "__imul__", c.s), "imul-array": lambda c: iop(c, "__imul__", c.p), "idiv": lambda c: iop(c, "__itruediv__", c.s), "ipow": lambda c: iop(c, "__ipow__", 2),
            "imod": lambda c: iop(c, "__imod__", c.p), "units": lambda c: setu(c), "add-same": lambda c: iop(c, "__iadd__", c.q)},
    "C08": {"lt": lambda c: c.q < c.p, "le": lambda c: c.q <= c.p, "gt": lambda c: c.q > c.p, "ge": lambda c: c.q >= c.p, "eq": lambda c: c.q == c.p, "ne": lambda c: c.q != c.p, "eq-wrong": lambda c: c.q == c.s, "ne-wrong": lambda c: c.q != c.s,
            "eq-scalar": lambda c: c.q == c.z, "lt-scalar": lambda c: c.q < c.z, "eq-unit": lambda c: c.q == c.ub, "eq-wrong-unit": lambda c: c.q == c.va, "ne-wrong-unit": lambda c: c.q != c.va, "number": lambda c: c.n == 1.0, "number-lt": lambda c: c.n < 1.0,
            "wrong-all": lambda c: c.q == c.q * c.va, "wrong-p": lambda c: c.q == c.p * c.va, "wrong-ne-p": lambda c: c.q != c.p * c.va, "half": lambda c: c.n == 1.5, "half-lt": lambda c: c.n < 1.5, "half-ge": lambda c: c.n >= 2.5, "array": lambda c: c.n < c.arr, "rarray": lambda c: c.arr > c.n, "eq-array": lambda c: c.n == c.arr, "ne-array": lambda c: c.n != c.arr,
            "ge-list": lambda c: c.n >= [1.5]},
    "C09": {"sqrt": lambda c: c.np.sqrt(c.q), "square": lambda c: c.np.square(c.q), "negative": lambda c: c.np.negative(c.q), "absolute": lambda c: c.np.absolute(c.q), "multiply": lambda c: c.np.multiply(c.q, c.s),
            "divide": lambda c: c.np.true_divide(c.q, c.p), "maximum": lambda c: c.np.maximum(c.q, c.q), "power": lambda c: c.np.power(c.q, 2), "floor": lambda c: c.np.floor(c.q), "add": lambda c: c.np.add(c.q, c.q),
            "exp": lambda c: c.np.exp(c.n), "arctan": lambda c: c.np.arctan(c.n), "log": lambda c: c.np.log(c.n), "conjugate": lambda c: c.np.conjugate(c.q), "reciprocal": lambda c: c.np.reciprocal(c.q), "less": lambda c: c.np.less(c.q, c.q),
            "add-zero": lambda c: c.np.add(c.q, 0), "isfinite": lambda c: c.np.isfinite(c.q), "radians": lambda c: c.np.radians(c.pq.Quantity(c.arr, "degree")), "cos": lambda c: c.np.cos(c.pq.Quantity(c.arr, "radian"))},
    "C10": {"round": lambda c: c.q.round(), "clip": lambda c: c.q.clip(c.z, c.z * 2), "clip-low": lambda c: c.q.clip(c.z), "round-function": lambda c: c.np.round(c.q, 1)},
    "C13": {"quantity": lambda c: c.q.simplified, "none": lambda c: c.n.simplified, "uncertain": lambda c: c.uq.simplified, "product": lambda c: (c.q * c.s).simplified, "root": lambda c: (c.q ** -0.5).simplified},
    "C14": {"compound": lambda c: (c.q * c.pq.CompoundUnit("ua*va")).simplified, "rescale": lambda c: (c.q / c.pq.CompoundUnit("ua/va")).rescale("va")},
    "C19": {"add": lambda c: c.uq + c.up, "sub": lambda c: c.uq - c.up, "mul": lambda c: c.uq * c.up, "div": lambda c: c.uq / c.up, "neg": lambda c: -c.uq, "pow": lambda c: c.uq ** 2, "pow3": lambda c: c.uq ** -1.5, "one": lambda c: c.uq * 1, "certain": lambda c: c.uq + c.p,
            "rcertain": lambda c: c.p + c.uq, "rsub": lambda c: c.p - c.uq, "unit": lambda c: c.uq * c.va, "rdiv": lambda c: 1 / c.uq, "sqrt": lambda c: c.uq.sqrt(), "certain-mul": lambda c: c.uq * c.p, "certain-div": lambda c: c.p / c.uq, "scalar": lambda c: c.z + c.uq,
            "array": lambda c: c.uq * c.arr, "rarray": lambda c: c.arr * c.uq, "pos": lambda c: +c.uq},
    "C20": {"rescale": lambda c: c.uq.rescale(c.ub), "rescale-same": lambda c: c.uq.rescale(c.ua), "copy": lambda c: c.uq.copy(), "astype": lambda c: c.uq.astype("f4"), "all": lambda c: c.uq[...], "copy-module": lambda c: copy.copy(c.uq), "deepcopy": lambda c: copy.deepcopy(c.uq),
            "new": lambda c: c.pq.UncertainQuantity(c.uq), "new-units": lambda c: c.pq.UncertainQuantity(c.uq, c.ub), "relative": lambda c: c.uq.relative_uncertainty, "uncertainty": lambda c: c.uq.uncertainty},
    "C21": {"copy": lambda c: copy.copy(c.q), "deepcopy": lambda c: copy.deepcopy(c.q), "method": lambda c: c.q.copy(), "astype": lambda c: c.q.astype("f8")},
    "C22": {"sin": lambda c: c.pq.sin(c.pq.Quantity(c.arr, "degree")), "arctan": lambda c: c.pq.arctan(c.n), "arctan2": lambda c: c.pq.arctan2(c.q, c.p), "hypot": lambda c: c.pq.hypot(c.q, c.q), "tanh": lambda c: c.pq.tanh(c.n)},
    "C23": {"preferred": lambda c: OPS["C23"]["preferred"](c)},
    "C26": {"rescale": lambda c: c.q.rescale(c.ub, dtype="f8"), "rescale-f4": lambda c: c.q.astype("f4").rescale(c.ub), "add": lambda c: c.q.astype("f4") + c.p, "simplified": lambda c: c.q.astype("f4").simplified},
    "C27": {"label": lambda c: c.pq.Quantity(c.arr, c.ua), "convert": lambda c: c.pq.Quantity(c.q, c.ub), "same": lambda c: c.pq.Quantity(c.q), "uncertain": lambda c: c.pq.UncertainQuantity(c.arr, c.ua, c.arr), "uncertain-of": lambda c: c.pq.UncertainQuantity(c.q, c.ub, c.q)},
    "C29": {"wrapped": lambda c: c.w(c.q, c.s), "keyword": lambda c: c.w(c.q, y=c.s), "both": lambda c: c.w(c.q, c.q)},
}

# expressions of which only the layout of the operands may not matter
WHOLE = {
    "C02": {"add": lambda c: [kind(c, lambda: c.q + c.s * c.q), kind(c, lambda: c.m + c.s)], "rescale": lambda c: kind(c, lambda: c.m.rescale(c.va))},
    "C06": {"mul": lambda c: c.m * c.m, "pow": lambda c: c.m ** 3, "rows": lambda c: c.m * c.q, "rdiv": lambda c: c.q / c.m},
    "C10": {"sum": lambda c: c.q.sum(), "sum0": lambda c: c.m.sum(0), "sum1": lambda c: c.m.sum(1), "mean": lambda c: c.m.mean(), "mean1": lambda c: c.m.mean(1), "max0": lambda c: c.m.max(0), "min": lambda c: c.m.min(1), "ptp": lambda c: c.m.ptp(0),
            "cumsum": lambda c: c.m.cumsum(), "cumsum1": lambda c: c.m.cumsum(1), "prod": lambda c: c.m.prod(), "prod0": lambda c: c.m.prod(0), "var": lambda c: c.m.var(0), "std": lambda c: c.q.std(), "trace": lambda c: c.m.trace(), "argmax": lambda c: c.m.argmax(),
            "argmin1": lambda c: c.m.argmin(1), "argsort": lambda c: c.m.argsort(), "nansum": lambda c: c.m.nansum(1), "nanmax": lambda c: c.m.nanmax(0), "nanargmax": lambda c: c.m.nanargmax(), "clip": lambda c: c.m.clip(c.z, c.z * 2)},
    "C11": {"item": lambda c: c.m[1, 0], "row": lambda c: c.m[1] * 1, "column": lambda c: c.m[:, 0] * 1, "list": lambda c: c.m.tolist(), "mask": lambda c: c.m[[[True, False], [True, True]]], "fancy": lambda c: c.m[[1, 0], [0, 1]], "iter": lambda c: [r * 1 for r in c.m],
            "set": lambda c: put(c, c.m * 1, (0, 1)), "set-row": lambda c: put(c, c.m * 1, 0), "set-from": lambda c: setall(c), "put": lambda c: putm(c), "put-from": lambda c: putfrom(c), "searchsorted": lambda c: (c.q.cumsum()).searchsorted(c.q), "nonzero": lambda c: list(c.m.nonzero())},
    "C20": {"sum": lambda c: c.uq.sum(), "mean": lambda c: c.uq.mean(), "max": lambda c: c.uq.max(), "min": lambda c: c.uq.min(0), "item": lambda c: c.uq[1], "nansum": lambda c: c.uq.nansum(), "fancy": lambda c: c.uq[[1, 0]]},
    "C22": {"diff": lambda c: c.pq.diff(c.q), "diff0": lambda c: c.pq.diff(c.m, axis=0), "ediff1d": lambda c: c.pq.ediff1d(c.m), "cumsum": lambda c: c.pq.cumsum(c.m), "trapz": lambda c: c.pq.trapz(c.q, c.p), "trapz-m": lambda c: c.pq.trapz(c.m, c.q, axis=0), "trapz-mm": lambda c: c.pq.trapz(c.m, c.m, axis=0),
            "gradient": lambda c: c.pq.gradient(c.q), "gradient-m": lambda c: c.pq.gradient(c.m, c.s), "cross": lambda c: c.pq.cross(c.q, c.p), "sum": lambda c: c.pq.sum(c.m, 0), "prod": lambda c: c.pq.prod(c.m)},
    "C30": {"flatten": lambda c: c.m.flatten(), "ravel": lambda c: c.m.ravel(), "ravel-F": lambda c: c.m.ravel("F"), "reshape": lambda c: c.m.reshape(4), "reshape-F": lambda c: c.m.reshape((1, 4), order="F"), "transpose": lambda c: c.m.T, "swap": lambda c: c.m.swapaxes(0, 1), "take": lambda c: c.m.take([1, 2]),
            "take1": lambda c: c.m.take([1], 1), "compress": lambda c: c.m.compress([False, True], 0), "repeat": lambda c: c.m.repeat(2), "sort": lambda c: c.np.sort(c.m, 0), "roll": lambda c: c.np.roll(c.m, 1), "tile": lambda c: c.np.tile(c.m, 2), "copy": lambda c: c.m.copy(), "squeeze": lambda c: c.m[:, :1].squeeze() * 1,
            "real": lambda c: c.m.real * 1, "fill": lambda c: fill(c, c.m * 1), "diagonal": lambda c: c.m.diagonal(), "flip": lambda c: c.np.flip(c.m)},
    "C21": {"copy": lambda c: copy.copy(c.m), "deepcopy": lambda c: copy.deepcopy(c.m)},
}


def fresh(c, q):
    """a quantity that owns its units, with the layout of q"""
    return c.pq.Quantity(c.lay(c.np.array(q.magnitude)), q.dimensionality)


def iop(c, name, other):
    t = fresh(c, c.q)
    return getattr(t, name)(other)


def setu(c):
    t = fresh(c, c.q)
    t.units = c.ub
    return t


def put(c, t, key):
    t[key] = c.z
    return t


def setall(c):
    t = c.m * 1
    t[...] = c.m * 2
    t[0] = c.p
    return t


def putm(c):
    t = c.m * 1
    t.put([1, 2], c.p)
    return t


def putfrom(c):
    t = c.pq.Quantity(c.lay2(c.np.array(c.m.magnitude)), c.ua)
    t.put([1, 2], c.p)
    t[1] = c.q
    t[:, 0] = c.z
    return t


def fill(c, t):
    t.fill(c.z)
    return t


def kind(c, f):
    st, e = c.env.attempt(f)
    return c.np.array([1.0 if st == "exc" and isinstance(e, ValueError) else 0.0])


def plain(x):
    return x


class Lay:
    def __init__(self, env, how):
        self.env, self.np, self.how = env, env.np, how

    def __call__(self, a):
        """array with the same elements and shape, laid out differently"""
        how, np = self.how, self.np
        if how == "columns":
            return a.T.copy().T if a.ndim > 1 else a
        if how == "reversed":
            i = (slice(None, None, -1),) * a.ndim
            return a[i].copy()[i]
        if how in ("strided", "diagonal"):
            big = np.repeat(a, 2, axis=a.ndim - 1)
            if how == "diagonal":
                big = np.repeat(big, 2, axis=0)
            r = big[..., ::2]
            return r if how == "strided" or a.ndim == 1 else r[::2]
        if how == "readonly":
            r = a.copy()
            r.flags.writeable = False
            return r
        return a


def pick(i, n):
    """which of n elements to repeat at position i of a larger array: no pattern that a transposition keeps"""
    return i if i < n else (i * 2654435761 >> 7) % n


class Shape:
    def __init__(self, env, how):
        self.shape = SHAPES[how]
        self.how = how

    def __call__(self, a):
        n = 1
        for i in self.shape:
            n *= i
        a = a.reshape(-1)
        return a[[pick(i, len(a)) for i in range(n)]].reshape(self.shape) if n else a[:0].reshape(self.shape)


PAIRS = {"1-11": ((2,), (1, 1)), "1-column": ((2,), (2, 1)), "row-scalar": ((1, 2), ()), "one-many": ((1,), (2,)), "none-one": ((0,), (1,)), "column-row": ((2, 1), (1, 2)), "scalar-11": ((), (1, 1)), "many-scalar": ((2,), ())}


class Pair:
    """two operands of different shapes, as they are or broadcast beforehand"""

    def __init__(self, env, pair, expand):
        self.np, self.shapes, self.expand = env.np, PAIRS[pair], expand
        a, b = self.shapes
        n = max(len(a), len(b))
        a, b = (1,) * (n - len(a)) + a, (1,) * (n - len(b)) + b
        self.full = tuple(j if i == 1 else i for i, j in zip(a, b))

    def __call__(self, a, first):
        s = self.shapes[0 if first else 1]
        n = 1
        for i in s:
            n *= i
        a = a.reshape(-1)[:n].copy().reshape(s)
        if self.expand:
            b = self.np.array([0.0] * 0 if 0 in self.full else [[0.0] * self.full[-1]] * (self.full[0] if len(self.full) > 1 else 1)).reshape(self.full)
            a = b + a
        return a


def variant(c, lay):
    v = copy.copy(c)
    pq = c.pq
    if isinstance(lay, Pair):
        one, two = (lambda a: lay(a, True)), (lambda a: lay(a, False))
    else:
        one = two = lay
    v.arr = two(c.arr)
    for n in "qpnm":
        x = getattr(c, n)
        if n == "m" and one is not two:
            continue
        g = two if n == "p" else one
        setattr(v, n, pq.Quantity(g(c.np.array(x.magnitude)), x.dimensionality))
    for n in ("uq", "up"):
        x = getattr(c, n)
        g = two if n == "up" else one
        setattr(v, n, pq.UncertainQuantity(g(c.np.array(x.magnitude)), x.dimensionality, pq.Quantity(g(c.np.array(x.uncertainty.magnitude)), x.dimensionality)))
    v.lay = v.lay2 = one
    return v


def heirs(c, certain=True):
    """the same operands, of classes derived from Quantity and UncertainQuantity

    Python asks the right operand first only when its class derives from that
    of the left one: operands that meet uncertain ones stay plain quantities
    """
    pq = c.pq

    class Heir(pq.Quantity):
        """a user's class"""

    class UncertainHeir(pq.UncertainQuantity):
        """a user's class"""
    v = copy.copy(c)
    for n in "qpsznm" if certain else "":
        x = getattr(c, n)
        setattr(v, n, Heir(c.np.array(x.magnitude), x.dimensionality))
        c.env.check(type(getattr(v, n)) is Heir, "heir")
    for n in ("uq", "up"):
        x = getattr(c, n)
        setattr(v, n, UncertainHeir(c.np.array(x.magnitude), x.dimensionality, pq.Quantity(c.np.array(x.uncertainty.magnitude), x.dimensionality)))
        c.env.check(type(getattr(v, n)) is UncertainHeir, "heir")
    return v


def asbase(env, r):
    """results of a user's class, seen as of the class it is derived from"""
    pq = env.pq
    if isinstance(r, (list, tuple)):
        return type(r)(asbase(env, i) for i in r)
    if type(r).__name__ == "UncertainHeir":
        return pq.UncertainQuantity(r.magnitude, r.dimensionality, r.uncertainty, dtype=r.dtype)
    if type(r).__name__ == "Heir":
        return pq.Quantity(r.magnitude, r.dimensionality, r.dtype)
    return r


def reshaped(env, a, b, shape, label):
    """b is a with its elements arranged in another shape"""
    if isinstance(a, (list, tuple)):
        env.check(isinstance(b, (list, tuple)) and len(a) == len(b), label + ":kind")
        for x, y in zip(a, b):
            reshaped(env, x, y, shape, label)
        return
    env.check(isinstance(b, env.np.ndarray), label + ":array")
    env.check(type(a) is type(b), label + ":class-%s" % type(b).__name__)
    env.check(tuple(b.shape) == tuple(shape), label + ":shape")
    n = len(env.vals(b))
    if n:       # symbolic arrays without elements have no element type
        env.check(a.dtype == b.dtype, label + ":dtype-%s" % b.dtype)
    v = env.vals(a)
    env.eq(env.vals(b), [v[pick(i, len(v))] for i in range(n)], label)
    if hasattr(a, "dimensionality"):
        env.same_dims(b, env.dims(a), label)
    if isinstance(a, env.pq.UncertainQuantity):
        reshaped(env, a.uncertainty, b.uncertainty, shape, label + ":uncertainty")


def ctx(env, prop):
    c = Ctx(env)
    c.lay = c.lay2 = plain
    c.ints = {}
    if prop == "C29":
        c.w = wrapped(c)
    return c


LEFT, RIGHT = ("q", "n", "m", "uq"), ("p", "z", "s", "arr", "up")
# expressions that mean something else for integers: in-place changes (numpy refuses or truncates), negative powers of integers, requested types
NOT_INTEGER = {("C06", "minus"), ("C09", "reciprocal"), ("C10", "round-function"), ("C19", "scalar")}


def integers(c, which, dt, cast):
    """the context with integers for some of the operands, as integers or as the equal real numbers"""
    env, pq = c.env, c.pq
    v = copy.copy(c)

    def get(n, shape):
        if n not in c.ints:
            c.ints[n] = env.arr("i" + n, shape, dt, lo=1, hi=9)
        return c.ints[n].astype("f8") if cast else c.ints[n].copy()
    for n in (LEFT if which == "left" else RIGHT if which == "right" else LEFT + RIGHT):
        x = getattr(c, n)
        if n == "arr":
            v.arr = get(n, x.shape)
        elif n in ("uq", "up"):
            setattr(v, n, pq.UncertainQuantity(get(n, x.shape), x.dimensionality, x.uncertainty))
        else:
            setattr(v, n, pq.Quantity(get(n, x.shape), x.dimensionality))
    return v


# expressions linear in their operands (those that are not linear in one of two are listed for the other)
LINEAR = {
    "C01": ["rescale", "rescale-same", "rescale-text", "rescale-dims", "rescale-0d"],
    "C05": ["add", "sub", "add-0d", "0d-add", "0d-sub", "array", "rarray", "same"],
    "C06": ["half", "rhalf", "over-number", "half-list", "one", "rone", "over-one", "unit", "none", "neg", "pos", "0d", "first", "0d-first", "n-first"],
    "C09": ["negative", "add", "positive", "add-zero"],
    "C10": ["sum", "sum0", "sum1", "mean", "mean1", "cumsum", "cumsum1", "trace", "one"],
    "C11": ["item", "list", "mask", "fancy", "iter", "row", "column"],
    "C13": ["quantity", "none", "in-base"],
    "C14": ["compound", "rescale"],
    "C21": ["copy", "deepcopy", "method", "0d", "0d-deep", "whole-copy", "whole-deepcopy"],
    "C22": ["diff", "diff0", "ediff1d", "cumsum", "sum"],
    "C23": ["preferred"],
    "C27": ["label", "convert", "same"],
    "C29": ["wrapped-linear"],
    "C30": ["flatten", "ravel", "ravel-F", "reshape", "reshape-F", "transpose", "swap", "take", "take1", "compress", "repeat", "roll", "tile", "copy", "squeeze", "diagonal", "flip", "copy-0d", "flatten-0d"],
}


def complexes(c, part):
    """the context with complex operands, or with their real or imaginary parts"""
    env, pq, np = c.env, c.pq, c.env.np
    v = copy.copy(c)

    def get(n, shape):
        if n not in c.ints:
            c.ints[n] = env.arr("c" + n, shape, "c16")
        a = c.ints[n]
        return np.real(a).copy() if part == "real" else np.imag(a).copy() if part == "imag" else a.copy()
    for n in ("q", "p", "z", "m", "n", "s"):
        x = getattr(c, n)
        setattr(v, n, pq.Quantity(get(n, x.shape), x.dimensionality))
    v.arr = get("arr", c.arr.shape)
    return v


def parts(env, z, re, im, label):
    """z is re + i im"""
    np = env.np
    if isinstance(z, (list, tuple)):
        env.check(len(z) == len(re) == len(im), label + ":length")
        for a, b, c in zip(z, re, im):
            parts(env, a, b, c, label)
        return
    env.check(type(z) is type(re) or not isinstance(z, np.ndarray), label + ":class")
    env.check(tuple(np.shape(z)) == tuple(np.shape(re)), label + ":shape")
    if hasattr(re, "dimensionality"):
        env.same_dims(z, env.dims(re), label)
    a = np.array(z.magnitude if hasattr(z, "dimensionality") else z)
    env.check(a.dtype == "c16", label + ":dtype-%s" % a.dtype)
    env.eq(env.vals(np.real(a)), env.vals(re), label + ":real")
    env.eq(env.vals(np.imag(a)), env.vals(im), label + ":imag")


def values(env, a, b, label):
    """a and b are equal but for their type of number"""
    if isinstance(a, (list, tuple)):
        env.check(isinstance(b, (list, tuple)) and len(a) == len(b), label + ":kind")
        for x, y in zip(a, b):
            values(env, x, y, label)
        return
    env.check(type(a) is type(b) or not isinstance(a, env.np.ndarray) or not isinstance(b, env.np.ndarray), label + ":class-%s" % type(b).__name__)
    env.check(tuple(getattr(a, "shape", ())) == tuple(getattr(b, "shape", ())), label + ":shape")
    if hasattr(a, "dimensionality"):
        env.same_dims(b, env.dims(a), label)
    env.eq(env.vals(b), env.vals(a), label)
    if isinstance(a, env.pq.UncertainQuantity):
        values(env, a.uncertainty, b.uncertainty, label + ":uncertainty")


def register(prop):
    if prop in ELEM and prop not in ("C01", "C07", "C21", "C26", "C27") or prop in ("C10", "C11", "C22", "C30"):
        exprs = dict(OPS.get(prop, {}), **ELEM.get(prop, {}))
        exprs.update(WHOLE.get(prop, {}))
        exprs = {k: f for k, f in exprs.items() if set(f.__code__.co_names) & set(LEFT + RIGHT) and (prop, k) not in NOT_INTEGER and not k.startswith(("set", "put", "astype", "fill"))}

        def any_type(env, op, which, dt):
            c = ctx(env, prop)
            f = exprs[op]
            a = f(integers(c, which, dt, True))
            b = f(integers(c, which, dt, False))
            values(env, a, b, op)
        any_type.__doc__ = "the expression on whole numbers held as integers is that on the same numbers held as reals"
        harness(prop, name="any_type", op=list(exprs), which=["left", "right", "both"], dt=["i8"], thorough={"dt": ["i8", "i4", "i2"]})(any_type)
    if prop in LINEAR:
        table = dict(OPS.get(prop, {}), **ELEM.get(prop, {}))
        table.update(WHOLE.get(prop, {}))
        table["wrapped-linear"] = lambda c: c.w(c.q, c.pq.Quantity(2.0, c.va))[0]
        for k in ("copy", "deepcopy"):
            table["whole-" + k] = WHOLE["C21"][k]
        names = [k for k in LINEAR[prop] if k in table]

        def any_complex(env, op):
            c = ctx(env, prop)
            f = table[op]
            z, re, im = [f(complexes(c, part)) for part in ("both", "real", "imag")]
            parts(env, z, re, im, op)
        any_complex.__doc__ = "the expression on complex numbers has the real and the imaginary parts of the expression on the parts"
        harness(prop, name="any_complex", op=names)(any_complex)
    if prop in ELEM:
        def any_shape(env, op, shape):
            c = ctx(env, prop)
            lay = Shape(env, shape)
            f = ELEM[prop][op]
            a = f(c)
            v = variant(c, lay)
            b = f(v)
            reshaped(env, a, b, lay.shape, op)
        any_shape.__doc__ = "the expression on arrays without elements, of one element, or of more dimensions: class, units, type, shape and elements as for an ordinary array"
        harness(prop, name="any_shape", op=list(ELEM[prop]), shape=["empty", "one", "column", "long", "wide"], thorough={"shape": list(SHAPES)})(any_shape)
        binary = [k for k, f in ELEM[prop].items() if {"q", "uq", "n"} & set(f.__code__.co_names) and {"p", "up", "arr"} & set(f.__code__.co_names)]
        if binary and prop not in ("C01", "C07"):
            def any_pair(env, op, pair):
                c = ctx(env, prop)
                f = ELEM[prop][op]
                a = snap(env, f(variant(c, Pair(env, pair, True))))
                b = f(variant(c, Pair(env, pair, False)))
                same(env, a, b, op)
            any_pair.__doc__ = "the expression on operands of different shapes is that on operands broadcast beforehand"
            harness(prop, name="any_pair", op=binary, pair=list(PAIRS))(any_pair)
    ops = dict(OPS.get(prop, {}), **ELEM.get(prop, {}))
    ops.update(WHOLE.get(prop, {}))
    ops = {k: f for k, f in ops.items() if set(f.__code__.co_names) & set("qpsznm") | set(f.__code__.co_names) & {"uq", "up"}}
    if ops:
        def any_subclass(env, op):
            c = ctx(env, prop)
            a = snap(env, asbase(env, ops[op](c)))
            b = ops[op](heirs(c, not set(ops[op].__code__.co_names) & {"uq", "up"}))
            same(env, a, asbase(env, b), op)
        any_subclass.__doc__ = "the expression on quantities of a user's own class, derived from Quantity or UncertainQuantity: the same result"
        harness(prop, name="any_subclass", op=list(ops))(any_subclass)
    both = dict(ELEM.get(prop, {}), **{"whole-" + k: f for k, f in WHOLE.get(prop, {}).items()})
    if both:
        def any_layout(env, op, layout):
            c = ctx(env, prop)
            f = both[op]
            lay = Lay(env, layout.replace("wide-", ""))
            if layout.startswith("wide"):
                c = variant(c, Shape(env, "wide"))
                c.lay = c.lay2 = plain
            elif not op.startswith("whole-"):
                # two-dimensional arrays, for which columns and rows are different
                c = variant(c, lambda a: env.np.array([a, a * 2]) if a.ndim == 1 else a)
                c.lay = c.lay2 = plain
            a = snap(env, f(c))
            b = f(variant(c, lay))
            same(env, a, b, op)
        any_layout.__doc__ = "the expression on arrays in column order, strided, reversed or read-only: the same result"

        def sensible(op, layout):
            if layout == "readonly" and (prop == "C07" or op == "whole-put-from"):
                return False
            return not (layout.startswith("wide") and op.startswith("whole-"))
        harness(prop, name="any_layout", op=list(both), layout=LAYOUTS[:4] + ["wide-columns"], thorough={"layout": LAYOUTS + ["wide-columns", "wide-strided", "wide-reversed"]}, filt=sensible)(any_layout)
