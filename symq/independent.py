"""Results share no state: an expression is evaluated, its result is changed in place in every way that
is allowed, then nothing it was made from has changed and evaluating it again gives the first result;
and changing in place everything the second result was made from leaves that result as it was.
Every property registers the expressions that belong to it."""
from symq.harness import harness


class Ctx:
    def __init__(self, env):
        self.env, pq, np = env, env.pq, env.np
        self.pq, self.np = pq, np
        A, B = env.bases()
        self.A, self.B = A, B
        k1, k2, l1 = [env.real(n, pos=True) for n in ("k1", "k2", "l1")]
        self.ua, self.ub, self.va = env.unit("ua", k1 * A), env.unit("ub", k2 * A), env.unit("va", l1 * B)
        self.n1 = env.unit("n1", 0.5 * pq.dimensionless)
        self.q = pq.Quantity(env.arr("x", (2,), pos=True), self.ua)
        self.p = pq.Quantity(env.arr("y", (2,), pos=True), self.ub)
        self.s = pq.Quantity(env.npreal("s", pos=True), self.va)
        self.z = pq.Quantity(env.npreal("z", pos=True), self.ua)
        self.n = pq.Quantity(env.arr("w", (2,), pos=True), pq.dimensionless)
        self.m = pq.Quantity(env.arr("m", (2, 2), pos=True), self.ua)
        self.uq = pq.UncertainQuantity(env.arr("v", (2,), pos=True), self.ua, env.arr("dv", (2,), pos=True))
        self.up = pq.UncertainQuantity(env.arr("t", (2,), pos=True), self.ub, env.arr("dt", (2,), pos=True))
        self.d = (self.ua ** 2 / self.va).dimensionality
        self.e = (self.ub * self.va).dimensionality
        self.d0 = pq.dimensionality.Dimensionality()
        self.arr = env.arr("r", (2,), pos=True)
        # in base units already
        self.b = pq.Quantity(env.arr("bb", (2,), pos=True), A)
        self.bz = pq.Quantity(env.npreal("bz", pos=True), A)
        self.bu = pq.UncertainQuantity(env.arr("bv", (2,), pos=True), A, env.arr("dbv", (2,), pos=True))
        self.all = [self.q, self.p, self.s, self.z, self.n, self.m, self.uq, self.up, self.b, self.bz, self.bu]
        self.units = [A, B, self.ua, self.ub, self.va, self.n1, pq.dimensionless, pq.radian]


def const(c):
    return c.pq.UnitConstant("cst", 3 * c.ua / c.va, symbol="cst")


def wrapped(c):
    from importlib import import_module
    quantitizer = import_module(c.pq.__name__ + ".decorators").quantitizer

    def f(x, y):
        """doc"""
        return (x * y, x + 1)
    return quantitizer(f, lambda x, y: (c.ub * c.va, c.ua))


OPS = {
    "C01": {"rescale": lambda c: c.q.rescale(c.ub), "rescale-same": lambda c: c.q.rescale(c.ua), "rescale-text": lambda c: c.q.rescale("ub"),
            "rescale-0d": lambda c: c.z.rescale(c.ub), "already": lambda c: c.b.rescale(c.A), "already-0d": lambda c: c.bz.rescale(c.A.dimensionality), "already-uncertain": lambda c: c.bu.rescale(c.A), "from-base": lambda c: c.b.rescale(c.ua), "dimensionless": lambda c: (c.q / c.p).dimensionless_magnitude,
            "unit": lambda c: c.ua.rescale(c.ub), "unit-same": lambda c: c.ua.rescale(c.ua), "rescale-dims": lambda c: c.q.rescale(c.p.dimensionality)},
    "C03": {"mul": lambda c: c.d * c.e, "div": lambda c: c.d / c.e, "first": lambda c: c.d ** 1, "first-float": lambda c: c.d ** 1.0, "zeroth": lambda c: c.d ** 0, "zeroth2": lambda c: c.e ** 0,
            "second": lambda c: c.d ** 2, "minus": lambda c: c.d ** -1, "copy": lambda c: c.d.copy(), "add": lambda c: c.d + c.d, "sub": lambda c: c.d - c.d, "itself": lambda c: c.d / c.d,
            "by-none": lambda c: c.d * c.pq.dimensionless.dimensionality, "over-none": lambda c: c.d / c.pq.dimensionless.dimensionality,
            "simplified": lambda c: c.d.simplified, "simplified-base": lambda c: c.A.dimensionality.simplified, "simplified-none": lambda c: c.d0.simplified, "copy-none": lambda c: c.d0.copy(), "none-first": lambda c: c.d0 ** 1, "none-none": lambda c: c.d0 * c.d0,
            "of-quantity": lambda c: c.q.dimensionality, "of-unit": lambda c: c.ua.dimensionality, "of-none": lambda c: c.pq.dimensionless.dimensionality, "of-uncertain": lambda c: c.uq.dimensionality,
            "none-times": lambda c: c.n.dimensionality * c.d},
    "C05": {"add": lambda c: c.q + c.p, "sub": lambda c: c.q - c.p, "mod": lambda c: c.q % c.p, "add-unit": lambda c: c.q + c.ub, "unit-add": lambda c: c.ub + c.q, "unit-sub": lambda c: c.ub - c.q,
            "unit-unit": lambda c: c.ua + c.ub, "number": lambda c: c.n + 1.0, "rnumber": lambda c: 1.0 + c.n, "rsub": lambda c: 1.0 - c.n, "same": lambda c: c.q + c.q, "add-0d": lambda c: c.z + c.ub,
            "zero": lambda c: c.n + 0},
    "C06": {"unit-one": lambda c: c.ua * 1, "unit-rone": lambda c: 1 * c.ua, "unit-over-one": lambda c: c.ua / 1, "none-one": lambda c: c.pq.dimensionless * 1, "mul": lambda c: c.q * c.p, "div": lambda c: c.q / c.p, "one": lambda c: c.q * 1, "rone": lambda c: 1 * c.q, "over-one": lambda c: c.q / 1, "first": lambda c: c.q ** 1, "second": lambda c: c.q ** 2,
            "zeroth": lambda c: c.q ** 0, "unit": lambda c: c.q * c.va, "runit": lambda c: c.va * c.q, "none": lambda c: c.q * c.pq.dimensionless, "rdiv": lambda c: 1 / c.q, "array": lambda c: c.arr * c.va,
            "scalar": lambda c: 2.0 * c.va, "neg": lambda c: -c.q, "pos": lambda c: +c.q, "abs": lambda c: abs(c.q), "0d": lambda c: c.z * 1, "0d-first": lambda c: c.z ** 1, "n-first": lambda c: c.n ** 1,
            "dims": lambda c: c.q.dimensionality, "units": lambda c: c.q.units},
    "C08": {"lt": lambda c: c.q < c.p, "eq": lambda c: c.q == c.p, "ne": lambda c: c.q != c.s, "eq-wrong": lambda c: c.q == c.s, "eq-same": lambda c: c.q == c.q},
    "C09": {"sqrt": lambda c: c.np.sqrt(c.q), "square": lambda c: c.np.square(c.q), "negative": lambda c: c.np.negative(c.q), "absolute": lambda c: c.np.absolute(c.q), "multiply": lambda c: c.np.multiply(c.q, c.s),
            "divide": lambda c: c.np.true_divide(c.q, c.s), "maximum": lambda c: c.np.maximum(c.q, c.q), "power": lambda c: c.np.power(c.q, 1), "floor": lambda c: c.np.floor(c.q), "add": lambda c: c.np.add(c.q, c.q),
            "exp": lambda c: c.np.exp(c.n), "arcsin": lambda c: c.np.arctan(c.n), "positive": lambda c: c.np.positive(c.q), "conjugate": lambda c: c.np.conjugate(c.q)},
    "C10": {"sum": lambda c: c.q.sum(), "sum0": lambda c: c.m.sum(0), "mean": lambda c: c.q.mean(), "max": lambda c: c.q.max(), "min": lambda c: c.m.min(1), "ptp": lambda c: c.q.ptp(), "cumsum": lambda c: c.q.cumsum(),
            "prod": lambda c: c.q.prod(), "var": lambda c: c.q.var(), "std": lambda c: c.q.std(), "round": lambda c: c.q.round(), "trace": lambda c: c.m.trace(), "clip": lambda c: c.q.clip(c.p, c.p * 2),
            "one": lambda c: c.z.sum(), "0d-max": lambda c: c.z.max(), "0d-round": lambda c: c.z.round()},
    "C11": {"item": lambda c: c.q[0], "list": lambda c: c.q.tolist(), "mask": lambda c: c.q[[True, False]], "fancy": lambda c: c.q[[1, 0]], "iter": lambda c: list(c.q)},
    "C12": {"times": lambda c: c.ua * 1, "rtimes": lambda c: 1 * c.ua, "over": lambda c: c.ua / 1, "first": lambda c: c.ua ** 1, "neg": lambda c: -c.ua, "abs": lambda c: abs(c.ua), "units": lambda c: c.q.units,
            "simplified": lambda c: c.ua.simplified, "rescale": lambda c: c.ua.rescale(c.ub), "same": lambda c: c.ua.rescale(c.ua), "astype": lambda c: c.ua.astype("f8"), "dims": lambda c: c.ua.dimensionality,
            "quantity": lambda c: c.pq.Quantity(c.ua), "quantity-unit": lambda c: c.pq.Quantity(c.ua, c.ub), "quantity-same": lambda c: c.pq.Quantity(c.ua, c.ua), "magnitude": lambda c: c.ua.magnitude, "sum": lambda c: c.ua.sum(), "sqrt": lambda c: c.np.sqrt(c.ua),
            "base": lambda c: c.A.simplified, "none": lambda c: c.pq.dimensionless * 1, "none-simplified": lambda c: c.pq.dimensionless.simplified, "pos": lambda c: +c.ua, "array": lambda c: c.np.array(c.ua), "add": lambda c: c.ua + c.ua, "uncertain": lambda c: c.pq.UncertainQuantity(c.ua)},
    "C13": {"quantity": lambda c: c.q.simplified, "base": lambda c: c.A.simplified, "unit": lambda c: c.ua.simplified, "compound": lambda c: c.pq.CompoundUnit("ua**2/va").simplified, "dims": lambda c: c.d.simplified,
            "none": lambda c: c.n.simplified, "in-base": lambda c: (c.q.simplified).simplified, "uncertain": lambda c: c.uq.simplified, "product": lambda c: (c.q * c.s).simplified, "already": lambda c: c.b.simplified, "already-0d": lambda c: c.bz.simplified, "already-uncertain": lambda c: c.bu.simplified, "already-product": lambda c: (c.b * c.B).simplified, "constant": lambda c: const(c).simplified},
    "C14": {"rescale": lambda c: (1 * c.ua).rescale(c.A), "definition": lambda c: 1 * c.ua.definition, "compound": lambda c: 1 * c.pq.CompoundUnit("ua*va"), "rescale-compound": lambda c: (2 * c.pq.CompoundUnit("ua*va")).rescale("ub*va")},
    "C15": {"quantity": lambda c: c.pq.Quantity(1.0, "ua*va"), "registry": lambda c: c.pq.unit_registry["ua*va/ub"], "factor": lambda c: c.pq.unit_registry["2*ua"], "power": lambda c: c.pq.unit_registry["ua**2"],
            "one": lambda c: c.pq.unit_registry["ua"] * 1, "rescale": lambda c: c.q.rescale("ub")},
    "C19": {"add": lambda c: c.uq + c.up, "sub": lambda c: c.uq - c.up, "mul": lambda c: c.uq * c.up, "div": lambda c: c.uq / c.up, "neg": lambda c: -c.uq, "pow": lambda c: c.uq ** 2, "first": lambda c: c.uq ** 1, "one": lambda c: c.uq * 1,
            "rone": lambda c: 1 * c.uq, "certain": lambda c: c.uq + c.p, "rcertain": lambda c: c.p + c.uq, "unit": lambda c: c.uq * c.va, "rdiv": lambda c: 1 / c.uq, "pos": lambda c: +c.uq, "sqrt": lambda c: c.uq.sqrt(), "rsub": lambda c: c.p - c.uq},
    "C20": {"rescale": lambda c: c.uq.rescale(c.ub), "rescale-same": lambda c: c.uq.rescale(c.ua), "simplified": lambda c: c.uq.simplified, "copy": lambda c: c.uq.copy(), "fancy": lambda c: c.uq[[1, 0]], "item": lambda c: c.uq[0],
            "sum": lambda c: c.uq.sum(), "mean": lambda c: c.uq.mean(), "max": lambda c: c.uq.max(), "relative": lambda c: c.uq.relative_uncertainty, "astype": lambda c: c.uq.astype("f4")},
    "C21": {"copy": lambda c: __import__("copy").copy(c.q), "deepcopy": lambda c: __import__("copy").deepcopy(c.q), "method": lambda c: c.q.copy(), "ucopy": lambda c: __import__("copy").copy(c.uq),
            "udeepcopy": lambda c: __import__("copy").deepcopy(c.uq), "umethod": lambda c: c.uq.copy(), "astype": lambda c: c.q.astype("f8"), "0d": lambda c: __import__("copy").copy(c.z), "0d-deep": lambda c: __import__("copy").deepcopy(c.z)},
    "C22": {"sin": lambda c: c.pq.sin(c.n), "arctan": lambda c: c.pq.arctan(c.n), "hypot": lambda c: c.pq.hypot(c.q, c.q), "diff": lambda c: c.pq.diff(c.q), "ediff1d": lambda c: c.pq.ediff1d(c.q), "cumsum": lambda c: c.pq.cumsum(c.q),
            "trapz": lambda c: c.pq.trapz(c.q, c.q), "gradient": lambda c: c.pq.gradient(c.q), "unwrap": lambda c: c.pq.unwrap(c.n), "sum": lambda c: c.pq.sum(c.q), "prod": lambda c: c.pq.prod(c.q)},
    "C23": {"preferred": lambda c: preferred(c), "already": lambda c: preferred(c, c.q), "already-0d": lambda c: preferred(c, c.z), "already-uncertain": lambda c: preferred(c, c.up), "uncertain": lambda c: preferred(c, c.uq), "already-base": lambda c: preferred(c, c.b),
            "rescale": lambda c: preferred(c, c.q, True), "unit": lambda c: preferred(c, c.ub), "matrix": lambda c: preferred(c, c.m)},
    "C25": {"simplified": lambda c: const(c).simplified, "times": lambda c: 1 * const(c), "rescale": lambda c: (1 * const(c)).rescale("ub/va")},
    "C27": {"convert": lambda c: c.pq.Quantity(c.q, c.ub), "list": lambda c: c.pq.Quantity([1.0, 2.0], c.ua), "text": lambda c: c.pq.Quantity(3.0, "ua"), "dims": lambda c: c.pq.Quantity(3.0, c.d), "quantity": lambda c: c.pq.Quantity(3.0, c.pq.Quantity(1.0, c.ua)),
            "uncertain": lambda c: c.pq.UncertainQuantity([1.0, 2.0], c.ua, [0.1, 0.2]), "uncertain-convert": lambda c: c.pq.UncertainQuantity(c.uq, c.ub)},
    "C30": {"flatten": lambda c: c.m.flatten(), "take": lambda c: c.q.take([0, 1]), "compress": lambda c: c.q.compress([True, True]), "repeat": lambda c: c.q.repeat(1), "sort": lambda c: c.np.sort(c.q),
            "roll": lambda c: c.np.roll(c.q, 1), "tile": lambda c: c.np.tile(c.q, 1), "copy": lambda c: c.m.copy(), "copy-0d": lambda c: c.z.copy(), "flatten-0d": lambda c: c.z.flatten(), "ravel-F": lambda c: c.m.ravel("F"), "dims": lambda c: c.m.T.dimensionality},
    "C29": {"wrapped": lambda c: c.w(c.q, c.s), "keyword": lambda c: c.w(c.q, y=c.s)},
}


# results documented as views of what they were taken from
SHARES = set()


# properties whose expressions give new quantities, which can be changed in place in every way
OWN = ["C01", "C05", "C06", "C10", "C12", "C13", "C21", "C22", "C23", "C27", "C30"]
# ... except views of what they were taken from, units, and results that are no quantities
UNITS = {("C01", "already-uncertain"), ("C01", "dimensionless"), ("C06", "dims"), ("C13", "dims"), ("C13", "uncertain"), ("C13", "already-uncertain"),
         ("C23", "already-uncertain"), ("C23", "uncertain"), ("C23", "unit"), ("C27", "convert"), ("C27", "uncertain-convert"), ("C27", "uncertain"), ("C01", "unit-same"), ("C12", "quantity-unit"), ("C12", "quantity-same"), ("C21", "ucopy"), ("C21", "umethod"), ("C21", "udeepcopy"),
         ("C30", "roll"), ("C30", "dims")} | {("C12", k) for k in ("same", "astype", "dims", "magnitude", "array", "base", "uncertain")}


def preferred(c, q=None, rescale=False):
    m = __import__("sys").modules[c.pq.Quantity.__module__]
    m.PREFERRED = [c.va, c.ub if q is None or q is c.up or q is c.uq or q is c.ub else c.A if q is c.b else c.ua]
    q = c.q if q is None else q
    return q.rescale() if rescale else q.rescale_preferred()


def snap(env, r):
    if isinstance(r, (list, tuple)):
        return [snap(env, i) for i in r]
    if isinstance(r, dict):
        return ("dims", env.dims(r))
    if isinstance(r, env.np.ndarray) or hasattr(r, "dimensionality"):
        return ("array", env.snap(r), snap(env, r.uncertainty) if isinstance(r, env.pq.UncertainQuantity) else None)
    return ("scalar", list(env.vals(r)))


def same(env, s, r, label):
    if isinstance(s, list):
        env.check(isinstance(r, (list, tuple)) and len(r) == len(s), label + ":kind")
        for a, b in zip(s, r):
            same(env, a, b, label)
    elif s[0] == "dims":
        env.same_dims(r, s[1], label)
    elif s[0] == "array":
        env.unchanged(s[1], r, label)
        if s[2] is not None:
            same(env, s[2], r.uncertainty, label + ":uncertainty")
    else:
        env.eq(env.vals(r), s[1], label)


def scribble(env, c, r):
    """change everything in r that can be changed"""
    np, pq = env.np, env.pq
    if isinstance(r, (list, tuple)):
        for i in r:
            scribble(env, c, i)
        if isinstance(r, list):
            r.append(1)
    elif isinstance(r, dict):
        r *= c.B.dimensionality
        r *= c.ua.dimensionality
        r **= 3
    elif isinstance(r, np.ndarray):
        u = r.uncertainty if isinstance(r, pq.UncertainQuantity) else None
        m = r.magnitude if isinstance(r, pq.Quantity) else r
        st, x = env.attempt(lambda: np.array(m))
        kind = "b" if r.dtype == bool else r.dtype.kind
        if kind == "b":
            env.attempt(lambda: m.__setitem__(Ellipsis, ~x))
        else:
            env.attempt(lambda: m.__setitem__(Ellipsis, x * 3 + 1))
        if isinstance(r, pq.Quantity) and not isinstance(r, pq.UnitQuantity):
            d = r.dimensionality
            d *= c.B.dimensionality

            def go(t):
                t *= c.B

            def back(t):
                t.units = t.simplified.dimensionality
            env.attempt(go, r)
            env.attempt(back, r)
        if u is not None:
            scribble(env, c, u)


def register(prop):
    ops = OPS[prop]

    def independent(env, op):
        c = Ctx(env)
        if prop == "C29":
            c.w = wrapped(c)
        if prop in ("C25", "C13") and op in ("constant", "simplified", "times", "rescale") and prop == "C25" or op == "constant":
            k = const(c)
            c.units.append(k)
        src = [snap(env, x) for x in c.all]
        uns = [(env.snap(u), env.vals(u.simplified), env.dims(u.simplified)) for u in c.units]
        dims = env.dims(c.d), env.dims(c.e), {}
        a = list(env.vals(c.arr))
        f = ops[op]
        r = f(c)
        first = snap(env, r)
        scribble(env, c, r)
        for s, x in zip(src, c.all):
            same(env, s, x, "source")
        for (s, v, d), u in zip(uns, c.units):
            env.unchanged(s, u, "unit")
            t = u.simplified
            env.eq(env.vals(t), v, "unit-size")
            env.same_dims(t, d, "unit-size")
        env.same_dims(c.d, dims[0], "source-dims")
        env.same_dims(c.e, dims[1], "source-dims")
        env.same_dims(c.d0, dims[2], "source-dims")
        env.eq(env.vals(c.arr), a, "source-array")
        again = f(c)
        same(env, first, again, "again")
        if (prop, op) in SHARES:
            return
        for x in c.all + [c.d, c.e, c.d0]:
            scribble(env, c, x)
        c.arr[...] = c.arr * 3 + 1
        same(env, first, again, "result-after-sources-change")
    independent.__doc__ = "changing the result in place changes neither what it was made from nor the result of the same expression evaluated again; changing what it was made from does not change it"
    harness(prop, name="no_shared_state", op=list(ops))(independent)
    if prop in OWN:
        def own_result(env, op):
            c = Ctx(env)
            r = ops[op](c)
            if op == "constant" or prop == "C25":
                c.units.append(r)
            for t in r if isinstance(r, (list, tuple)) else [r]:
                env.is_quantity(t, op)
                env.check(not isinstance(t, env.pq.UnitQuantity), op + ":unit")
                v, d = list(env.vals(t)), env.dims(t)
                t *= 2
                env.eq(env.vals(t), [2 * i for i in v], op + ":imul")
                env.same_dims(t, d, op + ":imul")
                t *= c.B
                t /= c.B
                env.same_dims(t, d, op + ":imul-unit")
                w = env.vals(t.simplified)
                t.units = t.simplified.dimensionality
                env.eq(env.vals(t), w, op + ":units")
        own_result.__doc__ = "the result of the expression is a quantity of its own: it can be scaled, multiplied by a unit and converted in place"
        harness(prop, name="own_result", op=[k for k in ops if (prop, k) not in UNITS])(own_result)
    from symq import layouts, many, trees, twins
    layouts.register(prop)
    many.register(prop)
    twins.register(prop)
    trees.register(prop)
