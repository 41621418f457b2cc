"""Units that look alike (the same symbol, the same unicode symbol, names that differ in case only, the same definition,
documentation or place in the printing order) are different units all the same: the properties on such pairs."""
import copy
from symq.harness import harness

LOOK = ["symbol", "u_symbol", "name-symbol", "case", "prefix", "definition", "order", "doc", "ending", "same-length"]


class Pair:
    def __init__(self, env, look, compat):
        pq = env.pq
        A, B = env.bases()
        self.A, self.B, self.pq, self.env = A, B, pq, env
        self.k1 = env.real("k1", pos=True)
        self.k2 = self.k1 if look == "definition" else env.real("k2", pos=True)
        self.T = A if compat else B
        d, e = self.k1 * A, self.k2 * self.T
        U, K = pq.UnitQuantity, pq.UnitConstant
        self.t, self.u = {
            "symbol": lambda: (U("twa", d, symbol="tw"), K("twb", e, symbol="tw")),
            "u_symbol": lambda: (U("twa", d, symbol="tx", u_symbol="ψ"), U("twb", e, symbol="ty", u_symbol="ψ")),
            "name-symbol": lambda: (U("twa", d), K("twb", e, symbol="twa")),
            "case": lambda: (U("twa", d), U("twA", e)),
            "prefix": lambda: (U("tw", d), U("twa", e)),
            "definition": lambda: (U("twa", d), U("twb", e)),
            "order": lambda: (U("twa", d), U("twb", e)),
            "doc": lambda: (U("twa", d, doc="the unit"), U("twb", e, doc="the unit")),
            "ending": lambda: (U("twam", d), U("mtwm", e)),
            "same-length": lambda: (U("twm", d, symbol="xw"), U("mwt", e, symbol="yw")),
        }[look]()
        if look == "order":
            # as of a unit pickled in another process
            self.u.__setstate__((1, self.t.format_order))
        self.tn, self.un = self.t.name, self.u.name
        self.x, self.y = env.arr("x", (2,), pos=True), env.arr("y", (2,), pos=True)
        self.X, self.Y = env.vals(self.x), env.vals(self.y)
        self.q, self.p = pq.Quantity(self.x, self.t), pq.Quantity(self.y, self.u)
        self.f = self.k2 / self.k1


def conversion(env, c):
    r = c.q.rescale(c.u)
    env.eq(env.vals(r), [v / c.f for v in c.X], "there")
    env.same_dims(r, {c.un: 1}, "there")
    env.eq(env.vals(r.rescale(c.t)), c.X, "back")
    r = (c.q * c.p).rescale(c.t ** 2)
    env.eq(env.vals(r), [a * b * c.f for a, b in zip(c.X, c.Y)], "product")
    env.same_dims(r, {c.tn: 2}, "product")


def refused(env, c):
    pq = c.pq
    un = pq.UncertainQuantity(c.x, c.t, c.y)
    for n, f in (("add", lambda: c.q + c.p), ("radd", lambda: c.p + c.q), ("sub", lambda: c.q - c.p), ("mod", lambda: c.q % c.p), ("rescale", lambda: c.q.rescale(c.u)), ("back", lambda: c.p.rescale(c.t)), ("lt", lambda: c.q < c.p), ("ge", lambda: c.p >= c.q),
                 ("unit-add", lambda: c.t + c.u), ("unit-sub", lambda: c.u - c.q), ("uncertain", lambda: un + c.p), ("new", lambda: pq.Quantity(c.q, c.u)), ("powers", lambda: c.q ** 2 + c.p ** 2), ("products", lambda: c.q * c.u + c.p * c.p)):
        env.raises(ValueError, f, n)
    env.eq(env.vals(c.q), c.X, "operand")
    env.eq(env.vals(c.p), c.Y, "operand")


def algebra(env, c):
    d, e = c.t.dimensionality, c.u.dimensionality
    env.same_dims(d * e, {c.tn: 1, c.un: 1}, "product")
    env.same_dims(d / e, {c.tn: 1, c.un: -1}, "quotient")
    env.same_dims(d ** 2 / e / e, {c.tn: 2, c.un: -2}, "powers")
    env.same_dims((d * e) / d, {c.un: 1}, "cancel")
    env.same_dims((d / e) * e, {c.tn: 1}, "cancel")
    for n in ("__add__", "__sub__", "__iadd__", "__isub__"):
        env.raises(ValueError, lambda: getattr(d.copy(), n)(e), n)
        env.raises(ValueError, lambda: getattr(e.copy(), n)(d), n)
        env.raises(ValueError, lambda: getattr(d / e, n)(e / d), n)
        env.same_dims(getattr(d.copy(), n)(d), {c.tn: 1}, n)
    g = d.copy()
    g *= e
    env.same_dims(g, {c.tn: 1, c.un: 1}, "imul")
    g /= d
    env.same_dims(g, {c.un: 1}, "idiv")


def sameness(env, c):
    d, e = c.t.dimensionality, c.u.dimensionality
    one = c.pq.dimensionless.dimensionality
    for a, b in ((d, e), (d ** 2, e ** 2), (d / e, e / d), (d / e, one), (d * e, d ** 2), (d * e, e * e)):
        env.check(not (a == b) and a != b and not (b == a), "different")
    env.check(d * e == e * d and hash(d * e) == hash(e * d), "order")
    env.check(len({d: 1, e: 2, d * e: 3, e * d: 3}) == 3, "keys")


def addition(env, c):
    for r, n in ((c.q + c.p, "add"), (c.t * c.x + c.p, "unit")):
        env.eq(env.vals(r), [a + b * c.f for a, b in zip(c.X, c.Y)], n)
        env.same_dims(r, {c.tn: 1}, n)
    r = c.p - c.q
    env.eq(env.vals(r), [b - a / c.f for a, b in zip(c.X, c.Y)], "sub", scale=[env.absum(b, a / c.f) for a, b in zip(c.X, c.Y)])
    env.same_dims(r, {c.un: 1}, "sub")
    r = c.t + c.u
    env.eq(env.vals(r), [1 + c.f], "units")
    env.same_dims(r, {c.tn: 1}, "units")


def products(env, c):
    r = c.q * c.p
    env.eq(env.vals(r), [a * b for a, b in zip(c.X, c.Y)], "mul")
    env.same_dims(r, {c.tn: 1, c.un: 1}, "mul")
    r = c.q / c.p
    env.eq(env.vals(r), [a / b for a, b in zip(c.X, c.Y)], "div")
    env.same_dims(r, {c.tn: 1, c.un: -1}, "div")
    env.same_dims(c.t / c.u, {c.tn: 1, c.un: -1}, "units")
    env.same_dims(c.q * c.u / c.t, {c.un: 1}, "cancel")


def inplace(env, c):
    q = c.pq.Quantity(env.np.array(c.x), c.t)
    q += c.p
    env.eq(env.vals(q), [a + b * c.f for a, b in zip(c.X, c.Y)], "iadd")
    env.same_dims(q, {c.tn: 1}, "iadd")
    q.units = c.u
    env.eq(env.vals(q), [a / c.f + b for a, b in zip(c.X, c.Y)], "units")
    env.same_dims(q, {c.un: 1}, "units")
    q *= c.t
    env.same_dims(q, {c.un: 1, c.tn: 1}, "imul")
    q /= c.u
    env.same_dims(q, {c.tn: 1}, "idiv")
    env.eq(env.vals(q), [a / c.f + b for a, b in zip(c.X, c.Y)], "idiv")


def order(env, c):
    f = c.f
    for a, b, s, t, u in zip(c.X, c.Y, env.vals(c.q < c.p), env.vals(c.q >= c.p), env.vals(c.q == c.q.rescale(c.u))):
        b = b * f
        env.assume((a - b > 0.001 * b) | (b - a > 0.001 * b))
        env.check(bool(s) == bool(a < b), "lt")
        env.check(bool(t) == bool(a >= b), "ge")
    env.check((c.q == c.q).all(), "itself")


def functions(env, c):
    np = env.np
    for n in ("add", "subtract", "maximum", "hypot", "less", "equal"):
        env.raises(ValueError, lambda: getattr(np, n)(c.q, c.p), n)
    r = np.multiply(c.q, c.p)
    env.same_dims(r, {c.tn: 1, c.un: 1}, "multiply")
    r = np.true_divide(c.q, c.p)
    env.same_dims(r, {c.tn: 1, c.un: -1}, "divide")
    env.eq(env.vals(r), [a / b for a, b in zip(c.X, c.Y)], "divide")


def elements(env, c):
    q = c.pq.Quantity(env.np.array(c.x), c.t)
    q[0] = c.p[1]
    env.eq(env.vals(q), [c.Y[1] * c.f, c.X[1]], "set")
    q.put([1], c.p[:1])
    env.eq(env.vals(q), [c.Y[1] * c.f, c.Y[0] * c.f], "put")
    env.same_dims(q, {c.tn: 1}, "set")
    env.raises(ValueError, lambda: c.q.searchsorted(c.p), "searchsorted")


def simplified(env, c):
    for q, v, d in ((c.q, [a * c.k1 for a in c.X], {"qa": 1}), (c.p, [b * c.k2 for b in c.Y], {"qa": 1}), (c.q * c.p, [a * b * c.k1 * c.k2 for a, b in zip(c.X, c.Y)], {"qa": 2}), (c.q / c.p, [a / b / c.f for a, b in zip(c.X, c.Y)], {})):
        r = q.simplified
        env.eq(env.vals(r), v, "value")
        env.same_dims(r, d, "units")


def uncertain(env, c):
    U = c.pq.UncertainQuantity
    a, b = U(c.x, c.t, c.x), U(c.y, c.u, c.y)
    r = a + b
    env.eq(env.vals(r), [v + w * c.f for v, w in zip(c.X, c.Y)], "sum")
    env.eq([v ** 2 for v in env.vals(r.uncertainty)], [v * v + (w * c.f) ** 2 for v, w in zip(c.X, c.Y)], "sum-uncertainty")
    env.same_dims(r, {c.tn: 1}, "sum")
    env.same_dims(r.uncertainty, {c.tn: 1}, "sum-uncertainty")


def attached(env, c):
    U = c.pq.UncertainQuantity
    a = U(c.x, c.t, c.p)
    env.eq(env.vals(a.uncertainty), [w * c.f for w in c.Y], "given")
    env.same_dims(a.uncertainty, {c.tn: 1}, "given")
    r = a.rescale(c.u)
    env.eq(env.vals(r), [v / c.f for v in c.X], "rescaled")
    env.eq(env.vals(r.uncertainty), c.Y, "rescaled")
    env.same_dims(r.uncertainty, {c.un: 1}, "rescaled")


def copies(env, c):
    import pickle
    q = c.q * c.u ** -2
    for n, f in (("copy", copy.copy), ("deepcopy", copy.deepcopy), ("method", lambda v: v.copy())):
        r = f(q)
        env.same_dims(r, {c.tn: 1, c.un: -2}, n)
        env.eq(env.vals(r), c.X, n)


def preferred(env, c):
    m = __import__("sys").modules[c.pq.Quantity.__module__]
    m.PREFERRED = [c.t ** 3, c.u]
    r = c.q.rescale_preferred()
    env.same_dims(r, {c.un: 1}, "chosen")
    env.eq(env.vals(r), [v / c.f for v in c.X], "chosen")


def calculus(env, c):
    pq = c.pq
    m = pq.Quantity([[c.X[0], c.X[1]], [c.X[1], c.X[1] + c.X[0]]], c.t)
    h = env.real("h", pos=True)
    a, b = pq.gradient(m, pq.Quantity(h, c.t), pq.Quantity(h, c.u))
    env.same_dims(a, {}, "gradient-first")
    env.same_dims(b, {c.tn: 1, c.un: -1}, "gradient-second")
    a, b = pq.gradient(m, pq.Quantity(h, c.u), pq.Quantity(h, c.t))
    env.same_dims(a, {c.tn: 1, c.un: -1}, "gradient-first")
    env.same_dims(b, {}, "gradient-second")
    r = pq.trapz(c.q, c.p)
    env.same_dims(r, {c.tn: 1, c.un: 1}, "trapz")
    env.eq(env.vals(r), [(c.X[0] + c.X[1]) / 2 * (c.Y[1] - c.Y[0])], "trapz", scale=[(c.X[0] + c.X[1]) * (c.Y[1] + c.Y[0])])
    r = pq.trapz(c.q, dx=pq.Quantity(h, c.u))
    env.same_dims(r, {c.tn: 1, c.un: 1}, "trapz-dx")
    env.eq(env.vals(r), [(c.X[0] + c.X[1]) / 2 * h], "trapz-dx")
    r = pq.cross(c.q, c.p)
    env.same_dims(r, {c.tn: 1, c.un: 1}, "cross")
    env.eq(env.vals(r), [c.X[0] * c.Y[1] - c.X[1] * c.Y[0]], "cross", scale=[c.X[0] * c.Y[1] + c.X[1] * c.Y[0]])
    r = pq.ediff1d(c.q, to_end=c.p[:1])
    env.same_dims(r, {c.tn: 1}, "ediff1d")
    env.eq(env.vals(r), [c.X[1] - c.X[0], c.Y[0] * c.f], "ediff1d", scale=[c.X[1] + c.X[0], 0])
    env.raises(ValueError, lambda: pq.hypot(c.q, c.p), "hypot")
    r = pq.arctan2(c.q, c.p.rescale(c.t))
    env.same_dims(r, {"radian": 1}, "arctan2")


def aggregates(env, c):
    r = c.q.clip(c.p[0], c.p[0] * 2)
    env.same_dims(r, {c.tn: 1}, "clip")
    lo = c.Y[0] * c.f
    for v, w in zip(env.vals(r), c.X):
        env.assume((w - lo > 0.001 * lo) | (lo - w > 0.001 * lo))
        env.assume((w - 2 * lo > 0.001 * lo) | (2 * lo - w > 0.001 * lo))
        env.eq([v], [lo if w < lo else 2 * lo if w > 2 * lo else w], "clip")
    out = c.pq.Quantity(env.np.array(0.0), c.u)
    r = c.q.sum(out=out)
    env.same_dims(out, {c.tn: 1}, "out")
    env.eq(env.vals(out), [c.X[0] + c.X[1]], "out")
    r = (c.q * c.p).prod()
    env.same_dims(r, {c.tn: 2, c.un: 2}, "prod")
    r = (c.q / c.u).var()
    env.same_dims(r, {c.tn: 2, c.un: -2}, "var")


def construction(env, c):
    for r, d, v in ((c.pq.Quantity(c.q, c.u), c.un, [a / c.f for a in c.X]), (c.pq.Quantity(c.p, c.t), c.tn, [b * c.f for b in c.Y]), (c.pq.Quantity(c.q, c.t), c.tn, c.X), (c.pq.Quantity(c.x, c.u), c.un, c.X)):
        env.same_dims(r, {d: 1}, "new")
        env.eq(env.vals(r), v, "new")


TABLE = {"C10": (aggregates, [True]), "C22": (calculus, [True]), "C27": (construction, [True]), "C01": (conversion, [True]), "C02": (refused, [False]), "C03": (algebra, [True, False]), "C04": (sameness, [True, False]), "C05": (addition, [True]), "C06": (products, [True, False]), "C07": (inplace, [True]), "C08": (order, [True]),
         "C09": (functions, [True, False]), "C11": (elements, [True]), "C13": (simplified, [True]), "C19": (uncertain, [True]), "C20": (attached, [True]), "C21": (copies, [True, False]), "C23": (preferred, [True])}


def register(prop):
    if prop not in TABLE:
        return
    fn, compat = TABLE[prop]

    def similar_units(env, look, compatible):
        fn(env, Pair(env, look, compatible))
    similar_units.__doc__ = "pairs of units that look alike: " + fn.__name__
    harness(prop, name="similar_units", look=LOOK, compatible=compat)(similar_units)
