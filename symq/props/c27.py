"""C27 constructing a quantity labels or converts exactly as asked"""
import numpy as rnp
from symq import independent as indep
from symq.harness import harness


def units(env):
    A, B = env.bases()
    k = [env.real("k%d" % i, pos=True) for i in range(3)]
    a, b, c = env.pq.UnitQuantity("alpha", k[0] * A, symbol="al", aliases=["alphas"]), env.unit("beta", k[1] * A), env.unit("gamma_", k[2] * B)
    return A, B, a, b, c, k


FORMS = ["unit", "name", "symbol", "alias", "product", "product-text", "dims", "power", "base", "empty", "omitted", "one-element", "quantity", "compound", "uncertain-unit", "dimensionless"]


def form(env, us, f):
    """-> (units argument, {name: exponent}, size in base units)"""
    pq = env.pq
    A, B, a, b, c, k = us
    return {
        "unit": lambda: (a, {"alpha": 1}, k[0]), "name": lambda: ("alpha", {"alpha": 1}, k[0]), "symbol": lambda: ("al", {"alpha": 1}, k[0]),
        "alias": lambda: ("alphas", {"alpha": 1}, k[0]), "product": lambda: (a * c, {"alpha": 1, "gamma_": 1}, k[0] * k[2]),
        "product-text": lambda: ("al**2/gamma_", {"alpha": 2, "gamma_": -1}, k[0] ** 2 / k[2]), "dims": lambda: ((a / c ** 2).dimensionality, {"alpha": 1, "gamma_": -2}, k[0] / k[2] ** 2),
        "power": lambda: (a ** -3, {"alpha": -3}, 1 / k[0] ** 3), "base": lambda: (A, {"qa": 1}, 1), "empty": lambda: ("", {}, 1), "omitted": lambda: (None, {}, 1),
        "one-element": lambda: (pq.Quantity(env.np.array([1.0]), a), {"alpha": 1}, k[0]), "quantity": lambda: (pq.Quantity(1, b), {"beta": 1}, k[1]),
        "compound": lambda: (pq.CompoundUnit("al/gamma_"), {"(al/gamma_)": 1}, k[0] / k[2]), "uncertain-unit": lambda: (pq.UncertainQuantity(1.0, a, 0.0), {"alpha": 1}, k[0]),
        "dimensionless": lambda: ("dimensionless", {}, 1)}[f]()


def build(env, data, u, f, dtype=None, cls=None):
    cls = cls or env.pq.Quantity
    if f == "omitted":
        return cls(data) if dtype is None else cls(data, dtype=dtype)
    return cls(data, u) if dtype is None else cls(data, u, dtype)


DATA = ["number", "numpy-number", "int", "list", "tuple", "nested", "array", "array2", "zero-d", "array-of-lists", "f4", "i4", "complex", "strided", "empty", "bool"]


def data(env, d):
    """-> (data, flat values, shape, dtype)"""
    np = env.np
    if d == "number":
        x = env.real("x")
        return x, [x], (), "f8"
    if d == "numpy-number":
        x = env.npreal("x")
        return x, [x], (), "f8"
    if d == "int":
        return 7, [7], (), "i8"
    if d == "bool":
        return [True, False], [1, 0], (2,), "?"
    if d in ("list", "tuple"):
        x = [env.real("x%d" % i) for i in range(3)]
        return (x if d == "list" else tuple(x)), x, (3,), "f8"
    if d == "nested":
        x = [env.real("x%d" % i) for i in range(4)]
        return [x[:2], tuple(x[2:])], x, (2, 2), "f8"
    if d == "array-of-lists":
        p, q = env.arr("p", (2,)), env.arr("q", (2,))
        return [p, q], env.vals(p) + env.vals(q), (2, 2), "f8"
    if d == "strided":
        x = env.arr("x", (2, 3))
        y = x[:, ::-2].T
        v = env.vals(x)
        return y, [v[2], v[5], v[0], v[3]], (2, 2), "f8"
    if d == "empty":
        return [], [], (0,), "f8"
    shape, dt = {"array": ((3,), "f8"), "array2": ((2, 2), "f8"), "zero-d": ((), "f8"), "f4": ((2,), "f4"), "i4": ((2,), "i4"), "complex": ((2,), "c16")}[d]
    x = env.arr("x", shape, dt)
    return x, list(env.vals(x)), shape, dt


@harness("C27", d=DATA, f=FORMS, dtype=[None, "f8", "c16"], filt=lambda d, f, dtype: dtype is None or f in ("unit", "product-text", "omitted") and not (d == "complex" and dtype == "f8"))
def label(env, d, f, dtype):
    """numbers, sequences, arrays: those magnitudes in those units"""
    us = units(env)
    u, dims, size = form(env, us, f)
    x, vals, shape, dt = data(env, d)
    snap_u = env.snap(u) if hasattr(u, "shape") else None
    snap_x = (list(x) if isinstance(x, (list, tuple)) else None)
    keep = list(env.vals(x)) if hasattr(x, "shape") else None
    q = build(env, x, u, f, dtype)
    env.klass(q, env.pq.Quantity, "made")
    env.shape(q, shape, "made")
    env.same_dims(q, dims, "made")
    env.dtype_is(q, dtype or dt, "made")
    env.eq(env.vals(q), vals, "made")
    env.eq(env.vals(q.simplified), [v * size for v in vals], "simplified")
    if keep is not None:
        env.eq(env.vals(x), keep, "source")
        env.check(not isinstance(x, env.pq.Quantity), "source-class")
    elif snap_x is not None:
        env.check(len(x) == len(snap_x) and all(i is j for i, j in zip(x, snap_x)), "source-list")
    if snap_u is not None:
        env.unchanged(snap_u, u, "units-argument")


SRC = ["quantity", "unit", "uncertain", "f4", "int", "derived", "dimensionless", "view"]


def source(env, us, s, shape):
    """-> (quantity, values, dims, size in base units, base-unit exponents)"""
    pq = env.pq
    A, B, a, b, c, k = us
    if s == "unit":
        return a, [1], {"alpha": 1}, k[0], (1, 0)
    x = env.arr("x", shape, {"f4": "f4", "int": "i8"}.get(s, "f8"))
    v = list(env.vals(x))
    if s == "uncertain":
        return pq.UncertainQuantity(x, a, env.arr("s", shape, lo=0)), v, {"alpha": 1}, k[0], (1, 0)
    if s == "derived":
        return pq.Quantity(x, a ** 2 / c), v, {"alpha": 2, "gamma_": -1}, k[0] ** 2 / k[2], (2, -1)
    if s == "dimensionless":
        return pq.Quantity(x), v, {}, 1, (0, 0)
    q = pq.Quantity(x, a)
    return (q[...] if s == "view" else q), v, {"alpha": 1}, k[0], (1, 0)


BASE = {"unit": (1, 0), "name": (1, 0), "symbol": (1, 0), "alias": (1, 0), "product": (1, 1), "product-text": (2, -1), "dims": (1, -2), "power": (-3, 0), "base": (1, 0),
        "one-element": (1, 0), "quantity": (1, 0), "compound": (1, -1), "uncertain-unit": (1, 0), "dimensionless": (0, 0), "dims-dimensionless": (0, 0)}


@harness("C27", s=SRC, f=FORMS + ["none", "dims-dimensionless"], shape=[(2,), ()], filt=lambda s, f, shape: shape == (2,) or s in ("quantity", "unit") or f == "quantity")
def from_quantity(env, s, f, shape):
    """another quantity: converted to the units given, kept without"""
    pq = env.pq
    us = units(env)
    q, v, dims, size, base = source(env, us, s, shape)
    if s == "unit" and shape == (2,):
        shape = ()
    if f == "none":
        u, want, g = None, dims, size
    elif f == "dims-dimensionless":
        u, want, g = pq.dimensionless.dimensionality, {}, 1
    else:
        u, want, g = form(env, us, f)
    snap = env.snap(q)
    keep = f in ("empty", "omitted", "none")
    st, r = env.attempt(lambda: build(env, q, u, f))
    env.unchanged(snap, q, "source")
    if not keep and BASE[f] != base:
        env.check(st == "exc" and isinstance(r, ValueError), "refused")
        return
    env.check(st == "ok", "accepted")
    if st != "ok":
        return
    env.klass(r, pq.Quantity, "made")
    env.shape(r, () if s == "unit" else shape, "made")
    if keep:
        env.same_dims(r, dims, "kept")
        env.eq(env.vals(r), v, "kept")
        if s != "unit":
            env.dtype_is(r, {"f4": "f4", "int": "i8"}.get(s, "f8"), "kept")
    else:
        env.same_dims(r, want, "converted")
        env.eq(env.vals(r), [t * size / g for t in v], "converted")
        # conversions are copies
        if r.shape:
            r[0] = r[0] * 2 + r[0].units
        env.unchanged(snap, q, "source-after-write")


@harness("C27", s=[t for t in SRC if t != "int"], f=["omitted", "unit", "text-same", "quantity", "dims"], dt=["f4", "f8", "c16"], call=["positional", "keyword"], shape=[(2,), ()],
         filt=lambda s, f, dt, call, shape: (shape == (2,) or s in ("quantity", "view")) and (s not in ("derived", "dimensionless") or f in ("omitted", "dims")))
def element_type_of_quantity(env, s, f, dt, call, shape):
    """the element type asked for is the one of the result, also when made from another quantity"""
    pq = env.pq
    us = units(env)
    q, v, dims, size, base = source(env, us, s, shape)
    u, want, g = {"omitted": lambda: ("", dims, size), "unit": lambda: (us[3], {"beta": 1}, us[5][1]), "text-same": lambda: ("alpha", {"alpha": 1}, us[5][0]), "quantity": lambda: (pq.Quantity(1.0, us[3]), {"beta": 1}, us[5][1]),
                  "dims": lambda: (q.dimensionality, dims, size)}[f]()
    snap = env.snap(q)
    r = pq.Quantity(q, u, dt) if call == "positional" else pq.Quantity(q, units=u, dtype=dt)
    env.dtype_is(r, dt, "type")
    env.same_dims(r, want, "units")
    env.klass(r, pq.Quantity, "made")
    env.shape(r, () if s == "unit" else shape, "made")
    if dt != "f4":
        env.eq(env.vals(r), [t * size / g for t in v], "values")
    else:
        env.narrow("f4")
        env.eq(env.vals(r), [t * size / g for t in v], "values")
        env.exact_again()
    env.unchanged(snap, q, "source")


@harness("C27", s=["number", "array", "quantity", "uncertain", "unit"], kind=["factor", "two-elements", "matrix-one", "zero", "negative", "number", "list", "none-type", "text-factor", "text-number", "text-unknown", "bytes", "bool", "nan", "complex", "dict", "type"])
def refused(env, s, kind):
    """units that are not a scalar of magnitude one, or something else altogether, are refused"""
    pq, np = env.pq, env.np
    us = units(env)
    A, B, a, b, c, k = us
    x = env.real("x") if s == "number" else env.arr("x", (2,))
    if s == "quantity":
        x = pq.Quantity(x, a)
    elif s == "uncertain":
        x = pq.UncertainQuantity(x, a, env.arr("s", (2,), lo=0))
    elif s == "unit":
        x = a
    snap = env.snap(x) if hasattr(x, "shape") else None
    if kind == "factor":
        f = env.real("f")
        env.assume(f != 1)
        if not env.symbolic and abs(f - 1) < 1e-12:
            return
        bad = pq.Quantity(f, b)
    elif kind == "two-elements":
        bad = pq.Quantity(np.array([1.0, 1.0]), b)
    elif kind == "matrix-one":
        bad = pq.Quantity(np.array([[1.0]]), b)
    elif kind == "none-type":
        if snap is not None and s != "array":
            env.check(True, "no-units-means-keep")
            return
        bad = None
    else:
        bad = {"zero": lambda: pq.Quantity(0.0, b), "negative": lambda: pq.Quantity(-1.0, b), "number": lambda: env.choice("n", [1, 1.0, 2, 0]), "list": lambda: [b],
               "text-factor": lambda: env.choice("t", ["3*alpha", "alpha*2", "0.5*alpha/gamma_", "alpha/4", "-alpha"]), "text-number": lambda: env.choice("t", ["3", "2.5", "-1", "0"]),
               "text-unknown": lambda: "no_such_unit", "bytes": lambda: b"alpha", "bool": lambda: env.choice("b", [True, False]), "nan": lambda: pq.Quantity(float("nan"), b),
               "complex": lambda: pq.Quantity(1j, b), "dict": lambda: {"alpha": 1}, "type": lambda: pq.Quantity}[kind]()
    env.raises(Exception, lambda: pq.Quantity(x, bad), "refused")
    env.raises(Exception, lambda: pq.UncertainQuantity(x, bad), "refused-uncertain")
    if snap is not None:
        env.unchanged(snap, x, "source")


@harness("C27", d=["number", "int", "list", "tuple", "array", "array2", "zero-d", "f4", "complex", "numpy-number"], side=["left", "right"], f=["unit", "product", "power", "quantity", "compound"])
def by_product(env, d, side, f):
    """numbers and arrays multiplied with units become quantities"""
    us = units(env)
    u, dims, size = form(env, us, f)
    x, vals, shape, dt = data(env, d)
    q = x * u if side == "left" else u * x
    env.klass(q, env.pq.Quantity, "made")
    env.shape(q, shape, "made")
    env.same_dims(q, dims, "made")
    env.eq(env.vals(q), vals, "made")
    env.eq(env.vals(q.simplified), [v * size for v in vals], "simplified")
    r = x / u
    env.same_dims(r, {n: -e for n, e in dims.items()}, "quotient")
    env.eq(env.vals(r), vals, "quotient")


@harness("C27", f=["text", "object"])
def any_exponent(env, f):
    """every exponent in the units argument, as text or as object"""
    pq = env.pq
    A, B, a, b, c, k = units(env)
    n, m = env.int("n", -4, 4, text=True), env.int("m", -4, 4, text=True)
    x = env.arr("x", (1,))
    u = "alpha**%s*gamma_**%s" % (n, m) if f == "text" else a ** n * c ** m
    q = pq.Quantity(x, u)
    i, j = int(n), int(m)
    env.same_dims(q, {"alpha": i, "gamma_": j}, "made")
    env.eq(env.vals(q.simplified), [v * k[0] ** i * k[2] ** j for v in env.vals(x)], "simplified")
    p = pq.Quantity(pq.Quantity(x, b ** i * c ** j), u)
    env.same_dims(p, {"alpha": i, "gamma_": j}, "converted")
    env.eq(env.vals(p), [v * (k[1] / k[0]) ** i for v in env.vals(x)], "converted")


indep.register("C27")
