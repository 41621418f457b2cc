"""C19 uncertainties propagate by first-order error propagation"""
from symq import independent as indep
from symq.harness import harness


def setup(env):
    A, B = env.bases()
    k1, k2, k3 = env.real("k1", pos=True), env.real("k2", pos=True), env.real("k3", pos=True)
    ua, ub, uc = env.unit("ua", k1 * A), env.unit("ub", k2 * B), env.unit("uc", k3 * A)
    return A, B, ua, ub, uc, k1, k2, k3


def uq(env, name, shape, units, nonzero=False):
    v = env.arr(name, shape, nonzero=nonzero)
    u = env.arr("s" + name, shape, lo=0)
    q = env.pq.UncertainQuantity(v, units, u)
    return q, env.vals(v), env.vals(u)


def verify(env, r, vals, var, dims, shape, label, scales=None):
    """value, variance (uncertainty squared), units of both, shape"""
    env.klass(r, env.pq.UncertainQuantity, label)
    env.same_dims(r, dims, label)
    env.shape(r, shape, label)
    env.eq(env.vals(r), vals, label + ":value", scale=scales)
    u = r.uncertainty
    env.check(type(u) is env.pq.Quantity, label + ":uncertainty-class")
    env.same_dims(u, dims, label + ":uncertainty")
    env.shape(u, shape, label + ":uncertainty")
    us = env.vals(u)
    env.eq([t * t for t in us], var, label + ":uncertainty")
    for t in us:
        env.check(t >= 0, label + ":negative-uncertainty")


KINDS = ["uq-same", "uq-other", "q-same", "q-other", "unit", "unit-other", "q0-other"]
SHAPES = [((2,), (2,)), ((2,), ()), ((), ()), ((1,), (2,))]


def other(env, kind, shape, ua, uc, f):
    """-> operand, values in ua, sigmas in ua"""
    if kind in ("uq-same", "uq-other"):
        g = f if kind == "uq-other" else 1
        q, v, s = uq(env, "y", shape, uc if kind == "uq-other" else ua)
        return q, [t * g for t in v], [t * g for t in s]
    if kind in ("q-same", "q-other", "q0-other"):
        g = 1 if kind == "q-same" else f
        sh = () if kind == "q0-other" else shape
        a = env.arr("y", sh)
        v = env.vals(a)
        return env.pq.Quantity(a, ua if kind == "q-same" else uc), [t * g for t in v], [0 for t in v]
    return (ua, [1], [0]) if kind == "unit" else (uc, [f], [0])


def bc(vals, n):
    return vals * n if len(vals) == 1 else vals


@harness("C19", op=["add", "sub"], kind=KINDS, shapes=SHAPES, order=["left", "right"], form=["out", "in"],
         filt=lambda op, kind, shapes, order, form: form == "out" or (order == "left" and shapes[0] == (2,)))
def sums(env, op, kind, shapes, order, form):
    """sums and differences: variances add, the other operand converted first"""
    A, B, ua, ub, uc, k1, k2, k3 = setup(env)
    f = k3 / k1
    q, v, s = uq(env, "x", shapes[0], ua)
    p, w, t = other(env, kind, shapes[1], ua, uc, f)
    n = max(len(v), len(w))
    shape = shapes[0] if len(v) >= len(w) and len(shapes[0]) >= len(p.shape) else p.shape
    v, s, w, t = bc(v, n), bc(s, n), bc(w, n), bc(t, n)
    sg = 1 if op == "add" else -1
    qs, ps = env.snap(q), env.snap(p)
    us = env.snap(q.uncertainty)
    name = "ua"
    g = 1
    if order == "left":
        if form == "in":
            r = q
            if op == "add":
                r += p
            else:
                r -= p
            env.check(r is q, "same-object")
        else:
            r = q + p if op == "add" else q - p
        vals = [a + sg * b for a, b in zip(v, w)]
    else:
        r = p + q if op == "add" else p - q
        vals = [b + sg * a for a, b in zip(v, w)]
        # units of the left operand (of the uncertain one for a plain quantity): decided by C05; here: whichever, consistently
        d = env.dims(r)
        name = list(d)[0] if len(d) == 1 else "ua"
        env.check(name in ("ua", "uc"), "units")
        g = 1 if name == "ua" else 1 / f
    sc = [env.absum(g * a, g * b) for a, b in zip(v, w)]
    verify(env, r, [g * a for a in vals], [g * g * (a * a + b * b) for a, b in zip(s, t)], {name: 1}, shape, op, sc)
    if form == "out":
        env.unchanged(qs, q, "operand")
        env.unchanged(us, q.uncertainty, "operand-uncertainty")
    env.unchanged(ps, p, "other")


@harness("C19", op=["add", "sub"], kind=["float", "int", "npfloat", "array", "uq", "percent"], order=["left", "right"])
def dimensionless_sums(env, op, kind, order):
    """plain numbers are certain dimensionless quantities"""
    pq = env.pq
    q, v, s = uq(env, "x", (2,), "")
    if kind == "uq":
        p, w, t = uq(env, "y", (2,), "")
    elif kind == "percent":
        p, w, t = uq(env, "y", (2,), "percent")
        w, t = [a / 100 for a in w], [a / 100 for a in t]
    elif kind == "array":
        p = env.arr("y", (2,))
        w, t = env.vals(p), [0, 0]
    else:
        p = env.real("y") if kind == "float" else env.npreal("y") if kind == "npfloat" else env.int("y", -3, 3)
        w, t = [p, p], [0, 0]
    sg = 1 if op == "add" else -1
    if order == "left":
        r = q + p if op == "add" else q - p
        vals = [a + sg * b for a, b in zip(v, w)]
    else:
        r = p + q if op == "add" else p - q
        vals = [b + sg * a for a, b in zip(v, w)]
    g = 1
    d = env.dims(r)
    if kind == "percent" and d == {"percent": 1}:
        g = 100
    verify(env, r, [g * a for a in vals], [g * g * (a * a + b * b) for a, b in zip(s, t)], d if g == 100 else {}, (2,), op,
           [env.absum(g * a, g * b) for a, b in zip(v, w)])


MK = ["uq", "uq-same", "q", "q0", "unit", "float", "int", "array", "npfloat"]


def factor(env, kind, shape, ua, ub, nonzero):
    """-> operand, values, sigmas, dims"""
    if kind in ("uq", "uq-same"):
        q, v, s = uq(env, "y", shape, ub if kind == "uq" else ua, nonzero)
        return q, v, s, {"ub" if kind == "uq" else "ua": 1}
    if kind in ("q", "q0"):
        a = env.arr("y", shape if kind == "q" else (), nonzero=nonzero)
        return env.pq.Quantity(a, ub), env.vals(a), [0] * len(env.vals(a)), {"ub": 1}
    if kind == "unit":
        return ub, [1], [0], {"ub": 1}
    if kind == "array":
        a = env.arr("y", shape, nonzero=nonzero)
        return a, env.vals(a), [0] * len(env.vals(a)), {}
    if kind == "npfloat":
        a = env.npreal("y", nonzero=nonzero)
    else:
        a = env.real("y", nonzero=nonzero) if kind == "float" else env.int("y", 1 if nonzero else -3, 3)
    return a, [a], [0], {}


@harness("C19", op=["mul", "div"], kind=MK, shapes=SHAPES, order=["left", "right"], form=["out", "in"],
         filt=lambda op, kind, shapes, order, form: (form == "out" or (order == "left" and shapes[0] == (2,)))
         and (kind in ("uq", "uq-same", "q", "array") or shapes[0] == shapes[1]))
def products(env, op, kind, shapes, order, form):
    """products and quotients: sigma^2 = (dr/dx sx)^2 + (dr/dy sy)^2"""
    A, B, ua, ub, uc, k1, k2, k3 = setup(env)
    q, v, s = uq(env, "x", shapes[0], ua, nonzero=(op == "div" and order == "right"))
    p, w, t, d = factor(env, kind, shapes[1], ua, ub, op == "div" and order == "left")
    n = max(len(v), len(w))
    psh = tuple(getattr(p, "shape", ()))
    shape = shapes[0] if len(v) >= len(w) and len(shapes[0]) >= len(psh) else psh
    v, s, w, t = bc(v, n), bc(s, n), bc(w, n), bc(t, n)
    qs = env.snap(q)
    us = env.snap(q.uncertainty)
    ps = env.snap(p) if hasattr(p, "dtype") and hasattr(p, "view") else None
    mine = {"ua": 1}
    if op == "mul":
        if form == "in":
            r = q
            r *= p
        else:
            r = q * p if order == "left" else p * q
        vals = [a * b for a, b in zip(v, w)]
        var = [(b * sa) ** 2 + (a * sb) ** 2 for a, b, sa, sb in zip(v, w, s, t)]
        dims = env.mul_dims(mine, d)
    elif order == "left":
        if form == "in":
            r = q
            r /= p
        else:
            r = q / p
        vals = [a / b for a, b in zip(v, w)]
        var = [(sa / b) ** 2 + (a * sb / b ** 2) ** 2 for a, b, sa, sb in zip(v, w, s, t)]
        dims = env.mul_dims(mine, d, -1)
    else:
        r = p / q
        vals = [b / a for a, b in zip(v, w)]
        var = [(sb / a) ** 2 + (b * sa / a ** 2) ** 2 for a, b, sa, sb in zip(v, w, s, t)]
        dims = env.mul_dims(d, mine, -1)
    verify(env, r, vals, var, dims, shape, op)
    if form == "out":
        env.unchanged(qs, q, "operand")
        env.unchanged(us, q.uncertainty, "operand-uncertainty")
    if ps is not None:
        env.unchanged(ps, p, "other")


@harness("C19", n=[2, 3, 1, -1, -2, 0.5, -0.5, 1.5, 0, "array", "quantity", "sqrt", "np2", "sym"], shape=[(2,), ()], form=["out", "in"],
         filt=lambda n, shape, form: form == "out" or n not in ("sqrt",))
def powers(env, n, shape, form):
    """powers: |n x^(n-1)| sigma, also of zero and negative values"""
    A, B, ua, ub, uc, k1, k2, k3 = setup(env)
    e = {"array": 2, "quantity": 3, "sqrt": 0.5, "np2": 2}.get(n, n)
    if n == "sym":
        e = env.choice("n", [-3, -2, -1, 1, 2, 3, 4])
    pos = isinstance(e, float)
    v = env.arr("x", shape, pos=pos, nonzero=e <= 0)
    s = env.arr("sx", shape, lo=0)
    q = env.pq.UncertainQuantity(v, ua, s)
    v, s = env.vals(v), env.vals(s)
    arg = {"array": env.np.array([2] * (shape[0] if shape else 1)) if shape else 2, "quantity": env.pq.Quantity(3.0, ""),
           "np2": env.np.int64(2) if not env.symbolic else 2}.get(n, e)
    qs, us = env.snap(q), env.snap(q.uncertainty)
    if n == "sqrt":
        r = q.sqrt()
    elif form == "in":
        r = q
        r **= arg
    else:
        r = q ** arg
    vals = [a ** e for a in v]
    if e == 0:
        var = [0 for a in v]
        vals = [1 for a in v]
    else:
        var = [(e * a ** (e - 1) * t) ** 2 if e != 1 else t * t for a, t in zip(v, s)]
    verify(env, r, vals, var, {"ua": e} if e else {}, shape, "power")
    if form == "out":
        env.unchanged(qs, q, "operand")
        env.unchanged(us, q.uncertainty, "operand-uncertainty")


@harness("C19", shape=[(2,), (), (2, 2)])
def negation(env, shape):
    A, B, ua, ub, uc, k1, k2, k3 = setup(env)
    q, v, s = uq(env, "x", shape, ua)
    qs, us = env.snap(q), env.snap(q.uncertainty)
    r = -q
    verify(env, r, [-a for a in v], [t * t for t in s], {"ua": 1}, shape, "neg")
    verify(env, -r, v, [t * t for t in s], {"ua": 1}, shape, "negneg")
    verify(env, +q, v, [t * t for t in s], {"ua": 1}, shape, "pos")
    env.unchanged(qs, q, "operand")
    env.unchanged(us, q.uncertainty, "operand-uncertainty")


@harness("C19", shape=[(2,), (), (1, 2), (0,)], view=[False, True], filt=lambda shape, view: not view or len(shape) == 1)
def absolute(env, shape, view):
    """the absolute value keeps the uncertainty, which is its own"""
    A, B, ua, ub, uc, k1, k2, k3 = setup(env)
    q, v, s = uq(env, "x", shape, ua)
    if view:
        q, v, s = q[::-1], v[::-1], s[::-1]
    a, b = env.snap(q), env.snap(q.uncertainty)
    r = abs(q)
    verify(env, r, [abs(x) for x in v], [t * t for t in s], {"ua": 1}, shape, "abs")
    r.uncertainty[...] = env.pq.Quantity(100.0, ua)
    env.unchanged(a, q, "operand")
    env.unchanged(b, q.uncertainty, "operand-uncertainty")


@harness("C19", a=["add", "sub", "mul", "div", "pow"], b=["add", "mul", "div", "pow", "neg"])
def chains(env, a, b):
    """two steps: the second one propagates the uncertainty the first one produced"""
    A, B, ua, ub, uc, k1, k2, k3 = setup(env)
    f = k3 / k1
    q, (v,), (s,) = uq(env, "x", (1,), ua, nonzero=True)
    p, (w,), (t,) = uq(env, "y", (1,), uc if a in ("add", "sub") else ub, nonzero=True)
    if a in ("add", "sub"):
        r = q + p if a == "add" else q - p
        val = v + f * w if a == "add" else v - f * w
        var, d = s * s + (f * t) ** 2, {"ua": 1}
    elif a == "mul":
        r, val, var, d = q * p, v * w, (w * s) ** 2 + (v * t) ** 2, {"ua": 1, "ub": 1}
    elif a == "div":
        r, val, var, d = q / p, v / w, (s / w) ** 2 + (v * t / w ** 2) ** 2, {"ua": 1, "ub": -1}
    else:
        r, val, var, d = q ** 2, v ** 2, (2 * v * s) ** 2, {"ua": 2}
    if b == "add":
        c, (z,), (m,) = uq(env, "z", (1,), r.dimensionality)
        r, val, var = c + r, z + val, var + m * m
    elif b == "mul":
        c = env.real("z")
        r, val, var = c * r, c * val, c * c * var
    elif b == "div":
        c = env.real("z")
        env.assume(val != 0)
        r, val, var, d = c / r, c / val, (c / val ** 2) ** 2 * var, {n: -e for n, e in d.items()}
    elif b == "pow":
        r, val, var, d = r ** 2, val ** 2, 4 * val ** 2 * var, {n: 2 * e for n, e in d.items()}
    else:
        r, val = -r, -val
    verify(env, r, [val], [var], d, (1,), a + "-" + b, None if a not in ("add", "sub") or b not in ("add", "neg", "mul") else [env.absum(v * 10, f * w * 10)])


TOPS = {
    "rdiv": (lambda q, p, c: c / q, lambda x, y, c: c / x, lambda x, y, c: (c / x ** 2, 0), (-1, 0)),
    "rdiv-q": (lambda q, p, c: p / q, lambda x, y, c: y / x, lambda x, y, c: (y / x ** 2, 1 / x), (-1, 1)),
    "div-q": (lambda q, p, c: q / p, lambda x, y, c: x / y, lambda x, y, c: (1 / y, x / y ** 2), (1, -1)),
    "mul-q": (lambda q, p, c: q * p, lambda x, y, c: x * y, lambda x, y, c: (y, x), (1, 1)),
    "div": (lambda q, p, c: q / c, lambda x, y, c: x / c, lambda x, y, c: (1 / c, 0), (1, 0)),
    "rmul": (lambda q, p, c: c * q, lambda x, y, c: c * x, lambda x, y, c: (c, 0), (1, 0)),
    "square": (lambda q, p, c: q ** 2, lambda x, y, c: x * x, lambda x, y, c: (2 * x, 0), (2, 0)),
    "inverse": (lambda q, p, c: q ** -1.0, lambda x, y, c: 1 / x, lambda x, y, c: (1 / x ** 2, 0), (-1, 0)),
    "neg": (lambda q, p, c: -q, lambda x, y, c: -x, lambda x, y, c: (1, 0), (1, 0)),
    "root": (lambda q, p, c: (q ** 2).sqrt(), lambda x, y, c: x, lambda x, y, c: (1, 0), (1, 0)),
}


@harness("C19", op=sorted(TOPS), dt=["i8", "i4", "f4"], sdt=["f8", "i8"], shape=[(2,), ()], both=[False, True],
         filt=lambda op, dt, sdt, shape, both: not both or op.endswith("-q"))
def other_types(env, op, dt, sdt, shape, both):
    """values (and uncertainties) kept as whole or single-precision numbers propagate the same way"""
    A, B, ua, ub, uc, k1, k2, k3 = setup(env)
    shape = tuple(shape)
    env.narrow("f4" if dt == "f4" else "f8")
    x, s = env.arr("x", shape, dt, lo=1, hi=9), env.arr("s", shape, sdt, lo=0, hi=9)
    y = env.arr("y", shape, dt if both else "f8", lo=1, hi=9)
    t = env.arr("t", shape, sdt, lo=0, hi=9)
    c = env.real("c", lo=1, hi=9)
    q = env.pq.UncertainQuantity(x, ua, s, dtype=dt)
    p = env.pq.UncertainQuantity(y, ub, t, **({"dtype": dt} if both else {})) if op.endswith("-q") else None
    env.dtype_is(q, dt, "kept")
    qs, us = env.snap(q), env.snap(q.uncertainty)
    run, val, der, (e, g) = TOPS[op]
    r = run(q, p, c)
    vs, ss = env.vals(x), env.vals(s)
    ys, ts = env.vals(y), env.vals(t)
    ds = [der(a, b, c) for a, b in zip(vs, ys)]
    verify(env, r, [val(a, b, c) for a, b in zip(vs, ys)], [(d[0] * m) ** 2 + (d[1] * n) ** 2 for d, m, n in zip(ds, ss, ts)],
           {n: w for n, w in (("ua", e), ("ub", g)) if w}, shape, op)
    env.unchanged(qs, q, "operand")
    env.unchanged(us, q.uncertainty, "operand-uncertainty")


indep.register("C19")
