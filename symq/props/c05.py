"""C05 addition, subtraction and remainder convert the second operand"""
import operator as op
from symq import independent as indep
from symq.harness import harness

KINDS = [("arr", "arr"), ("arr", "0d"), ("0d", "arr"), ("0d", "0d"), ("arr", "unit"), ("unit", "arr"), ("0d", "unit"),
         ("unit", "0d"), ("unit", "unit"), ("2d", "arr"), ("col", "arr")]
SH = {"arr": (2,), "0d": (), "2d": (2, 2), "col": (2, 1)}
OPS = {"add": op.add, "sub": op.sub, "mod": op.mod}


def bc(env, a, sa, b, sb, f):
    """oracle for broadcasting: flat lists + shapes -> flat list, shape (independent of numpy)"""
    n = max(len(sa), len(sb))
    pa, pb = (1,) * (n - len(sa)) + tuple(sa), (1,) * (n - len(sb)) + tuple(sb)
    sh = tuple(max(x, y) for x, y in zip(pa, pb))
    out = []

    def idx(p, i):
        k = 0
        for d, j in zip(p, i):
            k = k * d + (0 if d == 1 else j)
        return k
    import itertools
    for i in itertools.product(*[range(d) for d in sh]):
        out.append(f(a[idx(pa, i)], b[idx(pb, i)]))
    return out, sh


def operand(env, kind, name, unit, **k):
    if kind == "unit":
        return unit, [1], ()
    x = env.arr(name, SH[kind], **k)
    return env.pq.Quantity(x, unit), env.vals(x), SH[kind]


def mod(env, a, b):
    return a - b * env.np.floor(a / b)


@harness("C05", o=["add", "sub"], kinds=KINDS)
def fresh_units(env, o, kinds):
    """a[ua] +- b[ub] = a +- b*k2/k1 in ua for all units; operands untouched"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua, ub = env.unit("ua", k1 * A), env.unit("ub", k2 * A)
    a, va, sa = operand(env, kinds[0], "a", ua)
    b, vb, sb = operand(env, kinds[1], "b", ub)
    s1, s2 = env.snap(a), env.snap(b)
    r = OPS[o](a, b)
    sg = 1 if o == "add" else -1
    want, sh = bc(env, va, sa, vb, sb, lambda x, y: x + sg * y * k2 / k1)
    sc, _ = bc(env, va, sa, vb, sb, lambda x, y: abs(x) + abs(y * k2 / k1))
    env.klass(r, env.pq.Quantity, o)
    env.same_dims(r, {"ua": 1}, o)
    env.shape(r, sh, o)
    env.eq(env.vals(r), want, o, scale=sc)
    env.unchanged(s1, a, "left")
    env.unchanged(s2, b, "right")
    # the result is a new object
    env.same_dims(a, {"ua": 1}, "left")
    # commutes physically
    r2 = OPS[o](b, a)
    env.same_dims(r2, {"ub": 1}, o + "-swapped")
    env.eq(env.vals(r2), [sg * v * k1 / k2 for v in want], o + "-swapped", scale=[v * k1 / k2 for v in sc])


@harness("C05", kinds=[("arr", "arr"), ("arr", "0d"), ("0d", "unit"), ("unit", "0d"), ("arr", "unit"), ("unit", "arr")])
def remainder(env, kinds):
    """a % b: a - b*floor(a/b) of the physical values, in a's units"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua, ub = env.unit("ua", k1 * A), env.unit("ub", k2 * A)
    a, va, sa = operand(env, kinds[0], "a", ua, lo=-50, hi=50)
    b, vb, sb = operand(env, kinds[1], "b", ub, nonzero=True, lo=-50, hi=50)
    s1, s2 = env.snap(a), env.snap(b)
    r = a % b
    want, sh = bc(env, va, sa, vb, sb, lambda x, y: mod(env, x, y * k2 / k1))
    sc, _ = bc(env, va, sa, vb, sb, lambda x, y: abs(x) + abs(y * k2 / k1))
    env.same_dims(r, {"ua": 1}, "mod")
    env.klass(r, env.pq.Quantity, "mod")
    env.shape(r, sh, "mod")
    env.unchanged(s1, a, "left")
    env.unchanged(s2, b, "right")
    ms, _ = bc(env, va, sa, vb, sb, lambda x, y: y * k2 / k1)
    env.eqmod(env.vals(r), want, ms, "mod", sc)


@harness("C05", o=["add", "sub", "mod"], kind=["float", "int", "arr", "q"], side=["left", "right"], scaled=[False, True])
def dimensionless(env, o, kind, side, scaled):
    """plain numbers combine with dimensionless (also scaled: k*dimensionless) quantities only by value"""
    A, B = env.bases()
    k1 = env.real("k1", pos=True)
    u = env.unit("ua", k1 * env.pq.dimensionless) if scaled else env.pq.dimensionless
    k = k1 if scaled else 1
    x = env.arr("x", (2,), lo=-20, hi=20, nonzero=True)
    q = env.pq.Quantity(x, u)
    y = env.arr("y", (2,), lo=-20, hi=20, nonzero=True)
    p = {"float": env.real("z", nonzero=True, lo=-20, hi=20), "int": 3, "arr": y, "q": None}[kind]
    if kind == "q":
        p, pv = env.pq.Quantity(y), env.vals(y)
    else:
        pv = [p, p] if kind in ("float", "int") else env.vals(y)
    s = env.snap(q)
    lhs, rhs = (q, p) if side == "left" else (p, q)
    r = OPS[o](lhs, rhs)
    unit = {"ua": 1} if scaled else {}
    if kind == "q" and side == "right":
        unit = {}
        a, b = pv, [v * k for v in env.vals(x)]
    elif side == "left":
        a, b = env.vals(x), [v / k for v in pv]
    else:
        a, b = [v / k for v in pv], env.vals(x)
    env.unchanged(s, q, "operand")
    env.is_quantity(r, o)
    env.same_dims(r, unit, o)
    if o == "mod":
        env.eqmod(env.vals(r), [mod(env, i, j) for i, j in zip(a, b)], b, o, [abs(i) for i in a])
        return
    sg = 1 if o == "add" else -1
    env.eq(env.vals(r), [i + sg * j for i, j in zip(a, b)], o, scale=[abs(i) + abs(j) for i, j in zip(a, b)])


@harness("C05", o=["add", "sub", "mod"], kind=["float", "int", "arr", "list", "npfloat", "0darr", "q0", "unit", "1arr", "list1", "q1", "11arr", "percent1"], side=["left", "right"],
         what=["unit", "0d", "percent", "scaled-unit", "arr1", "percent-arr"],
         filt=lambda o, kind, side, what: not (o == "mod" and "percent" in what + kind or side == "right" and kind == "npfloat" and what in ("percent", "scaled-unit", "percent-arr")))
def dimensionless_units(env, o, kind, side, what):
    """the unit objects `dimensionless`, percent and user-defined ones, and 0-d quantities, with plain numbers"""
    A, B = env.bases()
    pq, np = env.pq, env.np
    k = 1
    if what == "unit":
        q, qv, un = pq.dimensionless, 1, {}
    elif what == "percent":
        q, qv, k, un = pq.percent, 1, 0.01, {"percent": 1}
    elif what == "scaled-unit":
        k = env.real("k1", pos=True)
        q, qv, un = env.unit("ua", k * pq.dimensionless), 1, {"ua": 1}
    elif what in ("arr1", "percent-arr"):
        x = env.arr("x", (1,), lo=-20, hi=20, nonzero=True)
        q, qv, un = pq.Quantity(x), env.vals(x)[0], {}
        if what == "percent-arr":
            q, k, un = pq.Quantity(x, "percent"), 0.01, {"percent": 1}
    else:
        x = env.arr("x", (), lo=-20, hi=20, nonzero=True)
        q, qv, un = pq.Quantity(x), env.vals(x)[0], {}
    y = env.arr("y", (2,), lo=-20, hi=20, nonzero=True)
    z = env.arr("z", (), lo=-20, hi=20, nonzero=True)
    c = env.real("c", nonzero=True, lo=-20, hi=20)
    p, pv, pu = {"float": (c, [c], None), "int": (3, [3], None), "arr": (y, env.vals(y), None), "list": (env.vals(y), env.vals(y), None),
                 "npfloat": (env.npreal("n", nonzero=True, lo=-20, hi=20),) * 2 + (None,), "0darr": (z, env.vals(z), None),
                 "q0": (pq.Quantity(z), env.vals(z), {}), "unit": (pq.dimensionless, [1], {}), "1arr": (y[:1], env.vals(y)[:1], None), "list1": ([c], [c], None),
                 "q1": (pq.Quantity(y[:1]), env.vals(y)[:1], {}), "11arr": (y[:1].reshape((1, 1)), env.vals(y)[:1], None),
                 "percent1": (pq.Quantity(y[:1], "percent"), env.vals(y)[:1], {"percent": 1})}[kind]
    if kind == "npfloat":
        pv = [p]
    s = env.snap(q)
    r = OPS[o](q, p) if side == "left" else OPS[o](p, q)
    kp = 0.01 if kind == "percent1" else 1
    if side == "left" or pu is None:
        unit, a, b = un, qv, [i * kp / k for i in pv]
    else:
        unit, a, b = pu, qv * k / kp, pv
    env.unchanged(s, q, "operand")
    env.klass(r, pq.Quantity, o)
    env.same_dims(r, unit, o)
    env.shape(r, (2,) if kind in ("arr", "list") else (1, 1) if kind == "11arr" else (1,) if kind.endswith("1") or kind == "1arr" or what in ("arr1", "percent-arr") else (), o)
    ab = [(a, i) if side == "left" else (i, a) for i in b]
    if o == "mod":
        env.eqmod(env.vals(r), [mod(env, i, j) for i, j in ab], [j for i, j in ab], o, [abs(i) for i, j in ab])
        return
    sg = 1 if o == "add" else -1
    env.eq(env.vals(r), [i + sg * j for i, j in ab], o, scale=[abs(i) + abs(j) for i, j in ab])


@harness("C05", o=["add", "sub"])
def compound(env, o):
    """symbolic exponents over two dimensions: x[ua**e*va] +- y[ub**e*vb]"""
    A, B = env.bases()
    k1, k2, l1, l2 = [env.real(n, pos=True) for n in ("k1", "k2", "l1", "l2")]
    ua, ub = env.unit("ua", k1 * A), env.unit("ub", k2 * A)
    va, vb = env.unit("va", l1 * B), env.unit("vb", l2 * B)
    e = env.int("e", -3, 3)
    f = env.choice("f", [1, -2])
    x, y = env.arr("x", (2,)), env.arr("y", (2,))
    r = OPS[o](env.pq.Quantity(x, ua ** e * va ** f), env.pq.Quantity(y, ub ** e * vb ** f))
    c = (k2 / k1) ** e * (l2 / l1) ** f
    sg = 1 if o == "add" else -1
    env.same_dims(r, {"ua": e, "va": f}, o)
    env.eq(env.vals(r), [a + sg * b * c for a, b in zip(env.vals(x), env.vals(y))], o,
           scale=[abs(a) + abs(b * c) for a, b in zip(env.vals(x), env.vals(y))])


@harness("C05")
def same_units(env):
    """equal units: no conversion, including units written in another order"""
    A, B = env.bases()
    k1, l1 = env.real("k1", pos=True), env.real("l1", pos=True)
    ua, va = env.unit("ua", k1 * A), env.unit("va", l1 * B)
    x, y = env.arr("x", (2,)), env.arr("y", (2,))
    r = env.pq.Quantity(x, ua * va) - env.pq.Quantity(y, va * ua)
    env.eq(env.vals(r), [a - b for a, b in zip(env.vals(x), env.vals(y))], "sub",
           scale=[abs(a) + abs(b) for a, b in zip(env.vals(x), env.vals(y))])
    env.same_dims(r, {"ua": 1, "va": 1}, "sub")
    r = +env.pq.Quantity(x, ua) + -env.pq.Quantity(y, ua)
    env.eq(env.vals(r), [a - b for a, b in zip(env.vals(x), env.vals(y))], "neg",
           scale=[abs(a) + abs(b) for a, b in zip(env.vals(x), env.vals(y))])
    env.same_dims(r, {"ua": 1}, "neg")
    r = abs(env.pq.Quantity(x, ua))
    env.eq(env.vals(r), [abs(a) for a in env.vals(x)], "abs")
    env.same_dims(r, {"ua": 1}, "abs")


@harness("C05")
def chains(env):
    """a + b - c with three different units, both groupings"""
    A, B = env.bases()
    ks = [env.real("k%d" % i, pos=True) for i in range(3)]
    us = [env.unit("u%d" % i, k * A) for i, k in enumerate(ks)]
    xs = [env.arr("x%d" % i, (2,)) for i in range(3)]
    q = [env.pq.Quantity(x, u) for x, u in zip(xs, us)]
    v = [env.vals(x) for x in xs]
    want = [a + b * ks[1] / ks[0] - c * ks[2] / ks[0] for a, b, c in zip(*v)]
    sc = [abs(a) + abs(b * ks[1] / ks[0]) + abs(c * ks[2] / ks[0]) for a, b, c in zip(*v)]
    r1 = q[0] + q[1] - q[2]
    r2 = q[0] + (q[1] - q[2])
    env.eq(env.vals(r1), want, "left", scale=sc)
    env.eq(env.vals(r2), want, "right", scale=sc)
    env.same_dims(r2, {"u0": 1}, "right")


@harness("C05", pair=[("m", "ft"), ("J", "eV"), ("hour", "s"), ("kPa", "psi"), ("N*m", "J"), ("km/h", "m/s"), ("percent", "dimensionless")])
def builtin(env, pair):
    x, y = env.arr("x", (2,)), env.arr("y", (2,))
    a, b = pair
    q, p = env.pq.Quantity(x, a), env.pq.Quantity(y, b)
    f = float(env.pq.Quantity(1.0, b).rescale(a).magnitude)
    s1, s2 = env.snap(q), env.snap(p)
    for sg, fn in ((1, op.add), (-1, op.sub)):
        r = fn(q, p)
        env.eq(env.vals(r), [i + sg * f * j for i, j in zip(env.vals(x), env.vals(y))], "value",
               scale=[abs(i) + abs(f * j) for i, j in zip(env.vals(x), env.vals(y))])
        env.same_dims(r, env.dims(q), "units")
    env.unchanged(s1, q, "left")
    env.unchanged(s2, p, "right")


indep.register("C05")
