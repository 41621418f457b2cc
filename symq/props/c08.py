"""C08 comparisons agree with the physical order"""
import operator as op
from symq import independent as indep
from symq.harness import harness
from symq.props.c05 import bc, operand

OPS = {"lt": op.lt, "le": op.le, "gt": op.gt, "ge": op.ge, "eq": op.eq, "ne": op.ne}
KINDS = [("arr", "arr"), ("arr", "0d"), ("0d", "arr"), ("0d", "0d"), ("arr", "unit"), ("unit", "arr"), ("0d", "unit"),
         ("unit", "0d"), ("unit", "unit")]


def plain_bool(env, r, label):
    """truth values without units: a bool array or a bool scalar, no Quantity"""
    env.check(not isinstance(r, env.pq.Quantity), label + ":is-a-quantity")
    if isinstance(r, env.np.ndarray):
        env.check(r.dtype == env.np.dtype(bool), label + ":dtype-%s" % r.dtype)
    else:
        env.check(isinstance(r, (bool, env.np.bool_)), label + ":type-%s" % type(r).__name__)


def bools(env, r):
    return [bool(t) for t in (env.vals(r) if isinstance(r, env.np.ndarray) else [r])]


def verdicts(env, o, got, a, b, label, exact):
    """got[i] <=> a[i] o b[i]; in a floating point replay near ties say nothing unless the arithmetic is exact"""
    env.check(len(got) == len(a), label + ":length")
    for g, x, y in zip(got, a, b):
        if not env.symbolic and not exact and abs(x - y) <= 1e-9 * (abs(x) + abs(y)):
            env.labels.append(label)
            continue
        c = OPS[o](x, y)
        if not g:
            c = (not c) if isinstance(c, (bool,)) or not env.symbolic else ~c
        env.check(c, label)


@harness("C08", o=list(OPS), kinds=KINDS)
def fresh_units(env, o, kinds):
    """a[ua] o b[ub] <=> a*k1 o b*k2 for all values and unit sizes; plain truth values; operands untouched"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua, ub = env.unit("ua", k1 * A), env.unit("ub", k2 * A)
    a, va, sa = operand(env, kinds[0], "a", ua)
    b, vb, sb = operand(env, kinds[1], "b", ub)
    s1, s2 = env.snap(a), env.snap(b)
    r = OPS[o](a, b)
    plain_bool(env, r, o)
    xs, sh = bc(env, va, sa, vb, sb, lambda x, y: x * k1)
    ys, _ = bc(env, va, sa, vb, sb, lambda x, y: y * k2)
    env.check(tuple(env.np.shape(r)) == sh, o + ":shape")
    verdicts(env, o, bools(env, r), xs, ys, o, False)
    env.unchanged(s1, a, "left")
    env.unchanged(s2, b, "right")


@harness("C08", o=list(OPS), r=[0.25, 4.0, 1.0], kinds=[("arr", "arr"), ("0d", "unit"), ("unit", "0d")])
def exact_scales(env, o, r, kinds):
    """sizes that differ by a power of two: no rounding, ties count as equal"""
    A, B = env.bases()
    ua, ub = env.unit("ua", 0.5 * A), env.unit("ub", 0.5 * r * A)
    a, va, sa = operand(env, kinds[0], "a", ua)
    b, vb, sb = operand(env, kinds[1], "b", ub)
    got = OPS[o](a, b)
    plain_bool(env, got, o)
    xs, sh = bc(env, va, sa, vb, sb, lambda x, y: x)
    ys, _ = bc(env, va, sa, vb, sb, lambda x, y: y * r)
    verdicts(env, o, bools(env, got), xs, ys, o, True)


@harness("C08", o=list(OPS), how=["same", "order", "copy", "dimensionless"])
def ieee_equal_units(env, o, how):
    """equal units: exactly the IEEE comparison of the doubles (NaN, infinities, neighbouring doubles)"""
    x, y = env.fparr("x", (2,)), env.fparr("y", (2,))
    pq = env.pq
    u1, u2 = {"same": (pq.m, pq.m), "order": (pq.m * pq.s ** -1, 1 / pq.s * pq.m), "copy": (pq.eV, "eV"),
              "dimensionless": (pq.dimensionless, "")}[how]
    a, b = pq.Quantity(x, u1), pq.Quantity(y, u2)
    r = OPS[o](a, b)
    plain_bool(env, r, o)
    verdicts(env, o, bools(env, r), env.vals(x), env.vals(y), o, True)
    env.check(env.dims(a) == env.dims(pq.Quantity(1.0, u1)), "left:units")


@harness("C08", o=list(OPS), types=[("f4", "f8"), ("f8", "f4"), ("f4", "f4"), ("f2", "f8")], how=["same", "dimensionless", "plain"])
def ieee_mixed_precision(env, o, types, how):
    """operands of different precision: the comparison of the exact values, not of values rounded to the narrower type"""
    x, y = env.fparr("x", (1,), types[0]), env.fparr("y", (1,), types[1])
    pq = env.pq
    u = pq.m if how == "same" else pq.dimensionless
    a, b = pq.Quantity(x, u), y if how == "plain" else pq.Quantity(y, u)
    env.dtype_is(a, types[0], "left")
    r = OPS[o](a, b)
    plain_bool(env, r, o)
    verdicts(env, o, bools(env, r), [float(t) for t in env.vals(x)] if not env.symbolic else env.vals(x), [float(t) for t in env.vals(y)] if not env.symbolic else env.vals(y), o, True)


@harness("C08", o=list(OPS), special=["nan", "inf", "-inf"], pair=[("m", "ft"), ("kPa", "psi"), ("m", "km")], side=["left", "right"])
def special_values(env, o, special, pair, side):
    """NaN compares false (only != true), infinities lie beyond every finite value, also after conversion"""
    v = float(special)
    q = env.pq.Quantity(env.np.array([v, v]), pair[0])
    p = env.pq.Quantity(env.arr("y", (2,)), pair[1])
    a, b = (q, p) if side == "left" else (p, q)
    r = OPS[o](a, b)
    plain_bool(env, r, o)
    x, y = (v, 0.0) if side == "left" else (0.0, v)
    want = OPS[o](x, y)
    env.check(bools(env, r) == [want, want], o)
    r = OPS[o](q, q.rescale(pair[1]))
    plain_bool(env, r, o + "-self")
    env.check(bools(env, r) == [OPS[o](v, v)] * 2, o + "-self")


@harness("C08", o=list(OPS), kind=["float", "int", "arr", "sym", "list"], side=["left", "right"])
def numbers(env, o, kind, side):
    """dimensionless quantities against plain numbers"""
    x = env.arr("x", (2,))
    q = env.pq.Quantity(x)
    y = env.arr("y", (2,))
    p = {"float": 1.5, "int": 2, "arr": y, "sym": env.real("z"), "list": [1.0, 2.5]}[kind]
    pv = {"arr": env.vals(y), "list": [1.0, 2.5]}.get(kind, [p, p])
    s = env.snap(q)
    a, b = (q, p) if side == "left" else (p, q)
    r = OPS[o](a, b)
    plain_bool(env, r, o)
    va, vb = (env.vals(x), pv) if side == "left" else (pv, env.vals(x))
    verdicts(env, o, bools(env, r), va, vb, o, True)
    env.unchanged(s, q, "operand")


@harness("C08", o=list(OPS))
def compound(env, o):
    """units with symbolic exponents over two dimensions"""
    A, B = env.bases()
    k1, k2, l1 = [env.real(n, pos=True) for n in ("k1", "k2", "l1")]
    ua, ub, va = env.unit("ua", k1 * A), env.unit("ub", k2 * A), env.unit("va", l1 * B)
    e = env.int("e", -2, 3, nonzero=True)
    x, y = env.arr("x", (1,)), env.arr("y", (1,))
    r = OPS[o](env.pq.Quantity(x, ua ** e / va), env.pq.Quantity(y, ub ** e / va))
    plain_bool(env, r, o)
    verdicts(env, o, bools(env, r), [env.vals(x)[0] * (k1 / k2) ** e], [env.vals(y)[0]], o, False)


@harness("C08", o=list(OPS), same=[True, False], kinds=[("arr", "arr"), ("0d", "arr"), ("0d", "unit"), ("unit", "arr")])
def exponents(env, o, same, kinds):
    """units of the same names: comparable exactly when every exponent agrees; otherwise refused, == false and != true"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua, ub = env.unit("ua", k1 * A), env.unit("ub", k2 * A)
    e, f = env.int("e", -1, 2, nonzero=True), env.int("f", -1, 2, nonzero=True)
    vb = ua if same else ub
    a, va, sa = operand(env, kinds[0], "a", ua)
    b, w, sb = operand(env, kinds[1], "b", vb)
    # operand of exponent e and f, by products
    a, b = a * ua ** (e - 1), b * vb ** (f - 1)
    s1, s2 = env.snap(a), env.snap(b)
    st, r = env.attempt(lambda: OPS[o](a, b))
    if e == f:
        env.check(st == "ok", o + ":refused")
        if st == "ok":
            plain_bool(env, r, o)
            c = 1 if same else (k2 / k1) ** e
            xs, sh = bc(env, va, sa, w, sb, lambda x, y: x)
            ys, _ = bc(env, va, sa, w, sb, lambda x, y: y * c)
            verdicts(env, o, bools(env, r), xs, ys, o, same)
    elif o in ("eq", "ne"):
        env.check(st == "ok", o + ":refused")
        if st == "ok":
            plain_bool(env, r, o)
            _, sh = bc(env, va, sa, w, sb, lambda x, y: x)
            env.check(tuple(env.np.shape(r)) == sh, o + ":shape")
            env.check(bools(env, r) == [o == "ne"] * len(bools(env, r)), o + ":verdict")
    else:
        env.check(st == "exc" and isinstance(r, ValueError), o + ":not-refused")
    env.unchanged(s1, a, "left")
    env.unchanged(s2, b, "right")


@harness("C08", o=["less", "less_equal", "greater", "greater_equal", "equal", "not_equal"], n=["arr", "0d"])
def ufuncs(env, o, n):
    """the comparison functions of numpy on quantities of equal units give unitless truth values"""
    A, B = env.bases()
    u = env.unit("ua", env.real("k1", pos=True) * A)
    a, va, sa = operand(env, n, "a", u)
    b, vb, sb = operand(env, n, "b", u)
    r = getattr(env.np, o)(a, b)
    k = {"less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge", "equal": "eq", "not_equal": "ne"}[o]
    env.check(not getattr(r, "dimensionality", None), o + ":units")
    verdicts(env, k, bools(env, r), va, vb, o, True)


@harness("C08", pair=[("m", "ft"), ("inch", "cm"), ("hour", "day"), ("eV", "J"), ("kPa", "psi")])
def builtin_order(env, pair):
    """built-in units: exactly one of <, ==, > holds and the six operators agree with each other"""
    a, b = pair
    q, p = env.pq.Quantity(env.real("x"), a), env.pq.Quantity(env.real("y"), b)
    f = float(env.pq.Quantity(1.0, b).rescale(a).magnitude)
    res = {k: bools(env, o(q, p))[0] for k, o in OPS.items()}
    env.check(res["lt"] + res["eq"] + res["gt"] == 1, "trichotomy")
    env.check(res["le"] == (res["lt"] or res["eq"]), "le")
    env.check(res["ge"] == (res["gt"] or res["eq"]), "ge")
    env.check(res["ne"] != res["eq"], "ne")
    back = {k: bools(env, o(p, q))[0] for k, o in OPS.items()}
    x, y = env.vals(q)[0], env.vals(p)[0] * f
    if env.symbolic:
        d = abs(x - y) > 1e-6 * (abs(x) + abs(y))
        far = bool(d)
    else:
        far = abs(x - y) > 1e-6 * (abs(x) + abs(y))
    if far:
        env.check(back["lt"] == res["gt"] and back["gt"] == res["lt"], "swapped")
        env.check(res["lt"] == bool(x < y), "order")


@harness("C08")
def sorting(env):
    """argmin/argmax/argsort/searchsorted follow the same order (equal units)"""
    A, B = env.bases()
    u = env.unit("ua", env.real("k1", pos=True) * A)
    x = env.arr("x", (3,))
    q = env.pq.Quantity(x, u)
    v = env.vals(x)
    i = [int(t) for t in env.vals(q.argsort())]
    env.check(sorted(i) == [0, 1, 2], "argsort:permutation")
    env.check(v[i[0]] <= v[i[1]], "argsort")
    env.check(v[i[1]] <= v[i[2]], "argsort")
    m = int(q.argmin())
    for t in v:
        env.check(v[m] <= t, "argmin")


indep.register("C08")
