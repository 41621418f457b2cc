"""C04 units compare equal exactly when they are the same units"""
from symq.harness import harness


def _units(env, n=3):
    A, B = env.bases()
    return [env.unit("u1", env.real("k1", pos=True) * A), env.unit("u2", env.real("k2", pos=True) * A), B][:n]


def _dim(us, es, order=None):
    d = None
    for i in (order or range(len(us))):
        if es[i] is None:
            continue
        t = us[i].dimensionality ** es[i]
        d = t if d is None else d * t
    return d


def _verdict(env, d1, d2, same):
    eq, ne = d1 == d2, d1 != d2
    if same:
        env.check(eq, "equal-not-reported")
        env.check(env.np.logical_not(ne) if not env.symbolic else _not(ne), "equal-reported-different")
    else:
        env.check(_not(eq), "different-reported-equal")
        env.check(ne, "difference-not-reported")


def _not(x):
    return ~x if not isinstance(x, bool) else not x


@harness("C04", n=[1, 2, 3], rng=[6], thorough={"rng": [6, 40]})
def exponents(env, n, rng):
    """u1**e1*u2**e2*u3**e3 == u1**f1*u2**f2*u3**f3 iff all exponents agree (symbolic)"""
    us = _units(env, n)
    e = [env.int("e%d" % i, -rng, rng, nonzero=True) for i in range(n)]
    f = [env.int("f%d" % i, -rng, rng, nonzero=True) for i in range(n)]
    d1, d2 = _dim(us, e), _dim(us, f)
    same = True
    for x, y in zip(e, f):
        if not bool(x == y):
            same = False
            break
    _verdict(env, d1, d2, same)


@harness("C04", n=[2, 3])
def with_zeros(env, n):
    """zero exponents (absent units) on either side"""
    us = _units(env, n)
    e = [env.int("e%d" % i, -2, 2) for i in range(n)]
    f = [env.int("f%d" % i, -2, 2) for i in range(n)]
    D = env.pq.dimensionality.Dimensionality
    d1, d2 = D(), D()
    for u, x, y in zip(us, e, f):
        d1 = d1 * u.dimensionality ** x
        d2 = d2 * u.dimensionality ** y
    same = True
    for x, y in zip(e, f):
        if not bool(x == y):
            same = False
            break
    _verdict(env, d1, d2, same)


@harness("C04", n=[2, 3])
def real_exponents(env, n):
    """rational / real exponents"""
    us = _units(env, n)
    e = [env.real("e%d" % i, lo=-6, hi=6, nonzero=True) for i in range(n)]
    f = [env.real("f%d" % i, lo=-6, hi=6, nonzero=True) for i in range(n)]
    d1, d2 = _dim(us, e), _dim(us, f)
    same = True
    for x, y in zip(e, f):
        if not bool(x == y):
            same = False
            break
    _verdict(env, d1, d2, same)


@harness("C04")
def swapped_units(env):
    """the same exponents on different units: u1**e*u2**f against u1**f*u2**e"""
    us = _units(env, 3)
    e, f = env.int("e", -6, 6, nonzero=True), env.int("f", -6, 6, nonzero=True)
    d1, d2 = _dim(us, [e, f, None]), _dim(us, [f, e, None])
    _verdict(env, d1, d2, bool(e == f))
    d1, d2 = _dim(us, [e, None, None]), _dim(us, [None, e, None])
    _verdict(env, d1, d2, False)
    d1, d2 = _dim(us, [e, f, None]), _dim(us, [e, f, 1])
    _verdict(env, d1, d2, False)


@harness("C04")
def order(env):
    """construction order does not matter; equal products have equal hashes"""
    us = _units(env, 3)
    e = [env.int("e%d" % i, -4, 4, nonzero=True) for i in range(3)]
    ref = _dim(us, e)
    for o in ([2, 1, 0], [1, 0, 2], [2, 0, 1]):
        d = _dim(us, e, o)
        _verdict(env, ref, d, True)
        env.check(hash(d) == hash(ref), "hash")
    d = _dim(us, e, [1, 2, 0]) * us[0].dimensionality / us[0].dimensionality
    _verdict(env, ref, d, bool(e[0] != -1) or True)
    c = ref.copy()
    _verdict(env, ref, c, True)
    env.check(hash(c) == hash(ref), "hash")


@harness("C04", e=[1, -1, -2, 2, -3, 0.5, -0.5, 10], f=[1, -1, -2, 2, -3, 0.5, -0.5, 10])
def builtin_pairs(env, e, f):
    """pairs of built-in units raised to concrete powers, through quantities (no conversion is skipped)"""
    x = env.arr("x", (2,))
    q = env.pq.Quantity(x, env.pq.m ** e * env.pq.s ** f)
    p = env.pq.Quantity(x, env.pq.m ** f * env.pq.s ** e)
    _verdict(env, q.dimensionality, p.dimensionality, e == f)
    r = env.pq.Quantity(x, env.pq.km ** e * env.pq.ms ** f)
    _verdict(env, q.dimensionality, r.dimensionality, False)


@harness("C04")
def distinct_builtin(env):
    """every two different registered units are different (also aliases of one unit are equal)"""
    e = env.int("e", -3, 3, nonzero=True)
    us = {}
    for n, u in sorted(env.registry().items()):
        us.setdefault(u.name, u)
    ds = [(n, u.dimensionality ** e) for n, u in us.items() if u.dimensionality]
    step = 37
    for i, (n, d) in enumerate(ds):
        for j in range(1, 4):
            m, c = ds[(i + j * step) % len(ds)]
            env.check(_not(d == c), "distinct")
        env.check(d == env.pq.unit_registry[n].dimensionality ** e, "equal") if n.isidentifier() and n not in ("in", "as") else None


@harness("C04")
def same_name_other_kind(env):
    """units of the same name but different kind are different units"""
    A, B = env.bases()
    k = env.real("k", pos=True)
    e = env.int("e", -3, 3, nonzero=True)
    u = env.pq.UnitQuantity("zz", k * A)
    c = env.pq.UnitConstant("zz", k * A)
    _verdict(env, u.dimensionality ** e, c.dimensionality ** e, False)


@harness("C04", uncertain=[False, True])
def skip_conversion(env, uncertain):
    """operations that skip the conversion for equal units never skip it for different ones"""
    us = _units(env, 2)
    A = us[0]
    e, f = env.int("e", -3, 3, nonzero=True), env.int("f", -3, 3, nonzero=True)
    x, y = env.npreal("x"), env.npreal("y")
    k1, k2 = env.vals(us[0].simplified)[0], env.vals(us[1].simplified)[0]
    q = env.pq.Quantity(x, us[0] ** e)
    p = env.pq.Quantity(y, us[1] ** f)
    st, r = env.attempt(lambda: q + p)
    if bool(e == f):
        env.check(st == "ok", "compatible")
        if st == "ok":
            env.eq(env.vals(r), [x + y * (k2 / k1) ** e], "value", scale=[abs(x) + abs(y * (k2 / k1) ** e)])
    else:
        env.check(st == "exc" and isinstance(r, ValueError), "refused")


from symq import many  # noqa: E402
many.register("C04")
from symq import twins  # noqa: E402
twins.register("C04")
