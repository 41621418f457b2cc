"""C22 the package's mathematical functions convert their arguments first"""
import math
from symq import independent as indep
from symq.harness import harness
from symq.props.c09 import dom
from symq.props.c10 import groups, fsum

TRIG = ["sin", "cos", "tan"]
ARC = ["arcsin", "arccos", "arctan"]
HYP = ["sinh", "cosh", "tanh", "arcsinh", "arccosh", "arctanh"]
SH = {"arr": (2,), "0d": (), "2d": (2, 2)}
PI = math.pi


def units(env):
    A, B = env.bases()
    k1, k2, l1, l2 = [env.real(n, pos=True) for n in ("k1", "k2", "l1", "l2")]
    env.k = (k1, k2, l1, l2)
    return env.unit("ua", k1 * A), env.unit("ub", k2 * A), env.unit("va", l1 * B), env.unit("vb", l2 * B)


def angle_unit(env, kind, ua, ub):
    """-> unit, its size in radian / one"""
    pq = env.pq
    k1, k2 = env.k[:2]
    if kind == "user":
        z = env.real("z", pos=True)
        return env.unit("ang", z * pq.radian), z
    if kind == "user2":
        z = env.real("z", pos=True)
        return env.unit("pure", pq.Quantity(z, pq.dimensionless)), z
    if kind == "ratio":
        return ua / ub, k1 / k2
    if kind == "angle-ratio":
        return pq.radian * ub / ua, k2 / k1
    if kind == "inverse":
        z = env.real("z", pos=True)
        return env.unit("ang", z * pq.radian) ** -1, 1 / z
    return getattr(pq, kind), {"radian": 1, "degree": PI / 180, "dimensionless": 1, "percent": 0.01, "arcminute": PI / 180 / 60,
                               "grad": 0.9 * PI / 180}[kind]


def exact(env, k, u):
    """the float factor the conversion of a built-in unit uses (checked against the mathematical one), else the exact one"""
    if not isinstance(k, float):
        return k
    r = (1.0 * u).rescale("radian")
    f = env.vals(r)[0]
    env.check(abs(f / k - 1) < 1e-9, "factor")
    return f


@harness("C22", f=TRIG + HYP + ARC, kind=["radian", "degree", "user", "user2", "ratio", "angle-ratio", "inverse", "dimensionless", "percent", "grad"],
         sh=["arr", "0d", "2d"], filt=lambda f, kind, sh: sh == "arr" or kind in ("degree", "user", "ratio"))
def one_argument(env, f, kind, sh):
    """f(q) is the numerical function of the physical value, with the right unit"""
    ua, ub, va, vb = units(env)
    u, k = angle_unit(env, kind, ua, ub)
    k = exact(env, k, u)
    x = env.arr("x", SH[sh])
    v = list(env.vals(x))
    d = dom(f)
    for t in v:
        if d["lo"] is not None:
            env.assume(t * k >= d["lo"])
        if d["hi"] is not None:
            env.assume(t * k <= d["hi"])
        if not env.symbolic:
            env.assume(abs(t * k) < 1e4)
    q = env.pq.Quantity(x, u)
    s = env.snap(q)
    r = getattr(env.pq, f)(q)
    env.klass(r, env.pq.Quantity, f)
    env.same_dims(r, {"radian": 1} if f in ARC else {}, f)
    env.shape(r, SH[sh], f)
    env.eq(env.vals(r), [env.num(f, t * k) for t in v], f)
    env.unchanged(s, q, "operand")


@harness("C22", f=TRIG + HYP + ARC, u=["ua", "ua**-2", "ua/va", "ua*ub", "va**0.5", "ua*radian", "s"], form=["array", "unit"])
def wrong_dimension(env, f, u, form):
    """arguments of another dimension are refused"""
    ua, ub, va, vb = units(env)
    q = env.pq.Quantity(env.arr("x", (2,), lo=0.5, hi=0.75), u)
    if form == "unit":
        q = q.units
    s = env.snap(q)
    env.raises(ValueError, lambda: getattr(env.pq, f)(q), f)
    env.unchanged(s, q, "operand")


@harness("C22", f=TRIG + HYP + ARC, form=["array", "float", "out", "plain-out", "list", "out-positional"])
def plain_and_out(env, f, form):
    """plain numbers pass through; an output array receives the numbers"""
    if form == "float":
        x = env.npreal("x", **dom(f))
        r = getattr(env.pq, f)(x)
        env.check(not isinstance(r, env.pq.Quantity), f + ":class")
        env.eq([r], [env.num(f, x)], f)
        return
    x = env.arr("x", (2,), **dom(f))
    want = [env.num(f, t) for t in env.vals(x)]
    if form == "plain-out":
        o = env.arr("o", (2,))
        r = getattr(env.pq, f)(x, o)
        env.check(not isinstance(r, env.pq.Quantity), f + ":class")
        env.eq(env.vals(r), want, f)
        env.eq(env.vals(o), want, f + ":out")
        r[0] = 7.0
        env.eq(env.vals(o), [7.0, want[1]], f + ":same-array")
    elif form in ("array", "list"):
        r = getattr(env.pq, f)(x if form == "array" else list(x))
        env.check(not isinstance(r, env.pq.Quantity), f + ":class")
        env.eq(env.vals(r), want, f)
    else:
        o = env.arr("o", (2,))
        q = env.pq.Quantity(x, "radian")
        r = getattr(env.pq, f)(q, out=o) if form == "out" else getattr(env.pq, f)(q, o)
        env.same_dims(r, {"radian": 1} if f in ARC else {}, f)
        env.eq(env.vals(r), want, f)
        env.eq(env.vals(o), want, f + ":out")


@harness("C22", what=["nansum", "nansum-0", "nansum-list", "ediff1d", "ediff1d-end", "ediff1d-begin", "ediff1d-both", "ediff1d-list", "cross-axis", "cross-axes", "cross-list", "cross-0", "trapz", "trapz-x", "trapz-dx", "trapz-axis", "trapz-list", "diff", "hypot", "hypot-out", "arctan2", "arctan2-out",
                      "cumsum", "sum", "sum-axis", "prod", "cumprod", "unwrap", "unwrap-list"])
def plain_numbers(env, what):
    """every function on arrays and lists without units: what numpy gives, without units"""
    pq, np = env.pq, env.np
    f, _, how = what.partition("-")
    m = env.arr("m", (2, 3))
    y = env.arr("y", (3, 2))
    M, Y = list(env.vals(m)), list(env.vals(y))
    e, b = env.arr("e", (1,)), env.arr("b", (2,))
    E, B = list(env.vals(e)), list(env.vals(b))
    g = getattr(pq, f)
    o = None

    def crossed(u, v):
        return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    rows, cols = [M[:3], M[3:]], [Y[0::2], Y[1::2]]
    if f == "nansum":
        r = g(m) if how == "" else g(m, 0) if how == "0" else g([list(t) for t in m], axis=1)
        want = [sum(M)] if how == "" else [M[i] + M[i + 3] for i in range(3)] if how == "0" else [sum(t) for t in rows]
    elif f == "ediff1d":
        kw = {"end": {"to_end": b}, "begin": {"to_begin": e}, "both": {"to_end": b, "to_begin": e}}.get(how, {})
        r = g(list(m[0]) if how == "list" else m, **kw)
        want = (E if "to_begin" in kw else []) + [q - p for p, q in (zip(M, M[1:]) if how != "list" else zip(M[:2], M[1:3]))] + (B if "to_end" in kw else [])
    elif f == "cross":
        if how == "axes":
            r = g(m, y, axisb=0, axisc=0)
            c = [crossed(rows[i], cols[i]) for i in range(2)]
            want = [c[i][j] for j in range(3) for i in range(2)]
        elif how == "axis":
            r = g(y, y * 2 + 1, axis=0)
            c = [crossed(cols[i], [2 * t + 1 for t in cols[i]]) for i in range(2)]
            want = [c[i][j] for j in range(3) for i in range(2)]
        elif how == "0":
            r = g(m, y, -1, 0)
            want = crossed(rows[0], cols[0]) + crossed(rows[1], cols[1])
        else:
            r = g(list(m[0]), list(m[1]))
            want = crossed(*rows)
    elif f == "trapz":
        if how in ("", "list"):
            r = g(m) if how == "" else g([list(t) for t in m])
            want = [(t[0] + t[1]) / 2 + (t[1] + t[2]) / 2 for t in rows]
        elif how == "x":
            r = g(m, [E[0], B[0], B[1]])
            want = [(t[0] + t[1]) / 2 * (B[0] - E[0]) + (t[1] + t[2]) / 2 * (B[1] - B[0]) for t in rows]
        elif how == "dx":
            r = g(m, dx=E[0])
            want = [((t[0] + t[1]) / 2 + (t[1] + t[2]) / 2) * E[0] for t in rows]
        else:
            r = g(m, x=b, axis=0)
            want = [(M[i] + M[i + 3]) / 2 * (B[1] - B[0]) for i in range(3)]
    elif f in ("hypot", "arctan2"):
        u, v = env.arr("u", (2,), lo=1, hi=4), env.arr("v", (2,), lo=1, hi=4)
        if how == "out":
            o = env.arr("o", (2,))
            r = g(u, v, o)
        else:
            r = g(list(u), list(v)) if how else g(u, v)
        want = [env.num(f, p, q) for p, q in zip(env.vals(u), env.vals(v))]
    elif f == "unwrap":
        u = env.arr("u", (2,), lo=-3, hi=3)
        env.assume(np.abs(u[1] - u[0]) < 3)
        r = g(list(u)) if how else g(u)
        want = list(env.vals(u))
    elif f == "diff":
        r, want = g(m, axis=0), [M[i + 3] - M[i] for i in range(3)]
    elif f in ("sum", "cumsum", "prod", "cumprod"):
        if how:
            r, want = g(m, 0), [M[i] + M[i + 3] for i in range(3)]
        elif f == "sum":
            r, want = g(m), [sum(M)]
        elif f == "prod":
            r, want = g(b), [B[0] * B[1]]
        else:
            r, want = g(b), [B[0], B[0] + B[1] if f == "cumsum" else B[0] * B[1]]
    env.check(not isinstance(r, pq.Quantity), "class")
    env.eq(env.vals(r), want, "values", scale=[env.absum(*M, *Y, *E, *B)] * len(want) if f not in ("cross", "trapz", "prod", "cumprod") else None)
    if o is not None:
        env.eq(env.vals(o), want, "out")


@harness("C22", f=["arctan2", "hypot"], unit=["ua/va", "radian", "dimensionless"], call=["positional", "keyword"])
def two_into(env, f, unit, call):
    """an output array receives the numbers of the two-argument functions"""
    ua, ub, va, vb = units(env)
    x, y, o = env.arr("x", (2,), lo=1, hi=4), env.arr("y", (2,), lo=1, hi=4), env.arr("o", (2,))
    u = {"ua/va": ua / va}.get(unit, unit)
    q, p = env.pq.Quantity(x, u), env.pq.Quantity(y, u)
    s, t = env.snap(q), env.snap(p)
    want = [env.num(f, a, b) for a, b in zip(env.vals(x), env.vals(y))]
    r = getattr(env.pq, f)(q, p, o) if call == "positional" else getattr(env.pq, f)(q, p, out=o)
    env.eq(env.vals(o), want, "out")
    env.eq(env.vals(r), want, "values")
    env.same_dims(r, {"radian": 1} if f == "arctan2" else env.dims(q), "units")
    env.unchanged(s, q, "operand")
    env.unchanged(t, p, "operand")


@harness("C22", f=["arctan2", "hypot"], kinds=[("arr", "arr"), ("arr", "0d"), ("0d", "0d"), ("0d", "arr")], other=["same", "scale", "incompatible", "power"])
def two_arguments(env, f, kinds, other):
    """both arguments in common units; different dimensions are refused"""
    ua, ub, va, vb = units(env)
    k1, k2 = env.k[:2]
    x, y = env.arr("x", SH[kinds[0]]), env.arr("y", SH[kinds[1]])
    v, w = list(env.vals(x)), list(env.vals(y))
    q = env.pq.Quantity(x, ua ** 2 if other == "power" else ua / va)
    p = env.pq.Quantity(y, {"same": ua / va, "scale": ub / va, "incompatible": ua / vb ** 2, "power": ua}[other])
    qs, ps = env.snap(q), env.snap(p)
    if other in ("incompatible", "power"):
        env.raises(ValueError, lambda: getattr(env.pq, f)(q, p), f)
    else:
        g = k2 / k1 if other == "scale" else 1
        n = max(len(v), len(w))
        v, w = v * n if len(v) < n else v, w * n if len(w) < n else w
        if not env.symbolic:
            env.assume(all(abs(t) > 1e-9 for t in v))
        st, r = env.attempt(lambda: getattr(env.pq, f)(q, p))
        if f == "hypot" and other == "scale" and st == "exc":
            # documented: identical units are required
            env.check(isinstance(r, ValueError), f + ":exception")
        else:
            env.check(st == "ok", f + ":raised")
            if st == "ok":
                env.same_dims(r, {"radian": 1} if f == "arctan2" else {"ua": 1, "va": -1}, f)
                env.shape(r, (2,) if n == 2 else (), f)
                env.eq(env.vals(r), [env.num(f, a, b * g) for a, b in zip(v, w)], f)
    env.unchanged(qs, q, "operand")
    env.unchanged(ps, p, "operand2")


@harness("C22", f=["arctan2", "hypot"], kind=["plain", "percent", "mixed", "dimensional"])
def two_dimensionless(env, f, kind):
    """plain numbers are dimensionless"""
    ua, ub, va, vb = units(env)
    x, y = env.arr("x", (2,), pos=True), env.arr("y", (2,), pos=True)
    v, w = env.vals(x), env.vals(y)
    fn = getattr(env.pq, f)
    if kind == "plain":
        r = fn(x, y)
        env.check(not isinstance(r, env.pq.Quantity), f + ":class")
        env.eq(env.vals(r), [env.num(f, a, b) for a, b in zip(v, w)], f)
    elif kind == "mixed":
        for a, b in ((x, env.pq.Quantity(y)), (env.pq.Quantity(x), y)):
            r = fn(a, b)
            env.eq(env.vals(r), [env.num(f, a, b) for a, b in zip(v, w)], f)
            d = env.dims(r)
            env.check(d in ({}, {"radian": 1}) if f == "arctan2" else d == {}, f + ":units")
    elif kind == "percent":
        r = fn(env.pq.Quantity(x, "percent"), env.pq.Quantity(y, "percent"))
        env.eq(env.vals(r), [env.num(f, a, b) for a, b in zip(v, w)], f)
        env.same_dims(r, {"radian": 1} if f == "arctan2" else {"percent": 1}, f)
    else:
        q = env.pq.Quantity(x, ua)
        env.raises(ValueError, lambda: fn(q, y), f)
        env.raises(ValueError, lambda: fn(y, q), f)


@harness("C22", kinds=["qq", "qp", "pq", "pp"], shape=[(3,), (2, 3), (2,)])
def cross(env, kinds, shape):
    """cross products multiply the units"""
    ua, ub, va, vb = units(env)
    x, y = env.arr("x", shape), env.arr("y", shape)
    v, w = list(env.vals(x)), list(env.vals(y))
    a = env.pq.Quantity(x, ua ** 2) if kinds[0] == "q" else x
    b = env.pq.Quantity(y, ua / va) if kinds[1] == "q" else y
    sa, sb = env.snap(a), env.snap(b)
    r = env.pq.cross(a, b)
    d = env.mul_dims({"ua": 2} if kinds[0] == "q" else {}, {"ua": 1, "va": -1} if kinds[1] == "q" else {})
    if kinds == "pp":
        env.check(not isinstance(r, env.pq.Quantity), "cross:class")
    else:
        env.is_quantity(r, "cross")
        env.same_dims(r, d, "cross")
    want, sc = [], []
    for i in range(0, len(v), shape[-1]):
        p, q = v[i:i + shape[-1]], w[i:i + shape[-1]]
        for j, k in (((1, 2), (2, 0), (0, 1)) if shape[-1] == 3 else ((0, 1),)):
            want.append(p[j] * q[k] - p[k] * q[j])
            sc.append(env.absum(p[j] * q[k], p[k] * q[j]))
    env.eq(env.vals(r), want, "cross", scale=sc)
    env.unchanged(sa, a, "operand")
    env.unchanged(sb, b, "operand2")


@harness("C22", how=["axisa", "axisb", "axisc", "axis", "both", "all", "positional"], kinds=["qq", "qp", "pq"])
def cross_axes(env, how, kinds):
    """each argument's vectors lie along its own axis"""
    ua, ub, va, vb = units(env)
    aa = 0 if how in ("axisa", "both", "axis", "positional", "all") else 1
    ab = 0 if how in ("axisb", "axis", "both") else 1
    ac = 0 if how in ("axisc", "axis", "all") else 1
    n = 2
    x, y = env.arr("x", (3, n) if aa == 0 else (n, 3)), env.arr("y", (3, n) if ab == 0 else (n, 3))
    v, w = list(env.vals(x)), list(env.vals(y))
    a = env.pq.Quantity(x, ua) if kinds[0] == "q" else x
    b = env.pq.Quantity(y, va) if kinds[1] == "q" else y
    kw = {"axisa": {"axisa": 0}, "axisb": {"axisb": 0}, "axisc": {"axisc": 0}, "axis": {"axis": 0}, "both": {"axisa": 0, "axisb": 0}, "all": {"axisa": 0, "axisb": 1, "axisc": 0}, "positional": {}}[how]
    r = env.pq.cross(a, b, 0, 1, -1) if how == "positional" else env.pq.cross(a, b, **kw)
    env.is_quantity(r, "cross")
    env.same_dims(r, env.mul_dims({"ua": 1} if kinds[0] == "q" else {}, {"va": 1} if kinds[1] == "q" else {}), "cross")
    env.shape(r, (3, n) if ac == 0 else (n, 3), "cross")
    P = [[v[i * n + j] if aa == 0 else v[j * 3 + i] for i in range(3)] for j in range(n)]
    Q = [[w[i * n + j] if ab == 0 else w[j * 3 + i] for i in range(3)] for j in range(n)]
    R = [[(p[1] * q[2] - p[2] * q[1]), (p[2] * q[0] - p[0] * q[2]), (p[0] * q[1] - p[1] * q[0])] for p, q in zip(P, Q)]
    S = [env.absum(*[i * j for i in p for j in q]) for p, q in zip(P, Q)]
    want = [R[j][i] for i in range(3) for j in range(n)] if ac == 0 else [R[j][i] for j in range(n) for i in range(3)]
    sc = [S[j] for i in range(3) for j in range(n)] if ac == 0 else [S[j] for j in range(n) for i in range(3)]
    env.eq(env.vals(r), want, "cross", scale=sc)


@harness("C22", n=[1, 2], shape=[(3,), (2, 3)], e=[1, -2])
def diff(env, n, shape, e):
    """differences keep the units"""
    shape = tuple(shape)
    ua, ub, va, vb = units(env)
    x = env.arr("x", shape)
    v = list(env.vals(x))
    q = env.pq.Quantity(x, ua ** e / va)
    s = env.snap(q)
    r = env.pq.diff(q, n)
    want, sc = [], []
    for i in range(0, len(v), 3):
        row = v[i:i + 3]
        for _ in range(n):
            row = [b - a for a, b in zip(row, row[1:])]
        want += row
        sc += [env.absum(*v[i:i + 3])] * len(row)
    env.is_quantity(r, "diff")
    env.same_dims(r, {"ua": e, "va": -1}, "diff")
    env.shape(r, shape[:-1] + (3 - n,), "diff")
    env.eq(env.vals(r), want, "diff", scale=sc)
    env.unchanged(s, q, "operand")


@harness("C22", ends=[(), ("end",), ("begin",), ("end", "begin")], other=["same", "scale", "wrong"], shape=[(3,), (2, 2)],
         filt=lambda ends, other, shape: ends or other == "same")
def ediff1d(env, ends, other, shape):
    """differences of the flattened array, additional ends converted"""
    ua, ub, va, vb = units(env)
    k1, k2 = env.k[:2]
    x = env.arr("x", shape)
    v = list(env.vals(x))
    q = env.pq.Quantity(x, ua)
    kw, g = {}, (k2 / k1 if other == "scale" else 1)
    z = {}
    for n in ends:
        t = env.real("z" + n)
        z[n] = t * g
        kw["to_" + n] = env.pq.Quantity(t, {"same": ua, "scale": ub, "wrong": va}[other])
    s = env.snap(q)
    if other == "wrong":
        env.raises(ValueError, lambda: env.pq.ediff1d(q, **kw), "ediff1d")
        env.unchanged(s, q, "operand")
        return
    r = env.pq.ediff1d(q, **kw)
    want = [b - a for a, b in zip(v, v[1:])]
    sc = [env.absum(a, b) for a, b in zip(v, v[1:])]
    if "begin" in z:
        want, sc = [z["begin"]] + want, [env.absum(z["begin"])] + sc
    if "end" in z:
        want, sc = want + [z["end"]], sc + [env.absum(z["end"])]
    env.is_quantity(r, "ediff1d")
    env.same_dims(r, {"ua": 1}, "ediff1d")
    env.shape(r, (len(want),), "ediff1d")
    env.eq(env.vals(r), want, "ediff1d", scale=sc)
    env.unchanged(s, q, "operand")


@harness("C22", spacing=["quantity", "two", "plain", "none", "mixed", "plain-f"], shape=[(3,), (2, 3)],
         filt=lambda spacing, shape: spacing not in ("two", "mixed") or shape == (2, 3))
def gradient(env, spacing, shape):
    """slopes: units of the function divided by those of the spacing"""
    ua, ub, va, vb = units(env)
    x = env.arr("x", shape)
    v = list(env.vals(x))
    f = env.pq.Quantity(x, ua) if spacing != "plain-f" else x
    du = {"ua": 1} if spacing != "plain-f" else {}
    h, g = env.real("h", pos=True), env.real("g", pos=True)
    H, G = env.pq.Quantity(h, va), env.pq.Quantity(g, ub)
    args, hs, ds = {"quantity": ([H], [h, h], [{"va": 1}] * 2), "two": ([H, G], [h, g], [{"va": 1}, {"ub": 1}]), "plain": ([h], [h, h], [{}, {}]),
                    "none": ([], [1, 1], [{}, {}]), "mixed": ([H, g], [h, g], [{"va": 1}, {}]), "plain-f": ([H], [h, h], [{"va": 1}] * 2)}[spacing]
    r = env.pq.gradient(f, *args)

    def slope(row, h):
        n = len(row)
        out = []
        for i in range(n):
            lo, hi = max(i - 1, 0), min(i + 1, n - 1)
            out.append(((row[hi] - row[lo]) / ((hi - lo) * h), env.absum(row[hi] / h, row[lo] / h)))
        return out
    if len(shape) == 1:
        rs = [(r, slope(v, hs[0]), ds[0])]
    else:
        a, b = v[:3], v[3:]
        cols = [slope([p, q], hs[0]) for p, q in zip(a, b)]
        rs = [(r[0], [c[0] for c in cols] + [c[1] for c in cols], ds[0]), (r[1], slope(a, hs[1]) + slope(b, hs[1]), ds[1])]
        env.check(len(r) == 2, "gradient:count")
    for got, want, d in rs:
        env.is_quantity(got, "gradient")
        env.same_dims(got, env.mul_dims(du, d, -1), "gradient")
        env.shape(got, shape, "gradient")
        env.eq(env.vals(got), [t for t, _ in want], "gradient", scale=[t for _, t in want])


@harness("C22", x=["none", "quantity", "plain", "2d", "2d-plain", "dx", "dx-plain"], y=["quantity", "plain"], shape=[(3,), (2, 3), (3, 2), (3, 3), (2, 3, 1)], axis=["usual", "other"],
         filt=lambda x, y, shape, axis: (not x.startswith("2d") or len(shape) > 1) and (len(shape) != 3 or x in ("quantity", "2d")) and (shape not in ((3, 2), (3, 3)) or x in ("quantity", "dx", "2d", "2d-plain"))
         and (axis == "usual" or len(shape) == 2 and shape[1] == 3))
def trapz(env, x, y, shape, axis):
    """integrals multiply the units; the unit of the abscissa counts"""
    ua, ub, va, vb = units(env)
    shape = tuple(shape)
    other = axis == "other"
    axis = 0 if shape in ((3, 2), (3, 3)) else 1 if len(shape) == 3 else -1
    if other:
        axis = 1
    n = 3
    f = env.arr("y", shape)
    v = list(env.vals(f))
    F = env.pq.Quantity(f, ua / vb) if y == "quantity" else f
    d = {"ua": 1, "vb": -1} if y == "quantity" else {}
    kw, hs = {}, None
    gs, rest = groups(v, shape, axis)
    if x in ("quantity", "plain", "2d", "2d-plain"):
        t = env.arr("t", shape if x.startswith("2d") else (n,))
        ts = env.vals(t)
        kw["x"] = t if x.endswith("plain") else env.pq.Quantity(t, va ** 2)
        d = env.mul_dims(d, {} if x.endswith("plain") else {"va": 2})
        xs = groups(ts, shape, axis)[0] if x.startswith("2d") else [ts] * len(gs)
    else:
        if x != "none":
            h = env.real("h")
            kw["dx"] = env.pq.Quantity(h, va) if x == "dx" else h
            d = env.mul_dims(d, {"va": 1} if x == "dx" else {})
        else:
            h = 1
        xs = [[0, h, 2 * h]] * len(gs)
    r = env.pq.trapz(F, axis=axis, **kw)
    if not d and y == "plain" and x in ("none", "plain", "2d-plain", "dx-plain"):
        env.check(not isinstance(r, env.pq.Quantity), "trapz:class")
    else:
        env.is_quantity(r, "trapz")
        env.same_dims(r, d, "trapz")
    env.check(tuple(env.np.shape(r)) == tuple(rest), "trapz:shape")
    want = [fsum([(a[i + 1] - a[i]) * (g[i] + g[i + 1]) / 2 for i in range(n - 1)]) for g, a in zip(gs, xs)]
    sc = [env.absum(*[p * q for p in g for q in a]) for g, a in zip(gs, xs)]
    env.eq(env.vals(r) if isinstance(r, env.np.ndarray) else [r], want, "trapz", scale=sc)


@harness("C22", p=["radian", "degree", "user", "plain"], discont=["default", "radian", "degree"], shape=[(2,), (3,)], max_paths=3000,
         filt=lambda p, discont, shape: shape == (2,) or (p, discont) in (("degree", "default"), ("radian", "radian")))
def unwrap(env, p, discont, shape):
    """jumps of more than half a turn are removed by whole turns, in whatever unit the angle is given"""
    pq = env.pq
    x = env.arr("x", shape, lo=-400, hi=400) if p == "degree" else env.arr("x", shape, lo=-7, hi=7)
    v = list(env.vals(x))
    z = env.real("z", lo=0.5, hi=2) if p == "user" else None
    u = env.unit("ang", z * pq.radian) if p == "user" else {"radian": pq.radian, "degree": pq.degree, "plain": None}[p]
    q = pq.Quantity(x, u) if u is not None else x
    turn = {"radian": 2 * PI, "degree": 360.0, "plain": 2 * PI}[p] if p != "user" else 2 * PI / z
    args = {"default": [], "radian": [pq.Quantity(PI, "radian")], "degree": [pq.Quantity(180.0, "degree")]}[discont]
    r = pq.unwrap(q, *args)
    if p == "plain" and discont == "default":
        env.check(not isinstance(r, pq.Quantity), "unwrap:class")
    else:
        env.is_quantity(r, "unwrap")
        env.same_dims(r, {} if u is None and discont == "default" else {"plain": {"radian": 1}, "user": {"ang": 1}, "degree": {"arcdegree": 1},
                                                                         "radian": {"radian": 1}}[p], "unwrap")
    got = list(env.vals(r))
    env.check(len(got) == len(v), "unwrap:count")
    tol = 1e-6
    env.check(abs(got[0] - v[0]) <= tol, "unwrap:first")
    for a, b, t in zip(got, got[1:], v[1:]):
        env.check(abs(b - a) <= turn / 2 + tol, "unwrap:jump-left")
        k = (b - t) / turn
        env.check(abs(k - env.num("rint", k)) <= tol, "unwrap:whole-turns")


@harness("C22", p=["degree", "radian", "plain"], axis=[0, 1, -2, None], kw=[False, True], shape=[(2, 2), (2, 1), (1, 2)],
         filt=lambda p, axis, kw, shape: (kw or axis is not None) and (shape[0] != shape[1] or p == "degree" and kw and axis in (0, 1)))
def unwrap_axis(env, p, axis, kw, shape):
    """the jumps are those along the requested axis"""
    pq = env.pq
    turn = 360.0 if p == "degree" else 2 * PI
    shape = tuple(shape)
    x = env.arr("x", shape, lo=-150, hi=150) if p == "degree" else env.arr("x", shape, lo=-5, hi=5)
    v = list(env.vals(x))
    q = x if p == "plain" else pq.Quantity(x, p)
    d = pq.Quantity(180.0, "degree")
    r = pq.unwrap(q, d) if axis is None else pq.unwrap(q, discont=d, axis=axis) if kw else pq.unwrap(q, d, axis)
    env.is_quantity(r, "unwrap")
    env.same_dims(r, {"arcdegree" if p == "degree" else "radian": 1}, "unwrap")
    env.shape(r, shape, "unwrap")
    got = list(env.vals(r))
    for g in groups(list(range(len(v))), shape, 1 if axis is None else axis)[0]:
        if len(g) == 1:
            env.check(abs(got[g[0]] - v[g[0]]) <= 1e-6, "unwrap:alone")
            continue
        i, j = g
        env.check(abs(got[i] - v[i]) <= 1e-6, "unwrap:first")
        env.check(abs(got[j] - got[i]) <= turn / 2 + 1e-6, "unwrap:jump-left")
        k = (got[j] - v[j]) / turn
        env.check(abs(k - env.num("rint", k)) <= 1e-6, "unwrap:whole-turns")


@harness("C22", how=["dimension", "discont"])
def unwrap_refused(env, how):
    ua, ub, va, vb = units(env)
    x = env.arr("x", (2,), lo=-7, hi=7)
    if how == "dimension":
        env.raises(ValueError, lambda: env.pq.unwrap(env.pq.Quantity(x, ua)), "unwrap")
    else:
        env.raises(ValueError, lambda: env.pq.unwrap(env.pq.Quantity(x, "radian"), env.pq.Quantity(3.0, ua)), "unwrap")


@harness("C22", f=["sum", "prod", "cumsum", "nansum", "cumprod"], axis=[None, 0, 1], uncertain=[False, True],
         filt=lambda f, axis, uncertain: not uncertain or f in ("sum", "nansum"))
def totals(env, f, axis, uncertain):
    """function forms of the aggregations"""
    ua, ub, va, vb = units(env)
    shape = (2, 2)
    x = env.arr("x", shape)
    v = list(env.vals(x))
    q = env.pq.Quantity(x, "" if f == "cumprod" else ua / va)
    if uncertain:
        s = env.arr("s", shape, lo=0)
        q = env.pq.UncertainQuantity(x, ua / va, s)
    sn = env.snap(q)
    r = getattr(env.pq, f)(q, axis)
    gs, rest = groups(list(range(4)), shape, axis)
    d = {} if f == "cumprod" else {"ua": 1, "va": -1}
    if f in ("sum", "nansum", "prod"):
        if f == "prod":
            n = len(gs[0])
            want = [v[g[0]] * v[g[1]] if n == 2 else v[0] * v[1] * v[2] * v[3] for g in gs]
            d = {"ua": n, "va": -n}
            sc = None
        else:
            want, sc = [fsum([v[i] for i in g]) for g in gs], [env.absum(*[v[i] for i in g]) for g in gs]
        sh = rest
    else:
        want, sc = [None] * 4, [None] * 4
        for g in gs:
            acc = None
            for i in g:
                acc = v[i] if acc is None else acc + v[i] if f == "cumsum" else acc * v[i]
                want[i], sc[i] = acc, env.absum(*[v[j] for j in g])
        if f == "cumprod":
            sc = None
        sh = (4,) if axis is None else shape
    env.klass(r, env.pq.UncertainQuantity if uncertain else env.pq.Quantity, f)
    env.same_dims(r, d, f)
    env.shape(r, sh, f)
    env.eq(env.vals(r), want, f, scale=sc)
    if uncertain:
        s = env.vals(s)
        env.eq([t * t for t in env.vals(r.uncertainty)], [fsum([s[i] ** 2 for i in g]) for g in gs], f + ":uncertainty")
    env.unchanged(sn, q, "operand")
    if f == "cumprod":
        p = env.pq.Quantity(env.arr("w", shape), ua)
        env.raises(ValueError, lambda: env.pq.cumprod(p, axis), "cumprod-units")


indep.register("C22")
