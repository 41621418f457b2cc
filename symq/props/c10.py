"""C10 aggregations return the right value in the right units"""
import itertools
from symq import independent as indep
from symq.harness import harness

AX = {(3,): [None, -1], (2, 2): [None, 0, 1], (3, 2): [-1, 0, -2], (): [None]}
SA = [(s, a) for s in AX for a in AX[s]]
SA2 = [(s, a) for s, a in SA if s != ()] + [((1, 3, 2), 1), ((2, 2, 1), -2), ((2, 1, 2), 2)]
DEEP = SA2 + [((2, 1, 2), a) for a in (None, 2, -3)] + [((3,), 0), ((2, 2), -1), ((4,), None)]


def units(env):
    A, B = env.bases()
    k1, k2, l1 = [env.real(n, pos=True) for n in ("k1", "k2", "l1")]
    return env.unit("ua", k1 * A), env.unit("ub", k2 * A), env.unit("va", l1 * B)


def groups(v, shape, axis):
    """-> list of element groups along axis (row-major over the remaining axes), result shape"""
    if axis is None:
        return [list(v)], ()
    axis %= len(shape)
    rest = shape[:axis] + shape[axis + 1:]
    out = []
    for i in itertools.product(*[range(d) for d in rest]):
        g = []
        for j in range(shape[axis]):
            k = 0
            for d, t in zip(shape, i[:axis] + (j,) + i[axis:]):
                k = k * d + t
            g.append(v[k])
        out.append(g)
    return out, rest


def fsum(g):
    r = g[0]
    for t in g[1:]:
        r = r + t
    return r


def fmax(env, g, f="maximum"):
    r = g[0]
    for t in g[1:]:
        r = env.num(f, r, t)
    return r


def fprod(g):
    r = g[0]
    for t in g[1:]:
        r = r * t
    return r


def mean(g):
    return fsum(g) / len(g)


def var(g, ddof=0):
    m = mean(g)
    return fsum([(t - m) * (t - m) for t in g]) / (len(g) - ddof)


VAL = {
    "sum": lambda env, g: fsum(g), "mean": lambda env, g: mean(g), "max": lambda env, g: fmax(env, g),
    "min": lambda env, g: fmax(env, g, "minimum"), "ptp": lambda env, g: fmax(env, g) - fmax(env, g, "minimum"),
    "var": lambda env, g: var(g), "std": lambda env, g: env.num("sqrt", var(g)), "prod": lambda env, g: fprod(g),
}
NAN = {"nansum": "sum", "nanmean": "mean", "nanmax": "max", "nanmin": "min", "nanstd": "std"}


def power_of(f, shape, axis):
    if f == "var":
        return 2
    if f == "prod":
        n = 1
        for d in (shape if axis is None else [shape[axis]]):
            n *= d
        return n
    return 1


@harness("C10", f=list(VAL), sa=SA, out=[False, True], thorough={'sa': SA + DEEP[-6:]}, filt=lambda f, sa, out: not (f in ("std", "var") and sa[0] == ()))
def reductions(env, f, sa, out):
    """value and units over every axis, also into an output quantity that had other units; operand untouched"""
    shape, axis = sa
    ua, ub, va = units(env)
    e = env.choice("e", [1, -2]) if f in ("max", "min", "ptp") else env.int("e", -2, 2)
    x = env.arr("x", shape)
    q = env.pq.Quantity(x, ua ** e / va)
    v = env.vals(x)
    s = env.snap(q)
    gs, sh = groups(v, shape, axis)
    want = [VAL[f](env, g) for g in gs]
    sc = [env.absum(*g) for g in gs]
    if f == "var":
        sc = [env.absum(*[a * a for a in g]) for g in gs]
    if f == "prod":
        sc = None
    p = power_of(f, shape, axis)
    dim = {"ua": e * p, "va": -p}
    if out:
        o = env.pq.Quantity(env.arr("o", sh), ub)
        r = getattr(q, f)(axis=axis, out=o)
        env.check(r is o, f + ":out-returned")
        env.same_dims(o, dim, f + "-out")
        env.eq(env.vals(o), want, f + "-out", scale=sc)
    else:
        r = getattr(q, f)(axis) if axis is not None else getattr(q, f)()
        env.klass(r, env.pq.Quantity, f)
        env.same_dims(r, dim, f)
        env.shape(r, sh, f)
        env.eq(env.vals(r), want, f, scale=sc)
    env.unchanged(s, q, "operand")


@harness("C10", f=["var", "std"], ddof=[0, 1], axis=[None, 0])
def ddof(env, f, ddof, axis):
    """delta degrees of freedom"""
    ua, ub, va = units(env)
    x = env.arr("x", (2, 2))
    q = env.pq.Quantity(x, ua)
    gs, sh = groups(env.vals(x), (2, 2), axis)
    r = getattr(q, f)(axis=axis, ddof=ddof)
    w = [var(g, ddof) for g in gs]
    if f == "std":
        w = [env.num("sqrt", t) for t in w]
    sc = [env.absum(*g) for g in gs]
    env.eq(env.vals(r), w, f, scale=[env.absum(*[a * a for a in g]) for g in gs] if f == "var" else sc)
    env.same_dims(r, {"ua": 2 if f == "var" else 1}, f)


@harness("C10", f=list(NAN), sa=SA2, nan=[(), (0,), (1,)], out=[False, True], thorough={'sa': DEEP})
def nan_forms(env, f, sa, nan, out):
    """NaN elements are ignored, over the requested axis"""
    shape, axis = sa
    ua, ub, va = units(env)
    x = env.arr("x", shape)
    v = list(env.vals(x))
    for i in nan:
        x.reshape(-1)[i] = float("nan")
    q = env.pq.Quantity(x, ua)
    idx, sh = groups(list(range(len(v))), shape, axis)
    gs = [[v[i] for i in g if i not in nan] for g in idx]
    if any(not g for g in gs):
        env.assume(False)
    if out:
        r = env.pq.Quantity(env.arr("o", sh), ub ** 2 / va)
        env.check(getattr(q, f)(axis, out=r) is r, f + ":out-returned")
    else:
        r = getattr(q, f)(axis) if axis is not None else getattr(q, f)()
    env.is_quantity(r, f)
    env.same_dims(r, {"ua": 1}, f)
    env.shape(r, sh, f)
    env.eq(env.vals(r), [VAL[NAN[f]](env, g) for g in gs], f, scale=[env.absum(*g) for g in gs])
    for i, t in enumerate(env.vals(q)):
        if i in nan:
            env.check(bool(env.num("isnan", t)), "operand:nan")
        else:
            env.eq([t], [v[i]], "operand")


@harness("C10", ddof=[0, 1], axis=[None, 0, 1], nan=[(), (0,), (4,)], filt=lambda ddof, axis, nan: not (ddof and axis == 0 and nan))
def nan_ddof(env, ddof, axis, nan):
    """delta degrees of freedom, ignoring NaN"""
    ua, ub, va = units(env)
    x = env.arr("x", (2, 3))
    v = list(env.vals(x))
    for i in nan:
        x.reshape(-1)[i] = float("nan")
    q = env.pq.Quantity(x, ua)
    idx, sh = groups(list(range(6)), (2, 3), axis)
    gs = [[v[i] for i in g if i not in nan] for g in idx]
    if any(len(g) <= ddof for g in gs):
        env.assume(False)
    r = q.nanstd(axis=axis, ddof=ddof)
    env.is_quantity(r, "nanstd")
    env.same_dims(r, {"ua": 1}, "nanstd")
    env.shape(r, sh, "nanstd")
    env.eq(env.vals(r), [env.num("sqrt", var(g, ddof)) for g in gs], "nanstd", scale=[env.absum(*g) for g in gs])


@harness("C10", f=["argmax", "argmin", "nanargmax", "nanargmin"], sa=SA2, nan=[(), (0,)], thorough={'sa': DEEP},
         filt=lambda f, sa, nan: f.startswith("nan") or not nan)
def positions(env, f, sa, nan):
    """arg-functions give the plain index of an extreme element over the requested axis"""
    shape, axis = sa
    ua, ub, va = units(env)
    x = env.arr("x", shape)
    v = list(env.vals(x))
    for i in nan:
        x.reshape(-1)[i] = float("nan")
    q = env.pq.Quantity(x, ua)
    idx, sh = groups(list(range(len(v))), shape, axis)
    if any(not [i for i in g if i not in nan] for g in idx):
        env.assume(False)
    r = getattr(q, f)(axis) if axis is not None else getattr(q, f)()
    env.check(not isinstance(r, env.pq.Quantity), f + ":is-a-quantity")
    env.check(tuple(env.np.shape(r)) == tuple(sh), f + ":shape")
    got = [int(t) for t in (env.vals(r) if isinstance(r, env.np.ndarray) else [r])]
    for g, k in zip(idx, got):
        env.check(0 <= k < len(g), f + ":range")
        env.check(g[k] not in nan, f + ":nan-chosen")
        for n, i in enumerate(g):
            if i in nan:
                continue
            if f.endswith("max"):
                env.check(v[i] < v[g[k]] if n < k else v[i] <= v[g[k]], f)
            else:
                env.check(v[i] > v[g[k]] if n < k else v[i] >= v[g[k]], f)


TUP = [((2, 3), (0, 1)), ((2, 3), (-1, 0)), ((2, 3), (1,)), ((2, 1, 3), (0, 2)), ((2, 1, 3), (1, -1)), ((2, 1, 3), ()), ((2, 2, 2), (0, -1)), ((2, 1, 2), (0, 1)), ((2, 1, 2), (0, -1))]


@harness("C10", f=["sum", "mean", "max", "min", "prod", "ptp", "nansum", "cumsum", "var"], sa=TUP,
         filt=lambda f, sa: f not in ("max", "min", "ptp") or sa[0] == (2, 1, 2) or sa[1] in ((), (1,)))
def several_axes(env, f, sa):
    """several axes at once: the reduction over all of them with its units, or refused"""
    shape, axis = tuple(sa[0]), tuple(sa[1])
    ua, ub, va = units(env)
    x = env.arr("x", shape)
    q = env.pq.Quantity(x, ua / va)
    s = env.snap(q)
    v = list(env.vals(x))
    st, r = env.attempt(lambda: getattr(q, f)(axis=axis))
    env.unchanged(s, q, "operand")
    if st == "exc":
        env.check(isinstance(r, (TypeError, ValueError, IndexError)), f + ":refused")
        env.check(f in ("prod", "cumsum"), f + ":refuses")
        return
    ax = [a % len(shape) for a in axis]
    rest = [i for i in range(len(shape)) if i not in ax]
    gs = {}
    for k, i in enumerate(itertools.product(*[range(d) for d in shape])):
        gs.setdefault(tuple(i[j] for j in rest), []).append(v[k])
    gs = list(gs.values())
    if f == "cumsum":
        env.check(False, "cumsum:several-axes")
    g = {"nansum": "sum"}.get(f, f)
    p = 2 if f == "var" else len(gs[0]) if f == "prod" else 1
    env.klass(r, env.pq.Quantity, f)
    env.same_dims(r, {"ua": p, "va": -p}, f)
    env.shape(r, tuple(shape[i] for i in rest), f)
    env.eq(env.vals(r), [VAL[g](env, t) for t in gs], f, scale=[env.absum(*([a * a for a in t] if f == "var" else t)) for t in gs] if f != "prod" else None)


DTYPES = [("f8", "f4"), ("f4", "f8"), ("f4", None), ("i4", "f8"), ("i4", "f4"), ("i4", None), ("i4", "i8"), ("u1", None), ("f8", "f8"), ("c8", None), ("c8", "c16"), ("f8", "c16"), ("f4", "i8")]


@harness("C10", f=["sum", "mean", "prod", "cumsum", "cumprod", "var", "std", "trace", "ptp", "max", "nansum", "nanmean", "nanmax", "nanstd"], dt=DTYPES, axis=[None, 0], kw=[False, True],
         filt=lambda f, dt, axis, kw: (not (f in ("ptp", "max") or f.startswith("nan")) or dt[1] is None and not kw and dt[0] != "c8")
         and not (f in ("var", "std") and ("c8" in dt or "c16" in dt)) and not (f in ("mean", "var", "std") and dt[1] in ("i8", "i4")))
def element_types(env, f, dt, axis, kw):
    """the element type is the one asked for, or what numpy gives of bare numbers of that type, and so is the value"""
    src, to = dt
    env.narrow(to or src)
    ua, ub, va = units(env)
    x = env.arr("x", (2, 2), src, lo=0, hi=5) if src[0] != "c" else env.arr("x", (2, 2), src)
    v = list(env.vals(x))
    q = env.pq.Quantity(x, ua / va) if f != "cumprod" else env.pq.Quantity(x)
    s = env.snap(q)
    ax = (0, 0, 1) if f == "trace" else (axis,)
    if to is None:
        r = getattr(q, f)(*ax)
    elif kw:
        r = getattr(q, f)(dtype=to) if f == "trace" else getattr(q, f)(axis=axis, dtype=to)
    else:
        r = getattr(q, f)(*ax + (to,))
    # oracle for the type: numpy itself on bare zeros
    import numpy as rnp
    z = rnp.zeros((2, 2), src)
    g = getattr(rnp, f)
    want = (g(z) if f == "trace" else g(z, axis=axis)) if to is None else (g(z, dtype=to) if f == "trace" else g(z, axis=axis, dtype=to))
    env.dtype_is(r, want.dtype, f)
    env.shape(r, want.shape, f)
    p = {"var": 2, "prod": 4 if axis is None else 2, "cumprod": 0}.get(f, 1)
    env.same_dims(r, {"ua": p, "va": -p} if p else {}, f)
    env.unchanged(s, q, "operand")
    # (whole numbers of a fractional type are not compared)
    if to == "i8" and src[0] == "f" or f in ("var", "std", "nanstd") and src[0] == "c":
        return
    if f in ("trace",):
        w = [v[0] + v[3]]
    elif f in ("cumsum", "cumprod"):
        gs = [[0, 1, 2, 3]] if axis is None else [[0, 2], [1, 3]]
        w = [None] * 4
        for t in gs:
            acc = None
            for i in t:
                acc = v[i] if acc is None else acc + v[i] if f == "cumsum" else acc * v[i]
                w[i] = acc
    else:
        w = [VAL[NAN.get(f, f)](env, t) for t in groups(v, (2, 2), axis)[0]]
    if src[0] in "iu" and f != "mean" and f not in ("sum", "cumsum", "trace", "max", "nanmax", "nansum"):
        # products and variances of whole numbers: the oracle may wrap where a wider type does not
        return
    env.eq(env.vals(r), w, f, scale=[env.absum(*v)] * len(w) if p == 1 else [env.absum(*[a * a for a in v])] * len(w) if p == 2 and f == "var" else None)


ORD = [((3,), None), ((3,), 0), ((3,), -1), ((2, 2), 0), ((2, 2), 1), ((2, 2), None), ((2, 2), -2), ((1, 3), 0), ((1, 2, 1), 1), ((2, 2, 1), 1), ((1, 2, 2), -2), ((2, 1, 2), 0)]


@harness("C10", sa=ORD, kind=[None, "stable", "heapsort"], kw=[False, True], filt=lambda sa, kind, kw: kind is None or sa[0] in ((3,), (2, 2)))
def sorting_order(env, sa, kind, kw):
    """argsort gives plain positions that put the elements in order, over the requested axis"""
    shape, axis = tuple(sa[0]), sa[1]
    ua, ub, va = units(env)
    x = env.arr("x", shape)
    v = list(env.vals(x))
    q = env.pq.Quantity(x, ua ** -1)
    s = env.snap(q)
    r = q.argsort(axis=axis, **({"kind": kind} if kind else {})) if kw else q.argsort(axis, *([kind] if kind else []))
    env.check(not isinstance(r, env.pq.Quantity), "argsort:is-a-quantity")
    env.shape(r, (len(v),) if axis is None else shape, "argsort")
    env.unchanged(s, q, "operand")
    idx, _ = groups(list(range(len(v))), shape, axis)
    got, _ = groups([int(t) for t in env.vals(r)], (len(v),) if axis is None else shape, axis)
    for g, o in zip(idx, got):
        env.check(sorted(o) == list(range(len(g))), "argsort:positions")
        for a, b in zip(o, o[1:]):
            env.check(v[g[a]] < v[g[b]] if kind == "stable" and a > b else v[g[a]] <= v[g[b]], "argsort")


@harness("C10", f=["argsort", "nonzero"])
def plain_results(env, f):
    ua, ub, va = units(env)
    x = env.arr("x", (3,))
    v = env.vals(x)
    q = env.pq.Quantity(x, ua)
    s = env.snap(q)
    r = getattr(q, f)()
    if f == "argsort":
        env.check(not isinstance(r, env.pq.Quantity), f + ":is-a-quantity")
        i = [int(t) for t in env.vals(r)]
        env.check(sorted(i) == [0, 1, 2], f)
        env.check(v[i[0]] <= v[i[1]], f)
        env.check(v[i[1]] <= v[i[2]], f)
    else:
        i = [int(t) for t in env.vals(r[0])]
        for k in range(3):
            c = v[k] != 0
            env.check(c if k in i else v[k] == 0, f)
    env.unchanged(s, q, "operand")


@harness("C10", sa=SA, out=[False, True])
def cumsum(env, sa, out):
    """running sums along the axis"""
    shape, axis = sa
    ua, ub, va = units(env)
    x = env.arr("x", shape)
    q = env.pq.Quantity(x, ua / va)
    v = list(env.vals(x))
    s = env.snap(q)
    gs, _ = groups(list(range(len(v))), shape, axis)
    want, sc = [None] * len(v), [None] * len(v)
    for g in gs:
        acc = v[g[0]]
        want[g[0]], sc[g[0]] = acc, env.absum(acc)
        for i in g[1:]:
            acc = acc + v[i]
            want[i], sc[i] = acc, env.absum(*[v[j] for j in g])
    sh = (len(v),) if axis is None else shape
    if out:
        o = env.pq.Quantity(env.arr("o", sh), ub)
        r = q.cumsum(axis, None, o)
        env.check(r is o, "cumsum:out-returned")
    else:
        r = q.cumsum(axis)
    env.is_quantity(r, "cumsum")
    env.same_dims(r, {"ua": 1, "va": -1}, "cumsum")
    env.shape(r, sh, "cumsum")
    env.eq(env.vals(r), want, "cumsum", scale=sc)
    env.unchanged(s, q, "operand")


@harness("C10", axis=[None, 0])
def cumprod(env, axis):
    """running products only of dimensionless quantities"""
    ua, ub, va = units(env)
    x = env.arr("x", (3,))
    v = env.vals(x)
    r = env.pq.Quantity(x).cumprod(axis)
    env.is_quantity(r, "cumprod")
    env.same_dims(r, {}, "cumprod")
    env.eq(env.vals(r), [v[0], v[0] * v[1], v[0] * v[1] * v[2]], "cumprod")
    for u in (ua, ua / ub):
        q = env.pq.Quantity(x, u)
        s = env.snap(q)
        env.raises(ValueError, lambda: q.cumprod(axis), "cumprod-units")
        env.unchanged(s, q, "operand")


@harness("C10", d=[0, 1, -1], out=[False, True], how=["method", "function"], filt=lambda d, out, how: not (out and how == "function"))
def rounding(env, d, out, how):
    """round acts on the magnitudes"""
    ua, ub, va = units(env)
    x = env.arr("x", (2,), lo=-20, hi=20)
    q = env.pq.Quantity(x, ua)
    v = env.vals(x)
    s = env.snap(q)
    if out:
        r = env.pq.Quantity(env.arr("o", (2,)), ub)
        q.round(d, r)
    elif how == "function":
        r = round(q, d)
    else:
        r = q.round(d)
    env.is_quantity(r, "round")
    env.same_dims(r, {"ua": 1}, "round")
    f = 10.0 ** d
    if env.symbolic:
        env.eq(env.vals(r), [env.num("rint", t * f) / f if d >= 0 else env.num("rint", t / 10 ** -d) * 10 ** -d for t in v],
               "round")
    else:
        for a, b in zip(env.vals(r), v):
            env.obs.append(("round", None))
            env.check(abs(a - b) <= 0.5 / f + 1e-9 and abs(a * f - round(float(a * f))) < 1e-9, "round")
    env.unchanged(s, q, "operand")


@harness("C10", offset=[0, 1, -1], out=[False, True], axes=[None, (0, 1), (1, 0), (-1, 0), (-2, -1)], kw=[False, True], filt=lambda offset, out, axes, kw: axes is not None or not kw)
def trace(env, offset, out, axes, kw):
    ua, ub, va = units(env)
    x = env.arr("x", (2, 2))
    q = env.pq.Quantity(x, ua)
    v = env.vals(x)
    want = {0: v[0] + v[3], 1: v[1], -1: v[2]}[offset]
    if axes is not None and tuple(axes) in ((1, 0), (-1, 0)):
        want = {0: v[0] + v[3], 1: v[2], -1: v[1]}[offset]
    pos, names = (offset,) + tuple(axes or ()), {}
    if kw:
        pos, names = (), {"offset": offset, "axis1": axes[0], "axis2": axes[1]}
    if out:
        r = env.pq.Quantity(env.arr("o", ()), ub)
        q.trace(*pos, out=r, **names)
    else:
        r = q.trace(*pos, **names)
    env.is_quantity(r, "trace")
    env.same_dims(r, {"ua": 1}, "trace")
    env.shape(r, (), "trace")
    env.eq(env.vals(r), [want], "trace", scale=[env.absum(v[0], v[3])])


@harness("C10", which=["both", "min", "max"], other=[False, True], out=[False, True])
def clip(env, which, other, out):
    """clip limits are converted to the units of the quantity"""
    ua, ub, va = units(env)
    k = (ub if other else ua).rescale(ua)
    f = env.vals(k)[0] if isinstance(k, env.np.ndarray) else k
    x = env.arr("x", (2,))
    v = env.vals(x)
    lo, hi = env.real("l"), env.real("h")
    env.assume(lo <= hi)
    u = ub if other else ua
    q = env.pq.Quantity(x, ua)
    s = env.snap(q)
    a = env.pq.Quantity(lo, u) if which in ("both", "min") else None
    b = env.pq.Quantity(hi, u) if which in ("both", "max") else None
    o = env.pq.Quantity(env.arr("o", (2,)), va) if out else None
    r = q.clip(a, b, out=o) if out else q.clip(a, b)
    if out:
        env.check(r is o, "clip:out-returned")
    want = []
    for t in v:
        if a is not None:
            t = env.num("maximum", t, lo * f)
        if b is not None:
            t = env.num("minimum", t, hi * f)
        want.append(t)
    env.is_quantity(r, "clip")
    env.same_dims(r, {"ua": 1}, "clip")
    env.eq(env.vals(r), want, "clip")
    env.unchanged(s, q, "operand")
    env.raises(ValueError, lambda: q.clip(), "clip-nothing")
    env.raises(ValueError, lambda: q.clip(1.0, 2.0), "clip-numbers")


@harness("C10", which=["both", "min", "max"], at=[0, 1, 2], val=["nan", "inf", "-inf"], other=[False, True])
def clip_special(env, which, at, val, other):
    """clipping treats each element by itself: one that is undefined or infinite does not change the others"""
    ua, ub, va = units(env)
    f = env.vals(ub.rescale(ua))[0] if other else 1
    x = env.arr("x", (3,))
    v = list(env.vals(x))
    x[at] = float(val)
    lo, hi = env.real("l"), env.real("h")
    env.assume(lo <= hi)
    u = ub if other else ua
    q = env.pq.Quantity(x, ua)
    r = q.clip(env.pq.Quantity(lo, u) if which != "max" else None, env.pq.Quantity(hi, u) if which != "min" else None)
    env.same_dims(r, {"ua": 1}, "clip")
    env.shape(r, (3,), "clip")
    got = env.vals(r)
    for i, t in enumerate(v):
        if i != at:
            if which != "max":
                t = env.num("maximum", t, lo * f)
            if which != "min":
                t = env.num("minimum", t, hi * f)
            env.eq([got[i]], [t], "others")
    if val == "nan":
        env.check(bool(env.num("isnan", got[at])), "nan")
    elif val == "inf" and which != "min":
        env.eq([got[at]], [hi * f], "inf")
    elif val == "-inf" and which != "max":
        env.eq([got[at]], [lo * f], "-inf")


@harness("C10", f=["sum", "max", "min", "mean", "prod", "cumsum"])
def functions(env, f):
    """the numpy functions give what the methods give"""
    ua, ub, va = units(env)
    x = env.arr("x", (2, 2))
    q = env.pq.Quantity(x, ua)
    v = env.vals(x)
    for axis in (None, 0, 1):
        r = getattr(env.np, f)(q, axis=axis)
        w = getattr(q, f)(axis)
        env.is_quantity(r, f)
        env.same_dims(r, env.dims(w), f)
        env.eq(env.vals(r), env.vals(w), f, scale=[env.absum(*v)] * len(env.vals(w)))


UN = ["std", "var", "ptp", "prod", "cumsum", "round", "trace", "clip", "argmax", "argmin", "nanargmax", "nanargmin", "argsort", "nonzero"]


@harness("C10", f=UN, axis=[None, 0, 1], filt=lambda f, axis: axis is None or f not in ("round", "trace", "clip", "argsort", "nonzero", "cumsum"))
def uncertain(env, f, axis):
    """the same of a quantity with uncertainties: the aggregate of its values"""
    ua, ub, va = units(env)
    x = env.arr("x", (2, 2), nonzero=f == "nonzero")
    u = env.arr("s", (2, 2), pos=True)
    q = env.pq.UncertainQuantity(x, ua / va, u)
    p = env.pq.Quantity(x, ua / va)
    v = list(env.vals(x))
    s, su = env.snap(q), list(env.vals(u))
    y = env.real("y", pos=True)
    a = [] if axis is None else [axis]
    if f == "clip":
        a = [env.pq.Quantity(-y, ub / va), env.pq.Quantity(y, ub / va)]
    if f == "argsort":
        a = [None]
    r = getattr(q, f)(*a)
    w = getattr(p, f)(*a)
    if f.startswith("arg") or f.startswith("nanarg") or f == "nonzero":
        for t in (r if isinstance(r, tuple) else [r]):
            env.check(not isinstance(t, env.pq.Quantity), f + ":is-a-quantity")
        for t, o in zip(r if isinstance(r, tuple) else [r], w if isinstance(w, tuple) else [w]):
            env.check([int(i) for i in env.vals(t)] == [int(i) for i in env.vals(o)], f)
    else:
        env.is_quantity(r, f)
        env.same_dims(r, env.dims(w), f)
        env.shape(r, tuple(w.shape), f)
        env.eq(env.vals(r), env.vals(w), f, scale=[env.absum(*v)] * len(env.vals(w)))
    env.unchanged(s, q, "operand")
    env.eq(env.vals(q.uncertainty), su, "operand-uncertainty")
    env.same_dims(q.uncertainty, {"ua": 1, "va": -1}, "operand-uncertainty")


@harness("C10", f=["sum", "mean", "max", "min", "ptp", "var", "std", "prod", "cumsum", "round", "trace", "clip", "nansum", "nanmean", "nanmax", "nanmin", "nanstd"], kind=["certain", "uncertain"])
def bare_output(env, f, kind):
    """numbers with units are not delivered into a bare array without complaint"""
    ua, ub, va = units(env)
    x = env.arr("x", (2, 2), pos=True)
    q = env.pq.Quantity(x, ua) if kind == "certain" else env.pq.UncertainQuantity(x, ua, env.arr("s", (2, 2), lo=0))
    s = env.snap(q)
    o = env.np.zeros((4,) if f == "cumsum" else (2, 2) if f in ("round", "clip") else ())
    if env.symbolic:
        o = env.arr("o", o.shape)
    a = {"clip": [env.pq.Quantity(1.0, ub), env.pq.Quantity(2.0, ub)]}.get(f, [])
    env.raises((TypeError, AttributeError), lambda: getattr(q, f)(*a, out=o), f)
    env.unchanged(s, q, "operand")


@harness("C10", f=["sum", "prod", "nansum", "cumsum"], sa=[((0,), None), ((0,), 0), ((3, 0), None), ((3, 0), 0), ((3, 0), 1), ((0, 3), 0), ((0, 3), -1), ((2, 0, 3), 0), ((2, 0, 3), 2), ((2, 0, 3), 1)], out=[False, True])
def nothing(env, f, sa, out):
    """arrays without elements: the sum is zero, the product one, in the units of as many elements as the axis has"""
    shape, axis = tuple(sa[0]), sa[1]
    ua, ub, va = units(env)
    e = env.int("e", -2, 2)
    q = env.pq.Quantity(env.np.zeros(shape), ua ** e / va)
    if f == "cumsum":
        sh, n, p = (shape if axis is not None else (0,)), 0, 1
    else:
        sh = tuple(d for i, d in enumerate(shape) if axis is not None and i != axis % len(shape))
        p = power_of(f, shape, axis)
    if out:
        r = env.pq.Quantity(env.np.ones(sh), ub)
        getattr(q, f)(axis, out=r)
    else:
        r = getattr(q, f)(axis)
    env.klass(r, env.pq.Quantity, f)
    env.shape(r, sh, f)
    env.same_dims(r, {"ua": e * p, "va": -p}, f)
    v = env.vals(r)
    env.eq(v, [1.0 if f == "prod" else 0.0] * len(v), f)


indep.register("C10")
