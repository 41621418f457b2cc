"""C26 conversions keep the numeric type"""
import numpy as rnp
from symq.harness import harness

DT = ["f4", "f8", "c8", "c16", "i4", "i8", "u1"]
FC = ["f4", "f8", "c8", "c16"]


def units(env):
    A, B = env.bases()
    k = [env.real("k%d" % i, pos=True) for i in range(3)]
    u, v, t = env.unit("ua", k[0] * A), env.unit("va", k[1] * A), env.unit("ta", k[2] * B)
    return A, u, v, t, k


def make(env, name, shape, dt):
    if dt[0] in "iu":
        return env.arr(name, shape, dt, lo=0 if dt[0] == "u" else -50, hi=100)
    return env.arr(name, shape, dt)


def floating(dt):
    return dt if rnp.dtype(dt).kind in "fc" else "f8"


def exact(env, r, x, f, label):
    env.eq(env.vals(r), [e * f for e in env.vals(x)], label)


@harness("C26", dt=DT, shape=[(), (2,)], how=["rescale", "rescale-text", "rescale-dims", "construct", "construct-text", "derived", "compound", "assign"])
def keeps(env, dt, shape, how):
    """without a requested type: floating types stay, integers become floats holding the exact value"""
    pq = env.pq
    A, u, v, t, k = units(env)
    x = make(env, "x", shape, dt)
    f = k[0] / k[1]
    if how == "derived":
        q = pq.Quantity(x, u * u / t)
    else:
        q = pq.Quantity(x, u)
    env.dtype_is(q, dt, "made")
    s = env.snap(q)
    if how == "rescale":
        r = q.rescale(v)
    elif how == "rescale-text":
        r = q.rescale("va")
    elif how == "rescale-dims":
        r = q.rescale(v.dimensionality)
    elif how == "construct":
        r = pq.Quantity(q, v)
    elif how == "construct-text":
        r = pq.Quantity(q, "va")
    elif how == "derived":
        r, f = q.rescale(v * u / t), k[0] / k[1]
    elif how == "compound":
        r = q.rescale(pq.CompoundUnit("va*ta/ta"))
    else:
        if dt in FC:
            q.units = v
            env.dtype_is(q, dt, "in-place")
            env.same_dims(q, {"va": 1}, "in-place")
        else:
            st, e = env.attempt(lambda: setattr(q, "units", v))
            if st == "exc":
                env.unchanged(s, q, "refused")
            else:
                env.eq(env.vals(q), [a * f for a in s[2]], "in-place")
        return
    env.dtype_is(r, floating(dt), "converted")
    env.shape(r, shape, "converted")
    exact(env, r, x, f, "converted")
    env.unchanged(s, q, "source")


@harness("C26", dt=DT, want=FC, shape=[(), (2,)], how=["rescale", "construct", "same-units", "uncertain"],
         filt=lambda dt, want, shape, how: rnp.can_cast(dt, want) and (how != "uncertain" or want[0] == dt[0] == "f" and dt == want))
def requested(env, dt, want, shape, how):
    """a requested type is honoured when it can hold the values, and never makes the result integral or loses a part"""
    pq = env.pq
    A, u, v, t, k = units(env)
    x = make(env, "x", shape, dt)
    f = k[0] / k[1]
    Q = pq.Quantity(x, u)
    if how == "uncertain":
        Q = pq.UncertainQuantity(x, u, env.arr("s", shape, dt, lo=0), dtype=dt)
    s = env.snap(Q)
    if how == "construct":
        r = pq.Quantity(Q, v, dtype=want)
    elif how == "same-units":
        r, f = Q.rescale(u, dtype=want), 1
    elif how == "uncertain":
        r = Q.rescale(v)
        env.dtype_is(r, dt, "uncertain")
        env.dtype_is(r.uncertainty, dt, "uncertainty")
        exact(env, r, x, f, "uncertain")
        return env.unchanged(s, Q, "source")
    else:
        r = Q.rescale(v, dtype=want)
    got = rnp.dtype(env.np.result_type(r.dtype))
    if dt in FC or how == "same-units" or want in ("f8", "c16"):
        env.check(got == rnp.dtype(want), "honoured:%s" % got)
    else:
        env.check(got.kind in "fc" and rnp.can_cast(want, got), "at-least:%s" % got)
    exact(env, r, x, f, "converted")
    env.unchanged(s, Q, "source")


@harness("C26", first=DT, then=["f8", "c16", "i8"], how=["rescale", "units", "add", "simplified", "construct", "setitem"], k=[0.3048, 1e-7, 1.0 / 3])
def after_narrow(env, first, then, how, k):
    """a conversion of a narrow type leaves no trace in later conversions between the same units"""
    pq, np = env.pq, env.np
    A, B = env.bases()
    u, v = env.unit("ua", k * A), env.unit("va", 0.7 * A)

    def convert(name, dt):
        x = make(env, name, (2,), dt)
        q = pq.Quantity(x, u)
        o = pq.Quantity(env.arr("o" + name, (2,), floating(dt)), v)
        f = k / 0.7
        w = list(env.vals(x))
        if how == "rescale":
            r = q.rescale(v)
        elif how == "construct":
            r = pq.Quantity(q, v)
        elif how == "units":
            if dt[0] in "iu":
                q = pq.Quantity(x * 1.0, u)
            q.units = v
            r = q
        elif how == "add":
            r = o * 0 + q
        elif how == "setitem":
            if dt[0] == "c":
                o = pq.Quantity(env.arr("p" + name, (2,), "f8"), v)
                q = pq.Quantity(np.real(q.magnitude), u)
                w = list(env.vals(np.real(x)))
            o[...] = q
            r = o
        else:
            r, f = q.simplified, k
        return r, [e * f for e in w]
    convert("a", first)
    env.exact_again()
    r, want = convert("x", then)
    env.eq(env.vals(r), want, "second")
    env.exact_again()
    r, want = convert("y", "f8")
    env.eq(env.vals(r), want, "third")


@harness("C26", a=DT, b=DT, op=["add", "sub", "maximum", "radd"], shape=[(), (2,)], same=[False, True], fixed=[False, True],
         filt=lambda a, b, op, shape, same, fixed: not (fixed and (same or rnp.result_type(a, b) not in ("f8", "c16"))) and (shape == (2,) or op == "sub") and not (op == "maximum" and ("c" in a + b or not same) or same and (op == "radd" or a[0] == b[0] == "u")))
def mixing(env, a, b, op, shape, same, fixed):
    """the result of mixing units is never narrower than the operands' common type, and exact"""
    pq, np = env.pq, env.np
    if fixed:       # inexact in narrow types whatever the values
        A, B = env.bases()
        k = [0.3048, 0.7, 1]
        u, v = env.unit("ua", k[0] * A), env.unit("va", k[1] * A)
    else:
        A, u, v, t, k = units(env)
    x, y = make(env, "x", shape, a), make(env, "y", shape, b)
    p, q = pq.Quantity(x, u), pq.Quantity(y, u if same else v)
    xs, ys = [[e if env.symbolic else e.item() for e in env.vals(z)] for z in (x, y)]
    f = 1 if same else k[1] / k[0]
    if rnp.result_type(rnp.dtype(a), rnp.dtype(b)) in ("f8", "c16"):
        env.exact_again()
    if op == "add":
        r, w = p + q, [i + j * f for i, j in zip(xs, ys)]
    elif op == "sub":
        r, w = p - q, [i - j * f for i, j in zip(xs, ys)]
    elif op == "radd":
        r, w = q + p, [i / f + j for i, j in zip(xs, ys)]
    else:
        r = np.maximum(p, q)
        w = [i if i >= j else j for i, j in zip(xs, ys)]
    common = rnp.result_type(rnp.dtype(a), rnp.dtype(b))
    got = rnp.dtype(np.result_type(r.dtype))
    if same or common.kind in "fc":
        env.check(got == common if same or a in FC and b in FC else rnp.can_cast(common, got), "common-type:%s" % got)
    else:
        env.check(got.kind == "f", "floating:%s" % got)
    env.eq(env.vals(r), w, op, scale=[env.absum(*([i, j * f] if op != "radd" else [i / f, j])) for i, j in zip(xs, ys)])


@harness("C26", dt=DT, wide=["f8", "c16"], how=["element", "slice", "put", "mask", "iadd", "isub", "out", "view"], k=[0.3048, 1e-7],
         filt=lambda dt, wide, how, k: rnp.can_cast(dt, wide, "same_kind"))
def into_other_type(env, dt, wide, how, k):
    """values of one type delivered into an array of another, in other units: as exact as the narrower of (common type, target)"""
    pq, np = env.pq, env.np
    A, B = env.bases()
    u, v = env.unit("ua", k * A), env.unit("va", 0.7 * A)
    x = make(env, "x", (2,), dt)
    xs = [e if env.symbolic else e.item() for e in env.vals(x)]
    d = make(env, "d", (2,), wide)
    ds = [e if env.symbolic else e.item() for e in env.vals(d)]
    if wide != "f4":
        env.exact_again()
    q, t = pq.Quantity(x, u), pq.Quantity(d, v)
    s = env.snap(q)
    f = k / 0.7
    w = [i * f for i in xs]
    sc = None
    if how == "element":
        t[0], t[1] = q[0], q[1]
    elif how == "slice":
        t[:] = q
    elif how == "put":
        t.put([0, 1], q)
    elif how == "mask":
        t[np.array([True, False])] = q[:1]
        w[1] = ds[1]
    elif how == "iadd":
        t += q
        w, sc = [a + b for a, b in zip(ds, w)], [env.absum(a, b) for a, b in zip(ds, w)]
    elif how == "isub":
        t -= q
        w, sc = [a - b for a, b in zip(ds, w)], [env.absum(a, b) for a, b in zip(ds, w)]
    elif how == "view":
        z = t[::-1]
        z[:] = q
        w = w[::-1]
    else:
        o = pq.Quantity(d, v)
        r = np.add(q, q, out=o)
        t, w = o, [2 * i for i in xs]
        env.same_dims(o, {"ua": 1}, how)
    env.dtype_is(t, wide, how)
    if how != "out":
        env.same_dims(t, {"va": 1}, how)
    env.eq(env.vals(t), w, how, scale=sc)
    env.unchanged(s, q, "source")


@harness("C26", dt=DT, how=["simplified", "reference-compare", "dimensionless", "into-float", "preferred", "default-units"])
def other_routes(env, dt, how):
    """base units, dimensionless magnitudes, assignment into floating arrays, preferred units"""
    pq, np = env.pq, env.np
    A, u, v, t, k = units(env)
    x = make(env, "x", (2,), dt)
    q = pq.Quantity(x, u)
    s = env.snap(q)
    if how == "simplified":
        r = q.simplified
        exact(env, r, x, k[0], "simplified")
        env.check(rnp.can_cast(dt if dt in FC else "f8", rnp.dtype(np.result_type(r.dtype))), "simplified-type")
    elif how == "reference-compare":
        r = (q == pq.Quantity(x, u))
        env.check(bool(r.all()), "equal-to-itself")
    elif how == "dimensionless":
        r = (q / pq.Quantity(1.0, v)).dimensionless_magnitude
        exact(env, r, x, k[0] / k[1], "dimensionless")
    elif how == "into-float":
        wide = {"f4": "f4", "f8": "f8", "c8": "c8", "c16": "c16"}.get(dt, "f8")
        d = pq.Quantity(make(env, "d", (3,), wide), v)
        d[0:2] = q
        env.dtype_is(d, wide, "target")
        exact(env, d[0:2], x, k[0] / k[1], "assigned")
    elif how == "preferred":
        pq.quantity.PREFERRED = [v]
        r = q.rescale_preferred()
        env.dtype_is(r, floating(dt), "preferred")
        exact(env, r, x, k[0] / k[1], "preferred")
    else:
        q = pq.Quantity(x, pq.meter)
        pq.set_default_units(length="km")
        r = q.simplified
        exact(env, r, x, 0.001, "default-units")
    env.unchanged(s, q, "source") if how != "default-units" else None


@harness("C26", dt=["f4", "f8", "c8", "c16"], how=["units", "iadd", "isub", "imul", "clip", "insert"],
         filt=lambda dt, how: dt[0] != "c" or how != "clip")
def in_place(env, dt, how):
    """in-place operations with another unit keep the array's type"""
    pq, np = env.pq, env.np
    A, u, v, t, k = units(env)
    x = make(env, "x", (2,), dt)
    xs = list(env.vals(x))
    q = pq.Quantity(x, u)
    y = make(env, "y", (2,), dt)
    o = pq.Quantity(y, v)
    f = k[1] / k[0]
    if how == "units":
        q.units = v
        w = [i / f for i in xs]
    elif how == "iadd":
        q += o
        w = [i + j * f for i, j in zip(xs, env.vals(y))]
    elif how == "isub":
        q -= o
        w = [i - j * f for i, j in zip(xs, env.vals(y))]
    elif how == "imul":
        q *= 2
        w = [i * 2 for i in xs]
    elif how == "clip":
        q = q.clip(o.min(), None)
        env.check(rnp.can_cast(dt, rnp.dtype(np.result_type(q.dtype))), "clip-type")
        return
    else:
        q[1] = o[0]
        w = [xs[0], env.vals(y)[0] * f]
    env.dtype_is(q, dt, how)
    env.eq(env.vals(q), w, how)


from symq import layouts
layouts.register("C26")
