"""C07 in-place operations and unit assignment are physically consistent"""
import operator as op
from symq.harness import harness
from symq.props.c05 import bc, operand

IOP = {"add": op.iadd, "sub": op.isub, "mod": op.imod, "mul": op.imul, "div": op.itruediv}
ERR = (ValueError, TypeError, AttributeError)


def units2(env):
    A, B = env.bases()
    k1, k2, l1 = [env.real(n, pos=True) for n in ("k1", "k2", "l1")]
    return env.unit("ua", k1 * A), env.unit("ub", k2 * A), env.unit("va", l1 * B), k1, k2, l1


@harness("C07", o=["add", "sub", "mod"], kinds=[("arr", "arr"), ("arr", "0d"), ("0d", "0d"), ("arr", "unit"), ("0d", "unit"), ("2d", "arr")])
def additive(env, o, kinds):
    """q op= p: the same object holds the converted sum / difference / remainder in q's units"""
    ua, ub, va, k1, k2, l1 = units2(env)
    b = dict(lo=-50, hi=50) if o == "mod" else {}
    q, v, sh = operand(env, kinds[0], "a", ua, **b)
    p, w, shp = operand(env, kinds[1], "b", ub, nonzero=True, **b)
    if o == "mod":
        env.assume(env.vals(p)[0] > 0) if env.symbolic or True else None
        want, _ = bc(env, v, sh, w, shp, lambda x, y: x - (y * k2 / k1) * env.np.floor(x / (y * k2 / k1)))
    else:
        sg = 1 if o == "add" else -1
        want, _ = bc(env, v, sh, w, shp, lambda x, y: x + sg * y * k2 / k1)
    sc, _ = bc(env, v, sh, w, shp, lambda x, y: abs(x) + abs(y * k2 / k1))
    s = env.snap(p)
    orig = q
    mag = q.magnitude
    q = IOP[o](q, p)
    env.check(q is orig, o + ":same-object")
    env.klass(q, env.pq.Quantity, o)
    env.same_dims(q, {"ua": 1}, o)
    env.shape(q, sh, o)
    if o == "mod":
        ms, _ = bc(env, v, sh, w, shp, lambda x, y: y * k2 / k1)
        env.eqmod(env.vals(q), want, ms, o, sc)
    else:
        env.eq(env.vals(q), want, o, scale=sc)
        env.eq(env.vals(mag), want, o + ":stored", scale=sc)
    env.unchanged(s, p, "operand")


@harness("C07", o=["mul", "div"], other=["unit", "qarr", "q0", "float", "arr", "self-unit", "dimensionless"], sh=["arr", "0d"],
         filt=lambda o, other, sh: not (sh == "0d" and other in ("qarr", "arr")))
def multiplicative(env, o, other, sh):
    """q *= p, q /= p: value and units of q * p, q / p, in the same object"""
    ua, ub, va, k1, k2, l1 = units2(env)
    q, v, shp = operand(env, sh, "a", ua)
    y = env.arr("y", (2,), nonzero=True)
    z = env.real("z", nonzero=True)
    p, w, d = {"unit": (va, [1], {"va": 1}), "qarr": (env.pq.Quantity(y, va / ub), env.vals(y), {"va": 1, "ub": -1}),
               "q0": (env.pq.Quantity(z, va ** 2), [z], {"va": 2}), "float": (z, [z], {}), "arr": (y, env.vals(y), {}),
               "self-unit": (ua, [1], {"ua": 1}), "dimensionless": (env.pq.Quantity(z), [z], {})}[other]
    want, _ = bc(env, v, shp, w, (2,) if len(w) == 2 else (), (lambda a, b: a * b) if o == "mul" else (lambda a, b: a / b))
    orig = q
    before = q * 1
    keep = q.dimensionality
    q = IOP[o](q, p)
    env.check(q is orig, o + ":same-object")
    env.same_dims(q, env.mul_dims({"ua": 1}, d, 1 if o == "mul" else -1), o)
    env.eq(env.vals(q), want, o)
    env.shape(q, shp, o)
    # results taken before are not affected
    env.same_dims(before, {"ua": 1}, "earlier-result")
    env.eq(env.vals(before), v, "earlier-result")
    env.same_dims(keep, {"ua": 1}, "earlier-dimensionality")


@harness("C07", other=["unit", "qarr", "q0", "float", "self-unit"], sh=["arr", "0d"], view=[False, True], filt=lambda other, sh, view: not (sh == "0d" and (view or other == "qarr")))
def floor_divided(env, other, sh, view):
    """q //= p: the whole part of the quotient of the magnitudes, in the units of q / p; a view of a quantity only by plain numbers"""
    ua, ub, va, k1, k2, l1 = units2(env)
    q, v, shp = operand(env, sh, "a", ua, lo=-9, hi=9)
    y = env.arr("y", (2,), lo=1, hi=4)
    z = env.real("z", lo=1, hi=4)
    p, w, d = {"unit": (va, [1], {"va": 1}), "qarr": (env.pq.Quantity(y, va / ub), env.vals(y), {"va": 1, "ub": -1}),
               "q0": (env.pq.Quantity(z, va ** 2), [z], {"va": 2}), "float": (z, [z], {}), "self-unit": (ua, [1], {"ua": 1})}[other]
    sc, _ = bc(env, v, shp, w, (2,) if len(w) == 2 else (), lambda a, b: a / b)
    before = list(env.vals(q))
    orig = q
    s = env.snap(p) if hasattr(p, "dtype") else None
    if view:
        r = q[:]
        if other != "float":
            env.raises(ValueError, lambda: r.__ifloordiv__(p), "view")
            env.same_dims(r, {"ua": 1}, "view")
            env.same_dims(q, {"ua": 1}, "owner")
            env.eq(env.vals(q), before, "owner")
            return
    else:
        r = q
    r //= p
    env.check(view or r is orig, "same-object")
    env.klass(r, env.pq.Quantity, "floordiv")
    env.same_dims(r, env.mul_dims({"ua": 1}, d, -1), "floordiv")
    env.same_dims(q, env.mul_dims({"ua": 1}, d, -1), "owner")
    env.eqfloor(env.vals(q), sc, "floordiv")
    if s is not None:
        env.unchanged(s, p, "operand")


@harness("C07", p=[2, 3, -1, 0.5, 0, 1], sh=["arr", "0d"])
def power(env, p, sh):
    """q **= p"""
    ua, ub, va, k1, k2, l1 = units2(env)
    q, v, shp = operand(env, sh, "a", ua / va, pos=True)
    orig = q
    q **= p
    env.check(q is orig, "ipow:same-object")
    env.same_dims(q, {"ua": p, "va": -p}, "ipow")
    env.eq(env.vals(q), [x ** p for x in v], "ipow")


@harness("C07", e=[1, 2, -1], form=["unit", "string", "dimensionality", "quantity"], sh=[(), (2,), (2, 2)])
def assign_units(env, e, form, sh):
    """q.units = new: stored magnitudes are converted, the array object stays the same; back again"""
    ua, ub, va, k1, k2, l1 = units2(env)
    x = env.arr("x", sh)
    q = env.pq.Quantity(x, ua ** e * va)
    v = env.vals(x)
    v = list(v)
    dst = ub ** e * va
    to = {"unit": dst, "string": "ub**%d*va" % e, "dimensionality": dst.dimensionality,
          "quantity": env.pq.Quantity(1.0, dst)}[form]
    snap_to = env.dims(dst)
    mag = q.magnitude
    q.units = to
    env.same_dims(q, {"ub": e, "va": 1}, "units")
    env.eq(env.vals(q), [i * (k1 / k2) ** e for i in v], "units-value")
    env.eq(env.vals(mag), [i * (k1 / k2) ** e for i in v], "units-stored")
    env.klass(q, env.pq.Quantity, "units")
    env.shape(q, sh, "units")
    env.same_dims(dst, snap_to, "argument")
    q *= va
    env.same_dims(dst, snap_to, "argument-after")
    q /= va
    q.units = ua ** e * va
    env.same_dims(q, {"ua": e, "va": 1}, "back")
    env.eq(env.vals(q), v, "back")
    q.units = q.units
    env.eq(env.vals(q), v, "same-units")


VIEWS = ["slice", "step", "ellipsis", "reshape", "T", "ravel", "view", "squeeze", "real", "item", "newaxis", "chain"]


def make_view(env, q, kind):
    return {"slice": lambda: q[0:2], "step": lambda: q[::-1], "ellipsis": lambda: q[...], "reshape": lambda: q.reshape((2, 2)),
            "T": lambda: q.T, "ravel": lambda: q.ravel(), "view": lambda: q.view(), "squeeze": lambda: q.squeeze(),
            "real": lambda: q.real, "item": lambda: q[1:2], "newaxis": lambda: q[None], "chain": lambda: q[1:][:2]}[kind]()


CHG = ["units", "imul", "idiv", "ipow", "units-string", "imul-array", "idiv-array", "imul-scalar", "imul-one", "idiv-one", "ipow-half",
       "imul-self", "units-quantity", "ifloordiv"]


def changed(env, v, change, ua, ub, va):
    """an in-place operation that would give v other units"""
    Q, np = env.pq.Quantity, env.np
    if change == "units":
        v.units = ub
    elif change == "units-string":
        v.units = "ub"
    elif change == "units-quantity":
        v.units = Q(1.0, ub)
    elif change == "imul":
        v *= va
    elif change == "idiv":
        v /= Q(2.0, va)
    elif change == "imul-array":
        v *= Q(np.ones(v.shape), va)
    elif change == "idiv-array":
        v /= Q(np.ones(v.shape), va ** 2)
    elif change == "imul-scalar":
        v *= Q(3.0, va / ua)
    elif change == "imul-one":
        v *= Q(np.array([2.0]), va)
    elif change == "idiv-one":
        v /= Q(np.array([2.0]), ub)
    elif change == "imul-self":
        v *= v
    elif change == "ipow-half":
        v **= 0.5
    elif change == "ifloordiv":
        v //= Q(2.0, va)
    elif change == "iadd":
        v += Q(1.0, ub)
    else:
        v **= 2


@harness("C07", view=VIEWS, change=CHG)
def views(env, view, change):
    """a view never gets other units than its owner; the refusal leaves both as they were"""
    ua, ub, va, k1, k2, l1 = units2(env)
    q = env.pq.Quantity(env.arr("x", (4,), pos=True), ua)
    w = make_view(env, q, view)
    s, t = env.snap(q), env.snap(w)

    def go():
        changed(env, w, change, ua, ub, va)
    env.raises(ValueError, go, "view-" + change)
    env.unchanged(s, q, "owner")
    env.unchanged(t, w, "view")
    # harmless changes go through to the owner
    y = env.real("y", nonzero=True)
    w2 = w
    w2 += env.pq.Quantity(y, ub)
    w2 *= 2
    env.same_dims(q, {"ua": 1}, "owner-units")
    env.same_dims(w2, {"ua": 1}, "view-units")
    base = s[2]
    idx = {"slice": [0, 1], "item": [1], "chain": [1, 2]}.get(view, [0, 1, 2, 3])
    env.eq(env.vals(q), [(b + y * k2 / k1) * 2 if i in idx else b for i, b in enumerate(base)], "owner-value",
           scale=[abs(b) + abs(y * k2 / k1) for b in base])


@harness("C07", view=VIEWS, change=CHG, dt=["f8", "f4"], deep=[False, True],
         filt=lambda view, change, dt, deep: (dt == "f8" or view in ("slice", "T", "item")) and not (deep and view == "reshape"))
def uncertain_views(env, view, change, dt, deep):
    """the same for quantities with uncertainties, and for views of views of them"""
    ua, ub, va, k1, k2, l1 = units2(env)
    q = env.pq.UncertainQuantity(env.arr("x", (4,), dt, nonzero=True), ua, env.arr("s", (4,), dt, pos=True))
    w = make_view(env, q, view)
    if deep:
        w = w[...]
    s, t, su = env.snap(q), env.snap(w), list(env.vals(q.uncertainty))

    def go():
        changed(env, w, change, ua, ub, va)
    env.raises(ValueError, go, "view-" + change)
    env.unchanged(s, q, "owner")
    env.unchanged(t, w, "view")
    env.eq(env.vals(q.uncertainty), su, "owner-uncertainty")
    env.same_dims(q.uncertainty, {"ua": 1}, "owner-uncertainty")


@harness("C07", change=CHG + ["iadd"], how=["flag", "broadcast"])
def readonly(env, change, how):
    """read-only data keep value and units"""
    ua, ub, va, k1, k2, l1 = units2(env)
    x = env.arr("x", (2,), nonzero=True)
    q = env.pq.Quantity(x, ua)
    if how == "flag":
        q.flags.writeable = False
    else:
        x.flags.writeable = False
        q = env.pq.Quantity(x, ua)
    s = env.snap(q)

    def go():
        changed(env, q, change, ua, ub, va)
    env.raises(ERR, go, "readonly-" + change)
    env.unchanged(s, q, "quantity")


BAD = ["iadd-dim", "isub-number", "imod-dim", "ipow-dim", "ipow-nonuniform", "units-dim", "units-unknown", "units-magnitude",
       "units-array", "units-type", "imul-shape", "iadd-shape", "idiv-shape"]


@harness("C07", bad=BAD)
def refused(env, bad):
    """a refused in-place operation or assignment leaves everything as it was"""
    ua, ub, va, k1, k2, l1 = units2(env)
    q = env.pq.Quantity(env.arr("x", (2,), nonzero=True), ua)
    p = env.pq.Quantity(env.arr("y", (2,), nonzero=True), va)
    r = env.pq.Quantity(env.arr("z", (3,), nonzero=True), ub)
    c = env.real("c", nonzero=True)
    env.assume(c != 1)
    ss = [env.snap(t) for t in (q, p, r)]

    def go():
        t = q
        if bad == "iadd-dim":
            t += p
        elif bad == "isub-number":
            t -= c
        elif bad == "imod-dim":
            t %= p
        elif bad == "ipow-dim":
            t **= p
        elif bad == "ipow-nonuniform":
            t **= env.np.array([1.0, 2.0])
        elif bad == "units-dim":
            t.units = va
        elif bad == "units-unknown":
            t.units = "no_such_unit"
        elif bad == "units-magnitude":
            t.units = env.pq.Quantity(c, ub)
        elif bad == "units-array":
            t.units = r
        elif bad == "units-type":
            t.units = 3
        elif bad == "imul-shape":
            t *= r
        elif bad == "iadd-shape":
            t += r
        elif bad == "idiv-shape":
            t /= r
    exc = {"units-unknown": (LookupError, SyntaxError), "units-type": TypeError}.get(bad, ValueError)
    env.raises(exc, go, bad)
    for s, t in zip(ss, (q, p, r)):
        env.unchanged(s, t, "operand")


@harness("C07", dt=["i8", "i4", "u1", "f4", "c16"], op=["units", "units-text", "iadd", "isub", "imul", "idiv", "ipow", "ipow-half", "imod", "units-same", "iadd-same"], sh=[(), (2,)],
         filt=lambda dt, op, sh: not (dt == "c16" and op in ("imod", "ipow", "ipow-half")))
def other_types(env, dt, op, sh):
    """other element types: numpy may refuse to store the result; the physical value is the right one or the old one, and the type stays"""
    ua, ub, va, k1, k2, l1 = units2(env)
    x = env.arr("x", sh, dt, nonzero=True, lo=1, hi=9)
    q = env.pq.Quantity(x, ua)
    orig, s = q, env.snap(q)
    v = list(env.vals(q))
    y = env.arr("y", sh, dt, nonzero=True, lo=1, hi=9)
    w = list(env.vals(y))
    p = env.pq.Quantity(y, ub)
    sp = env.snap(p)

    def go():
        t = q
        if op == "units":
            t.units = ub
        elif op == "units-text":
            t.units = "ub"
        elif op == "units-same":
            t.units = ua
        elif op == "iadd":
            t += p
        elif op == "isub":
            t -= p
        elif op == "imod":
            t %= p
        elif op == "imul":
            t *= p
        elif op == "idiv":
            t /= p
        elif op == "ipow":
            t **= 2
        elif op == "ipow-half":
            t **= 0.5
        else:
            t += env.pq.Quantity(y, ua)
        env.check(t is orig, "in-place")
    st, e = env.attempt(go)
    env.dtype_is(q, dt, "type")
    env.unchanged(sp, p, "other")
    if st == "exc":
        env.check(isinstance(e, (TypeError, ValueError)), "refused:" + type(e).__name__)
        env.check(dt[0] in "iu" and not op.endswith("same"), "refused-type")
        return env.unchanged(s, q, "refused")
    if op == "imod":
        return env.same_dims(q, {"ua": 1}, op)
    f = k2 / k1
    want, d = {"units": ([a / f for a in v], {"ub": 1}), "units-text": ([a / f for a in v], {"ub": 1}), "units-same": (v, {"ua": 1}),
               "iadd": ([a + b * f for a, b in zip(v, w)], {"ua": 1}), "isub": ([a - b * f for a, b in zip(v, w)], {"ua": 1}),
               "imul": ([a * b for a, b in zip(v, w)], {"ua": 1, "ub": 1}), "idiv": ([a / b for a, b in zip(v, w)], {"ua": 1, "ub": -1}),
               "ipow": ([a * a for a in v], {"ua": 2}), "ipow-half": (None, {"ua": 0.5}), "iadd-same": ([a + b for a, b in zip(v, w)], {"ua": 1})}[op]
    env.same_dims(q, d, op)
    if want is None:
        if dt != "c16":
            env.eq([a * a for a in env.vals(q)], v, op)
        return
    if dt == "u1":
        return
    env.eq(env.vals(q), want, op, scale=[abs(a) + abs(b) * (1 + f) for a, b in zip(v, w)] if op in ("iadd", "isub") and dt != "c16" else None)


HOPS = ["+=", "-=", "*=u", "/=v", "units", "*=n", "**=2"]


@harness("C07", n=[2], thorough={"n": [2, 3]}, max_paths=6000)
def histories(env, n):
    """every sequence of n in-place operations and unit assignments agrees with a model that tracks
    the value in base units and the exponents; quantities derived along the way stay as they were"""
    ua, ub, va, k1, k2, l1 = units2(env)
    x = env.arr("x", (2,), pos=True)
    q = env.pq.Quantity(x, ua)
    mag, d = list(env.vals(x)), {"ua": 1}
    k = {"ua": k1, "ub": k2, "va": l1}
    others = []
    orig = q
    for i in range(n):
        # a bystander derived before the step
        others.append((q * 1, list(mag), dict(d)))
        o = env.choice("op%d" % i, HOPS)
        y = env.real("y%d" % i, pos=True)
        if o in ("+=", "-="):
            u = ub ** d.get("ua", 0) if d.get("ub", 0) == 0 else ua ** d.get("ub", 0)
            if d.get("va", 0):
                u = u * va ** d["va"]
            f = (k2 / k1) ** d.get("ua", 0) if d.get("ub", 0) == 0 else (k1 / k2) ** d.get("ub", 0)
            p = env.pq.Quantity(y, u)
            if o == "+=":
                q += p
                mag = [m + y * f for m in mag]
            else:
                q -= p
                mag = [m - y * f for m in mag]
        elif o == "*=u":
            q *= env.pq.Quantity(y, va)
            mag = [m * y for m in mag]
            d = env.mul_dims(d, {"va": 1})
        elif o == "/=v":
            q /= va ** 2
            d = env.mul_dims(d, {"va": -2})
        elif o == "*=n":
            q *= y
            mag = [m * y for m in mag]
        elif o == "**=2":
            q **= 2
            mag = [m * m for m in mag]
            d = {u: e * 2 for u, e in d.items()}
        else:
            e = d.get("ua", 0)
            if e:
                nd = env.mul_dims({u: w for u, w in d.items() if u != "ua"}, {"ub": e})
                f = (k1 / k2) ** e
            else:
                e = d.get("ub", 0)
                nd = env.mul_dims({u: w for u, w in d.items() if u != "ub"}, {"ua": e})
                f = (k2 / k1) ** e
            t = 1 * env.pq.dimensionless
            for u, w in nd.items():
                t = t * {"ua": ua, "ub": ub, "va": va}[u] ** w
            q.units = t
            mag, d = [m * f for m in mag], nd
    env.check(q is orig, "same-object")
    env.same_dims(q, d, "history")
    env.eq(env.vals(q), mag, "history", scale=[1 + abs(m) for m in mag])
    for b, m, e in others:
        env.same_dims(b, e, "bystander")
        env.eq(env.vals(b), m, "bystander", scale=[1 + abs(t) for t in m])


@harness("C07", pair=[("m", "ft"), ("kPa", "psi"), ("hour", "s"), ("km/h", "m/s"), ("eV", "J")])
def builtin(env, pair):
    a, b = pair
    f = float(env.pq.Quantity(1.0, a).rescale(b).magnitude)
    x = env.arr("x", (2,))
    q = env.pq.Quantity(x, a)
    v = list(env.vals(x))
    q.units = b
    env.eq(env.vals(q), [i * f for i in v], "units")
    env.same_dims(q, env.dims(env.pq.Quantity(1.0, b)), "units")
    q += env.pq.Quantity(env.real("y"), a)
    env.same_dims(q, env.dims(env.pq.Quantity(1.0, b)), "iadd")


from symq import layouts
layouts.register("C07")
from symq import twins  # noqa: E402
twins.register("C07")
from symq import many  # noqa: E402
many.register("C07")
from symq import overlap  # noqa: E402,F401
