"""C20 the uncertainty follows its value through conversion and selection"""
from symq import independent as indep
from symq.harness import harness
from symq.props.c10 import SA, SA2, DEEP, groups, fsum


def units(env):
    A, B = env.bases()
    k1, k2, l1, l2 = [env.real(n, pos=True) for n in ("k1", "k2", "l1", "l2")]
    return (env.unit("ua", k1 * A), env.unit("ub", k2 * A), env.unit("va", l1 * B), env.unit("vb", l2 * B), k1, k2, l1, l2)


def uq(env, shape, u, name="x", **k):
    x, s = env.arr(name, shape, **k), env.arr("s" + name, shape, lo=0)
    return env.pq.UncertainQuantity(x, u, s), env.vals(x), env.vals(s)


def verify(env, r, vals, sig, dims, shape, label, scales=None, var=None):
    """value, uncertainty, units of both, shape of both, classes"""
    env.klass(r, env.pq.UncertainQuantity, label)
    env.same_dims(r, dims, label)
    env.shape(r, shape, label)
    env.eq(env.vals(r), vals, label + ":value", scale=scales)
    u = r.uncertainty
    env.klass(u, env.pq.Quantity, label + ":uncertainty")
    env.same_dims(u, dims, label + ":uncertainty")
    env.shape(u, shape, label + ":uncertainty")
    if sig is not None:
        env.eq(env.vals(u), sig, label + ":uncertainty")
    else:
        us = env.vals(u)
        env.eq([t * t for t in us], var, label + ":uncertainty")
        for t in us:
            env.check(t >= 0, label + ":uncertainty-sign")


HOW = ["rescale", "rescale-str", "rescale-quantity", "set", "set-str", "simplified", "same", "reference", "constructor", "there-and-back",
       "astype", "preferred"]


@harness("C20", how=HOW, shape=[(), (3,), (2, 2)], form=["u", "u/v", "u2"])
def conversion(env, how, shape, form):
    """every way to convert scales the uncertainty with its value"""
    ua, ub, va, vb, k1, k2, l1, l2 = units(env)
    U, dims, f, g, W, text = {
        "u": (ua, {"ub": 1}, k1 / k2, k1, ub, "ub"),
        "u/v": (ua / va, {"ub": 1, "vb": -1}, k1 / k2 * l2 / l1, k1 / l1, ub / vb, "ub/vb"),
        "u2": (ua ** 2, {"ub": 2}, (k1 / k2) ** 2, k1 ** 2, ub ** 2, "ub**2")}[form]
    src = {n.replace("b", "a"): e for n, e in dims.items()}
    base = {"q" + n: e for n, e in {"u": {"a": 1}, "u/v": {"a": 1, "b": -1}, "u2": {"a": 2}}[form].items()}
    q, v, s = uq(env, shape, U)
    qs, us = env.snap(q), env.snap(q.uncertainty)
    inplace = how in ("set", "set-str")
    if how == "rescale":
        r = q.rescale(W)
    elif how == "rescale-str":
        r = q.rescale(text)
    elif how == "rescale-quantity":
        r = q.rescale(env.pq.Quantity(1.0, W))
    elif how == "set":
        r = q
        r.units = W
    elif how == "set-str":
        r = q
        r.units = text
    elif how == "simplified":
        r, dims, f = q.simplified, base, g
    elif how == "reference":
        r, dims, f = q._reference, base, g
    elif how == "same":
        r, dims, f = q.rescale(U), src, 1
    elif how == "constructor":
        r = env.pq.UncertainQuantity(q, W)
    elif how == "astype":
        r, dims, f = q.astype("f8"), src, 1
    elif how == "preferred":
        env.pq.quantity.PREFERRED = [vb, W]
        r = q.rescale()
    else:
        r, dims, f = q.rescale(W).rescale(U), src, 1
    verify(env, r, [t * f for t in v], [t * f for t in s], dims, shape, how)
    if not inplace:
        env.unchanged(qs, q, "operand")
        env.unchanged(us, q.uncertainty, "operand-uncertainty")
        if r is not q and how != "reference":
            env.check(r.uncertainty is not q.uncertainty or how in ("astype",), "uncertainty-shared")


@harness("C20", how=["rescale", "set"], shape=[(), (2,)])
def inconvertible(env, how, shape):
    """a refused conversion leaves value and uncertainty as they were"""
    ua, ub, va, vb, *_ = units(env)
    q, v, s = uq(env, shape, ua)
    if how == "rescale":
        env.raises(ValueError, lambda: q.rescale(va), "refused")
    else:
        def f():
            q.units = va
        env.raises(ValueError, f, "refused")
    verify(env, q, v, s, {"ua": 1}, shape, "after")


@harness("C20", given=["array", "quantity", "other-units", "view", "shared", "uncertain", "readonly", "list"], how=["new", "set"], to=["other", "text", "same"], shape=[(), (2,)],
         filt=lambda given, how, to, shape: shape != () or given not in ("view", "list"))
def units_of_given(env, given, how, to, shape):
    """setting the units of a quantity converts its uncertainty, wherever that came from, and nothing else that is in use"""
    pq = env.pq
    ua, ub, va, vb, k1, k2, l1, l2 = units(env)
    shape = tuple(shape)
    x, s = env.arr("x", shape), env.arr("sx", shape, lo=0)
    v, w = list(env.vals(x)), list(env.vals(s))
    big = pq.Quantity(env.np.array([s, s]), ua)
    ro = env.np.array(s)
    ro.flags.writeable = False
    other = pq.UncertainQuantity(s, ua, s)
    g = {"array": lambda: s, "quantity": lambda: pq.Quantity(s, ua), "other-units": lambda: pq.Quantity(s, ub), "view": lambda: big[0], "shared": lambda: other.uncertainty,
         "uncertain": lambda: other, "readonly": lambda: pq.Quantity(ro, ua), "list": lambda: list(w)}[given]()
    if given == "other-units":
        w = [t * k2 / k1 for t in w]
    if how == "new":
        q = pq.UncertainQuantity(env.np.array(x), ua, g)
    else:
        q = pq.UncertainQuantity(env.np.array(x), ua)
        q.uncertainty = pq.Quantity(g, ua) if given in ("array", "list") else g
    keep = [(t, env.snap(t)) for t in (g, big, other, other.uncertainty) if isinstance(t, pq.Quantity)]
    f = 1 if to == "same" else k1 / k2
    q.units = {"other": ub, "text": "ub", "same": ua}[to]
    d = {"ua" if to == "same" else "ub": 1}
    env.same_dims(q, d, "value")
    env.eq(env.vals(q), [t * f for t in v], "value")
    env.same_dims(q.uncertainty, d, "uncertainty")
    env.shape(q.uncertainty, shape, "uncertainty")
    env.eq(env.vals(q.uncertainty), [t * f for t in w], "uncertainty")
    for t, k in keep:
        env.unchanged(k, t, "given")


@harness("C20", src=["f4", "f8"], dt=["f8", "c16"], call=["positional", "keyword"], to=["other", "same", "text"], shape=[(), (2,)])
def rescale_type(env, src, dt, call, to, shape):
    """a conversion to a wider element type: of the value and of the uncertainty"""
    ua, ub, va, vb, k1, k2, l1, l2 = units(env)
    x, s = env.arr("x", shape, src), env.arr("sx", shape, src, lo=0)
    q = env.pq.UncertainQuantity(x, ua, s, dtype=src)
    env.dtype_is(q, src, "source")
    f = 1 if to == "same" else k1 / k2
    t = {"other": ub, "same": ua, "text": "ub"}[to]
    r = q.rescale(t, dt) if call == "positional" else q.rescale(t, dtype=dt)
    env.dtype_is(r, dt, "value")
    env.dtype_is(r.uncertainty, dt, "uncertainty")
    verify(env, r, [v * f for v in env.vals(x)], [v * f for v in env.vals(s)], {"ua" if to == "same" else "ub": 1}, shape, "rescale")


@harness("C20", to=["same", "other", "plain", "wrong", "shape", "shape1", "plain-dimensionless", "list", "none"], shape=[(), (2,)],
         filt=lambda to, shape: not (to == "shape1" and shape == ()))
def setter(env, to, shape):
    """q.uncertainty = s converts the units; a wrong shape or dimension is refused leaving the old uncertainty"""
    ua, ub, va, vb, k1, k2, l1, l2 = units(env)
    q, v, s = uq(env, shape, "" if to in ("plain-dimensionless", "list") else ua)
    t = env.arr("t", shape, lo=0)
    w = env.vals(t)
    d = {} if to in ("plain-dimensionless", "list") else {"ua": 1}
    bad = {"wrong": lambda: env.pq.Quantity(t, va), "plain": lambda: t,
           "shape": lambda: env.pq.Quantity(env.arr("z", (3,), lo=0), ua), "shape1": lambda: env.pq.Quantity(env.real("z", lo=0), ua)}
    if to in bad:
        b = bad[to]()

        def f():
            q.uncertainty = b
        env.raises(ValueError, f, to)
        verify(env, q, v, s, d, shape, to)
        return
    g = 1
    if to == "same":
        q.uncertainty = env.pq.Quantity(t, ua)
    elif to == "other":
        o = env.pq.Quantity(t, ub)
        os = env.snap(o)
        q.uncertainty = o
        env.unchanged(os, o, "source")
        g = k2 / k1
    elif to == "none":
        q = env.pq.UncertainQuantity(q.magnitude, ua)
        verify(env, q, v, [0 for a in v], d, shape, to)
        return
    elif to == "list":
        q.uncertainty = list(t) if shape else w[0]
    else:
        q.uncertainty = t
    verify(env, q, v, [a * g for a in w], d, shape, to)


WRONG = [(), (2,), (1,), (0,), (2, 1), (1, 2), (4,), (2, 2), (1, 1), (4, 1)]


@harness("C20", shape=[(), (2,), (1, 2), (2, 2), (1,), (0,), (4,)], how=["set", "new", "new-plain"])
def wrong_shape(env, shape, how):
    """an uncertainty of any other shape is refused, also one with as many elements, and the old one is left"""
    shape = tuple(shape)
    ua, ub, va, vb, k1, k2, l1, l2 = units(env)
    q, v, s = uq(env, shape, ua)
    x = env.arr("y", shape)
    for i, other in enumerate(WRONG):
        if other == shape:
            continue
        t = env.arr("t%d" % i, other, lo=0)
        if how == "set":
            def f():
                q.uncertainty = env.pq.Quantity(t, ub)
        elif how == "new":
            def f():
                env.pq.UncertainQuantity(x, ua, env.pq.Quantity(t, ub))
        else:
            def f():
                env.pq.UncertainQuantity(x, "ua", t)
        env.raises(ValueError, f, "shape%d" % i)
    verify(env, q, v, s, {"ua": 1}, shape, "after")


@harness("C20", to=["same", "other", "plain", "wrong", "shape", "set_uncertainty"], shape=[(), (2,)])
def construction(env, to, shape):
    """UncertainQuantity(data, units, uncertainty): a plain uncertainty is in those units, a quantity is converted"""
    ua, ub, va, vb, k1, k2, l1, l2 = units(env)
    x = env.arr("x", shape)
    v = env.vals(x)
    t = env.arr("t", (3,) if to == "shape" else shape, lo=0)
    w = env.vals(t)
    UQ = env.pq.UncertainQuantity
    if to in ("wrong", "shape"):
        b = env.pq.Quantity(t, va if to == "wrong" else ua)
        env.raises(ValueError, lambda: UQ(x, ua, b), to)
        return
    g = 1
    if to == "plain":
        q = UQ(x, ua, t)
    elif to == "same":
        q = UQ(x, ua, env.pq.Quantity(t, ua))
    elif to == "other":
        q, g = UQ(x, ua, env.pq.Quantity(t, ub)), k2 / k1
    else:
        o = env.pq.Quantity(x, ua)
        os = env.snap(o)
        q = UQ(o, "ub", t)
        env.unchanged(os, o, "source")
        verify(env, q, [a * k1 / k2 for a in v], w, {"ub": 1}, shape, to)
        return
    verify(env, q, v, [a * g for a in w], {"ua": 1}, shape, to)


INDEX = {"int": (1, (3,)), "neg": (-1, (3,)), "slice": (slice(0, 2), (3,)), "step": (slice(None, None, -1), (3,)), "list": ([2, 0], (3,)),
         "mask": ([True, False, True], (3,)), "row": (1, (2, 2)), "cell": ((0, 1), (2, 2)), "col": ((slice(None), 0), (2, 2)),
         "ellipsis": (Ellipsis, (2, 2)), "newaxis": (None, (3,)), "fancy2": (([0, 1], [1, 0]), (2, 2)), "npint": ("npint", (3,)),
         "array": ("array", (3,)), "empty": (slice(0, 0), (3,)), "0d": ((), ())}


@harness("C20", index=list(INDEX))
def selection(env, index):
    """an element or slice keeps the uncertainty of exactly those elements"""
    import numpy as rnp
    ua, ub, va, vb, *_ = units(env)
    idx, shape = INDEX[index]
    if idx == "npint":
        idx = rnp.int64(2)
    elif idx == "array":
        idx = rnp.array([1, 1, 0])
    q, v, s = uq(env, shape, ua / va)
    qs, us = env.snap(q), env.snap(q.uncertainty)
    pos = rnp.arange(len(v)).reshape(shape)[idx]
    r = q[idx]
    want = [int(i) for i in rnp.ravel(pos)]
    verify(env, r, [v[i] for i in want], [s[i] for i in want], {"ua": 1, "va": -1}, rnp.shape(pos), index)
    env.unchanged(qs, q, "operand")
    env.unchanged(us, q.uncertainty, "operand-uncertainty")


@harness("C20", f=["convert", "sum", "double", "setter"], index=["int", "slice", "row", "list"])
def selected_then(env, f, index):
    """a selected part behaves like an uncertain quantity of its own"""
    import numpy as rnp
    ua, ub, va, vb, k1, k2, l1, l2 = units(env)
    idx, shape = INDEX[index]
    q, v, s = uq(env, shape, ua)
    pos = [int(i) for i in rnp.ravel(rnp.arange(len(v)).reshape(shape)[idx])]
    sh = rnp.shape(rnp.arange(len(v)).reshape(shape)[idx])
    r = q[idx]
    w, t = [v[i] for i in pos], [s[i] for i in pos]
    if f == "convert":
        verify(env, r.rescale(ub), [a * k1 / k2 for a in w], [a * k1 / k2 for a in t], {"ub": 1}, sh, f)
    elif f == "sum":
        verify(env, r + r, [a + a for a in w], None, {"ua": 1}, sh, f, var=[2 * a * a for a in t])
    elif f == "double":
        verify(env, 2 * r, [2 * a for a in w], [2 * a for a in t], {"ua": 1}, sh, f)
    else:
        z = env.arr("z", sh, lo=0)
        r.uncertainty = env.pq.Quantity(z, ub)
        verify(env, r, w, [a * k2 / k1 for a in env.vals(z)], {"ua": 1}, sh, f)
        verify(env, q, v, s, {"ua": 1}, shape, "whole")


@harness("C20", shape=[(3,), (2, 2)])
def iteration(env, shape):
    ua, ub, va, vb, *_ = units(env)
    q, v, s = uq(env, shape, ua)
    n = 0
    w = len(v) // shape[0]
    for i, r in enumerate(q):
        verify(env, r, v[i * w:(i + 1) * w], s[i * w:(i + 1) * w], {"ua": 1}, shape[1:], "item")
        n += 1
    env.check(n == shape[0], "count")


@harness("C20", f=["sum", "mean", "nansum", "nanmean"], sa=SA, how=["method", "function"], thorough={"sa": SA + DEEP[-6:]},
         filt=lambda f, sa, how: not (how == "function" and f.startswith("nan")))
def totals(env, f, sa, how):
    """sum: root of the summed squares; mean: the same over the number of elements"""
    shape, axis = sa
    ua, ub, va, vb, *_ = units(env)
    q, v, s = uq(env, shape, ua / va)
    qs, us = env.snap(q), env.snap(q.uncertainty)
    if how == "function":
        r = getattr(env.np, f)(q, axis) if axis is not None else getattr(env.np, f)(q)
    else:
        r = getattr(q, f)(axis) if axis is not None else getattr(q, f)()
    gs, sh = groups(v, shape, axis)
    ss, _ = groups(s, shape, axis)
    mean = f.endswith("mean")
    verify(env, r, [fsum(g) / (len(g) if mean else 1) for g in gs], None, {"ua": 1, "va": -1}, sh, f, [env.absum(*g) for g in gs],
           [fsum([t * t for t in g]) / (len(g) ** 2 if mean else 1) for g in ss])
    env.unchanged(qs, q, "operand")
    env.unchanged(us, q.uncertainty, "operand-uncertainty")


@harness("C20", f=["nansum", "nanmean"], sa=SA2, nan=[(0,), (1,)], both=[False, True, None])
def nan_totals(env, f, sa, nan, both):
    """elements that are NaN count neither in the value nor in the uncertainty or number of elements"""
    shape, axis = sa
    ua, ub, va, vb, *_ = units(env)
    x, t = env.arr("x", shape), env.arr("sx", shape, lo=0)
    v, s = list(env.vals(x)), list(env.vals(t))
    for i in nan:
        x.reshape(-1)[i] = float("nan")
        if both:
            t.reshape(-1)[i] = float("nan")
        elif both is False:
            t.reshape(-1)[i] = 0.0
    q = env.pq.UncertainQuantity(x, ua, t)
    idx, sh = groups(list(range(len(v))), shape, axis)
    gs = [[i for i in g if i not in nan] for g in idx]
    if any(not g for g in gs):
        env.assume(False)
    r = getattr(q, f)(axis) if axis is not None else getattr(q, f)()
    mean = f == "nanmean"
    verify(env, r, [fsum([v[i] for i in g]) / (len(g) if mean else 1) for g in gs], None, {"ua": 1}, sh, f,
           [env.absum(*[v[i] for i in g]) for g in gs], [fsum([s[i] ** 2 for i in g]) / (len(g) ** 2 if mean else 1) for g in gs])


@harness("C20", f=["max", "min", "nanmax", "nanmin"], sa=SA2, nan=[(), (0,)], thorough={"sa": DEEP},
         filt=lambda f, sa, nan: f.startswith("nan") or not nan)
def extrema(env, f, sa, nan):
    """the extreme element comes with its own uncertainty"""
    shape, axis = sa
    ua, ub, va, vb, *_ = units(env)
    x, t = env.arr("x", shape), env.arr("sx", shape, lo=0)
    v, s = list(env.vals(x)), list(env.vals(t))
    for i in nan:
        x.reshape(-1)[i] = float("nan")
    q = env.pq.UncertainQuantity(x, ua, t)
    idx, sh = groups(list(range(len(v))), shape, axis)
    gs = [[i for i in g if i not in nan] for g in idx]
    if any(not g for g in gs):
        env.assume(False)
    r = getattr(q, f)(axis) if axis is not None else getattr(q, f)()
    env.klass(r, env.pq.UncertainQuantity, f)
    env.same_dims(r, {"ua": 1}, f)
    env.shape(r, sh, f)
    env.same_dims(r.uncertainty, {"ua": 1}, f + ":uncertainty")
    env.shape(r.uncertainty, sh, f + ":uncertainty")
    for g, m, e in zip(gs, env.vals(r), env.vals(r.uncertainty)):
        ok = False
        for i in g:
            env.check(m >= v[i] if f.endswith("max") else m <= v[i], f + ":value")
            if not ok and bool(m == v[i]):
                if bool(e == s[i]):
                    ok = True
        env.check(ok, f + ":uncertainty")


@harness("C20", f=["sum", "mean", "nansum", "nanmean", "max", "min", "nanmax", "nanmin"], axis=[None, 0, 1], to=["uncertain", "certain", "plain-shape"])
def delivered(env, f, axis, to):
    """with an output quantity, whatever its units and uncertainty were, value, units and uncertainty are stored there"""
    ua, ub, va, vb, *_ = units(env)
    q, v, s = uq(env, (2, 2), ua / va)
    qs, us = env.snap(q), env.snap(q.uncertainty)
    want = getattr(q, f)(axis)
    sh = () if axis is None else (2,)
    if to == "plain-shape":
        o = env.pq.UncertainQuantity(env.arr("o", (3,)), ub, env.arr("so", (3,), lo=0))
        env.raises((ValueError, TypeError), lambda: getattr(q, f)(axis, out=o), f + ":wrong-shape")
        env.same_dims(o.uncertainty, env.dims(o), f + ":wrong-shape")
    else:
        o = env.pq.Quantity(env.arr("o", sh), ub) if to == "certain" else env.pq.UncertainQuantity(env.arr("o", sh), ub, env.arr("so", sh, lo=0))
        r = getattr(q, f)(axis, out=o)
        env.check(r is o, f + ":returned")
        env.same_dims(o, {"ua": 1, "va": -1}, f)
        env.shape(o, sh, f)
        env.eq(env.vals(o), env.vals(want), f, scale=[env.absum(*v)] * len(env.vals(want)))
        if to == "uncertain":
            env.same_dims(o.uncertainty, {"ua": 1, "va": -1}, f + ":uncertainty")
            env.shape(o.uncertainty, sh, f + ":uncertainty")
            env.eq(env.vals(o.uncertainty), env.vals(want.uncertainty), f + ":uncertainty", scale=[env.absum(*s)] * len(env.vals(want)))
            env.klass(o.uncertainty, env.pq.Quantity, f + ":uncertainty")
    env.unchanged(qs, q, "operand")
    env.unchanged(us, q.uncertainty, "operand-uncertainty")


@harness("C20", shape=[(), (2,)])
def relative(env, shape):
    """relative uncertainty: plain ratio, the same in all units"""
    ua, ub, va, vb, *_ = units(env)
    q, v, s = uq(env, shape, ua, nonzero=True)
    for r, label in ((q.relative_uncertainty, "rel"), (q.rescale(ub).relative_uncertainty, "rel-converted")):
        env.check(not isinstance(r, env.pq.Quantity), label + ":class")
        env.eq(env.vals(r) if isinstance(r, env.np.ndarray) else [r], [b / a for a, b in zip(v, s)], label)


@harness("C20", kind=["quantity", "unit", "number", "same", "uncertain", "uncertain-same"], shape=[(), (2,), (2, 2)])
def filled(env, kind, shape):
    """filling gives every element the value and the uncertainty (none if it has none) of what it is filled with"""
    ua, ub, va, vb, *_ = units(env)
    q, v, s = uq(env, tuple(shape), ua)
    d = q.uncertainty
    du = env.snap(d)
    y, z = env.real("y"), env.real("z", lo=0)
    U = env.pq.UncertainQuantity
    p, w, t, dims = {"quantity": (env.pq.Quantity(y, ub * va), y, 0, {"ub": 1, "va": 1}), "unit": (ub, 1, 0, {"ub": 1}), "number": (y, y, 0, {"ua": 1}),
                     "same": (env.pq.Quantity(y, ua), y, 0, {"ua": 1}), "uncertain": (U(y, va, z), y, z, {"va": 1}),
                     "uncertain-same": (U(y, ua, z), y, z, {"ua": 1})}[kind]
    q.fill(p)
    n = len(v)
    verify(env, q, [w] * n, [t] * n, dims, tuple(shape), "fill")
    env.unchanged(du, d, "earlier-uncertainty")
    r = q.rescale({"ub": ub, "va": va, "ua": ua}[list(dims)[0]] * (va if len(dims) == 2 else 1))
    verify(env, r, [w] * n, [t] * n, dims, tuple(shape), "fill-rescaled")


STEPS = ["units", "rescale", "*=n", "/=unit", "*=q", "+=u", "-=q", "**=2", "copy", "reverse", "neg", "set", "astype", "mul", "deepcopy", "simplified"]


@harness("C20", first=STEPS, n=[2], thorough={"n": [2, 3]}, max_paths=6000)
def histories(env, first, n):
    """every sequence of steps: value and uncertainty agree with a model of both; what was derived before a step stays as it was"""
    import copy
    pq = env.pq
    ua, ub, va, vb, k1, k2, l1, l2 = units(env)
    size = {"ua": k1, "ub": k2, "va": l1, "qa": 1, "qb": 1}
    U = {"ua": ua, "ub": ub, "va": va, "qa": pq.unit_registry["qa"], "qb": pq.unit_registry["qb"]}
    x, s = env.arr("x", (2,), lo=1, hi=9), env.arr("sx", (2,), lo=0, hi=3)
    q = pq.UncertainQuantity(x, ua, s)
    v, w, d = list(env.vals(x)), [t * t for t in env.vals(s)], {"ua": 1}
    others = []

    def product(e):
        t = 1 * pq.dimensionless
        for m, k in e.items():
            t = t * U[m] ** k
        return t
    for i in range(n):
        o = env.choice("o%d" % i, STEPS) if i else first
        y, t = env.real("y%d" % i, lo=1, hi=9), env.real("t%d" % i, lo=0, hi=3)
        others.append((q, list(v), list(w), dict(d)))
        # what steps give may be a view, the units of which cannot be changed
        q = q.copy()
        if o in ("units", "rescale"):
            # the other unit of the same dimension
            e, f = {}, 1
            for m, k in d.items():
                b = {"ua": "ub", "ub": "ua", "qa": "ua"}.get(m, m)
                e[b] = e.get(b, 0) + k
                f = f * (size[m] / size[b]) ** k
            e = {m: k for m, k in e.items() if k}
            if o == "units":
                q.units = product(e)
            else:
                q = q.rescale(product(e))
            d = e
            v, w = [a * f for a in v], [a * f * f for a in w]
        elif o in ("*=n", "mul"):
            if o == "mul":
                q = q * y
            else:
                q *= y
            v, w = [a * y for a in v], [a * y * y for a in w]
        elif o == "/=unit":
            q /= va
            d = env.mul_dims(d, {"va": -1})
        elif o == "*=q":
            q *= pq.Quantity(y, va)
            v, w = [a * y for a in v], [a * y * y for a in w]
            d = env.mul_dims(d, {"va": 1})
        elif o in ("+=u", "-=q"):
            p = product(d)
            if o == "+=u":
                q += pq.UncertainQuantity(y, p, t)
                v, w = [a + y for a in v], [a + t * t for a in w]
            else:
                q -= pq.Quantity(y, p)
                v = [a - y for a in v]
        elif o == "**=2":
            q **= 2
            w = [4 * a * a * b for a, b in zip(v, w)]
            v = [a * a for a in v]
            d = {m: 2 * k for m, k in d.items()}
        elif o == "reverse":
            q = q[::-1] * 1
            v, w = v[::-1], w[::-1]
        elif o == "neg":
            q = -q
            v = [-a for a in v]
        elif o == "set":
            q.uncertainty = pq.Quantity(env.np.array([t, t]), product(d))
            w = [t * t, t * t]
        elif o == "simplified":
            f, e = 1, {}
            for m, k in d.items():
                f = f * size[m] ** k
                b = {"ua": "qa", "ub": "qa", "va": "qb"}.get(m, m)
                e[b] = e.get(b, 0) + k
            q = q.simplified
            v, w, d = [a * f for a in v], [a * f * f for a in w], {m: k for m, k in e.items() if k}
        else:
            q = {"copy": copy.copy, "deepcopy": copy.deepcopy, "astype": lambda r: r.astype("f8")}[o](q)
    verify(env, q, v, None, d, (2,), "history", scales=[1 + abs(a) for a in v], var=w)
    for r, a, b, e in others:
        verify(env, r, a, None, e, (2,), "bystander", scales=[1 + abs(m) for m in a], var=b)


UF = {"floor": (1, lambda np, q, u, y: np.floor(q)), "ceil": (1, lambda np, q, u, y: np.ceil(q)), "rint": (1, lambda np, q, u, y: np.rint(q)),
      "absolute": (1, lambda np, q, u, y: np.absolute(q)), "fabs": (1, lambda np, q, u, y: np.fabs(q)), "square": (2, lambda np, q, u, y: np.square(q)),
      "sqrt": (0.5, lambda np, q, u, y: np.sqrt(q)), "reciprocal": (-1, lambda np, q, u, y: np.reciprocal(q)), "floordiv": (1, lambda np, q, u, y: q // y),
      "floordiv-unit": (0, lambda np, q, u, y: q // u), "mod": (1, lambda np, q, u, y: q % (y * u)), "maximum": (1, lambda np, q, u, y: np.maximum(q, y * u)),
      "multiply": (2, lambda np, q, u, y: np.multiply(q, y * u))}


@harness("C20", f=list(UF), shape=[(), (2,), (2, 1)], out=[False, True], filt=lambda f, shape, out: not out or (shape == (2,) and f in ("floor", "square", "sqrt", "multiply")))
def ufunc_results(env, f, shape, out):
    """uncertain results of ufuncs: the uncertainty has their shape and units, they can be converted"""
    pq = env.pq
    ua, ub, va, vb, k1, k2, l1, l2 = units(env)
    q, v, s = uq(env, shape, ua, lo=1, hi=9)
    y = env.real("y", lo=1, hi=4)
    e, op = UF[f]
    a, b = env.snap(q), env.snap(q.uncertainty)
    if out:
        o, ov, os = uq(env, shape, vb, "o")
        r = {"multiply": lambda: env.np.multiply(q, y * ua, out=o)}.get(f, lambda: getattr(env.np, f)(q, out=o))()
        env.check(r is o, "same-object")
    else:
        r = op(env.np, q, ua, y)
    env.klass(r, pq.UncertainQuantity, f)
    d = {"ua": e} if e else {}
    for t, w in ((r, d), (r.rescale(ub ** e) if e else r.rescale("percent"), {"ub": e} if e else {"percent": 1}), (r * va, dict(d, va=1))):
        env.same_dims(t, w, f)
        env.shape(t, shape, f)
        env.same_dims(t.uncertainty, w, f + ":uncertainty")
        env.shape(t.uncertainty, shape, f + ":uncertainty")
        env.klass(t.uncertainty, pq.Quantity, f + ":uncertainty")
    env.unchanged(a, q, "operand")
    env.unchanged(b, q.uncertainty, "operand-uncertainty")


@harness("C20", how=["imul", "itruediv", "ipow", "units", "imul-number", "iadd", "isub", "element", "wrong-element"], shape=[(), (2,)], made=["given", "set", "slice", "copied"],
         filt=lambda how, shape, made: not (shape == () and (made == "slice" or "element" in how)))
def uncertainty_in_place(env, how, shape, made):
    """the uncertainty changed in place: in the units of the value, or refused and as it was"""
    pq = env.pq
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua, ub = env.unit("ua", k1 * A), env.unit("ub", k2 * A)
    big = (3,) if made == "slice" else shape
    x, y = env.arr("x", big, pos=True), env.arr("y", big, pos=True)
    given = pq.Quantity(y, ua)
    q = pq.UncertainQuantity(x, ua, given)
    if made == "set":
        q = pq.UncertainQuantity(x, ua)
        q.uncertainty = given
    elif made == "slice":
        q = q[1:]
    elif made == "copied":
        q = q.copy()
    s, u = env.snap(q), list(env.vals(q.uncertainty))
    t = env.real("t", pos=True)
    z = env.real("z", pos=True)

    def go():
        if how == "imul":
            q.uncertainty *= z * B
        elif how == "itruediv":
            q.uncertainty /= B
        elif how == "ipow":
            q.uncertainty **= 2
        elif how == "units":
            q.uncertainty.units = ub
        elif how == "imul-number":
            q.uncertainty *= z
        elif how == "iadd":
            q.uncertainty += t * ub
        elif how == "isub":
            q.uncertainty -= t * ub
        elif how == "element":
            q.uncertainty[0] = t * ub
        elif how == "wrong-element":
            q.uncertainty[0] = t * B
    want = {"imul-number": [i * z for i in u], "iadd": [i + t * k2 / k1 for i in u], "isub": [i - t * k2 / k1 for i in u], "element": [t * k2 / k1] + u[1:]}.get(how)
    st, e = env.attempt(go)
    r = q.uncertainty
    env.klass(r, pq.Quantity, how)
    env.shape(r, q.shape, how)
    env.unchanged(s, q, how + ":value")
    if how == "units" and st != "exc":
        # wherever it is in, it is the same uncertainty
        env.eq(env.vals(r.rescale(ua)), u, how)
        env.eq(env.vals(q.relative_uncertainty), [i / j for i, j in zip(u, env.vals(q))], how + ":relative")
        return
    env.same_dims(r, {"ua": 1}, how)
    if want is None:
        env.check(st == "exc" and isinstance(e, ValueError), how + ":refused")
        env.eq(env.vals(r), u, how + ":left-alone")
    else:
        env.check(st != "exc", how + ":accepted")
        env.eq(env.vals(r), want, how, scale=[abs(i) + abs(t) * k2 / k1 for i in u] if how == "isub" else None)
    env.eq(env.vals(q.relative_uncertainty), [i / j for i, j in zip(env.vals(r), env.vals(q))], how + ":relative")


@harness("C20", then=["units", "imul-unit", "imul", "element", "scaled"], shape=[(), (2,)], made=["given", "set", "set-other"], filt=lambda then, shape, made: shape == (2,) or then != "element")
def uncertainty_kept(env, then, shape, made):
    """the quantity that an uncertainty was given by may be changed afterwards: the units of the uncertainty are those of the value, and so is its size"""
    pq = env.pq
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua, ub = env.unit("ua", k1 * A), env.unit("ub", k2 * A)
    y = env.arr("y", shape, pos=True)
    g = pq.Quantity(y, ub if made == "set-other" else ua)
    f = k2 / k1 if made == "set-other" else 1
    w = [i * f for i in env.vals(g)]
    x = env.arr("x", shape, pos=True)
    if made == "given":
        q = pq.UncertainQuantity(x, ua, g)
    else:
        q = pq.UncertainQuantity(x, ua)
        q.uncertainty = g
    z = env.real("z", pos=True)
    if then == "units":
        g.units = ua if made == "set-other" else ub
    elif then == "imul-unit":
        g *= z * B
    elif then == "imul":
        g *= z
    elif then == "element":
        g[0] = z * ub
    elif then == "scaled":
        g.magnitude[...] = z
    r = q.uncertainty
    env.same_dims(r, {"ua": 1}, then)
    env.eq(env.vals(r), w, then)
    p = q.rescale(ub)
    env.eq(env.vals(p.uncertainty), [i * k1 / k2 for i in w], then + ":rescale")


indep.register("C20")
