"""C11 selecting and assigning elements respects units"""
from symq import independent as indep
from symq.harness import harness

KEYS1 = ["int", "neg", "slice", "step", "rev", "mask", "fancy", "ellipsis", "newaxis", "empty", "npint", "listneg", "nomask"]
KEYS2 = ["row", "elem", "col", "sub", "mask2", "rowneg", "ell-elem", "fancy2", "diag"]


def key_of(env, k):
    np = env.np
    return {"int": 1, "neg": -1, "slice": slice(0, 2), "step": slice(0, 3, 2), "rev": slice(None, None, -1),
            "mask": np.array([True, False, True]), "nomask": np.array([False, False, False]), "fancy": [2, 0], "ellipsis": Ellipsis,
            "newaxis": (None, slice(1, None)), "empty": slice(2, 2), "npint": np.int64(2), "listneg": [-1],
            "row": 0, "elem": (1, 0), "col": (slice(None), 1), "sub": (slice(0, 1), slice(0, 2)), "rowneg": -1,
            "mask2": np.array([[True, False], [False, True]]), "ell-elem": (Ellipsis, 0), "fancy2": ([1, 0], [0, 1]),
            "diag": ([0, 1], [0, 1])}[k]


def shape_of(k):
    return (3,) if k in KEYS1 else (2, 2)


def index(env, k):
    """oracle: which elements, in which shape (plain integers)"""
    import numpy as rnp
    sh = shape_of(k)
    n = 1
    for d in sh:
        n *= d
    a = rnp.arange(n).reshape(sh)
    r = rnp.asarray(rnp.ndarray.__getitem__(a, key_of(env, k)))
    return [int(i) for i in r.reshape(-1)], r.shape


def units(env):
    A, B = env.bases()
    k1, k2, l1 = [env.real(n, pos=True) for n in ("k1", "k2", "l1")]
    env.k = (k1, k2, l1)
    return env.unit("ua", k1 * A), env.unit("ub", k2 * A), env.unit("va", l1 * B)


@harness("C11", k=KEYS1 + KEYS2)
def getting(env, k):
    """selected magnitudes in the selected shape, with the same units; the original is not changed"""
    ua, ub, va = units(env)
    e = env.int("e", -3, 3)
    sh = shape_of(k)
    x = env.arr("x", sh)
    v = list(env.vals(x))
    q = env.pq.Quantity(x, ua ** e / va)
    s = env.snap(q)
    r = q[key_of(env, k)]
    idx, rs = index(env, k)
    env.klass(r, env.pq.Quantity, "get")
    env.same_dims(r, {"ua": e, "va": -1}, "get")
    env.shape(r, rs, "get")
    env.eq(env.vals(r), [v[i] for i in idx], "get")
    env.unchanged(s, q, "original")


@harness("C11", k=KEYS1 + KEYS2, dt=["f4", "c16", "c8", "i8", "i2", "u1"])
def types(env, k, dt):
    """selected elements are numbers of the original's type"""
    ua, ub, va = units(env)
    q = env.pq.Quantity(env.arr("x", shape_of(k), dt, lo=0, hi=90) if dt[0] in "iu" else env.arr("x", shape_of(k), dt), ua / va)
    v = list(env.vals(q))
    r = q[key_of(env, k)]
    idx, rs = index(env, k)
    env.klass(r, env.pq.Quantity, "get")
    if idx:
        env.dtype_is(r, dt, "get")
    env.same_dims(r, {"ua": 1, "va": -1}, "get")
    env.shape(r, rs, "get")
    env.eq(env.vals(r), [v[i] for i in idx], "get")
    for i in q:
        env.klass(i, env.pq.Quantity, "iterate")
        env.dtype_is(i, dt, "iterate")
    env.dtype_is(q, dt, "original")


@harness("C11", sh=[(3,), (2, 2)])
def iterating(env, sh):
    """iteration and tolist give quantities with the units; nested for more dimensions"""
    ua, ub, va = units(env)
    x = env.arr("x", sh)
    v = list(env.vals(x))
    q = env.pq.Quantity(x, ua * va)
    n = 0
    for i, r in enumerate(q):
        env.klass(r, env.pq.Quantity, "iter")
        env.same_dims(r, {"ua": 1, "va": 1}, "iter")
        m = len(v) // sh[0]
        env.eq(env.vals(r), v[i * m:(i + 1) * m], "iter")
        n += 1
    env.check(n == sh[0], "iter:count")

    def walk(l, lev):
        if lev == len(sh):
            env.klass(l, env.pq.Quantity, "tolist")
            env.same_dims(l, {"ua": 1, "va": 1}, "tolist")
            env.shape(l, (), "tolist")
            return env.vals(l)
        env.check(isinstance(l, list) and len(l) == sh[lev], "tolist:nesting")
        return [t for i in l for t in walk(i, lev + 1)]
    env.eq(walk(q.tolist(), 0), v, "tolist")
    z = env.pq.Quantity(env.real("z"), ua)
    r = z.tolist()
    env.is_quantity(r, "tolist0")
    env.same_dims(r, {"ua": 1}, "tolist0")


@harness("C11", k=KEYS1 + KEYS2, form=["scalar", "one", "full", "flat"], dt=["c16", "f4", "i8"], other=[False, True], filt=lambda k, form, dt, other: not (other and dt != "c16"))
def setting_types(env, k, form, dt, other):
    """complex, single and whole numbers, one or as many as are selected: the elements are the values, all of them"""
    ua, ub, va = units(env)
    k1, k2, _ = env.k
    np = env.np
    kw = dict(lo=1, hi=90) if dt == "i8" else {}
    q = env.pq.Quantity(env.arr("x", shape_of(k), dt, **kw), ua)
    idx, rs = index(env, k)
    n = len(idx)
    if form == "full" and not n or form == "one" and not n:
        env.check(True, "nothing-selected")
        return
    y = env.arr("y", {"scalar": (), "one": (1,), "full": rs, "flat": rs[-1:]}[form], dt, **kw)
    p = env.pq.Quantity(y, ub if other else ua)

    def halves(t):
        t = np.array(t)
        return [list(env.vals(np.real(t))), list(env.vals(np.imag(t)))] if dt == "c16" else [list(env.vals(t))]
    v, w = halves(q.magnitude), halves(y)
    if form == "one" and len(rs) == 0:
        env.check(True, "numpy-decides")
        return
    q[key_of(env, k)] = p
    env.same_dims(q, {"ua": 1}, "set")
    env.dtype_is(q, dt, "set")
    for a, b, got in zip(v, w, halves(q.magnitude)):
        want = list(a)
        for j, i in enumerate(idx):
            t = b[j % len(b)]
            want[i] = t * k2 / k1 if other else t
        env.eq(got, want, "set")


@harness("C11", k=KEYS1 + KEYS2, val=["scalar", "full", "unit", "owned", "own-units", "owned-scalar"])
def setting(env, k, val):
    """the assigned quantity is converted; exactly the selected elements change"""
    ua, ub, va = units(env)
    k1, k2, _ = env.k
    sh = shape_of(k)
    x = env.arr("x", sh)
    v = list(env.vals(x))
    q = env.pq.Quantity(x, ua * va)
    idx, rs = index(env, k)
    if val in ("full", "owned", "own-units") and idx:
        y = env.arr("y", rs)
        p, w = env.pq.Quantity(y, ub * va), list(env.vals(y))
        if val == "own-units":
            p = env.pq.Quantity(y, ua * va)
        if val != "full":
            p = p.copy()
    elif val == "unit":
        q = env.pq.Quantity(x, ua)
        p, w = ub, [1] * len(idx)
    else:
        z = env.real("z")
        p, w = env.pq.Quantity(z, va * ub), [z] * len(idx)
        if val == "owned-scalar":
            p = p.copy()
    s = env.snap(p)
    d = env.dims(q)
    q[key_of(env, k)] = p
    want = list(v)
    for i, t in zip(idx, w):
        want[i] = t if val == "own-units" else t * k2 / k1
    env.same_dims(q, d, "set")
    env.shape(q, sh, "set")
    env.eq(env.vals(q), want, "set")
    env.unchanged(s, p, "value")


@harness("C11", k=["int", "mask", "elem", "slice", "ellipsis"], bad=["dim", "number", "array", "power", "zero", "shape"])
def refused(env, k, bad):
    """other dimensions and plain numbers are refused and no element changes"""
    ua, ub, va = units(env)
    q = env.pq.Quantity(env.arr("x", shape_of(k)), ua)
    s = env.snap(q)
    z = env.real("z")
    p = {"dim": env.pq.Quantity(z, va), "number": z, "array": env.arr("y", (1,)), "power": env.pq.Quantity(z, ua ** 2), "zero": 0,
         "shape": env.pq.Quantity(env.arr("w", (5,)), ub)}[bad]

    def go():
        q[key_of(env, k)] = p
    env.raises(ValueError, go, bad)
    env.unchanged(s, q, "array")


NONE = {"slice": slice(0, 0), "list": [], "mask": [False, False, False], "array": "array"}


@harness("C11", k=list(NONE), what=["none", "one", "quantity0", "number", "same"], via=["set", "put"], filt=lambda k, what, via: via == "set" or k == "list")
def no_elements(env, k, what, via):
    """an assignment to no elements changes nothing, and is refused like any other if the value has another dimension"""
    ua, ub, va = units(env)
    q = env.pq.Quantity(env.arr("x", (3,)), ua)
    s = env.snap(q)
    key = env.np.array([], dtype="i8") if k == "array" else NONE[k]
    p = {"none": lambda: env.pq.Quantity(env.arr("y", (0,)), va), "one": lambda: env.pq.Quantity(env.arr("y", (1,)), va), "quantity0": lambda: env.pq.Quantity(env.real("y"), va),
         "number": lambda: env.real("y"), "same": lambda: env.pq.Quantity(env.arr("y", (0,)), ub)}[what]()

    def go():
        if via == "put":
            q.put(key, p)
        else:
            q[key] = p
    if what == "same":
        go()
    else:
        env.raises(ValueError, go, what)
    env.unchanged(s, q, "array")


@harness("C11", scaled=[False, True], val=["number", "array", "q"])
def dimensionless(env, scaled, val):
    """plain numbers are accepted for dimensionless arrays, also scaled ones (by value)"""
    k1 = env.real("k1", pos=True)
    u = env.unit("ua", k1 * env.pq.dimensionless) if scaled else env.pq.dimensionless
    x = env.arr("x", (3,))
    v = list(env.vals(x))
    q = env.pq.Quantity(x, u)
    z = env.real("z")
    y = env.arr("y", (2,))
    p, w = {"number": (z, [z, z]), "array": (y, list(env.vals(y))), "q": (env.pq.Quantity(y), list(env.vals(y)))}[val]
    q[0:2] = p
    f = k1 if scaled else 1
    env.eq(env.vals(q), [w[0] / f, w[1] / f, v[2]], "set")
    env.same_dims(q, {"ua": 1} if scaled else {}, "set")


PUT = [([0, 2], 2), ([1], 1), ([2, 0, 1], 3), ([-1], 1)]


@harness("C11", ind=PUT, sh=[(3,), (2, 2)], other=[False, True], owned=[False, True])
def put(env, ind, sh, other, owned):
    """put converts and changes exactly the listed (flat) elements"""
    ua, ub, va = units(env)
    k1, k2, _ = env.k
    idx, n = ind
    x = env.arr("x", sh)
    v = list(env.vals(x))
    q = env.pq.Quantity(x, ua)
    y = env.arr("y", (n,))
    w = list(env.vals(y))
    p = env.pq.Quantity(y, ub if other else ua)
    if owned:
        p = p.copy()
    s = env.snap(p)
    q.put(idx, p)
    want = list(v)
    for i, t in zip(idx, w):
        want[i] = t * k2 / k1 if other else t
    env.same_dims(q, {"ua": 1}, "put")
    env.eq(env.vals(q), want, "put")
    env.unchanged(s, p, "value")


@harness("C11", ind=PUT, form=["scalar", "short", "block", "long", "list", "tuple"], other=[False, True], sh=[(3,), (2, 2)])
def put_form(env, ind, form, other, sh):
    """values of any shape: repeated, or left over, the way numpy does"""
    ua, ub, va = units(env)
    k1, k2, _ = env.k
    idx, n = ind
    x = env.arr("x", sh)
    want = list(env.vals(x))
    q = env.pq.Quantity(x, ua)
    y = env.arr("y", {"scalar": (), "short": (1,), "block": (1, n), "long": (n + 2,), "list": (n,), "tuple": (n,)}[form])
    w = list(env.vals(y))
    p = env.pq.Quantity(y, ub if other else ua)
    if form in ("list", "tuple"):
        idx = tuple(idx) if form == "tuple" else env.np.array(idx, dtype="i8")
    q.put(idx, p)
    for j, i in enumerate(idx):
        t = w[j % len(w)]
        want[int(i)] = t * k2 / k1 if other else t
    env.same_dims(q, {"ua": 1}, "put")
    env.eq(env.vals(q), want, "put")


@harness("C11", mode=["wrap", "clip", "raise"], scalar=[False, True])
def put_mode(env, mode, scalar):
    """positions outside: wrapped, clipped or refused as numpy does"""
    ua, ub, va = units(env)
    k1, k2, _ = env.k
    x = env.arr("x", (3,))
    v = list(env.vals(x))
    q = env.pq.Quantity(x, ua)
    s = env.snap(q)
    p = env.pq.Quantity(env.arr("y", () if scalar else (2,)), ub)
    w = (list(env.vals(p)) * 2)[:2]
    if mode == "raise":
        env.raises(IndexError, lambda: q.put([0, 4], p, mode=mode), "put")
        return
    q.put([0, 4], p, mode=mode)
    env.eq(env.vals(q), [w[0] * k2 / k1, w[1] * k2 / k1, v[2]] if mode == "wrap" else [w[0] * k2 / k1, v[1], w[1] * k2 / k1], "put")
    env.same_dims(q, {"ua": 1}, "put")


@harness("C11", bad=["dim", "number", "index"])
def put_refused(env, bad):
    ua, ub, va = units(env)
    q = env.pq.Quantity(env.arr("x", (3,)), ua)
    s = env.snap(q)
    z = env.real("z")
    if bad == "index":
        env.raises(IndexError, lambda: q.put([7], env.pq.Quantity(z, ub)), "put-index")
    else:
        p = {"dim": env.pq.Quantity(z, va), "number": z}[bad]
        env.raises(ValueError, lambda: q.put([0], p), "put-" + bad)
    env.unchanged(s, q, "array")


@harness("C11", val=["same", "other", "refused"])
def searchsorted(env, val):
    """searchsorted compares values of the same units and gives plain positions"""
    ua, ub, va = units(env)
    x = env.arr("x", (3,))
    v = env.vals(x)
    env.assume(v[0] <= v[1])
    env.assume(v[1] <= v[2])
    q = env.pq.Quantity(x, ua)
    z = env.real("z")
    if val == "refused":
        env.raises(ValueError, lambda: q.searchsorted(env.pq.Quantity(z, va)), "searchsorted")
        env.raises(ValueError, lambda: q.searchsorted(z), "searchsorted-number")
        return
    if val == "other":
        st, r = env.attempt(q.searchsorted, env.pq.Quantity(z, ub))
        if st == "exc":
            env.check(isinstance(r, ValueError), "searchsorted:wrong-exception")
            return
        z = z * env.k[1] / env.k[0]
    else:
        r = q.searchsorted(env.pq.Quantity(z, ua))
    env.check(not isinstance(r, env.pq.Quantity), "searchsorted:is-a-quantity")
    i = int(r)
    for n in range(3):
        env.check(v[n] < z if n < i else v[n] >= z, "searchsorted")


@harness("C11", side=["left", "right", None], shape=[(), (1,), (2,), (2, 1)], kw=[True, False], un=[False, True], filt=lambda side, shape, kw, un: side is not None or not kw)
def searchsorted_many(env, side, shape, kw, un):
    """several values at once, either side"""
    ua, ub, va = units(env)
    x = env.arr("x", (2,))
    v = list(env.vals(x))
    env.assume(v[0] <= v[1])
    u = ua * va ** -1
    q = env.pq.Quantity(x, u) if not un else env.pq.UncertainQuantity(x, u, env.arr("sx", (2,), pos=True))
    z = env.arr("z", tuple(shape))
    p = env.pq.Quantity(z, u)
    s, t = env.snap(q), env.snap(p)
    r = q.searchsorted(p) if side is None else q.searchsorted(values=p, side=side) if kw else q.searchsorted(p, side)
    env.check(not isinstance(r, env.pq.Quantity), "searchsorted:is-a-quantity")
    env.shape(r, tuple(shape), "searchsorted")
    for i, w in zip([int(i) for i in env.vals(env.np.asarray(r))], env.vals(z)):
        for n in range(2):
            if side == "right":
                env.check(v[n] <= w if n < i else v[n] > w, "searchsorted-right")
            else:
                env.check(v[n] < w if n < i else v[n] >= w, "searchsorted")
    env.unchanged(s, q, "array")
    env.unchanged(t, p, "values")


@harness("C11", view=["slice", "T", "rev"])
def through_views(env, view):
    """assigning into a view reaches the owner, converted once"""
    ua, ub, va = units(env)
    k1, k2, _ = env.k
    x = env.arr("x", (2, 2))
    v = list(env.vals(x))
    q = env.pq.Quantity(x, ua)
    z = env.real("z")
    w = {"slice": q[1], "T": q.T, "rev": q[::-1]}[view]
    p = env.pq.Quantity(z, ub)
    if view == "slice":
        w[0] = p
        i = 2
    elif view == "T":
        w[0, 1] = p
        i = 2
    else:
        w[0, 1] = p
        i = 3
    want = list(v)
    want[i] = z * k2 / k1
    env.eq(env.vals(q), want, "owner")
    env.same_dims(q, {"ua": 1}, "owner")
    env.same_dims(w, {"ua": 1}, "view")


@harness("C11", n=[2], thorough={"n": [2, 3]})
def histories(env, n):
    """every sequence of n assignments agrees with a model array in base units"""
    ua, ub, va = units(env)
    k1, k2, _ = env.k
    x = env.arr("x", (3,))
    q = env.pq.Quantity(x, ua)
    model = [t * k1 for t in env.vals(x)]
    for i in range(n):
        k = env.choice("key%d" % i, ["int", "slice", "mask", "rev", "put", "units", "swap"])
        z = env.arr("z%d" % i, (3,))
        w = env.vals(z)
        cur = env.choice("u%d" % i, [0, 1])
        u, f = (ua, k1) if cur == 0 else (ub, k2)
        if k == "put":
            q.put([2, 1], env.pq.Quantity(z, u)[:2])
            model[2], model[1] = w[0] * f, w[1] * f
        elif k == "units":
            q.units = u
        elif k == "swap":
            a, b = q[0] * 1, q[2] * 1
            q[0], q[2] = b, a
            model[0], model[2] = model[2], model[0]
        else:
            idx, rs = index(env, k)
            q[key_of(env, k)] = env.pq.Quantity(z, u)[:len(idx)] if rs else env.pq.Quantity(z, u)[0]
            for j, t in zip(idx, w):
                model[j] = t * f
    f = k1 if "ua" in env.dims(q) else k2
    env.check(set(env.dims(q)) in ({"ua"}, {"ub"}), "history:units")
    env.eq(env.vals(q), [t / f for t in model], "history")


indep.register("C11")
from symq import overlap  # noqa: E402,F401
