"""C30 rearranging elements keeps the elements and their units"""
from symq import independent as indep
from symq.harness import harness


def units(env):
    A, B = env.bases()
    k1, k2, l1 = [env.real(n, pos=True) for n in ("k1", "k2", "l1")]
    env.k = (k1, k2, l1)
    return env.unit("ua", k1 * A), env.unit("ub", k2 * A), env.unit("va", l1 * B)


# name -> (shape, function of (np, array)); the same function of an array of positions is the oracle
VIEWS = {
    "reshape": ((2, 3), lambda np, a: a.reshape(3, 2)), "reshape-np": ((2, 3), lambda np, a: np.reshape(a, (6,))),
    "reshape-F": ((2, 3), lambda np, a: a.reshape((3, 2), order="A")),
    "ravel": ((2, 2), lambda np, a: a.ravel()), "ravel-np": ((2, 2), lambda np, a: np.ravel(a)),
    "T": ((2, 3), lambda np, a: a.T), "transpose": ((2, 1, 3), lambda np, a: a.transpose(2, 0, 1)),
    "transpose-np": ((2, 3), lambda np, a: np.transpose(a)), "swapaxes": ((2, 1, 3), lambda np, a: a.swapaxes(0, 2)),
    "moveaxis": ((2, 1, 3), lambda np, a: np.moveaxis(a, 0, -1)), "expand_dims": ((3,), lambda np, a: np.expand_dims(a, 1)),
    "squeeze": ((1, 3, 1), lambda np, a: a.squeeze()), "squeeze0": ((1, 3, 1), lambda np, a: a.squeeze(0)),
    "squeeze-np": ((1, 3, 1), lambda np, a: np.squeeze(a, axis=2)), "squeeze1": ((1, 1), lambda np, a: a.squeeze()),
    "flip": ((2, 2), lambda np, a: np.flip(a)), "fliplr": ((2, 2), lambda np, a: np.fliplr(a)),
    "rot90": ((2, 3), lambda np, a: np.rot90(a)), "view": ((3,), lambda np, a: a.view()),
    "atleast_2d": ((3,), lambda np, a: np.atleast_2d(a)), "newaxis": ((2,), lambda np, a: a[:, None]),
    "split": ((4,), lambda np, a: np.split(a, 2)[1]),
}
COPIES = {
    "flatten": ((2, 2), lambda np, a: a.flatten()), "flatten-F": ((2, 3), lambda np, a: a.flatten("F")),
    "ravel-F": ((2, 3), lambda np, a: a.ravel("F")),
    "take": ((3,), lambda np, a: a.take([2, 0, 0])), "take-axis": ((2, 3), lambda np, a: a.take([2, 0], axis=1)),
    "take-np": ((2, 3), lambda np, a: np.take(a, [1, 0], 0)), "take-flat": ((2, 3), lambda np, a: np.take(a, [5, 1])),
    "take-wrap": ((3,), lambda np, a: a.take([4, -5], mode="wrap")),
    "compress": ((3,), lambda np, a: a.compress([True, False, True])),
    "compress-axis": ((2, 3), lambda np, a: a.compress([False, True], axis=0)),
    "repeat": ((2, 2), lambda np, a: a.repeat(2)), "repeat-axis": ((2, 2), lambda np, a: a.repeat([2, 1], axis=1)),
    "repeat-np": ((3,), lambda np, a: np.repeat(a, [1, 0, 2])),
    "roll": ((3,), lambda np, a: np.roll(a, 1)), "roll-axis": ((2, 3), lambda np, a: np.roll(a, 1, axis=1)),
    "tile": ((2,), lambda np, a: np.tile(a, 2)), "copy": ((2, 2), lambda np, a: a.copy()),
    "take_along": ((2, 2), lambda np, a: np.take_along_axis(a, np.array([[1], [0]]), 1)),
}


def positions(op):
    import numpy as rnp
    sh, f = op
    n = 1
    for d in sh:
        n *= d
    r = rnp.asarray(f(rnp, rnp.arange(n).reshape(sh)))
    return [int(i) for i in r.reshape(-1)], r.shape


def build(env, sh, e, d):
    x = env.arr("x", sh, d)
    v = list(env.vals(x))
    return env.pq.Quantity(x, env.ua ** e / env.va), v


@harness("C30", form=sorted(VIEWS), d=["f8", "f4"], filt=lambda form, d: d == "f8" or form in ("T", "squeeze", "ravel"))
def sharing(env, form, d):
    """forms without a copy: the selected magnitudes in the same units; written through to the original; units protected"""
    ua, ub, va = env.ua, env.ub, env.va = units(env)
    k1, k2, l1 = env.k
    e = env.int("e", -3, 3, nonzero=True)
    sh, f = VIEWS[form]
    q, v = build(env, sh, e, d)
    s = env.snap(q)
    idx, rs = positions(VIEWS[form])
    r = f(env.np, q)
    want = {"ua": e, "va": -1}
    env.klass(r, env.pq.Quantity, form)
    env.same_dims(r, want, form)
    env.shape(r, rs, form)
    env.dtype_is(r, d, form)
    env.eq(env.vals(r), [v[i] for i in idx], form)
    env.unchanged(s, q, "original")
    t = env.snap(r)

    def assign():
        r.units = ub ** e / va

    def times():
        w = r
        w *= va
    env.raises(ValueError, assign, "assign")
    env.raises(ValueError, times, "times")
    env.unchanged(s, q, "original-after")
    env.unchanged(t, r, "view-after")
    y = env.real("y")
    r[(0,) * len(rs)] = env.pq.Quantity(y, ub ** e / va)
    new = list(v)
    new[idx[0]] = y * (k2 / k1) ** e
    env.eq(env.vals(q), new, "written-through")
    env.same_dims(q, want, "written-through")
    # the other way round
    z = env.real("z")
    w = r
    w *= z
    env.eq(env.vals(q), [t * z if i in idx else t for i, t in enumerate(new)], "scaled-through")
    env.eq(env.vals(r), [new[i] * z for i in idx], "scaled-through")
    q *= va ** 2
    env.same_dims(q, {"ua": e, "va": 1}, "owner-units")


@harness("C30", form=sorted(COPIES), d=["f8", "f4", "c16"], filt=lambda form, d: d == "f8" or form in ("take", "flatten", "repeat", "roll", "copy"))
def copying(env, form, d):
    """forms with a copy: the selected magnitudes in the same units, independent of the original"""
    ua, ub, va = env.ua, env.ub, env.va = units(env)
    k1, k2, l1 = env.k
    e = env.int("e", -3, 3, nonzero=True)
    sh, f = COPIES[form]
    q, v = build(env, sh, e, d)
    s = env.snap(q)
    idx, rs = positions(COPIES[form])
    r = f(env.np, q)
    want = {"ua": e, "va": -1}
    env.klass(r, env.pq.Quantity, form)
    env.same_dims(r, want, form)
    env.shape(r, rs, form)
    env.dtype_is(r, d, form)
    env.eq(env.vals(r), [v[i] for i in idx], form)
    env.unchanged(s, q, "original")
    z = env.real("z")
    t = env.snap(r)
    q *= z
    env.unchanged(t, r, "copy-after-original")
    q *= va
    env.unchanged(t, r, "copy-after-units")
    s = env.snap(q)
    r += env.pq.Quantity(z, ua ** e / va)
    env.unchanged(s, q, "original-after-copy")
    env.eq(env.vals(r), [v[i] + z for i in idx], "copy-changed", scale=[env.absum(v[i], z) for i in idx])


@harness("C30", how=["np.sort", "sort", "sort-axis", "np.sort-none", "argsort"], e=[1, -2])
def sorting(env, how, e):
    """sorted magnitudes in the same units; indices are plain; sort() sorts in place"""
    ua, ub, va = env.ua, env.ub, env.va = units(env)
    sh = {"sort-axis": (2, 2), "np.sort-none": (1, 3)}.get(how, (3,))
    x = env.arr("x", sh)
    q = env.pq.Quantity(x, ua ** e)
    v = list(env.vals(x))
    s = env.snap(q)
    if how == "argsort":
        r = q.argsort()
        env.check(not isinstance(r, env.pq.Quantity), "indices")
        idx = [int(i) for i in env.vals(r)]
        env.check(sorted(idx) == [0, 1, 2], "permutation")
        o = [v[i] for i in idx]
        env.check(o[0] <= o[1], "order")
        env.check(o[1] <= o[2], "order")
        env.unchanged(s, q, "original")
        return
    if how.startswith("np.sort"):
        r = env.np.sort(q, **({"axis": None} if how.endswith("none") else {}))
        env.unchanged(s, q, "original")
    else:
        q.sort(**({"axis": 0} if how == "sort-axis" else {}))
        r = q
    env.klass(r, env.pq.Quantity, how)
    env.same_dims(r, {"ua": e}, how)
    groups = [[0, 2], [1, 3]] if how == "sort-axis" else [[0, 1, 2]]
    env.shape(r, sh if how != "np.sort-none" else (3,), how)
    o = env.vals(r)
    for g in groups:
        a = [v[i] for i in g]
        b = [o[i] for i in g]
        for x1, x2 in zip(b, b[1:]):
            env.check(x1 <= x2, "order")
        # the same elements: equal power sums
        env.eq(sum(b[1:], b[0]), sum(a[1:], a[0]), "elements", scale=env.absum(*a))
        sq = [t * t for t in b]
        sa = [t * t for t in a]
        env.eq(sum(sq[1:], sq[0]), sum(sa[1:], sa[0]), "elements", scale=env.absum(*sa))
        if len(g) == 3:
            cu = [t * t * t for t in b]
            ca = [t * t * t for t in a]
            env.eq(sum(cu[1:], cu[0]), sum(ca[1:], ca[0]), "elements", scale=env.absum(*ca))


@harness("C30", d=["f8", "c16"], what=["real", "imag"], kind=["quantity", "number", "arr", "unit", "bad", "bad-number"],
         filt=lambda d, what, kind: d == "c16" or what == "real")
def parts(env, d, what, kind):
    """real and imaginary parts carry the units; what is assigned to them is converted, other dimensions are refused"""
    ua, ub, va = env.ua, env.ub, env.va = units(env)
    k1, k2, l1 = env.k
    e = 1 if kind == "unit" else 2
    x = env.arr("x", (2,), d)
    v = list(env.vals(x))
    q = env.pq.Quantity(x, ua ** e)
    s = env.snap(q)
    get = (lambda t: t.real) if what == "real" else (lambda t: t.imag)
    other = (lambda t: t.imag) if what == "real" else (lambda t: t.real)
    r = get(q)
    env.klass(r, env.pq.Quantity, what)
    env.same_dims(r, {"ua": e}, what)
    env.shape(r, (2,), what)
    env.eq(env.vals(r), [get(t) for t in v], what)
    env.unchanged(s, q, "original")
    y = env.arr("y", (2,))
    z = env.real("z")
    c = (k2 / k1) ** e
    p, w = {"quantity": (env.pq.Quantity(y, ub ** e), [t * c for t in env.vals(y)]), "number": (z, [z, z]),
            "arr": (y, list(env.vals(y))), "unit": (ub, [c, c]), "bad": (env.pq.Quantity(y, va), None),
            "bad-number": (env.pq.Quantity(y), None)}[kind]

    def go():
        if what == "real":
            q.real = p
        else:
            q.imag = p
    if w is None:
        env.raises(ValueError, go, "set")
        env.unchanged(s, q, "refused")
        return
    go()
    env.same_dims(q, {"ua": e}, "set")
    env.dtype_is(q, d, "set")
    env.eq([get(t) for t in env.vals(q)], w, "set")
    env.eq([other(t) for t in env.vals(q)], [other(t) for t in v], "other-part")


@harness("C30", kind=["quantity", "unit", "number", "same", "int", "uncertain"], sh=[(), (2,), (2, 2)])
def filling(env, kind, sh):
    """fill gives every element the value, in its units"""
    ua, ub, va = env.ua, env.ub, env.va = units(env)
    x = env.arr("x", sh)
    q = env.pq.Quantity(x, ua)
    n = len(env.vals(x))
    y = env.real("y")
    d = q.dimensionality
    p, w, dims = {"quantity": (env.pq.Quantity(y, ub * va), y, {"ub": 1, "va": 1}), "unit": (ub, 1, {"ub": 1}),
                  "number": (y, y, {"ua": 1}), "same": (env.pq.Quantity(y, ua), y, {"ua": 1}), "int": (3, 3, {"ua": 1}),
                  "uncertain": (env.pq.UncertainQuantity(y, ub, 0.5), y, {"ub": 1})}[kind]
    s = env.snap(p) if hasattr(p, "dimensionality") else None
    q.fill(p)
    env.klass(q, env.pq.Quantity, "fill")
    env.same_dims(q, dims, "fill")
    env.shape(q, sh, "fill")
    env.eq(env.vals(q), [w] * n, "fill")
    env.same_dims(d, {"ua": 1}, "earlier-units")
    if s:
        env.unchanged(s, p, "value")
        q *= va                     # later changes are its own
        env.unchanged(s, p, "value-after")


@harness("C30", view=["slice", "T", "reshape", "view", "real", "elem"], kind=["quantity", "unit", "same", "number", "dimensionless"])
def filling_views(env, view, kind):
    """a view keeps the units of its owner: it cannot be filled with other units"""
    ua, ub, va = env.ua, env.ub, env.va = units(env)
    x = env.arr("x", (2, 2))
    v = list(env.vals(x))
    q = env.pq.Quantity(x, ua)
    w = {"slice": lambda: q[0:1], "T": lambda: q.T, "reshape": lambda: q.reshape(4), "view": lambda: q.view(), "real": lambda: q.real,
         "elem": lambda: q[1:, 1:]}[view]()
    idx = {"slice": [0, 1], "elem": [3]}.get(view, [0, 1, 2, 3])
    y = env.real("y")
    p = {"quantity": env.pq.Quantity(y, ub), "unit": va, "same": env.pq.Quantity(y, ua), "number": y, "dimensionless": env.pq.Quantity(y)}[kind]
    s, t = env.snap(q), env.snap(w)
    if kind in ("same", "number"):
        w.fill(p)
        env.eq(env.vals(q), [y if i in idx else v[i] for i in range(4)], "filled")
        env.same_dims(q, {"ua": 1}, "filled")
        env.same_dims(w, {"ua": 1}, "filled")
    else:
        env.raises(ValueError, lambda: w.fill(p), "refused")
        env.unchanged(s, q, "owner")
        env.unchanged(t, w, "view")


indep.register("C30")
