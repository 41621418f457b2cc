"""C21 copies and pickles are equal and independent"""
import copy
import pickle
from symq import independent as indep
from symq.harness import harness

HOW = ["copy", "method", "deepcopy", "pickle0", "pickle1", "pickle2", "pickle3", "pickle4", "pickle5", "deep-list", "pickle-list"]


def duplicate(q, how):
    if how == "copy":
        return copy.copy(q)
    if how == "method":
        return q.copy()
    if how == "deepcopy":
        return copy.deepcopy(q)
    if how == "deep-list":
        a = copy.deepcopy([q, {"k": q}])
        return a[1]["k"]
    if how == "pickle-list":
        return pickle.loads(pickle.dumps((q, [q, 1])))[1][0]
    return pickle.loads(pickle.dumps(q, int(how[6:])))


def picklable_units(env):
    pq = env.pq
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    A, B = pq.meter, pq.second
    return A, B, env.unit("ua", k1 * A), env.unit("ub", k2 * A), k1, k2


VIEWS = ["transposed", "reversed", "reshaped", "swapped", "columns", "all", "flat", "row", "real", "new-axis", "ureversed", "ucolumns", "uall", "urow"]


def view(q, kind):
    """the same elements, rearranged; most share memory with the quantity they are of"""
    return {"transposed": lambda: q.T, "reversed": lambda: q[::-1, ::-1], "reshaped": lambda: q.reshape(3, 2), "swapped": lambda: q.swapaxes(0, 1), "columns": lambda: q[:, ::-1], "all": lambda: q[...],
            "flat": lambda: q.ravel(), "row": lambda: q[1], "real": lambda: q.real, "new-axis": lambda: q[None, :, 1:]}[kind]()


def build(env, kind, shape, dt, ua, B, e, n="x"):
    pq = env.pq
    u = ua ** e / B if e is not None else pq.dimensionless
    x = env.arr(n, shape, dt, **(dict(lo=0 if dt == "u1" else -5, hi=5) if dt[0] in "iu" else {}))
    if kind == "uq":
        return pq.UncertainQuantity(x, u, env.arr("s", shape, lo=0))
    if kind in VIEWS:
        y = env.arr("y", (2, 3), dt)
        q = pq.UncertainQuantity(y, u, env.arr("s", (2, 3), lo=0)) if kind.startswith("u") else pq.Quantity(y, u, dtype=dt)
        return view(q, kind[1:] if kind.startswith("u") else kind)
    if kind == "slice":
        y = env.arr("y", (5,), dt, **(dict(lo=0 if dt == "u1" else -5, hi=5) if dt[0] in "iu" else {}))
        return pq.Quantity(y, u)[::2]
    if kind == "uslice":
        return pq.UncertainQuantity(env.arr("y", (4,)), u, env.arr("s", (4,), lo=0))[1:3]
    return pq.Quantity(x, u, dtype=dt)


def same(env, r, q, label):
    env.klass(r, type(q), label)
    env.shape(r, q.shape, label)
    env.check(r.dtype == q.dtype, label + ":dtype")
    env.same_dims(r, env.dims(q), label)
    env.eq(env.vals(r), env.vals(q), label + ":value")
    if isinstance(q, env.pq.UncertainQuantity):
        env.klass(r.uncertainty, env.pq.Quantity, label + ":uncertainty")
        env.shape(r.uncertainty, q.uncertainty.shape, label + ":uncertainty")
        env.same_dims(r.uncertainty, env.dims(q.uncertainty), label + ":uncertainty")
        env.eq(env.vals(r.uncertainty), env.vals(q.uncertainty), label + ":uncertainty")


def change(env, q, ub, B, what):
    """modify q in place"""
    if what == "element":
        q[(0,) * q.ndim] = env.real("new") * ub / B if q.ndim else None
    elif what == "units":
        q.units = ub / B
    elif what == "inplace":
        q *= env.real("new") * B
    elif what == "magnitude":
        q.magnitude[...] = env.real("new")
    elif what == "uncertainty":
        q.uncertainty = q.uncertainty * 2
    elif what == "uncertainty-inplace":
        q.uncertainty[...] = 3 * q.uncertainty.units
    elif what == "uncertainty-magnitude":
        u = q.uncertainty
        u.magnitude[...] = env.real("new")


CH = ["element", "units", "inplace", "magnitude"]
UCH = ["uncertainty", "uncertainty-inplace", "uncertainty-magnitude"]


@harness("C21", how=HOW, kind=["q", "uq", "slice", "uslice"], shape=[(), (3,), (2, 2)],
         filt=lambda how, kind, shape: kind in ("q", "uq") or shape == (3,))
def equal(env, how, kind, shape):
    """same class, magnitudes, units, dtype, shape, uncertainty; the original is left alone"""
    A, B, ua, ub, k1, k2 = picklable_units(env)
    e = env.choice("e", [1, -2, 3, 10, 0.5])
    q = build(env, kind, shape, "f8", ua, B, e)
    s = env.snap(q)
    r = duplicate(q, how)
    same(env, r, q, how)
    env.unchanged(s, q, "original")
    env.check(r is not q, how + ":same-object")
    # the copy works: convert it and combine it with the original
    p = r.rescale(ub ** e / B)
    env.eq(env.vals(p), [t * (k1 / k2) ** e for t in env.vals(q)], how + ":converts")
    t = r - q
    env.same_dims(t, {"ua": e, "second": -1}, how + ":combined")
    env.eq(env.vals(t), [0 for x in env.vals(q)], how + ":combined", scale=[env.absum(x) for x in env.vals(q)])


@harness("C21", how=HOW, kind=VIEWS, side=["copy", "original"])
def views(env, how, kind, side):
    """copies of parts and of rearranged quantities: the elements where they are seen, apart from the whole"""
    A, B, ua, ub, k1, k2 = picklable_units(env)
    q = build(env, kind, (), "f8", ua, B, 1)
    s = env.snap(q)
    r = duplicate(q, how)
    same(env, r, q, how)
    env.unchanged(s, q, "original")
    a, b = (r, q) if side == "copy" else (q, r)
    s = env.snap(b)
    a[(0,) * a.ndim] = env.real("new") * ub / B
    env.unchanged(s, b, "other")


@harness("C21", how=HOW, dt=["f4", "i8", "i4", "c16", "u1"], shape=[(), (3,)])
def types(env, how, dt, shape):
    """the numeric type survives"""
    A, B, ua, ub, k1, k2 = picklable_units(env)
    q = build(env, "q", shape, dt, ua, B, 1)
    r = duplicate(q, how)
    same(env, r, q, how)
    q = build(env, "q", shape, dt, ua, B, None, "z")
    same(env, duplicate(q, how), q, how + ":dimensionless")


@harness("C21", how=["copy", "method", "deepcopy", "pickle2", "pickle5", "deep-list"], kind=["q", "uq", "slice", "uslice"],
         what=CH + UCH, side=["copy", "original"], shape=[(), (2,)],
         filt=lambda how, kind, what, side, shape: (what not in UCH or kind.startswith("u")) and (shape == (2,) or (kind in ("q", "uq") and what != "element"))
         and not (kind == "uslice" and what == "uncertainty-magnitude" and False))
def independent(env, how, kind, what, side, shape):
    """changing one side leaves the other as it was"""
    A, B, ua, ub, k1, k2 = picklable_units(env)
    q = build(env, kind, shape, "f8", ua, B, 1)
    if kind in ("slice", "uslice") and side == "original" and what in ("units", "inplace"):
        env.check(True, "views-refuse-unit-changes")
        return
    r = duplicate(q, how)
    a, b = (r, q) if side == "copy" else (q, r)
    s = env.snap(b)
    us = env.snap(b.uncertainty) if kind.startswith("u") else None
    change(env, a, ub, B, what)
    env.unchanged(s, b, "other")
    if us:
        env.unchanged(us, b.uncertainty, "other-uncertainty")


KINDS = ["base", "defined", "symbols", "constant", "compound", "dimensionless", "builtin", "derived", "temperature"]


@harness("C21", how=HOW, kind=KINDS)
def units(env, how, kind):
    """a copied or unpickled unit is interchangeable with the original"""
    pq = env.pq
    A, B, ua, ub, k1, k2 = picklable_units(env)
    u = {"base": lambda: A, "defined": lambda: ua,
         "symbols": lambda: pq.UnitQuantity("symy", k2 * A / B, symbol="sy", u_symbol="\u03c3", aliases=["symies"], doc="about"),
         "constant": lambda: pq.UnitConstant("conn", k2 * A, symbol="cc", u_symbol="\u03c7"),
         "compound": lambda: pq.CompoundUnit("m/ua**2"), "dimensionless": lambda: pq.dimensionless, "builtin": lambda: pq.kPa,
         "derived": lambda: pq.UnitQuantity("dd", 3 * ua * B, symbol="dd"), "temperature": lambda: pq.degC}[kind]()
    d, fo = u.definition, u.format_order
    r = duplicate(u, how)
    env.klass(r, type(u), how)
    env.check(r.name == u.name, how + ":name")
    env.check(r.symbol == u.symbol, how + ":symbol")
    env.check(r.u_symbol == u.u_symbol, how + ":u_symbol")
    env.check(r.__doc__ == u.__doc__, how + ":doc")
    if how.startswith("pickle"):
        env.check(r.format_order == fo, how + ":order")
    env.check(u.format_order == fo, how + ":original-order")
    env.eq(env.vals(r), [1.0], how + ":magnitude")
    env.check(hash(r) == hash(u), how + ":hash")
    env.check(bool((r == u)), how + ":equal")
    env.check(r.dimensionality == u.dimensionality, how + ":dimensionality")
    env.eq(env.vals(r.simplified), env.vals(u.simplified), how + ":size")
    env.same_dims(r.simplified, env.dims(u.simplified), how + ":size")
    x = env.real("x")
    q, p = x * u, x * r
    t = q + p
    env.same_dims(t, env.dims(q), how + ":sum")
    env.eq(env.vals(t), [x + x], how + ":sum")
    t = q / r
    env.same_dims(t, {}, how + ":cancels")
    env.eq(env.vals(t), [x], how + ":cancels")
    t = q.rescale(r)
    env.eq(env.vals(t), [x], how + ":rescale")
    if kind not in ("compound", "constant"):
        env.check(pq.unit_registry[u.name] == u, how + ":registered")
    env.check(str(p.dimensionality) == str(q.dimensionality), how + ":text")
    env.raises((ValueError, AttributeError, TypeError), lambda: r.__imul__(2), how + ":protected")


@harness("C21", proto=[0, 1, 2, 3, 4, 5], kind=["unit", "typed", "base", "constant", "plain", "symbol"], of=["unit", "quantity"])
def elsewhere(env, proto, kind, of):
    """unpickled by a process that has not made the unit: it is known there by all its names"""
    pq = env.pq
    A, B, ua, ub, k1, k2 = picklable_units(env)
    al = ["stick" + c for c in "sxz"]
    u, names = {
        "unit": lambda: (pq.UnitQuantity("stick", k1 * A / B, symbol="stk", aliases=al), ["stick", "stk"] + al),
        "typed": lambda: (pq.UnitLength("stick", k1 * A, symbol="stk", u_symbol="\u03c3", aliases=al), ["stick", "stk"] + al),
        "base": lambda: (pq.UnitInformation("stick", symbol="stk", aliases=al), ["stick", "stk"] + al),
        "constant": lambda: (pq.UnitConstant("stick", k1 * A, symbol="stk", aliases=al), ["stick", "stk"] + al),
        "plain": lambda: (pq.UnitQuantity("stick", k1 * A), ["stick"]),
        "symbol": lambda: (pq.UnitTime("stick", k1 * B, symbol="stk"), ["stick", "stk"])}[kind]()
    known = [n for n in names if n in env.registry()]
    x = env.real("x")
    q = u if of == "unit" else pq.Quantity(x, u ** 2 * A)
    w = env.vals(u.simplified) if kind != "base" else None
    data = pickle.dumps(q, proto)
    env.forget(names)
    r = pickle.loads(data)
    got = env.registry()
    for n in known:
        env.check(n in got, "elsewhere:unknown-" + ("alias" if n in al else "name"))
        if n not in got:
            continue
        if kind != "constant":
            t = pq.Quantity(1.0, n)
            env.same_dims(t, {"stick": 1}, "elsewhere:" + n)
            env.eq(env.vals(t.simplified), w, "elsewhere:" + n) if w is not None else env.eq(env.vals(t), [1.0], "elsewhere:" + n)
            env.check(got[n] == u, "elsewhere:equal")
    if of == "quantity":
        env.eq(env.vals(r), [x], "elsewhere")
        env.check(r.dimensionality == q.dimensionality, "elsewhere:dimensionality")
        return
    for f in ("name", "symbol", "u_symbol", "aliases", "_aliases", "__doc__"):
        if hasattr(u, f):
            env.check(getattr(r, f) == getattr(u, f), "elsewhere:" + f)


SETTINGS = ["unicode-both", "unicode-first", "unicode-after", "printed-first"]


@harness("C21", how=["copy", "method", "deepcopy", "pickle1", "pickle2", "pickle5", "deep-list"], kind=KINDS, setting=SETTINGS, of=["unit", "quantity", "product"])
def under_settings(env, how, kind, setting, of):
    """whatever is printed how: copies are the same units"""
    pq = env.pq
    A, B, ua, ub, k1, k2 = picklable_units(env)
    u = {"base": lambda: A, "defined": lambda: ua,
         "symbols": lambda: pq.UnitQuantity("symy", k2 * A / B, symbol="sy", u_symbol="\u03c3"),
         "constant": lambda: pq.UnitConstant("conn", k2 * A, symbol="cc", u_symbol="\u03c7"),
         "compound": lambda: pq.CompoundUnit("ua**2*m/s**2"), "dimensionless": lambda: pq.dimensionless, "builtin": lambda: pq.um,
         "derived": lambda: pq.UnitQuantity("dd", 3 * ua * B, symbol="dd"), "temperature": lambda: pq.degC}[kind]()
    x = env.arr("x", (2,))
    t = {"unit": lambda: u, "quantity": lambda: pq.Quantity(x, u), "product": lambda: pq.Quantity(x, u / B ** 2)}[of]()
    w = env.vals(t.simplified)
    text = (u.name, u.symbol, u.u_symbol, str(u.dimensionality), u.dimensionality.unicode)
    if setting == "printed-first":
        str(t), repr(t), t.dimensionality.unicode, t.dimensionality.latex, t.dimensionality.html
    pq.markup.config.use_unicode = setting in ("unicode-both", "unicode-first")
    r0 = pickle.dumps(t, int(how[6:])) if how.startswith("pickle") else duplicate(t, how)
    pq.markup.config.use_unicode = setting in ("unicode-both", "unicode-after")
    r = pickle.loads(r0) if how.startswith("pickle") else r0
    pq.markup.config.use_unicode = False
    env.klass(r, type(t), how)
    env.check(r.dimensionality == t.dimensionality, how + ":dimensionality")
    env.eq(env.vals(r), env.vals(t), how + ":magnitude")
    env.eq(env.vals(r.simplified), w, how + ":size")
    d = r / t if of == "unit" else r / t.units
    env.same_dims(d, {}, how + ":cancels")
    if of == "unit":
        for v, label in ((r, "copy"), (u, "original")):
            env.check((v.name, v.symbol, v.u_symbol, str(v.dimensionality), v.dimensionality.unicode) == text, "%s:%s-text" % (how, label))
        env.check(hash(r) == hash(u), how + ":hash")
        env.check(bool(r == u), how + ":equal")


@harness("C21", how=["copy", "deepcopy", "pickle2"])
def dimensionality(env, how):
    """copies of a unit product"""
    A, B, ua, ub, k1, k2 = picklable_units(env)
    e = env.choice("e", [1, -1, 2, 0.5])
    d = (ua ** e / B).dimensionality
    r = {"copy": lambda: d.copy(), "deepcopy": lambda: copy.deepcopy(d), "pickle2": lambda: pickle.loads(pickle.dumps(d, 2))}[how]()
    env.check(r == d, how)
    env.same_dims(r, {"ua": e, "second": -1}, how)
    r *= A.dimensionality
    env.same_dims(d, {"ua": e, "second": -1}, how + ":independent")


@harness("C21", how=["pickle2", "pickle5", "method"])
def definition_kept(env, how):
    """the quantity a unit was defined with may be changed afterwards: unit and pickles do not follow"""
    A, B, ua, ub, k1, k2 = picklable_units(env)
    d = env.pq.Quantity(k1, A)
    u = env.unit("uk", d)
    d *= env.real("z", nonzero=True)
    for t, label in ((u, "unit"), (duplicate(u, how), how)):
        env.eq(env.vals(t.simplified), [k1], label + ":simplified")
        env.same_dims(t.simplified, {"meter": 1}, label)
        env.eq(env.vals(t.definition), [k1], label + ":definition")


@harness("C21", how=["copy", "deepcopy", "pickle2"], then=["twice", "arith"])
def history(env, how, then):
    """copies of results and copies of copies"""
    A, B, ua, ub, k1, k2 = picklable_units(env)
    x = env.arr("x", (2,))
    v = env.vals(x)
    q = env.pq.UncertainQuantity(x, ua, env.arr("s", (2,), lo=0))
    if then == "twice":
        r = duplicate(duplicate(q, how), how)
        same(env, r, q, how)
    else:
        p = q * 2
        p.units = ub
        r = duplicate(p, how)
        same(env, r, p, how)
        env.eq(env.vals(r), [2 * t * k1 / k2 for t in v], how + ":value")


indep.register("C21")
