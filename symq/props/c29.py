"""C29 wrapped functions see base units and return declared units"""
import itertools
from symq import independent as indep
from symq.harness import harness


def setup(env):
    pq = env.pq
    A, B = env.bases()
    k = [env.real("k%d" % i, pos=True) for i in range(4)]
    return {"A": A, "B": B, "ua": env.unit("ua", k[0] * A), "ub": env.unit("ub", k[1] * B), "uc": env.unit("uc", k[2] * A / B), "ud": env.unit("ud", k[3] * A), "k": k,
            "size": {"A": 1, "B": 1, "ua": k[0], "ub": k[1], "uc": k[2], "ud": k[3]}}


class Calls:
    def __init__(self, fn, doc="documented"):
        self.seen = []

        def base(*args, **kwargs):
            self.seen.append((args, kwargs))
            return fn(*args, **kwargs)
        base.__doc__ = doc
        base.__name__ = "base"
        self.base = base


def plain(env, v, want, label, shape=None):
    """v, received by the wrapped function, is a plain array / number of those values"""
    env.check(not isinstance(v, env.pq.Quantity), label + ":is-plain")
    env.eq(env.vals(v), want, label)
    if shape is not None:
        env.shape(v, shape, label)


@harness("C29", units=["A", "ua", "ud", "ua*ub", "uc", "uc/ua", "dimensionless", "percent", "ua/ud"], pos=[True, False], shape=[(), (2,), (2, 2)], kind=["quantity", "uncertain", "unit"],
         filt=lambda units, pos, shape, kind: kind == "quantity" or shape == ((2,) if kind == "uncertain" else ()))
def arguments(env, units, pos, shape, kind):
    """a quantity argument arrives as its magnitude in base units"""
    pq = env.pq
    s = setup(env)
    s["dimensionless"], s["percent"] = pq.dimensionless, pq.percent
    s["size"].update(dimensionless=1, percent=0.01)
    names = units.replace("*", " * ").replace("/", " / ").split()
    u, f = s[names[0]], s["size"][names[0]]
    if len(names) > 1:
        g = s["size"][names[2]]
        u, f = (u * s[names[2]], f * g) if names[1] == "*" else (u / s[names[2]], f / g)
    x = env.arr("x", shape)
    want = [v * f for v in env.vals(x)]
    if kind == "quantity":
        q = pq.Quantity(x, u)
    elif kind == "uncertain":
        q = pq.UncertainQuantity(x, u, env.arr("s", shape, lo=0))
    else:
        q, want = u, [f]
    snap = env.snap(q)
    c = Calls(lambda *a, **k: (7,))
    w = pq.decorators.quantitizer(c.base, lambda *a, **k: (None,))
    other, text = [1, 2], "text"
    r = w(other, q, text, opt=3) if pos else w(other, text, q=q, opt=3)
    (args, kwargs), = c.seen
    plain(env, args[1] if pos else kwargs["q"], want, "argument", tuple(shape) if kind != "unit" else ())
    env.check(args[0] is other and any(t is text for t in args) and kwargs["opt"] == 3 and len(args) == (3 if pos else 2) and len(kwargs) == (1 if pos else 2), "others-untouched")
    env.check(isinstance(r, tuple) and len(r) == 1 and r[0] == 7, "result")
    env.unchanged(snap, q, "argument")


@harness("C29", order=list(range(6)), nkw=[0, 1, 2, 3])
def several(env, order, nkw):
    """three quantities of different units, any of them by keyword, interleaved with plain values"""
    pq = env.pq
    s = setup(env)
    perm = list(itertools.permutations(["ua", "ub", "uc"]))[order]
    xs = [env.arr("x%d" % i, (1,)) for i in range(3)]
    qs = [pq.Quantity(x, s[n]) for x, n in zip(xs, perm)]
    snaps = [env.snap(q) for q in qs]
    c = Calls(lambda *a, **k: ())
    w = pq.decorators.quantitizer(c.base, lambda *a, **k: ())
    args, kw = [], {}
    for i, q in enumerate(qs):
        if i < 3 - nkw:
            args += [q, 10 + i]
        else:
            kw["p%d" % i] = 10 + i
            kw["q%d" % i] = q
    keep = dict(kw)
    w(*args, **kw)
    (ga, gk), = c.seen
    for i, (n, x) in enumerate(zip(perm, xs)):
        by_pos = i < 3 - nkw
        got, other = (ga[2 * i], ga[2 * i + 1]) if by_pos else (gk["q%d" % i], gk["p%d" % i])
        plain(env, got, [v * s["size"][n] for v in env.vals(x)], "argument")
        env.check(other == 10 + i, "plain-argument")
    env.check(all(kw[k] is keep[k] for k in keep) and list(kw) == list(keep), "caller's-keywords")
    for sn, q in zip(snaps, qs):
        env.unchanged(sn, q, "argument")


DECL = ["A", "ua", "ub", "uc", "plain", "ua*ub", "A/B"]


@harness("C29", first=DECL, second=DECL, container=["tuple", "list"], filt=lambda first, second, container: container == "tuple" or first == "ua")
def results(env, first, second, container):
    """every result is taken in base units and expressed in the declared units"""
    pq = env.pq
    s = setup(env)

    def decl(n):
        if n == "plain":
            return None, None, None
        if n == "ua*ub":
            return pq.Quantity(1.0, s["ua"] * s["ub"]), s["size"]["ua"] * s["size"]["ub"], {"ua": 1, "ub": 1}
        if n == "A/B":
            return 5.0 * s["A"] / s["B"], 1, {"qa": 1, "qb": -1}
        return s[n], s["size"][n], {s[n].name: 1}
    d1, d2 = decl(first), decl(second)
    x, y, z = env.arr("x", (2,)), env.real("y"), env.arr("z", (1,))
    c = Calls(lambda v: tuple([v * 2, y, z]) if container == "tuple" else [v * 2, y, z])
    w = pq.decorators.quantitizer(c.base, lambda v: (d1[0], d2[0]))
    r = w(pq.Quantity(x, s["ua"]))
    env.check(isinstance(r, tuple) and len(r) == 3, "three-results")
    for got, (q, f, dims), raw in ((r[0], d1, [2 * v * s["k"][0] for v in env.vals(x)]), (r[1], d2, [y])):
        if q is None:
            env.check(not isinstance(got, pq.Quantity), "plain-result")
            env.eq(env.vals(got), raw, "plain-result")
        else:
            env.klass(got, pq.Quantity, "declared")
            env.same_dims(got, dims, "declared")
            env.eq(env.vals(got), [v / f for v in raw], "declared")
    env.check(not isinstance(r[2], pq.Quantity), "undeclared-result")
    env.eq(env.vals(r[2]), env.vals(z), "undeclared-result")


@harness("C29", n=[0, 1, 2, 3], m=[0, 1, 2, 3])
def lengths(env, n, m):
    """more or fewer declarations than results"""
    pq = env.pq
    s = setup(env)
    ys = [env.arr("y%d" % i, (1,)) for i in range(n)]
    ds = [s["ua"], s["ub"], s["uc"]][:m]
    w = pq.decorators.quantitizer(Calls(lambda: tuple(ys)).base, lambda: tuple(ds))
    r = w()
    env.check(isinstance(r, tuple) and len(r) == n, "results")
    for i in range(n):
        if i < m:
            env.same_dims(r[i], {ds[i].name: 1}, "declared")
            env.eq(env.vals(r[i]), [v / s["size"][ds[i].name] for v in env.vals(ys[i])], "declared")
        else:
            env.check(not isinstance(r[i], pq.Quantity), "undeclared")
            env.eq(env.vals(r[i]), env.vals(ys[i]), "undeclared")


@harness("C29", how=["positional", "keyword"], out=["A", "ua", "ub"])
def independent(env, how, out):
    """the physical result does not depend on the units the arguments came in; repeated calls are independent"""
    pq = env.pq
    s = setup(env)
    x, y = env.arr("x", (2,)), env.arr("y", (2,))

    def area(a, b=None, scale=3):
        return (a * b * scale, a - b)
    area.__doc__ = "area"
    seen = []

    def handler(a, b=None, scale=3):
        seen.append((type(a), type(b), scale))
        return (a * b, s[out]) if out == "A" else (pq.Quantity(1.0, s["ud"] ** 2), s[out])
    w = pq.decorators.quantitizer(area, handler)
    p, q = pq.Quantity(x, s["ua"]), pq.Quantity(y, s["ud"])
    if out == "ub":
        s["ub"] = s["ud"]
    P, Q = p.rescale(s["A"]), q.rescale(s["ua"])
    call = (lambda i, j: w(i, j, 4)) if how == "positional" else (lambda i, j: w(a=i, scale=4, b=j))
    r1, r2, r3 = call(p, q), call(P, Q), call(p, q)
    k0, k3 = s["k"][0], s["k"][3]
    for t in (r1, r2, r3):
        prod, diff = t
        env.eq(env.vals(prod.rescale(s["A"] ** 2)), [4 * i * k0 * j * k3 for i, j in zip(env.vals(x), env.vals(y))], "product")
        ii, jj = [i * k0 for i in env.vals(x)], [j * k3 for j in env.vals(y)]
        env.eq(env.vals(diff.rescale(s["A"])), [i - j for i, j in zip(ii, jj)], "difference", scale=[env.absum(i, j) for i, j in zip(ii, jj)])
    env.check(all(c[0] is pq.Quantity and c[1] is pq.Quantity and c[2] == 4 for c in seen) and len(seen) == 3, "handler-sees-quantities")
    env.check(r1[0].dimensionality == (p * q).dimensionality if out == "A" else r1[0].dimensionality == (s["ud"] ** 2).dimensionality, "declared")


@harness("C29", what=["incompatible-declaration", "exception", "name"])
def edges(env, what):
    pq = env.pq
    s = setup(env)
    x = env.arr("x", (2,))
    q = pq.Quantity(x, s["ua"])
    snap = env.snap(q)
    if what == "incompatible-declaration":
        # the function's result is by definition in the declared dimension: only the label decides
        w = pq.decorators.quantitizer(Calls(lambda v: (v,)).base, lambda v: (s["ub"],))
        r, = w(q)
        env.same_dims(r, {"ub": 1}, "declared")
        env.eq(env.vals(r), [v * s["k"][0] / s["k"][1] for v in env.vals(x)], "declared")
    elif what == "exception":
        def bad(v):
            raise KeyError("bad")
        w = pq.decorators.quantitizer(Calls(bad).base, lambda v: (s["ub"],))
        env.raises(KeyError, lambda: w(q), "passed-on")
    else:
        c = Calls(lambda v: (v,))
        w = pq.decorators.quantitizer(c.base, lambda v: (s["ua"],))
        env.check("base" in w.__name__ and "documented" in w.__doc__, "name-and-doc")
        env.eq(env.vals(w(q)[0]), env.vals(x), "value")
    env.unchanged(snap, q, "argument")


@harness("C29", system=["length", "time", "length-unit"], when=["before", "between", "back"], declared=["cm", "m*s", "speed"], given=["scaled", "base", "mixed", "compound"],
         filt=lambda system, when, declared, given: given == "scaled" or declared == "cm")
def other_base_units(env, system, when, declared, given):
    """base units may be changed between calls of the same wrapped function"""
    pq = env.pq
    x, y = env.arr("x", (2,)), env.arr("y", (2,))
    d, f, dims = {"cm": (pq.cm, 0.01, {"centimeter": 1}), "m*s": (pq.meter * pq.second, 1, {"meter": 1, "second": 1}),
                  "speed": (pq.km / pq.hour, 1000 / 3600, {"kilometer": 1, "hour": -1})}[declared]
    c = Calls(lambda v, t=None: (v, v))
    w = pq.decorators.quantitizer(c.base, lambda v, t=None: (v, d))
    l, t = 1, 1     # the size of the current base units, in m and s
    for i in range(3):
        if i == {"before": 0, "between": 1, "back": 1}[when]:
            pq.set_default_units(**({"time": "hour"} if system == "time" else {"length": "km"} if system == "length" else {"length": pq.inch}))
            l, t = {"length": (1000, 1), "time": (1, 3600), "length-unit": (0.0254, 1)}[system]
        elif i == 2 and when == "back":
            pq.set_default_units(length="m", time="s")
            l, t = 1, 1
        # units the arguments come in, also those that are (or were) base units themselves
        xu, xf, xd = {"scaled": (pq.mm, 0.001, {"millimeter": 1}), "base": (pq.m, 1, {"meter": 1}), "mixed": (pq.km, 1000, {"kilometer": 1}),
                      "compound": (pq.m * pq.s / pq.s ** 2 * pq.s, 1, {"meter": 1})}[given]
        yu, yf = {"scaled": (pq.minute, 60), "base": (pq.s, 1), "mixed": (pq.hour, 3600), "compound": (pq.s ** 2 / pq.s, 1)}[given]
        r = w(pq.Quantity(x, xu), t=pq.Quantity(y, yu))
        env.exact_again()
        args, kw = c.seen[-1]
        plain(env, args[0], [v * xf / l for v in env.vals(x)], "argument")
        plain(env, kw["t"], [v * yf / t for v in env.vals(y)], "argument")
        raw = [v * xf / l for v in env.vals(x)]
        env.eq(env.vals(r[0]), env.vals(x), "result")
        env.same_dims(r[0], xd, "result")
        size = {"cm": l, "m*s": l * t, "speed": l / t}[declared]
        env.same_dims(r[1], dims, "declared")
        env.eq(env.vals(r[1]), [v * size / f for v in raw], "declared")


indep.register("C29")


@harness("C29", doc=[None, "", "documented"], kind=["quantity", "number"])
def undocumented(env, doc, kind):
    """functions with and without a docstring are wrapped alike; the name and the text are kept"""
    pq = env.pq
    s = setup(env)
    c = Calls(lambda a: (a,), doc=doc)
    w = pq.decorators.quantitizer(c.base, lambda a: (s["ud"],))
    x = env.real("x")
    r, = w(pq.Quantity(x, s["ua"]) if kind == "quantity" else x)
    env.is_quantity(r, "result")
    env.same_dims(r, {"ud": 1}, "result")
    env.eq(env.vals(r), [x * s["size"]["ua"] / s["size"]["ud"] if kind == "quantity" else x / s["size"]["ud"]], "result")
    env.check((doc or "") in w.__doc__ and "base" in w.__name__, "documentation")
