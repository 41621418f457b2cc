"""C02 physically incompatible quantities are refused"""
import operator as op
from symq.harness import harness

OPS = {
    "add": lambda a, b: a + b,
    "radd": lambda a, b: b + a,
    "sub": lambda a, b: a - b,
    "rsub": lambda a, b: b - a,
    "mod": lambda a, b: a % b,
    "rmod": lambda a, b: b % a,
    "lt": lambda a, b: a < b,
    "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b,
    "ge": lambda a, b: a >= b,
    "rlt": lambda a, b: b < a,
    "rge": lambda a, b: b >= a,
    "rescale": lambda a, b: a.rescale(b.units),
    "rescale-rev": lambda a, b: b.rescale(a.dimensionality),
    "iadd": op.iadd,
    "isub": op.isub,
    "imod": op.imod,
    "setitem": lambda a, b: op.setitem(a, (0,) if a.ndim else (), b),
    "setslice": lambda a, b: op.setitem(a, Ellipsis, b),
    "put": lambda a, b: a.put([0], b),
    "clip": lambda a, b: a.clip(b, b),
    "clip-min": lambda a, b: a.clip(min=b),
    "clip-max": lambda a, b: a.clip(max=b),
    "searchsorted": lambda a, b: a.searchsorted(b),
    "units": lambda a, b: setattr(a, "units", b.units),
    "np.add": None, "np.subtract": None, "np.hypot": None, "np.maximum": None, "np.arctan2": None,
    "np.fmod": None, "np.minimum": None, "np.remainder": None,
}


def _op(env, name):
    if name.startswith("np."):
        return getattr(env.np, name[3:])
    return OPS[name]


def _qty(env, name, kind, units, k):
    if kind == "unit":
        return units
    shape = {"arr": (2,), "0d": ()}[kind]
    return env.pq.Quantity(env.arr(name, shape), units)


def _refused(env, name, a, b):
    sa, sb = env.snap(a), env.snap(b)
    f = _op(env, name)
    env.raises(ValueError, lambda: f(a, b), name)
    env.unchanged(sa, a, name + ":left")
    env.unchanged(sb, b, name + ":right")


@harness("C02", o=sorted(OPS), kinds=[("arr", "arr"), ("0d", "0d"), ("arr", "0d"), ("arr", "unit")],
         filt=lambda o, kinds, big: not (kinds[0] == "0d" and o == "searchsorted")
         and not (kinds[1] == "unit" and o.startswith("np.")), big=[False], thorough={"big": [True]})
def exponents(env, o, kinds, big):
    """a [ua**e1 * vb**f1] op b [ub**e2 * va**f2] with different exponents (symbolic -1..2, thorough -3..3): ValueError, nothing changes"""
    A, B = env.bases()
    k = [env.real("k%d" % i, pos=True) for i in range(4)]
    ua, ub = env.unit("ua", k[0] * A), env.unit("ub", k[1] * A)
    va, vb = env.unit("va", k[2] * B), env.unit("vb", k[3] * B)
    if big:
        e1, e2 = env.int("e1", -3, 3), env.int("e2", -3, 3)
        f = env.choice("f", [(0, 0), (0, 1), (1, 1), (-1, 2)])
    else:
        e1, e2 = env.int("e1", -1, 2), env.int("e2", -1, 2)
        f = env.choice("f", [(0, 0), (1, -1)])
    if kinds[1] == "unit":
        other, e2, f = ub, 1, (f[0], 0)
    else:
        other = ub ** e2 * va ** f[1]
    if f[0] == f[1]:
        env.assume(e1 != e2)
    a = _qty(env, "a", kinds[0], ua ** e1 * vb ** f[0], k)
    b = _qty(env, "b", kinds[1], other, k)
    _refused(env, o, a, b)


PLAIN = ["add", "radd", "sub", "rsub", "mod", "iadd", "isub", "setitem", "setslice", "put", "clip"]


@harness("C02", o=PLAIN, kind=["float", "int", "arr", "list", "zero-first", "zero-last"])
def plain_number(env, o, kind):
    """a dimensional quantity and a non-zero plain number / array / sequence"""
    A, B = env.bases()
    k1 = env.real("k1", pos=True)
    ua = env.unit("ua", k1 * A)
    e = env.int("e", -2, 2, nonzero=True)
    a = env.pq.Quantity(env.arr("a", (2,)), ua ** e)
    x = env.arr("x", (2,), nonzero=True)
    if kind.startswith("zero"):
        # only one of the numbers is a zero, which would fit any unit
        x.reshape(-1)[0 if kind == "zero-first" else 1] = 0.0
    b = {"float": env.real("y", nonzero=True), "int": 3, "list": [x[0], x[1]]}.get(kind, x)
    if kind == "list" and o in ("radd", "rsub"):
        b = env.np.array(b) if not env.symbolic else x
    s = env.snap(a)
    f = _op(env, o)
    env.raises(ValueError, lambda: f(a, b), o)
    env.unchanged(s, a, o)


@harness("C02", o=["eq", "ne"], kinds=[("arr", "arr"), ("0d", "0d"), ("arr", "0d"), ("0d", "unit"), ("unit", "unit"), ("unit", "arr")])
def equality(env, o, kinds):
    """== is False and != True for every element; never an error"""
    A, B = env.bases()
    k = [env.real("k%d" % i, pos=True) for i in range(2)]
    ua, vb = env.unit("ua", k[0] * A), env.unit("vb", k[1] * B)
    e1, e2 = env.int("e1", -2, 2), env.int("e2", -2, 2)
    u1 = ua if kinds[0] == "unit" else ua ** e1
    u2 = vb if kinds[1] == "unit" else vb ** e2
    if kinds[0] != "unit" and kinds[1] != "unit":
        if e1 == 0:
            env.assume(e2 != 0)
    a = _qty(env, "a", kinds[0], u1, k)
    b = _qty(env, "b", kinds[1], u2, k)
    sa, sb = env.snap(a), env.snap(b)
    for x, y in ((a, b), (b, a)):
        st, r = env.attempt(lambda: (x == y) if o == "eq" else (x != y))
        env.check(st == "ok", "no-exception")
        if st == "ok":
            for v in env.vals(env.np.asarray(r)):
                env.check(v if o == "ne" else (v == False), o)      # noqa: E712
    env.unchanged(sa, a, "left")
    env.unchanged(sb, b, "right")


DIFF = [("m", "s"), ("m", "m**2"), ("kg", "N"), ("J", "W"), ("rad", "m"), ("degK", "J"), ("A", "C"), ("bit", "s"),
        ("mol", "kg"), ("cd", "V"), ("Pa", "N"), ("V", "ohm"), ("Hz", "s"), ("l", "m**2"), ("m/s", "m/s**2"), ("dimensionless", "m")]


@harness("C02", pair=DIFF)
def builtin(env, pair):
    """built-in units of different dimension, all additive / ordering / conversion operations"""
    for name in sorted(OPS):
        if env.symbolic:
            pass
        a = env.pq.Quantity(env.arr("a" + name, (2,)), pair[0])
        b = env.pq.Quantity(env.arr("b" + name, (2,)), pair[1])
        _refused(env, name, a, b)


@harness("C02", o=sorted(OPS), kinds=[("arr", "arr"), ("arr", "0d"), ("0d", "0d")],
         filt=lambda o, kinds: not (kinds[0] == "0d" and o == "searchsorted") and o not in ("np.fmod", "np.remainder", "np.hypot", "np.arctan2"))
def every_float(env, o, kinds):
    """whatever the numbers are: infinities, NaN, negative zero and subnormal values fit no other unit either"""
    A, B = env.bases()
    ua, vb = env.unit("ua", 3.0 * A), env.unit("vb", 0.5 * B)
    sh = {"arr": (2,), "0d": ()}
    a = env.pq.Quantity(env.fparr("a", sh[kinds[0]]), ua)
    b = env.pq.Quantity(env.fparr("b", sh[kinds[1]]), vb)
    _refused(env, o, a, b)


@harness("C02", o=["add", "radd", "sub", "rsub", "mod", "iadd", "isub", "setitem", "setslice", "put", "clip", "clip-min", "clip-max", "lt", "ge", "rescale"],
         val=["inf", "-inf", "nan", "huge", "all-zero"], kind=["0d", "arr", "unit-times", "int"],
         filt=lambda o, val, kind: kind != "int" or val in ("huge", "all-zero"))
def special_numbers(env, o, val, kind):
    """infinite, undefined, zero and integer amounts in a unit that does not fit"""
    A, B = env.bases()
    k = [env.real("k%d" % i, pos=True) for i in range(2)]
    ua, vb = env.unit("ua", k[0] * A), env.unit("vb", k[1] * B)
    x = {"inf": float("inf"), "-inf": float("-inf"), "nan": float("nan"), "huge": 2 ** 40, "all-zero": 0}[val]
    b = {"0d": lambda: env.pq.Quantity(float(x), vb), "arr": lambda: env.pq.Quantity(env.np.array([float(x)] * 2), vb),
         "unit-times": lambda: float(x) * vb, "int": lambda: env.pq.Quantity(env.np.array([x, x]), vb)}[kind]()
    a = env.pq.Quantity(env.arr("a", (2,)), ua)
    _refused(env, o, a, b)


EMPTY = ["add", "radd", "sub", "rsub", "mod", "rmod", "lt", "ge", "rlt", "rescale", "rescale-rev", "iadd", "isub", "imod",
         "setslice", "clip", "clip-min", "units", "np.add", "np.subtract", "np.maximum"]


@harness("C02", o=EMPTY, shapes=[((0,), (0,)), ((0,), ()), ((1,), (0,)), ((0,), (1,)), ((0, 2), (2,)), ((2, 0), (2, 0))],
         filt=lambda o, shapes: not (shapes[0] == (1,) and o in ("iadd", "isub", "imod", "setslice")))
def no_elements(env, o, shapes):
    """a quantity without elements still has a unit that must fit"""
    A, B = env.bases()
    k = [env.real("k%d" % i, pos=True) for i in range(2)]
    ua, vb = env.unit("ua", k[0] * A), env.unit("vb", k[1] * B)
    a = env.pq.Quantity(env.arr("a", tuple(shapes[0])), ua)
    b = env.pq.Quantity(env.arr("b", tuple(shapes[1])), vb)
    _refused(env, o, a, b)


@harness("C02", o=["add", "sub", "iadd", "lt", "rescale", "setslice"])
def incompatible_later(env, o):
    """history: a compatible operation first, then an incompatible one on the same objects"""
    A, B = env.bases()
    k = [env.real("k%d" % i, pos=True) for i in range(3)]
    ua, ub, vb = env.unit("ua", k[0] * A), env.unit("ub", k[1] * A), env.unit("vb", k[2] * B)
    a = env.pq.Quantity(env.arr("a", (2,)), ua)
    b = env.pq.Quantity(env.arr("b", (2,)), ub)
    c = env.pq.Quantity(env.arr("c", (2,)), vb)
    OPS[o](a, b)
    _refused(env, o, a, c)
    b *= c
    _refused(env, o, a, b)


from symq import layouts
layouts.register("C02")
from symq import twins  # noqa: E402
twins.register("C02")
