"""C12 unit objects cannot be modified"""
import operator as op
from symq import independent as indep
from symq.harness import harness

ERR = (TypeError, ValueError, AttributeError)


def units(env):
    A, B = env.bases()
    k1, k2, l1 = [env.real(n, pos=True) for n in ("k1", "k2", "l1")]
    env.k = (k1, k2, l1)
    ua, ub, va = env.unit("ua", k1 * A), env.unit("ub", k2 * A), env.unit("va", l1 * B)
    return A, B, ua, ub, va


def pick(env, kind, us):
    A, B, ua, ub, va = us
    return {"derived": ua, "base": A, "builtin": env.pq.ft, "compound": env.pq.CompoundUnit("ua*va"),
            "constant": env.pq.UnitConstant("uc", env.k[0] * A, symbol="uc") if hasattr(env.pq, "UnitConstant") else ua,
            "dimensionless": env.pq.dimensionless}[kind]


def look(env, u):
    """everything a user sees of a unit: its own value and what it converts to"""
    base = u.simplified
    return (u.name, u.symbol, u.u_symbol, list(env.vals(base)), env.dims(base), env.dims(u), list(env.vals(u)),
            u.format_order, type(u), u.flags.writeable, list(env.vals(u.definition)), env.dims(u.definition))


def same(env, s, u, label):
    t = look(env, u)
    for i in (0, 1, 2, 7, 8, 9):
        env.check(t[i] == s[i], label + ":%s-changed" % ["name", "symbol", "u_symbol", "", "", "", "", "order", "class", "flags"][i])
    env.eq(t[3], s[3], label + ":size")
    env.same_dims(base_dims(t[4]), s[4], label + ":size-units")
    env.check(t[5] == s[5], label + ":units")
    env.eq(t[6], s[6], label + ":magnitude")
    env.eq(t[6], [1], label + ":one")
    env.eq(t[10], s[10], label + ":definition")
    env.check(t[11] == s[11], label + ":definition-units")


def base_dims(d):
    class D(dict):
        pass

    class U:
        def __init__(self, n):
            self.name = n

        def __hash__(self):
            return hash(self.name)
    return D({U(n): e for n, e in d.items()})


KIND = ["derived", "base", "builtin", "compound", "constant", "dimensionless"]
IOPS = {"iadd": op.iadd, "isub": op.isub, "imul": op.imul, "idiv": op.itruediv, "ipow": op.ipow, "imod": op.imod, "ifloordiv": op.ifloordiv}


@harness("C12", kind=KIND, o=list(IOPS), other=["number", "unit", "same-unit", "quantity"])
def inplace(env, kind, o, other):
    """u op= x raises, or rebinds to a new object; the unit is what it was"""
    us = units(env)
    A, B, ua, ub, va = us
    u = pick(env, kind, us)
    s = look(env, u)
    z = env.real("z", nonzero=True)
    x = {"number": z, "unit": va, "same-unit": u, "quantity": env.pq.Quantity(z, ub)}[other]
    if o == "ipow":
        x = 2
    sx = look(env, va)
    st, r = env.attempt(IOPS[o], u, x)
    if st == "exc":
        env.check(isinstance(r, ERR), o + ":wrong-exception-%s" % type(r).__name__)
    else:
        env.check(r is not u, o + ":modified")
        # the new object must not be connected with the unit
        env.attempt(lambda: r.__setitem__(Ellipsis, 7 * r))
        env.attempt(lambda: op.imul(r, 3))
    same(env, s, u, o)
    same(env, sx, va, "other")


MUT = ["setitem", "setitem0", "units", "units-str", "fill", "put", "resize-flag", "real", "out", "out-add", "copyto", "itemset-view",
       "magnitude", "name", "symbol", "u_symbol", "definition", "simplified", "view-imul", "dimensionality"]


@harness("C12", kind=KIND, how=MUT)
def direct(env, kind, how):
    """every attempt to store into a unit object fails and changes nothing"""
    us = units(env)
    A, B, ua, ub, va = us
    np = env.np
    u = pick(env, kind, us)
    s = look(env, u)
    z = env.real("z", nonzero=True)
    env.assume(z != 1)

    def go():
        if how == "setitem":
            u[...] = env.pq.Quantity(z, u)
        elif how == "setitem0":
            u[()] = z
        elif how == "units":
            u.units = ub
        elif how == "units-str":
            u.units = "ub"
        elif how == "fill":
            u.fill(3.0)
        elif how == "put":
            u.put([0], env.pq.Quantity(z, u))
        elif how == "resize-flag":
            u.magnitude[...] = 3.0
        elif how == "real":
            u.real = 3.0
        elif how == "out":
            np.multiply(2.0, 3.0, out=u)
        elif how == "out-add":
            np.add(u, u, out=u)
        elif how == "copyto":
            np.copyto(u, 3.0)
        elif how == "itemset-view":
            u.view(np.ndarray)[...] = 3.0
        elif how == "magnitude":
            u.magnitude = 3.0
        elif how == "name":
            u.name = "other"
        elif how == "symbol":
            u.symbol = "other"
        elif how == "u_symbol":
            u.u_symbol = "other"
        elif how == "definition":
            u.definition = 2 * ub
        elif how == "simplified":
            u.simplified = 2 * ub
        elif how == "view-imul":
            v = u.view(env.pq.Quantity)
            v *= 3.0
        elif how == "dimensionality":
            u.dimensionality = va.dimensionality
    st, r = env.attempt(go)
    env.check(st == "exc", how + ":no-exception")
    same(env, s, u, how)


@harness("C12", kind=KIND, how=["dims-imul", "dims-setitem", "dims-clear", "simplified", "definition", "definition-set", "definition-units", "reference", "units", "dims-ipow"])
def returned_objects(env, kind, how):
    """what a unit hands out can be changed freely without changing the unit"""
    us = units(env)
    A, B, ua, ub, va = us
    u = pick(env, kind, us)
    s = look(env, u)

    def go():
        d = u.dimensionality
        if how == "dims-imul":
            d *= va.dimensionality
        elif how == "dims-setitem":
            d[va] = 3
        elif how == "dims-clear":
            d.clear()
        elif how == "dims-ipow":
            d **= 2
        elif how == "simplified":
            t = u.simplified
            t *= 3.0
            t *= va
        elif how == "definition":
            t = u.definition
            t *= 3.0
        elif how == "definition-set":
            t = u.definition
            t[...] = 5 * t
        elif how == "definition-units":
            t = u.definition
            t *= 1 * va
        elif how == "reference":
            t = u * 1
            t[...] = 3.0 * u
            t /= va
        elif how == "units":
            t = u.units * 1
            t *= 5.0
    env.attempt(go)
    same(env, s, u, how)


OPS = ["u*1", "1*u", "u*v", "u/v", "u**2", "u+u", "u-w", "-u", "abs", "rescale", "copy", "Quantity", "astype", "sqrt", "np.multiply", "sum", "u%w", "2/u",
       "simplified", "view", "deepcopy", "array"]


@harness("C12", o=OPS, kind=["derived", "base", "builtin"], change=["set", "imul", "units", "iadd"])
def results(env, o, kind, change):
    """results of arithmetic on units never share storage with the unit"""
    import copy
    us = units(env)
    A, B, ua, ub, va = us
    u = pick(env, kind, us)
    w = ub if kind == "derived" else u
    s, sv = look(env, u), look(env, va)
    np = env.np
    r = {"u*1": lambda: u * 1, "1*u": lambda: 1 * u, "u*v": lambda: u * va, "u/v": lambda: u / va, "u**2": lambda: u ** 2,
         "u+u": lambda: u + u, "u-w": lambda: u - w, "-u": lambda: -u, "abs": lambda: abs(u), "rescale": lambda: u.rescale(w),
         "copy": lambda: env.pq.Quantity(u) * 1, "Quantity": lambda: env.pq.Quantity(u), "astype": lambda: u.astype("f8"),
         "sqrt": lambda: np.sqrt(u), "np.multiply": lambda: np.multiply(u, va), "sum": lambda: sum([u, u]) if False else u + w,
         "u%w": lambda: u % w, "2/u": lambda: 2 / u, "simplified": lambda: u.simplified, "view": lambda: u.view(env.pq.Quantity) * 1,
         "deepcopy": lambda: copy.deepcopy(u), "array": lambda: np.array([1.0, 2.0]) * u}[o]()

    def go():
        t = r
        if change == "set":
            t[...] = t * 5
        elif change == "imul":
            t *= 7.0
            t *= va
        elif change == "units":
            t.units = t.simplified.units
        else:
            t += t
    st, e = env.attempt(go)
    if change == "set" and o != "deepcopy":
        env.check(st == "ok", o + ":result-cannot-be-changed")
    same(env, s, u, o)
    same(env, sv, va, o + "-other")


@harness("C12", n=[2], thorough={"n": [2, 3]})
def uses(env, n):
    """sequences of ordinary uses: afterwards the unit is what it was and converts as defined"""
    us = units(env)
    A, B, ua, ub, va = us
    k1, k2, _ = env.k
    s, s2 = look(env, ua), look(env, ub)
    x = env.arr("x", (2,))
    for i in range(n):
        o = env.choice("op%d" % i, ["units", "iadd", "imul", "rescale", "set", "simplified", "compare", "ctor", "ipow"])
        q = env.pq.Quantity(x, ua) * 1
        if o == "units":
            q.units = ub
            q.units = ua
        elif o == "iadd":
            q += ub
            q -= ua
        elif o == "imul":
            q *= ub
            q /= ua
        elif o == "rescale":
            q.rescale(ub)[...] = 3 * ub
        elif o == "set":
            q[0] = ub
        elif o == "simplified":
            r = q.simplified
            r *= 2
        elif o == "compare":
            (ua == ub, ua < ub)
        elif o == "ctor":
            r = env.pq.Quantity(ua)
            env.attempt(lambda: op.imul(r, 4.0))
        else:
            q **= 2
    same(env, s, ua, "ua")
    same(env, s2, ub, "ub")
    r = env.pq.Quantity(x, ua).rescale(ub)
    env.eq(env.vals(r), [t * k1 / k2 for t in env.vals(x)], "conversion")


indep.register("C12")

from symq.props import c14  # noqa: E402
harness("C12", src=["quantity", "array-0d", "uncertain", "one-element", "unit-times"], how=["imul", "units", "set", "iadd", "fill", "array"],
        cls=["UnitQuantity", "special"], of=["unit", "none", "product"], filt=lambda src, how, cls, of: of == "unit" or cls == "UnitQuantity")(c14.definition_is_kept)
