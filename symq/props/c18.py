"""C18 a registered unit name keeps its meaning"""
import copy
import pickle
from symq.harness import harness

CH = 8


@harness("C18", part=list(range(CH)))
def builtin(env, part):
    """every built-in name: a unit of magnitude one; another definition is refused, the same one accepted, the binding stays"""
    pq = env.pq
    A, B = env.bases()
    k = env.real("k", pos=True, lo=2)
    foreign = env.unit("foreign", k * A)
    reg = env.registry()
    before = dict(reg)
    for n in sorted(reg)[part::CH]:
        u = reg[n]
        env.check(isinstance(u, pq.UnitQuantity), "unit:" + n)
        env.eq(env.vals(u), [1], "magnitude:" + n)
        env.shape(u, (), "shape:" + n)
        r = pq.unit_registry[n]
        env.eq(env.vals(r), [1], "magnitude:" + n)
        if n == "qa" or n == "qb" or n == "foreign":
            continue
        ident = not n.startswith("(")
        if ident and n not in ("%",):
            env.check(r is u, "denotes:" + n)
        # re-registration of the same unit is harmless
        pq.unit_registry[n] = u
        # of a different one refused
        def reg_foreign():
            pq.unit_registry[n] = foreign
        env.raises(KeyError, reg_foreign, "foreign:" + n)
        env.raises(KeyError, lambda: pq.UnitQuantity(n, k * A), "define:" + n)
        if env.dims(u) and type(u) is not pq.unitquantity.Dimensionless:
            env.raises(KeyError, lambda: pq.UnitQuantity(n, k * u), "resize:" + n)
        else:
            env.raises(KeyError, lambda: pq.UnitQuantity(n, k), "resize:" + n)
    after = env.registry()
    env.check(all(after[n] is before[n] for n in before), "bindings")


ROLES = ["name", "symbol", "alias", "direct", "alias2", "name-symbol", "name-all", "symbol-alias"]


def register(env, i, role, target, definition, cls):
    """register `target` in the given role; -> the unit if it was created"""
    pq = env.pq
    if role == "name":
        return cls(target, definition)
    if role == "name-symbol":
        return cls(target, definition, symbol="sym%d" % i)
    if role == "name-all":
        return cls(target, definition, symbol="sym%d" % i, aliases=["first%d" % i, "other%d" % i])
    if role == "symbol-alias":
        return cls("own%d" % i, definition, symbol=target, aliases=["first%d" % i])
    if role == "symbol":
        return cls("own%d" % i, definition, symbol=target)
    if role == "alias":
        return cls("own%d" % i, definition, symbol="sym%d" % i, aliases=[target, "other%d" % i])
    if role == "alias2":
        return cls("own%d" % i, definition, aliases=["first%d" % i, target])
    u = cls("own%d" % i, definition)
    pq.unit_registry[target] = u
    return u


@harness("C18", r1=ROLES, r2=ROLES, cls=["UnitQuantity", "UnitLength", "special"], d2=["same", "other", "sym"])
def two(env, r1, r2, cls, d2):
    """a second registration of a name, in any role: kept if equal, refused if different"""
    pq = env.pq
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    C = {"UnitQuantity": pq.UnitQuantity, "UnitLength": pq.UnitLength, "special": env.clsA}[cls]
    base = pq.m if cls == "UnitLength" else A
    u1 = register(env, 1, r1, "tt", k1 * base, C)
    env.check(pq.unit_registry["tt"] is u1, "first")
    d = {"same": k1 * base, "other": k2 * B, "sym": k2 * base}[d2]
    eq = {"same": True, "other": False, "sym": k1 == k2}[d2]
    if d2 == "sym" and not env.symbolic and abs(k1 - k2) <= 1e-9 * (k1 + k2) and k1 != k2:
        return
    C2 = pq.UnitQuantity if d2 == "other" else C
    st, v = env.attempt(lambda: register(env, 2, r2, "tt", d, C2))
    if st == "ok":
        env.check(eq, "accepted-different")
    else:
        env.check(isinstance(v, KeyError), "wrong-exception-%s" % type(v).__name__)
        env.check(~eq if not isinstance(eq, bool) else not eq, "refused-equal")
    env.check(pq.unit_registry["tt"] is u1, "binding")
    x = env.arr("x", (1,))
    r = pq.Quantity(x, "tt").rescale(base)
    env.eq(env.vals(r), [w * k1 for w in env.vals(x)], "meaning")
    r = pq.Quantity(x, "2*tt**2/2").rescale(base ** 2)
    env.eq(env.vals(r), [w * k1 ** 2 for w in env.vals(x)], "meaning")


@harness("C18", first=["name", "symbol", "alias"], steps=[2], thorough={"steps": [3]}, max_paths=20000)
def histories(env, first, steps):
    """histories of registrations, parses, copies, pickles and conversions: the first binding of every name stays"""
    pq = env.pq
    A, B = env.bases()
    k0, k1 = env.real("k0", pos=True), env.real("k1", pos=True)
    bound = {}
    u = register(env, 0, first, "t1", k0 * A, pq.UnitQuantity)
    bound["t1"] = (u, k0, A)
    w = register(env, 9, "symbol", "t2", k1 * B, pq.UnitQuantity)
    bound["t2"] = (w, k1, B)
    x = env.arr("x", (1,))
    acts = ["redefine", "swap", "parse", "copy", "deepcopy", "pickle", "compound", "convert", "default", "new", "same", "partial"]
    for i in range(steps):
        act = env.choice("act%d" % i, acts)
        if act == "redefine":
            role = env.choice("role%d" % i, ROLES)
            env.raises(KeyError, lambda: register(env, 20 + i, role, "t1", 2 * k0 * A, pq.UnitQuantity), "redefine")
        elif act == "swap":
            def swap():
                pq.unit_registry["t1"] = w
            env.raises(KeyError, swap, "swap")
        elif act == "same":
            pq.unit_registry["t1"] = pq.unit_registry["t1"]
            pq.UnitQuantity(u.name, k0 * A, symbol="t1")
        elif act == "parse":
            pq.unit_registry["t1*t2**-2/(3*t1)"]
            env.attempt(lambda: pq.unit_registry["(t1 := t2)"])
            env.attempt(lambda: pq.unit_registry["t1 + t2"])
            env.attempt(lambda: pq.unit_registry["t1 = t2"])
        elif act == "copy":
            c = u.copy()
            env.check(c.name == u.name, "copy")
        elif act == "deepcopy":
            copy.deepcopy(w)
        elif act == "pickle":
            if not env.symbolic:
                env.check(pickle.loads(pickle.dumps(pq.parsec)) == pq.parsec, "pickle")
        elif act == "compound":
            pq.CompoundUnit("t1*t2")
            pq.CompoundUnit("t2")
        elif act == "convert":
            q = pq.Quantity(x, u)
            q.rescale(A)
            q *= 2
            q.units = A
            q = 3 * u
            q *= u
        elif act == "default":
            env.attempt(lambda: env.clsA.set_default_unit("t1"))
        elif act == "new":
            bound["t3%d" % i] = (pq.UnitQuantity("t3%d" % i, k1 * u, symbol="t4%d" % i), k1 * k0, A)
        elif act == "partial":
            env.raises(KeyError, lambda: pq.UnitQuantity("t5%d" % i, 3 * u, symbol="t6%d" % i, aliases=["t7%d" % i, "t1"]), "partial")
        for n, (v, f, b) in bound.items():
            env.check(pq.unit_registry[n] is v, "binding:" + n)
            r = pq.Quantity(x, n).rescale(b)
            env.eq(env.vals(r), [t * f for t in env.vals(x)], "meaning")


SPELL = [("hertzo", "HERTZO", ["Hertzo"]), ("Zed", "zed", []), ("aB", "Ab", ["AB", "ab"]), ("mole_", "MOLE_", ["mole__"]), ("pre_x", "pre_X", []), ("long_name", "lq", ["LQ"]), ("same", "same", ["SAME", "same"])]


@harness("C18", spell=SPELL, cls=["UnitQuantity", "UnitLength", "special"])
def spellings(env, spell, cls):
    """the name, the symbol and every alias are registered, also when they differ only in case; each denotes the unit"""
    pq = env.pq
    A, B = env.bases()
    k = env.real("k", pos=True)
    name, symbol, aliases = spell
    C = {"UnitQuantity": pq.UnitQuantity, "UnitLength": pq.UnitLength, "special": env.clsA}[cls]
    base = pq.m if cls == "UnitLength" else A
    before = set(env.registry())
    u = C(name, k * base, symbol=symbol, aliases=list(aliases))
    names = {name, symbol} | set(aliases)
    after = env.registry()
    env.check(set(after) - before == names, "registered")
    x = env.arr("x", (1,))
    for n in sorted(names):
        if n not in after:
            continue
        env.check(pq.unit_registry[n] is u, "denotes:" + n)
        r = pq.Quantity(x, n).rescale(base)
        env.eq(env.vals(r), [v * k for v in env.vals(x)], "meaning:" + n)
        env.same_dims(pq.Quantity(x, "%s**2" % n), {name: 2}, "compound:" + n)
    env.check(u.name == name and u.symbol == symbol, "own-name")


from symq import many  # noqa: E402
many.register("C18")
