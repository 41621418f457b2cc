"""C31 printed quantities show their current magnitude, units and uncertainty"""
from symq.harness import harness
from symq.props.c28 import read


def units(env):
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    env.k = (k1, k2)
    a = env.pq.UnitQuantity("alpha", k1 * A, symbol="al", u_symbol="α")
    b = env.pq.UnitQuantity("beta", k2 * A / B, symbol="be", u_symbol="β")
    c = env.pq.UnitQuantity("gamx", A, symbol="ga")
    return A, B, a, b, c


def is_units(env, text, want, uni, label, style=None):
    """the text reads as exactly want = [(unit, exponent)]"""
    w = {(u.u_symbol if uni else u.symbol): float(e) for u, e in want if e != 0}
    ok = text == "dimensionless" if not w else read(text, style or ("unicode" if uni else "string"), set(w)) == w
    env.check(ok, label + ":units")


def halves(text, sep, label, env):
    """what stands left and right of the last `sep`"""
    i = text.rfind(sep)
    env.check(i >= 0, label + ":form")
    return (text[:i], text[i + len(sep):]) if i >= 0 else (text, "")


def shows(env, q, v, want, uni, label):
    """str, repr and format of q"""
    head, tail = halves(str(q), " ", label + ":str", env)
    env.shown(head, v, label + ":str")
    is_units(env, tail, want, uni, label + ":str")
    head, tail = halves(repr(q), " * ", label + ":repr", env)
    env.check(head.startswith("array(") and head.endswith(")"), label + ":repr:array")
    env.shown(head, v, label + ":repr")
    is_units(env, tail, want, uni, label + ":repr", "string")
    for spec in (["", ".3f", ".2e"] if not q.ndim else [""]):
        head, tail = halves(format(q, spec), " ", label + ":format", env)
        env.shown(head, v, label + ":format", spec)
        is_units(env, tail, want, uni, label + ":format")


@harness("C31", sh=[(), (1,), (1, 1), (2,), (2, 2)], uni=[False, True], third=[0, 1, -2])
def quantities(env, sh, uni, third):
    """any magnitude, any exponents, ASCII and unicode"""
    A, B, a, b, c = units(env)
    env.reading()
    e1, e2 = env.int("e1", -2, 3, text=True), env.int("e2", -2, 2, text=True)
    x = env.arr("x", tuple(sh), lo=-1000, hi=1000)
    q = env.pq.Quantity(x, a ** e1 * b ** e2 * c ** third)
    s = env.snap(q)
    env.pq.markup.config.use_unicode = uni
    shows(env, q, env.vals(x), [(a, int(e1)), (b, int(e2)), (c, third)], uni, "q")
    env.unchanged(s, q, "printing")


@harness("C31", change=["units", "imul", "idiv", "ipow", "iadd", "setitem", "fill", "view", "rescale", "copy", "unicode", "scalar"], sh=[(), (1,), (2,)])
def after_changes(env, change, sh):
    """printed before and after a change: always the current state"""
    A, B, a, b, c = units(env)
    k1, k2 = env.k
    env.reading()
    sh = tuple(sh)
    x = env.arr("x", sh, lo=-1000, hi=1000)
    y = env.real("y", lo=1, hi=100)
    v = list(env.vals(x))
    q = env.pq.Quantity(x, a)
    shows(env, q, v, [(a, 1)], False, "before")
    w, d, uni = v, [(a, 1)], False
    if change == "units":
        q.units = c
        w, d = [i * k1 for i in v], [(c, 1)]
    elif change == "imul":
        q *= y * b
        w, d = [i * y for i in v], [(a, 1), (b, 1)]
    elif change == "idiv":
        q /= env.pq.Quantity(y, a)
        w, d = [i / y for i in v], []
    elif change == "ipow":
        q **= 2
        w, d = [i * i for i in v], [(a, 2)]
    elif change == "iadd":
        q += y * c
        w = [i + y / k1 for i in v]
    elif change == "setitem":
        q[...] = y * c
        w = [y / k1 for i in v]
    elif change == "fill":
        q.fill(y * c)
        w, d = [y for i in v], [(c, 1)]
    elif change == "view":
        r = q.reshape((1,) + sh)
        shows(env, r, v, [(a, 1)], False, "view")
        q[...] = y * a
        w = [y for i in v]
        shows(env, r, w, d, False, "view-after")
    elif change == "rescale":
        r = q.rescale(c)
        shows(env, r, [i * k1 for i in v], [(c, 1)], False, "rescaled")
    elif change == "copy":
        r = q.copy()
        q *= y * b
        shows(env, r, v, [(a, 1)], False, "copied")
        w, d = [i * y for i in v], [(a, 1), (b, 1)]
    elif change == "unicode":
        env.pq.markup.config.use_unicode = True
        shows(env, q, v, d, True, "unicode")
        env.pq.markup.config.use_unicode = False
    elif change == "scalar":
        if sh:
            q = q[-1]
            w = v[-1:]
    shows(env, q, w, d, uni, "after")


def uncertain(env, q, v, s, want, uni, label):
    t = str(q)
    parts = t.split("\n")
    env.check(len(parts) == 2, label + ":lines")
    if len(parts) != 2:
        return
    pm, end = ("±", " (1σ)") if uni else ("+/-", " (1 sigma)")
    env.check(parts[1].startswith(pm) and parts[1].endswith(end), label + ":form")
    for line, val, n in ((parts[0], v, "value"), (parts[1][len(pm):-len(end)], s, "uncertainty")):
        head, tail = halves(line, " ", label + n, env)
        env.shown(head, val, label + ":" + n)
        is_units(env, tail, want, uni, label + ":" + n)
    t = repr(q)
    head = "UncertainQuantity(array("
    env.check(t.startswith(head) and t.endswith("))"), label + ":repr")
    mid, unc = halves(t[len(head):-1], ", array(", label + ":repr", env)
    mag, dim = halves(mid, "), ", label + ":repr", env)
    env.shown(mag, v, label + ":repr")
    env.shown(unc, s, label + ":repr-uncertainty")
    is_units(env, dim, want, uni, label + ":repr", "string")


@harness("C31", sh=[(), (1,), (2,)], uni=[False, True], change=[None, "units", "imul", "index", "uncertainty", "rescale", "aggregate"])
def uncertainties(env, sh, uni, change):
    """value and uncertainty, both in the current units"""
    A, B, a, b, c = units(env)
    k1, k2 = env.k
    env.reading()
    sh = tuple(sh)
    e = env.int("e", -2, 2, text=True)
    x = env.arr("x", sh, lo=-1000, hi=1000)
    u = env.arr("s", sh, lo=1, hi=100)
    v, s = list(env.vals(x)), list(env.vals(u))
    q = env.pq.UncertainQuantity(x, a * b ** e, u)
    env.pq.markup.config.use_unicode = uni
    d = [(a, 1), (b, int(e))]
    uncertain(env, q, v, s, d, uni, "before")
    if change == "units":
        q.units = c * b ** e
        v, s, d = [i * k1 for i in v], [i * k1 for i in s], [(c, 1), d[1]]
    elif change == "imul":
        q *= 2.0 * c
        v, s, d = [i * 2 for i in v], [i * 2 for i in s], d + [(c, 1)]
    elif change == "index" and sh:
        q = q[-1]
        v, s = v[-1:], s[-1:]
    elif change == "uncertainty":
        q.uncertainty = u * 2 * c * b ** e
        s = [i * 2 / k1 for i in s]
    elif change == "rescale":
        q = q.rescale(c * b ** e)
        v, s, d = [i * k1 for i in v], [i * k1 for i in s], [(c, 1), d[1]]
    elif change == "aggregate" and sh:
        if len(v) > 1:
            env.assume(v[0] > v[1])
        q = q.max()
        v, s = v[:1], s[:1]
    uncertain(env, q, v, s, d, uni, "after")


@harness("C31", k=[1234567.25, 0.12345678901234, 64.79891e-9, 299792458.0, 1e22, 1 / 3], what=["unit", "scalar", "list", "uncertain", "uncertainty", "element"])
def digits(env, k, what):
    """numbers of many digits are shown in full wherever a single number is shown"""
    A, B, a, b, c = units(env)
    env.reading()
    k = env.real("k", lo=k, hi=k)
    z = env.npreal("z", lo=1, hi=1) * k
    if what == "unit":
        u = env.pq.UnitQuantity("psx", k * a)
        t = repr(u)
        env.shown(t[t.index(","):t.index(" * ")], [k], "repr", exact=True)
        return
    if what.startswith("unc"):
        q = env.pq.UncertainQuantity(z, a, 2 * z)
        if what == "uncertain":
            env.shown(str(q).split("\n")[0].split(" ")[0], [k], "str", exact=True)
        else:
            env.shown(str(q).split("+/-")[1].split(" ")[0], [2 * k], "str", exact=True)
        return
    q = env.pq.Quantity(z, a) if what == "scalar" else env.pq.Quantity(env.np.array([k, 2 * k]), a)[0] if what == "element" else env.pq.Quantity(env.np.array([k, 2 * k]), a).tolist()[0]
    env.shown(str(q).split(" ")[0], [k], "str", exact=True)


@harness("C31", uni=[False, True], usym=[None, "ψ"], sym=[None, "pz"], e=[1, -2], base=[False, True])
def unit_objects(env, uni, usym, sym, e, base):
    """a unit shows its name, its symbol and its definition"""
    A, B, a, b, c = units(env)
    env.reading()
    k = env.real("k", lo=1, hi=1000)
    u = env.clsA("psx", symbol=sym, u_symbol=usym) if base else env.pq.UnitQuantity("psx", k * a ** e, symbol=sym, u_symbol=usym)
    env.pq.markup.config.use_unicode = uni
    s = (usym if uni else None) or sym or "psx"
    named = usym or sym
    # the symbol is shown with the name whenever the unit has one
    want = "1 %s (psx)" % s if named else "1 psx"
    env.check(str(u) == want, "str")
    t = repr(u)
    cls = type(u).__name__
    env.check(t.startswith("%s('psx'" % cls) and t.endswith(")"), "repr")
    t = t[len(cls) + 6:-1]
    if not base:
        env.check(t.startswith(", "), "repr")
        i = t.find(" * ")
        env.shown(t[2:i], [k], "repr-factor")
        t = t[i + 3:]
        ref = ("α" if uni else "al") if e == 1 else "1/%s**2" % ("α" if uni else "al")
        env.check(t.startswith(ref), "repr-definition")
        t = t[len(ref):]
    want = (", 'pz'" if sym else "") + (", 'ψ'" if uni and usym else "")
    env.check(t == want, "repr-symbols")
    q = k * u
    shows(env, q, [k], [(u, 1)], uni, "quantity")


@harness("C31", uni=[False, True], part=list(range(4)))
def builtins(env, uni, part):
    """quantities in every built-in unit: the symbol (or the name) and the magnitude"""
    env.reading()
    reg = env.registry()
    us = {}
    for n in sorted(reg):
        us.setdefault(reg[n].name, reg[n])
    x = env.real("x", lo=1, hi=1000)
    env.pq.markup.config.use_unicode = uni
    for n in sorted(us)[part::4]:
        u = us[n]
        q = x * u
        d = q.dimensionality
        txt = (u.u_symbol if uni else u.symbol) if d else "dimensionless"
        if uni and d:
            txt = txt.replace("**", "^").replace("*", "·")
        head, tail = halves(str(q), " ", "builtin", env)
        env.check(tail == txt, "builtin-%s:units" % n)
        env.shown(head, [x], "builtin")
        env.check(n in str(u), "builtin-%s:name" % n)
        head, tail = halves(format(q, ".3f"), " ", "builtin", env)
        env.check(tail == txt, "builtin-%s:format" % n)
        env.shown(head, [x], "builtin-format", ".3f")
