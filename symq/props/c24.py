"""C24 built-in units have their standard sizes (table: symq/data/units.txt)"""
import os
from symq.harness import harness

TABLE = []
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "units.txt"), encoding="utf-8") as f:
    for line in f:
        n, size, dims, tol, names, attrs = line.rstrip("\n").split("|")
        TABLE.append((n, float(size), {d.split("^")[0]: float(d.split("^")[1]) for d in dims.split()}, float(tol), names.split(), attrs.split()))
N = 12


def close(env, q, want, dims, tol, label):
    """q, in base units, is `want` within a relative tolerance"""
    env.klass(q, env.pq.Quantity, label)
    env.same_dims(q, dims, label)
    v = env.vals(q)[0]
    d = v - want
    lim = abs(want) * tol
    env.check((d <= lim) & (-d <= lim) if env.symbolic else abs(d) <= lim * (1 + 1e-6), label + ":size")



@harness("C24", part=list(range(N)), by=["name", "attribute"])
def sizes(env, part, by):
    """magnitude * unit, by every name and attribute, is magnitude * (tabulated size) in base units"""
    pq = env.pq
    x = env.real("x", lo=1, hi=10)
    for n, size, dims, tol, names, attrs in TABLE[part::N]:
        want = x * size
        for w in (names if by == "name" else attrs):
            if by == "name":
                st, q = env.attempt(lambda: pq.Quantity(x, w))
            else:
                st, q = env.attempt(lambda: x * getattr(pq, w))
            env.check(st == "ok", "%s-known:%s" % (by, w))
            if st == "ok":
                close(env, q.simplified, want, dims, tol, "%s:%s" % (by, w))


@harness("C24", part=list(range(N)))
def conversions(env, part):
    """converting between built-in units of one dimension uses the ratio of their sizes, both ways"""
    pq = env.pq
    x = env.real("x", lo=1, hi=10)
    groups = {}
    for row in TABLE:
        if row[4]:
            groups.setdefault(tuple(sorted(row[2].items())), []).append(row)
    for g in sorted(groups.values(), key=lambda g: g[0][0])[part::N]:
        for a, b in zip(g, g[1:] + g[:1]):
            q = pq.Quantity(x, a[0])
            r = q.rescale(b[0])
            env.klass(r, pq.Quantity, "converted")
            env.same_dims(r, {b[0]: 1} if b[0] != "dimensionless" else {}, "converted")
            v, want, tol = env.vals(r)[0] * b[1], x * a[1], max(a[3], b[3]) * 3
            env.check((v - want <= want * tol) & (want - v <= want * tol) if env.symbolic else abs(v - want) <= want * tol * (1 + 1e-6), "ratio:%s:%s" % (a[0], b[0]))
            back = r.rescale(a[0])
            env.eq(env.vals(back), [x], "round-trip")


PREFIX = {"yotta": 1e24, "zetta": 1e21, "exa": 1e18, "peta": 1e15, "tera": 1e12, "giga": 1e9, "mega": 1e6, "kilo": 1e3, "hecto": 1e2, "deka": 1e1,
          "deci": 1e-1, "centi": 1e-2, "milli": 1e-3, "micro": 1e-6, "nano": 1e-9, "pico": 1e-12, "femto": 1e-15, "atto": 1e-18, "zepto": 1e-21,
          "kibi": 2 ** 10, "mebi": 2 ** 20, "gibi": 2 ** 30, "tebi": 2 ** 40, "pebi": 2 ** 50, "exbi": 2 ** 60, "zebi": 2 ** 70, "yobi": 2 ** 80}


@harness("C24", unit=["m", "g", "s", "byte"])
def prefixes(env, unit):
    """a magnitude times a prefix times a unit is that multiple of the unit"""
    pq = env.pq
    x = env.real("x", lo=1, hi=10)
    for name, size in PREFIX.items():
        q = x * getattr(pq, name) * getattr(pq, unit)
        env.klass(q, pq.Quantity, name)
        env.same_dims(q, {getattr(pq, unit).name: 1}, name)
        v = env.vals(q)[0]
        want = x * size
        env.check((v - want <= want * 1e-12) & (want - v <= want * 1e-12) if env.symbolic else abs(v - want) <= want * 1e-9, name + ":size")
