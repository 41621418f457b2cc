"""Operands that are parts of the quantity being changed

An in-place operation or an assignment whose operand shares memory with its
target gives what the same operation gives with a separate copy of the operand
(and of the target): value, units and class.
"""
from symq.harness import harness

PARTS = {
    "itself": lambda q: q, "reverse": lambda q: q[::-1], "first": lambda q: q[:1], "last": lambda q: q[-1:], "elem": lambda q: q[1], "view": lambda q: q.view(type(q)),
    "ravel": lambda q: q.ravel(), "mag": lambda q: q.magnitude[::-1], "wrapped": lambda q: q.reshape((3,)),
}
IN = {
    "iadd": lambda q, p: q.__iadd__(p), "isub": lambda q, p: q.__isub__(p), "imul": lambda q, p: q.__imul__(p), "idiv": lambda q, p: q.__itruediv__(p),
}
SETS = {
    "set-all": lambda q, p: q.__setitem__(slice(None), p), "set-tail": lambda q, p: q.__setitem__(slice(1, None), p[:2] if p.shape == (3,) else p),
    "set-list": lambda q, p: q.__setitem__([2, 0], p[1:] if p.shape == (3,) else p), "put": lambda q, p: q.put([0, 2], p[:2] if p.shape == (3,) else p),
    "set-mask": lambda q, p: q.__setitem__([True, False, True], p[::2] if p.shape == (3,) else p),
    "clip": lambda q, p: q.clip(None, p, out=q), "fill-first": lambda q, p: q.__setitem__(Ellipsis, p[0] if p.shape else p),
}


def setup(env, prop):
    A, B = env.bases()
    k = env.real("k", pos=True)
    ua = env.unit("ua", k * A)
    return env.pq.Quantity(env.arr("x", (3,), nonzero=True, lo=1, hi=9), ua * B)


def agree(env, a, b, label):
    env.check(type(a) is type(b), label + ":class")
    env.shape(a, b.shape, label)
    env.same_dims(a, {u.name: n for u, n in b.dimensionality.items()}, label)
    env.eq(env.vals(a), env.vals(b), label)


@harness("C07", name="own_parts", o=list(IN), part=list(PARTS), filt=lambda o, part: part != "mag" or o in ("imul", "idiv"))
def inplace(env, o, part):
    """q op= a part of q: as with a separate copy of that part"""
    q = setup(env, "C07")
    free, part_ = q.copy(), PARTS[part](q).copy()
    free = IN[o](free, part_)
    r = IN[o](q, PARTS[part](q))
    env.check(r is q, "same-object")
    agree(env, q, free, o + "-" + part)


@harness("C11", name="own_parts", o=list(SETS), part=[p for p in PARTS if p != "mag"], filt=lambda o, part: (o, part) != ("set-mask", "reverse"))  # numpy itself assigns by mask element after element
def assigned(env, o, part):
    """parts of q assigned into q: as with a separate copy of that part"""
    q = setup(env, "C11")
    free, part_ = q.copy(), PARTS[part](q).copy()
    SETS[o](free, part_)
    SETS[o](q, PARTS[part](q))
    agree(env, q, free, o + "-" + part)
