"""Model of the built-in hash() for tuples that contain symbolic numbers.

CPython's tuple hash is treated as ideal (collision free, and free of accidental
XOR cancellation) on the pairs (hash(x), hash(y)), with the one collision every
CPython has by design kept: hash(-1) == hash(-2).
"""
import builtins
import sys

import z3
from fractions import Fraction

from . import core, alg
from .core import Sym, SymBool

_h = builtins.hash


def _hv(x):
    """hash of a number as a value: -1 and -2 collide, everything else is distinct"""
    if isinstance(x, Sym):
        if not isinstance(x.v, alg.Rat):
            return None
        if not x.v.is_const():
            t = x.v.z3()
            return z3.simplify(z3.If(t == -1, z3.RealVal(-2), t))
        f = x.v.value()
    else:
        f = alg.frac_of(x)
        if f is None:
            return None
    return Fraction(-2) if f == -1 else f


def _z(v):
    return z3.Q(v.numerator, v.denominator) if isinstance(v, Fraction) else v


class HashSum(int):
    """XOR of an int and formal tokens"""

    def __new__(cls, const, toks):
        o = int.__new__(cls, 0)
        o.const = const
        o.toks = toks
        return o

    def __xor__(self, o):
        if isinstance(o, HashSum):
            return HashSum(self.const ^ o.const, self.toks + o.toks)
        if isinstance(o, int):
            return HashSum(self.const ^ int(o), self.toks)
        return NotImplemented
    __rxor__ = __xor__

    def _zero(self):
        groups = {}
        for key, val, raw in self.toks:
            groups.setdefault(key, []).append(val)
        if self.const:
            return z3.BoolVal(False)
        c = []
        for vals in groups.values():
            if all(isinstance(v, Fraction) for v in vals):
                if any(vals.count(v) % 2 for v in vals):
                    return z3.BoolVal(False)
                continue
            vals = [_z(v) for v in vals]
            for v in vals:
                x = z3.BoolVal(False)
                for w in vals:
                    x = z3.Xor(x, v == w)
                c.append(z3.Not(x))
        return z3.And(c) if c else z3.BoolVal(True)

    def __eq__(self, o):
        if not isinstance(o, int):
            return False
        return core.mkbool((self ^ o)._zero())

    def __ne__(self, o):
        if not isinstance(o, int):
            return True
        return core.mkbool(z3.Not((self ^ o)._zero()))

    def __hash__(self):
        return _h(self.realise())

    def realise(self):
        r = self.const
        for key, val, raw in self.toks:
            r ^= _h(tuple(x._pyvalue() if isinstance(x, Sym) else x for x in raw))
        return r

    def __int__(self):
        return self.realise()
    __index__ = __int__


def _op(name):
    f = getattr(int, name)

    def g(self, *a):
        return f(self.realise(), *[x.realise() if isinstance(x, HashSum) else x for x in a])
    return g


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__and__", "__rand__",
           "__or__", "__ror__", "__lshift__", "__rshift__", "__mod__", "__floordiv__", "__neg__",
           "__invert__", "__lt__", "__le__", "__gt__", "__ge__", "__bool__", "__pow__", "__abs__"):
    setattr(HashSum, _n, _op(_n))


import numbers
NUM = (numbers.Number,)


def hash(o):
    if type(o) is tuple:
        nums = [x for x in o if isinstance(x, NUM) and not isinstance(x, (bool, HashSum))
                and not hasattr(x, "dimensionality")]
        if len(nums) == 1:
            v = _hv(nums[0])
            if v is not None:
                key = tuple("*" if x is nums[0] else _h(x) for x in o)
                return HashSum(0, ((key, v, o),))
        return _h(tuple(x._pyvalue() if isinstance(x, Sym) else x for x in o))
    t = type(o)
    if isinstance(o, dict) and t.__hash__ is not None:
        return t.__hash__(o)
    return _h(o)


def install(pkg):
    for name, m in list(sys.modules.items()):
        if name.startswith("quantities.") and m is not None and "hash" not in m.__dict__:
            m.__dict__["hash"] = hash
