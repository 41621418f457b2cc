"""Exact rational-function arithmetic over solver variables.

A symbolic number is a quotient of two polynomials with rational coefficients
over "atoms" (solver variables, roots, floors, uninterpreted applications).
Keeping numbers in this normal form means that the verification condition that
finally reaches the SMT solver is a polynomial one, with denominators cleared
(the non-vanishing of every denominator is itself a path assumption).
"""
from fractions import Fraction
import math
import z3


class Atom:
    __slots__ = ("id", "expr", "is_int", "pos", "nonzero", "root", "name")
    _n = 0

    def __init__(self, expr, name, is_int=False, pos=False, nonzero=False):
        Atom._n += 1
        self.id = Atom._n
        self.expr = expr
        self.is_int = is_int
        self.pos = pos
        self.nonzero = nonzero or pos
        self.root = None          # (q, Rat): this atom ** q == Rat, atom >= 0
        self.name = name

    def __repr__(self):
        return self.name


ATOMS = {}


def new_atom(expr, name, **kw):
    a = Atom(expr, name, **kw)
    ATOMS[a.id] = a
    return a


# --- polynomials: dict {monomial: Fraction}; monomial = ((atom_id, exp), ...) sorted

def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def p_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_mul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


ONE = {(): Fraction(1)}


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_is_const(p):
    return not p or (len(p) == 1 and () in p)


def p_z3(p, force_real=True):
    """polynomial -> z3 Real term"""
    if not p:
        return z3.RealVal(0)
    terms = []
    for m, c in sorted(p.items()):
        fs = []
        if c != 1 or not m:
            fs.append(z3.Q(c.numerator, c.denominator))
        for a, e in m:
            x = ATOMS[a].expr
            if x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            fs.extend([x] * e)
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        terms.append(t)
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


def p_z3_int(p):
    """integer polynomial -> z3 Int term, or None"""
    if not p:
        return z3.IntVal(0)
    terms = []
    for m, c in sorted(p.items()):
        if c.denominator != 1:
            return None
        t = None
        for a, e in m:
            x = ATOMS[a].expr
            if x.sort() != z3.IntSort():
                return None
            for _ in range(e):
                t = x if t is None else t * x
        if t is None:
            t = z3.IntVal(c.numerator)
        elif c != 1:
            t = z3.IntVal(c.numerator) * t
        terms.append(t)
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


def _evidently_pos_mono(m, c):
    return c > 0 and all(ATOMS[a].pos or (e % 2 == 0 and ATOMS[a].nonzero) for a, e in m)


def p_evidently_pos(p):
    return bool(p) and all(_evidently_pos_mono(m, c) for m, c in p.items())


def p_evidently_nonzero(p):
    if p_evidently_pos(p):
        return True
    if len(p) == 1:
        (m, c), = p.items()
        return all(ATOMS[a].nonzero for a, e in m)
    return False


class Rat:
    __slots__ = ("n", "d", "_key")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else ONE
        self._key = None
        self._norm()

    @staticmethod
    def const(c):
        return Rat(p_const(Fraction(c)))

    @staticmethod
    def atom(a):
        return Rat({((a.id, 1),): Fraction(1)})

    def _norm(self):
        n, d = self.n, self.d
        if not n:
            self.d = ONE
            return
        if d is not ONE and d != ONE:
            # common monomial
            com = None
            for m in list(n) + list(d):
                md = dict(m)
                if com is None:
                    com = md
                else:
                    com = {a: min(e, md[a]) for a, e in com.items() if a in md}
                if not com:
                    break
            if com:
                def strip(m):
                    md = dict(m)
                    for a, e in com.items():
                        md[a] -= e
                        if not md[a]:
                            del md[a]
                    return tuple(sorted(md.items()))
                n = {strip(m): c for m, c in n.items()}
                d = {strip(m): c for m, c in d.items()}
            # scale so that the leading denominator coefficient is 1
            lead = d[min(d)]
            if lead != 1:
                n = {m: c / lead for m, c in n.items()}
                d = {m: c / lead for m, c in d.items()}
            if len(d) > 1 and len(n) == len(d):
                m0 = min(d)
                c0 = n.get(m0)
                if c0 is not None and all(n.get(m) == c * c0 for m, c in d.items()):
                    n, d = p_const(c0), ONE
            self.n, self.d = n, d

    def is_const(self):
        return p_is_const(self.n) and self.d == ONE

    def value(self):
        return self.n.get((), Fraction(0))

    def key(self):
        if self._key is None:
            self._key = (tuple(sorted(self.n.items())), tuple(sorted(self.d.items())))
        return self._key

    def is_int(self):
        return self.d == ONE and all(
            c.denominator == 1 and all(ATOMS[a].is_int for a, _ in m)
            for m, c in self.n.items())

    # arithmetic
    def __add__(self, o):
        if self.d == o.d:
            return reduce_roots(Rat(p_add(self.n, o.n), self.d))
        return reduce_roots(Rat(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)), p_mul(self.d, o.d)))

    def __neg__(self):
        return Rat({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return reduce_roots(Rat(p_mul(self.n, o.n), p_mul(self.d, o.d)))

    def inv(self):
        return Rat(self.d, self.n)

    def __pow__(self, k):
        r = Rat.const(1)
        b = self if k >= 0 else self.inv()
        for _ in range(abs(k)):
            r = r * b
        return r

    def z3(self):
        if self.is_int():
            t = p_z3_int(self.n)
            if t is not None:
                return z3.ToReal(t) if not p_is_const(self.n) else p_z3(self.n)
        t = p_z3(self.n)
        if self.d != ONE:
            t = t / p_z3(self.d)
        return t

    def z3_int(self):
        return p_z3_int(self.n) if self.d == ONE else None

    def atoms(self):
        s = set()
        for p in (self.n, self.d):
            for m in p:
                s.update(a for a, _ in m)
        return s

    def __repr__(self):
        return str(self.z3())


def reduce_roots(r):
    """replace root_atom**q by the radicand"""
    for _ in range(64):
        target = None
        for p in (r.n, r.d):
            for m in p:
                for a, e in m:
                    rt = ATOMS[a].root
                    if rt is not None and e >= rt[0]:
                        target = a
                        break
                if target:
                    break
            if target:
                break
        if target is None:
            return r
        q, e = ATOMS[target].root

        def sub(p):
            acc = Rat.__new__(Rat)
            acc.n, acc.d, acc._key = {}, ONE, None
            for m, c in p.items():
                md = dict(m)
                k = md.pop(target, 0)
                rem = k % q
                if rem:
                    md[target] = rem
                t = Rat({tuple(sorted(md.items())): c})
                for _ in range(k // q):
                    t = Rat(p_mul(t.n, e.n), p_mul(t.d, e.d))
                if acc.d == t.d:
                    acc = Rat(p_add(acc.n, t.n), acc.d)
                else:
                    acc = Rat(p_add(p_mul(acc.n, t.d), p_mul(t.n, acc.d)), p_mul(acc.d, t.d))
            return acc
        n, d = sub(r.n), sub(r.d)
        r = Rat(p_mul(n.n, d.d), p_mul(n.d, d.n))
    return r


def eq_z3(a, b):
    """z3 formula for a == b (denominators assumed non-zero)"""
    diff = a - b
    if not diff.n:
        return z3.BoolVal(True)
    if p_is_const(diff.n):
        return z3.BoolVal(False)
    ti = p_z3_int(diff.n)
    if ti is not None:
        return ti == 0
    return p_z3(diff.n) == 0


def cmp_z3(a, b, op):
    """a op b, op in '<', '<='"""
    diff = a - b
    if p_is_const(diff.n) and diff.d == ONE:
        v = diff.value()
        return z3.BoolVal(v < 0 if op == '<' else v <= 0)
    n = p_z3_int(diff.n)
    if n is None:
        n = p_z3(diff.n)
    f = (lambda x: x < 0) if op == '<' else (lambda x: x <= 0)
    g = (lambda x: x > 0) if op == '<' else (lambda x: x >= 0)
    if diff.d == ONE or p_evidently_pos(diff.d):
        return f(n)
    d = p_z3(diff.d)
    return z3.Or(z3.And(d > 0, f(n)), z3.And(d < 0, g(n)))


def frac_of(x):
    """Python/numpy number -> Fraction, or None when not finite"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        return None
    return Fraction(x)
