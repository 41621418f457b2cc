"""Symbolic scalars and the path-exploring engine.

The engine executes the *real* Python functions of /repo.  Inputs are `Sym`
objects; whenever the executed code branches on one (``SymBool.__bool__``) the
solver decides which outcomes are feasible under the current path condition and
the run is repeated for each of them (dynamic symbolic execution by
re-execution).  Assertions are discharged by asking the solver for a
counterexample under the path condition.
"""
import math
import numbers
import operator
import os
import time
from fractions import Fraction

import z3
import numpy as rnp          # always the real numpy

from . import alg
from .alg import Rat

F8 = rnp.dtype("f8")


class PathAbort(BaseException):
    """the current path is infeasible / cut by an assumption"""


class BudgetExceeded(BaseException):
    pass


class Engine:
    def __init__(self, max_paths=20000, deadline=None, query_ms=20000):
        self.max_paths = max_paths
        self.deadline = deadline
        self.query_ms = query_ms
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.aborted = 0
        self.branches = 0
        self.obligations = 0
        self.trivial = 0
        self.unknown = []
        self.cuts = {}
        self.concretised = {}
        self.vars = {}
        self.active = False
        self.pending = []
        self.labels = {}
        self.max_slow = 0.0
        self.probes = []        # (path condition, left-out case) to be tried on the real code
        self.probed = set()

    # -- path control -------------------------------------------------------
    def start(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 4000)
        self.pos = 0
        self.roots = {}
        self.dead = False
        self.path_concretised = False
        self.path_uf = False
        self.active = True
        self.memo = {}
        self.probes = []

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def _check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded("time")
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        dt = time.time() - t
        self.solver_s += dt
        return r

    def abort(self):
        self.dead = True
        raise PathAbort()

    def branch(self, e):
        """decide a Boolean z3 term, forking when both outcomes are feasible"""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.dead:
            raise PathAbort()
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][1]
        self.branches += 1
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            assert kind == "b", "non-deterministic re-execution"
            self.pos += 1
        else:
            t = self._check(e)
            f = self._check(z3.Not(e)) if t != z3.unsat else z3.sat
            if t == z3.unsat:
                v = False
                if f == z3.unsat:
                    self.abort()
            elif f == z3.unsat:
                v = True
            else:
                v = True
                self.pending.append(self.trace + [("b", False)])
        self.trace.append(("b", v))
        self.memo[k] = (e, v)
        self.add(e if v else z3.Not(e))
        return v

    def realise_int(self, rat):
        """case-split an integer term over all its feasible values"""
        if rat.is_const():
            return int(rat.value())
        t = rat.z3_int()
        if t is None:
            t = z3.ToInt(rat.z3())
        excluded = []
        while True:
            if self.dead:
                raise PathAbort()
            if self.pos < len(self.prefix):
                kind, v = self.prefix[self.pos]
                assert kind in ("v", "x"), "non-deterministic re-execution"
                self.pos += 1
            else:
                # smallest-magnitude value first would need optimisation; a
                # model value is enough, all values are enumerated anyway
                if self._check() != z3.sat:
                    self.abort()
                v = self.solver.model().eval(t, model_completion=True).as_long()
                kind = "v"
                if self._check(t != v) != z3.unsat:
                    self.pending.append(self.trace + [("x", v)])
            self.trace.append((kind, v))
            self.branches += 1
            if kind == "v":
                self.add(t == v)
                return v
            excluded.append(v)
            self.add(t != v)
            if len(excluded) > 400:
                raise BudgetExceeded("unbounded case split")

    def concretise(self, rat, why):
        """last resort: pick one feasible value (the path is then only a sample)"""
        if rat.is_const():
            return rat.value()
        t = rat.z3()
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            assert kind == "c", "non-deterministic re-execution"
            self.pos += 1
        else:
            if self._check() == z3.unsat:
                self.abort()
            v = None
            s = self.solver
            for lo, hi in ((Fraction(1, 4), 64), (-64, 64), (None, None)):
                ex = [] if lo is None else [t >= z3.Q(Fraction(lo).numerator, Fraction(lo).denominator), t <= hi]
                if self._check(*ex) == z3.sat:
                    v = z3_frac(s.model().eval(t, model_completion=True))
                    break
            if v is None:
                self.abort()
            v = Fraction(float(v))
            if self._check(t == z3.Q(v.numerator, v.denominator)) == z3.unsat:
                self.abort()
        self.trace.append(("c", v))
        self.path_concretised = True
        self.concretised[why] = self.concretised.get(why, 0) + 1
        self.add(t == z3.Q(v.numerator, v.denominator))
        return v

    def assume(self, e, cut=None):
        e = z3.simplify(e)
        if z3.is_true(e) or self.dead:
            return
        if cut:
            self.cuts[cut] = self.cuts.get(cut, 0) + 1
            self.probe(z3.Not(e), cut)
        if z3.is_false(e):
            self.abort()
        self.add(e)
        if self.pos >= len(self.prefix) and self._check() == z3.unsat:
            self.abort()

    def probe(self, e, cut):
        """a case the encoding leaves out: remembered, so that its model is run on the real code"""
        k = (cut, e.hash())
        if self.pos >= len(self.prefix) and k not in self.probed and len(self.probed) < 40:
            self.probed.add(k)
            self.probes.append((list(self.pc), e, cut))

    # -- proof obligations ---------------------------------------------------
    def prove(self, formula, label):
        """returns None (holds on this path), a z3 model, or 'unknown'"""
        self.obligations += 1
        neg = z3.simplify(z3.Not(formula))
        if z3.is_false(neg):
            self.queries += 1
            self.trivial += 1
            return None
        r, m = self.solve(self.pc + [neg])
        if r == z3.unsat:
            return None
        if r == z3.sat:
            return m
        self.unknown.append(label)
        return "unknown"

    def quick_unsat(self, f):
        """the solver's confirmation of an identity found by normalisation"""
        t = time.time()
        self.queries += 1
        s = z3.Solver()
        s.set("timeout", 500)
        s.add(f)
        r = s.check()
        if r == z3.sat and self.pc:
            # e.g. a zero divisor that the path condition excludes
            s.add(*self.pc)
            r = s.check()
        self.solver_s += time.time() - t
        assert r != z3.sat, "normal form and solver disagree"
        return r == z3.unsat

    def solve(self, fs, ms=None):
        ms = ms or self.query_ms
        last = z3.unknown
        tries = [lambda: z3.Solver(), lambda: z3.Tactic("qfnra-nlsat").solver(),
                 lambda: z3.SolverFor("QF_NIRA")]
        if self.path_uf:
            tries = [lambda: z3.Solver(), lambda: z3.SolverFor("QF_UFNRA")]
        for i, mk in enumerate(tries):
            if self.deadline and time.time() > self.deadline:
                raise BudgetExceeded("time")
            try:
                s = mk()
                s.set("timeout", ms if i else min(ms, 6000))
                for f in fs:
                    s.add(f)
                t = time.time()
                self.queries += 1
                r = s.check()
                dt = time.time() - t
                self.solver_s += dt
                self.max_slow = max(self.max_slow, dt)
                if r == z3.unsat:
                    return r, None
                if r == z3.sat:
                    return r, s.model()
            except z3.Z3Exception:
                continue
        return last, None


ENG = None


def set_engine(e):
    global ENG
    ENG = e


def z3_frac(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError("not a numeral: %s" % v)


# ---------------------------------------------------------------------------
FPS = z3.Float64()
RNE = z3.RNE()


class Fp:
    """IEEE-754 binary64 payload"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


def narrow(e, size):
    """the double e rounded to binary32/binary16 (held as a double)"""
    return z3.fpToFP(RNE, z3.fpToFP(RNE, e, z3.Float32() if size == 4 else z3.Float16()), FPS)


class Cx:
    """complex payload (pair of exact reals)"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def __repr__(self):
        return "<symbool>"

    def __and__(self, o):
        return mkbool(z3.And(self.e, bz(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bz(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        return mkbool(self.e == bz(o))

    def __ne__(self, o):
        return mkbool(self.e != bz(o))

    def __hash__(self):
        return hash(bool(self))

    # behave like numpy.bool_ scalars where the library may poke at them
    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self


def bz(x):
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class Unliftable(Exception):
    pass


def lift(o):
    """Python operand -> payload (Rat | Fp | Cx | float inf/nan) or raise"""
    if isinstance(o, Sym):
        return o.v
    if isinstance(o, (bool, rnp.bool_)):
        return Rat.const(int(o))
    if isinstance(o, (int, rnp.integer)):
        return Rat.const(int(o))
    if isinstance(o, Fraction):
        return Rat.const(o)
    if isinstance(o, (float, rnp.floating)):
        f = alg.frac_of(o)
        return float(o) if f is None else Rat.const(f)
    if isinstance(o, (complex, rnp.complexfloating)):
        return Cx(Rat.const(Fraction(float(o.real))), Rat.const(Fraction(float(o.imag))))
    if isinstance(o, SymBool):
        return Rat.const(1 if bool(o) else 0)
    raise Unliftable()


def weak_type(o):
    if isinstance(o, Sym):
        if o.dt is not None:
            return o.dt
        if isinstance(o.v, Cx):
            return complex
        if isinstance(o.v, Rat) and o.weak_int:
            return int
        return float
    if isinstance(o, rnp.generic):
        return o.dtype
    if isinstance(o, bool):
        return rnp.dtype(bool)
    if isinstance(o, int):
        return int
    if isinstance(o, complex):
        return complex
    return float


def promote(*ts):
    """NEP-50 promotion of dtypes and weak Python types"""
    strong = [t for t in ts if isinstance(t, rnp.dtype)]
    weak = [t for t in ts if not isinstance(t, rnp.dtype)]
    if not strong:
        if complex in weak:
            return complex
        return float if float in weak else int
    sample = {int: 0, float: 0.0, complex: 0j}
    return rnp.result_type(*strong, *[sample[w] for w in weak])


def tofp(p):
    if isinstance(p, Fp):
        return p.e
    if isinstance(p, float):
        return z3.FPVal(p, FPS)
    if isinstance(p, Rat) and p.is_const():
        return z3.FPVal(float(p.value()), FPS)
    raise Unliftable()


def cx(p):
    if isinstance(p, Cx):
        return p
    if isinstance(p, Rat):
        return Cx(p, Rat.const(0))
    raise Unliftable()


def sign_rat(p, what):
    """-1/0/1 by forking"""
    z = Rat.const(0)
    if ENG.branch(alg.cmp_z3(z, p, "<")):
        return 1
    if ENG.branch(alg.eq_z3(z, p)):
        return 0
    return -1


def need_nonzero(p):
    if isinstance(p, Rat):
        if p.is_const():
            if p.value() == 0:
                ENG.assume(z3.BoolVal(False), cut="division by zero")
            return
        if alg.p_evidently_nonzero(p.n):
            return
        ENG.assume(z3.Not(alg.eq_z3(p, Rat.const(0))), cut="division by zero")


def apply_bin(op, a, b):
    """payload op payload -> payload"""
    if isinstance(a, Fp) or isinstance(b, Fp):
        x, y = tofp(a), tofp(b)
        f = {"add": z3.fpAdd, "sub": z3.fpSub, "mul": z3.fpMul, "truediv": z3.fpDiv}.get(op)
        if f is None:
            raise Unliftable()
        return Fp(f(RNE, x, y))
    if isinstance(a, Cx) or isinstance(b, Cx):
        x, y = cx(a), cx(b)
        if op == "add":
            return Cx(x.re + y.re, x.im + y.im)
        if op == "sub":
            return Cx(x.re - y.re, x.im - y.im)
        if op == "mul":
            return Cx(x.re * y.re - x.im * y.im, x.re * y.im + x.im * y.re)
        if op == "truediv":
            d = y.re * y.re + y.im * y.im
            need_nonzero(d)
            return Cx((x.re * y.re + x.im * y.im) * d.inv(), (x.im * y.re - x.re * y.im) * d.inv())
        if op == "pow" and isinstance(b, Rat) and b.is_const() and b.value().denominator == 1 and abs(b.value()) <= 8:
            n = int(b.value())
            r = Cx(Rat.const(1), Rat.const(0))
            for i in range(abs(n)):
                r = apply_bin("mul", r, a)
            return apply_bin("truediv", Cx(Rat.const(1), Rat.const(0)), r) if n < 0 else r
        raise Unliftable()
    if isinstance(a, float) or isinstance(b, float):
        return inf_bin(op, a, b)
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "truediv":
        need_nonzero(b)
        return a * b.inv()
    if op == "floordiv":
        need_nonzero(b)
        return floor_rat(a * b.inv())
    if op == "mod":
        need_nonzero(b)
        return a - b * floor_rat(a * b.inv())
    if op == "fmod":
        need_nonzero(b)
        q = a * b.inv()
        return a - b * trunc_rat(q)
    if op == "pow":
        return pow_rat(a, b)
    raise Unliftable()


def inf_bin(op, a, b):
    """one operand is a concrete inf/nan"""
    def c(x):
        if isinstance(x, float):
            return x
        if x.is_const():
            return float(x.value())
        return None
    x, y = c(a), c(b)
    if x is not None and y is not None:
        f = {"add": operator.add, "sub": operator.sub, "mul": operator.mul,
             "truediv": operator.truediv, "floordiv": operator.floordiv,
             "mod": operator.mod, "pow": operator.pow}[op]
        with rnp.errstate(all="ignore"):
            r = float(f(rnp.float64(x), rnp.float64(y)))
        fr = alg.frac_of(r)
        return r if fr is None else Rat.const(fr)
    v = x if x is not None else y
    if math.isnan(v):
        return v
    sym = a if x is None else b
    if op == "add":
        return v
    if op == "sub":
        return v if y is None else -v
    if op == "mul":
        s = sign_rat(sym, "mul inf")
        return float("nan") if s == 0 else v * s
    if op == "truediv":
        if y is not None:
            return Rat.const(0)
        s = sign_rat(sym, "div inf")
        return v * (s or 1)
    raise Unliftable()


def floor_rat(r):
    if r.is_int():
        return r
    if r.is_const():
        return Rat.const(math.floor(r.value()))
    key = ("floor", r.key())
    a = ENG.roots.get(key)
    if a is None:
        a = alg.new_atom(z3.ToInt(r.z3()), "floor", is_int=True)
        ENG.roots[key] = a
    return Rat.atom(a)


def ite_rat(c, x, y, is_int=False):
    e = z3.If(c, x.z3_int() if is_int else x.z3(), y.z3_int() if is_int else y.z3())
    return Rat.atom(alg.new_atom(e, "ite", is_int=is_int))


def trunc_rat(r):
    if r.is_int():
        return r
    if r.is_const():
        return Rat.const(math.trunc(r.value()))
    key = ("trunc", r.key())
    a = ENG.roots.get(key)
    if a is None:
        t = r.z3()
        a = alg.new_atom(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), "trunc", is_int=True)
        ENG.roots[key] = a
    return Rat.atom(a)


def rint_rat(r):
    if r.is_int():
        return r
    if r.is_const():
        return Rat.const(round(r.value()))
    key = ("rint", r.key())
    a = ENG.roots.get(key)
    if a is None:
        t = r.z3()
        f = z3.ToInt(t + z3.Q(1, 2))
        tie = z3.And(z3.ToReal(f) == t + z3.Q(1, 2), f % 2 != 0)
        a = alg.new_atom(z3.If(tie, f - 1, f), "rint", is_int=True)
        ENG.roots[key] = a
    return Rat.atom(a)


def root_rat(r, q):
    """non-negative q-th root of r; r < 0 is outside (NaN)"""
    if q == 1:
        return r
    if r.is_const():
        v = r.value()
        if v >= 0:
            x = float(v) ** (1.0 / q)
            if q == 2:
                x = math.sqrt(v)
            fx = Fraction(x)
            for cand in (fx, Fraction(round(x))):
                if cand ** q == v:
                    return Rat.const(cand)
            return Rat.const(fx)
    key = ("root", q, r.key())
    a = ENG.roots.get(key)
    if a is None:
        if not alg.p_evidently_pos(r.n) or not alg.p_evidently_pos(r.d):
            ENG.assume(alg.cmp_z3(Rat.const(0), r, "<="), cut="even root of a negative number (NaN)")
        # perfect powers: sqrt(x**2 * y) is kept as |x| sqrt(y) only when the sign is known
        m = perfect_root(r, q)
        if m is not None:
            return m
        v = z3.Real("root%d_%d" % (q, len(ENG.roots)))
        a = alg.new_atom(v, "root", pos=False)
        a.root = (q, r)
        ENG.roots[key] = a
        ENG.add(v >= 0)
        e = v
        for _ in range(q - 1):
            e = e * v
        ENG.add(e * alg.p_z3(r.d) == alg.p_z3(r.n))
        if alg.p_evidently_pos(r.n) and alg.p_evidently_pos(r.d):
            a.pos = a.nonzero = True
            ENG.add(v > 0)
    return Rat.atom(a)


def perfect_root(r, q):
    """monomial n/d with all exponents divisible by q over positive atoms"""
    def mono(p):
        if len(p) != 1:
            return None
        (m, c), = p.items()
        if c < 0:
            return None
        f = float(c) ** (1.0 / q)
        cand = Fraction(round(f))
        num = None
        for base in (cand, Fraction(f).limit_denominator(10 ** 6)):
            if base ** q == c:
                num = base
                break
        if num is None:
            return None
        out = []
        for a, e in m:
            if e % q:
                return None
            at = alg.ATOMS[a]
            if at.pos or at.root is not None:
                out.append((a, e // q))
            else:
                return None
        return {tuple(out): num}
    n, d = mono(r.n), mono(r.d)
    if n is None or d is None:
        return None
    return Rat(n, d)


def pow_rat(a, b):
    if isinstance(b, Rat) and not b.is_const():
        if isinstance(a, Rat) and a.is_const() and a.value() == 1:
            return a
        if b.is_int():
            b = Rat.const(ENG.realise_int(b))
        else:
            return uf("pow", a, b)
    e = b.value()
    if e == 0:
        return Rat.const(1)
    if e.denominator == 1 and abs(e.numerator) <= 16:
        if e < 0:
            need_nonzero(a)
        if a.is_const() and abs(e.numerator) > 1:
            # follow the double-precision constant the code would compute
            x = float(a.value())
            try:
                f = alg.frac_of(rnp.float64(x) ** int(e) if not a.is_int() or e < 0 else a.value() ** int(e))
            except (OverflowError, ZeroDivisionError):
                f = None
            if f is not None:
                return Rat.const(f)
        return a ** int(e)
    if e.denominator <= 6:
        r = root_rat(a, e.denominator)
        if e.numerator < 0:
            need_nonzero(a)
            need_nonzero(r)
        if abs(e.numerator) <= 24:
            return r ** e.numerator
    if a.is_const():
        return Rat.const(alg.frac_of(float(a.value()) ** float(e)))
    return uf("pow", a, b)


UFS = {}


def uf(name, *args):
    """uninterpreted real function (transcendental functions)"""
    if all(isinstance(a, Rat) and a.is_const() for a in args) and hasattr(rnp, name) and name != "pow":
        with rnp.errstate(all="ignore"):
            v = getattr(rnp, name)(*[float(a.value()) for a in args])
        f = alg.frac_of(v)
        return float(v) if f is None else Rat.const(f)
    for a in args:
        if not isinstance(a, Rat):
            raise Unliftable()
    f = UFS.get((name, len(args)))
    if f is None:
        f = UFS[(name, len(args))] = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
    key = ("uf", name) + tuple(a.key() for a in args)
    at = ENG.roots.get(key)
    if at is None:
        at = alg.new_atom(f(*[a.z3() for a in args]), name)
        at.root = None
        ENG.roots[key] = at
    ENG.path_uf = True
    return Rat.atom(at)


def cmp_payload(op, a, b):
    """-> bool | SymBool"""
    if isinstance(a, Fp) or isinstance(b, Fp):
        x, y = tofp(a), tofp(b)
        f = {"lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ,
             "eq": z3.fpEQ, "ne": lambda p, q: z3.Not(z3.fpEQ(p, q))}[op]
        return mkbool(f(x, y))
    if isinstance(a, Cx) or isinstance(b, Cx):
        x, y = cx(a), cx(b)
        e = z3.And(alg.eq_z3(x.re, y.re), alg.eq_z3(x.im, y.im))
        if op == "eq":
            return mkbool(e)
        if op == "ne":
            return mkbool(z3.Not(e))
        lt = z3.Or(alg.cmp_z3(x.re, y.re, "<"), z3.And(alg.eq_z3(x.re, y.re), alg.cmp_z3(x.im, y.im, "<")))
        return {"lt": lambda: mkbool(lt), "le": lambda: mkbool(z3.Or(lt, e)),
                "gt": lambda: mkbool(z3.Not(z3.Or(lt, e))), "ge": lambda: mkbool(z3.Not(lt))}[op]()
    if isinstance(a, float) or isinstance(b, float):
        # a concrete inf/nan against a finite real
        x = a if isinstance(a, float) else (float(a.value()) if a.is_const() else 0.0)
        y = b if isinstance(b, float) else (float(b.value()) if b.is_const() else 0.0)
        return bool(getattr(operator, op)(x, y))
    if op == "eq":
        return mkbool(alg.eq_z3(a, b))
    if op == "ne":
        return mkbool(z3.Not(alg.eq_z3(a, b)))
    if op == "lt":
        return mkbool(alg.cmp_z3(a, b, "<"))
    if op == "le":
        return mkbool(alg.cmp_z3(a, b, "<="))
    if op == "gt":
        return mkbool(alg.cmp_z3(b, a, "<"))
    return mkbool(alg.cmp_z3(b, a, "<="))


class _FakeType:
    pass


class FakeDtype:
    """what `.dtype` of a symbolic numpy *scalar* answers: behaves like the real
    dtype, but `.type(x)` keeps a symbolic x symbolic."""

    def __init__(self, dt):
        self.dtype = dt

    @property
    def type(self):
        return scalar_type(self.dtype)

    def __getattr__(self, n):
        return getattr(self.dtype, n)

    def __eq__(self, o):
        try:
            return self.dtype == rnp.dtype(o)
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.dtype)

    def __repr__(self):
        return repr(self.dtype)

    def __str__(self):
        return str(self.dtype)


_ST = {}
SHOWN = None


def scalar_type(dt):
    t = _ST.get(dt)
    if t is None:
        base = dt.type

        def __new__(cls, v=0):
            if isinstance(v, Sym):
                return v.cast(dt)
            if isinstance(v, rnp.ndarray) and v.dtype == object and v.ndim == 0:
                return v.item().cast(dt)
            return base(v)
        t = _ST[dt] = type(base.__name__, (base,), {"__new__": __new__})
    return t


class Sym:
    """a symbolic number standing for a numpy scalar (dt is a dtype) or for a
    plain Python number (dt is None)"""
    __slots__ = ("v", "dt", "weak_int", "name", "realise_text")
    __array_priority__ = -1000000.0

    def __init__(self, v, dt=None, weak_int=False, name=None, realise_text=False):
        self.v = v
        self.dt = dt
        self.weak_int = weak_int
        self.name = name
        self.realise_text = realise_text

    # -- numpy scalar protocol ------------------------------------------------
    @property
    def dtype(self):
        if self.dt is None:
            raise AttributeError("dtype")
        return FakeDtype(self.dt)

    @property
    def shape(self):
        if self.dt is None:
            raise AttributeError("shape")
        return ()

    @property
    def ndim(self):
        if self.dt is None:
            raise AttributeError("ndim")
        return 0

    @property
    def size(self):
        if self.dt is None:
            raise AttributeError("size")
        return 1

    def item(self):
        return Sym(self.v, None, weak_int=self.dt is not None and self.dt.kind in "iub", realise_text=self.realise_text)

    def min(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def any(self, *a, **k):
        return bool(self)

    def all(self, *a, **k):
        return bool(self)

    def astype(self, dt, **k):
        return self.cast(rnp.dtype(dt))

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        if isinstance(self.v, Cx):
            return Sym(self.v.re, creal(self.dt))
        return self

    @property
    def imag(self):
        if isinstance(self.v, Cx):
            return Sym(self.v.im, creal(self.dt))
        return Sym(Rat.const(0), self.dt)

    def conjugate(self):
        if isinstance(self.v, Cx):
            return Sym(Cx(self.v.re, -self.v.im), self.dt)
        return self

    def cast(self, dt):
        """numpy cast of this value to dtype dt"""
        dt = rnp.dtype(dt)
        v = self.v
        if dt.kind in "iu":
            if isinstance(v, Cx):
                v = v.re
            if isinstance(v, Rat):
                v = trunc_rat(v)
        elif dt.kind == "f":
            if isinstance(v, Cx):
                v = v.re
            if isinstance(v, Fp) and dt.itemsize < 8:
                v = Fp(narrow(v.e, dt.itemsize))
            if isinstance(v, Rat) and v.is_const() and dt.itemsize < 8:
                f = alg.frac_of(dt.type(float(v.value())))
                v = Rat.const(f) if f is not None else v
        elif dt.kind == "c":
            if isinstance(v, Rat):
                v = Cx(v, Rat.const(0))
        elif dt.kind == "b":
            return Sym(Rat.const(1 if bool(self) else 0), dt)
        elif dt.kind == "O":
            return self
        return Sym(v, dt, realise_text=self.realise_text)

    # -- conversions that force a concrete value --------------------------------
    def _concrete(self, why):
        v = self.v
        if isinstance(v, float):
            return v
        if isinstance(v, Rat):
            if v.is_int() and not v.is_const():
                return ENG.concretise(v, why)
            return ENG.concretise(v, why)
        if isinstance(v, Fp):
            if ENG._check() == z3.unsat:
                ENG.abort()
            m = ENG.solver.model().eval(v.e, model_completion=True)
            ENG.add(v.e == m)
            ENG.path_concretised = True
            ENG.concretised[why] = ENG.concretised.get(why, 0) + 1
            return fp_float(m)
        raise TypeError("symbolic complex")

    def __float__(self):
        return float(self._concrete("__float__"))

    def __complex__(self):
        if isinstance(self.v, Cx):
            return complex(float(ENG.concretise(self.v.re, "__complex__")),
                           float(ENG.concretise(self.v.im, "__complex__")))
        return complex(float(self._concrete("__complex__")))

    def __int__(self):
        if isinstance(self.v, Rat) and self.v.is_int() and self.realise_text:
            return ENG.realise_int(self.v)
        return int(self._concrete("__int__"))

    def __index__(self):
        if isinstance(self.v, Rat) and self.v.is_int():
            return ENG.realise_int(self.v)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def _pyvalue(self):
        if isinstance(self.v, float):
            return self.v
        if isinstance(self.v, Rat):
            if self.v.is_int() and (self.weak_int or (self.dt is not None and self.dt.kind in "iu")):
                return ENG.realise_int(self.v)
            if self.v.is_const():
                return float(self.v.value())
            # an exponent known only as a real (e.g. a half-integer): k/2 with k integer
            h = self.v * Rat.const(2)
            if h.is_int():
                return ENG.realise_int(h) / 2.0
            return float(ENG.concretise(self.v, "text"))
        return "<sym>"

    def __str__(self):
        if self.realise_text or (isinstance(self.v, Rat) and self.v.is_const()):
            return str(self._pyvalue())
        return self._token("")

    def _token(self, spec):
        """what stands for a symbolic number in text: a reference into SHOWN, when a harness reads texts"""
        if SHOWN is None:
            return "<sym>"
        SHOWN.append(self)
        return "\u27e6%d|%s\u27e7" % (len(SHOWN) - 1, spec)

    __repr__ = __str__

    def __format__(self, spec):
        if self.realise_text or (isinstance(self.v, Rat) and self.v.is_const()):
            return format(self._pyvalue(), spec)
        return self._token(spec)

    def __hash__(self):
        if isinstance(self.v, Rat):
            if self.v.is_const():
                return hash(self.v.value())
            if self.v.is_int():
                return hash(ENG.realise_int(self.v))
            h = self.v * Rat.const(2)
            if h.is_int():
                return hash(ENG.realise_int(h) / 2.0)
            return hash(float(ENG.concretise(self.v, "__hash__")))
        return object.__hash__(self)

    def __bool__(self):
        v = self.v
        if isinstance(v, float):
            return True
        if isinstance(v, Cx):
            return ENG.branch(z3.Not(z3.And(alg.eq_z3(v.re, Rat.const(0)), alg.eq_z3(v.im, Rat.const(0)))))
        if isinstance(v, Fp):
            return ENG.branch(z3.Not(z3.fpIsZero(v.e)))
        return ENG.branch(z3.Not(alg.eq_z3(v, Rat.const(0))))

    def __reduce__(self):
        return (_sym_lookup, (_sym_store(self),))

    def is_integer(self):
        if isinstance(self.v, Rat):
            if self.v.is_int():
                return True
            return mkbool(z3.IsInt(self.v.z3()))
        return False

    # -- arithmetic -------------------------------------------------------------
    def __neg__(self):
        v = self.v
        if isinstance(v, Fp):
            return Sym(Fp(z3.fpNeg(v.e)), self.dt)
        if isinstance(v, Cx):
            return Sym(Cx(-v.re, -v.im), self.dt)
        return Sym(-v, self.dt, self.weak_int, realise_text=self.realise_text)

    def __pos__(self):
        return self

    def __abs__(self):
        v = self.v
        if isinstance(v, Fp):
            return Sym(Fp(z3.fpAbs(v.e)), self.dt)
        if isinstance(v, Cx):
            return Sym(root_rat(v.re * v.re + v.im * v.im, 2), creal(self.dt))
        if isinstance(v, float):
            return Sym(abs(v), self.dt)
        if ENG.branch(alg.cmp_z3(v, Rat.const(0), "<")):
            return -self
        return self

    fabs = __abs__

    def sqrt(self):
        return self.ufunc1("sqrt")

    def ufunc1(self, name):
        v = self.v
        if isinstance(v, float):
            with rnp.errstate(all="ignore"):
                r = float(getattr(rnp, name)(v))
            f = alg.frac_of(r)
            return Sym(r if f is None else Rat.const(f), self.dt)
        if not isinstance(v, Rat):
            if name == "conjugate":
                return self.conjugate()
            if name == "square":
                return self * self
            raise Unliftable()
        if name == "sqrt":
            return Sym(root_rat(v, 2), self.dt)
        if name == "square":
            return Sym(v * v, self.dt)
        if name == "reciprocal":
            need_nonzero(v)
            return Sym(v.inv(), self.dt)
        if name == "floor":
            return Sym(floor_rat(v), self.dt)
        if name == "ceil":
            return Sym(-floor_rat(-v), self.dt)
        if name == "rint":
            return Sym(rint_rat(v), self.dt)
        if name == "trunc":
            return Sym(trunc_rat(v), self.dt)
        if name == "conjugate":
            return self
        return Sym(uf(name, v), self.dt)

    def __floor__(self):
        return Sym(floor_rat(self.v), None, True)

    def __ceil__(self):
        return Sym(-floor_rat(-self.v), None, True)

    def __trunc__(self):
        return Sym(trunc_rat(self.v), None, True)

    def __round__(self, nd=None):
        if nd is None:
            return Sym(rint_rat(self.v), None, True)
        s = Rat.const(Fraction(10) ** nd)
        return Sym(rint_rat(self.v * s) * s.inv(), self.dt)


def creal(dt):
    if dt is None:
        return None
    return {8: rnp.dtype("f4"), 16: rnp.dtype("f8")}.get(dt.itemsize, dt) if dt.kind == "c" else dt


def _mk(op):
    def fwd(self, o):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        try:
            r = apply_bin(op, self.v, lift(o))
        except Unliftable:
            return NotImplemented
        return _res(op, r, self, o)

    def rev(self, o):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        try:
            r = apply_bin(op, lift(o), self.v)
        except Unliftable:
            return NotImplemented
        return _res(op, r, o, self)
    return fwd, rev


def _res(op, r, a, b):
    t = promote(weak_type(a), weak_type(b))
    if op in ("truediv",):
        if t is int:
            t = float
        elif isinstance(t, rnp.dtype) and t.kind in "iub":
            t = F8
    rt = getattr(a, "realise_text", False) or getattr(b, "realise_text", False)
    if isinstance(t, rnp.dtype):
        return Sym(r, t, realise_text=rt)
    return Sym(r, None, weak_int=(t is int and isinstance(r, Rat) and r.is_int()), realise_text=rt)


for _op in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
    _f, _r = _mk(_op)
    setattr(Sym, "__%s__" % _op, _f)
    setattr(Sym, "__r%s__" % _op, _r)


def _mkc(op):
    def f(self, o):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        try:
            b = lift(o)
        except Unliftable:
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        return cmp_payload(op, self.v, b)
    return f


for _op in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(Sym, "__%s__" % _op, _mkc(_op))

numbers.Number.register(Sym)

_STORE = {}


def _add_functions():
    def method(n):
        def f(self):
            return self.ufunc1(n)
        f.__name__ = n
        return f
    for n in ("exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan", "arcsin", "arccos", "arctan",
              "sinh", "cosh", "tanh", "arcsinh", "arccosh", "arctanh"):
        if not hasattr(Sym, n):
            setattr(Sym, n, method(n))


_add_functions()


def _sym_store(s):
    _STORE[id(s)] = s
    return id(s)


def _sym_lookup(i):
    return _STORE[i]


def fp_float(m):
    m = z3.simplify(m)
    if z3.is_fp_value(m):
        if m.isNaN():
            return float("nan")
        if m.isInf():
            return float("-inf") if m.isNegative() else float("inf")
        if m.isZero():
            return -0.0 if m.isNegative() else 0.0
        s = -1.0 if m.sign() else 1.0
        sig = Fraction(m.significand_as_long(), 2 ** 52)
        exp = m.exponent_as_long(False)
        sub = m.isSubnormal()
        val = (sig if sub else 1 + sig) * Fraction(2) ** (-1022 if sub else exp)
        return s * float(val)
    raise ValueError(m)
