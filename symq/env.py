"""Harness environment.

A harness is an ordinary function ``h(env, **params)``.  It is run twice over
the same code of /repo:

* ``SymEnv``  -- over the symbolic numpy; inputs are solver variables, checks
  are proof obligations;
* ``ConcEnv`` -- over the untouched package and numpy, with the inputs taken
  from a solver model (replay / encoding validation).
"""
import itertools
import math
from fractions import Fraction

RTOL_SYM = Fraction(1, 10 ** 9)
RTOL_CONC = {"f4": 2e-4, "f2": 2e-2, "c8": 2e-4}


NUM = r"[-+]?(?:[0-9]+\.?[0-9]*(?:e[-+]?[0-9]+)?|inf|nan)"
DT = r", dtype=\w+"


class Diverged(Exception):
    """the concrete run left the path / an assumption does not hold"""


class Failure(Exception):
    """a check failed and the harness cannot go on"""


class AbsSum:
    def __init__(self, terms):
        self.terms = terms


class EnvBase:
    symbolic = False

    def __init__(self, pq, np):
        self.pq = pq
        self.np = np
        self.labels = []
        self.failures = []
        self.obs = []
        self.dead = False

    # ---- helpers shared by both modes ---------------------------------------
    def reach(self, label):
        self.labels.append(label)

    def attempt(self, fn, *a, **k):
        """-> ('ok', value) | ('exc', exception)"""
        try:
            return "ok", fn(*a, **k)
        except self.internal:
            raise
        except Exception as e:
            return "exc", e

    def raises(self, excs, fn, label, msg=None):
        st, v = self.attempt(fn)
        if st == "ok":
            self.check(False, label + ":no-exception")
            return None
        self.check(isinstance(v, excs), label + ":wrong-exception-%s" % type(v).__name__)
        return v

    def dims(self, q):
        """{unit name: exponent} of a quantity / dimensionality (read-only, oracle side)"""
        d = q if isinstance(q, dict) else q.dimensionality
        out = {}
        for u, e in d.items():
            n = u.name
            out[n] = out[n] + e if n in out else e
        return out

    def same_dims(self, q, want, label):
        """units of q are exactly `want` ({name: exp}); zero exponents in `want` mean absent"""
        if not hasattr(q, "dimensionality") and not isinstance(q, dict):
            self.check(not want, label + ":plain-result")
            return
        got = self.dims(q)
        for n in sorted(set(got) | set(want)):
            if n in got:
                self.check(got[n] != 0, label + ":zero-exponent-kept")
                self.check(got[n] == want.get(n, 0), label + ":units")
            else:
                self.check(want[n] == 0, label + ":units")

    def mul_dims(self, a, b, s=1):
        r = dict(a)
        for n, e in b.items():
            r[n] = r.get(n, 0) + s * e
        return {n: e for n, e in r.items()
                if not (isinstance(e, (int, float)) and e == 0)}

    def pow_dims(self, a, p):
        return {n: e * p for n, e in a.items()}

    def eqmod(self, got, want, modulus, label, scale):
        """equality of remainders: replays in floating point may land on the other end of the period"""
        if self.symbolic:
            return self.eq(got, want, label, scale=scale)
        for g, w, m, s in zip(got, want, modulus, scale):
            self.obs.append((label, None))
            d, t = abs(g - w), 1e-6 * (abs(s) + abs(m))
            # only a remainder at an end of the period may jump to the other end
            ends = min(abs(w), abs(abs(w) - abs(m))) <= t
            self.check(d <= t or ends and abs(d - abs(m)) <= t, label)

    def eqfloor(self, got, ratios, label):
        """whole parts of the ratios: replays in floating point may land on either side of a whole number"""
        want = [self.np.floor(r) for r in ratios]
        if self.symbolic:
            return self.eq(got, want, label)
        for g, w, r in zip(got, want, ratios):
            self.obs.append((label, None))
            self.check(g == w or abs(g - w) == 1 and abs(r - round(r)) <= 1e-6 * (1 + abs(r)), label)

    def is_quantity(self, q, label):
        self.check(isinstance(q, self.pq.Quantity), label + ":is-quantity")

    def klass(self, q, cls, label):
        self.check(type(q) is cls, label + ":class-%s" % type(q).__name__)

    def shape(self, q, want, label):
        self.check(tuple(self.np.shape(q) if not hasattr(q, "shape") else q.shape) == tuple(want), label + ":shape")

    def dtype_is(self, q, want, label):
        self.check(self.np.result_type(q.dtype) == self.np.dtype(want), label + ":dtype-%s" % q.dtype)

    def vals(self, q):
        """flat list of the magnitudes (independent of the library's own accessors)"""
        return self._flat(q)

    def snap(self, q):
        return (type(q), tuple(q.shape), list(self._flat(q)), self.dims(q) if hasattr(q, "dimensionality") else None,
                q.dtype)

    def unchanged(self, s, q, label):
        self.check(type(q) is s[0], label + ":class-changed")
        self.check(tuple(q.shape) == s[1], label + ":shape-changed")
        self.check(q.dtype == s[4], label + ":dtype-changed")
        self.eq(self._flat(q), s[2], label + ":value-changed")
        if s[3] is not None:
            self.same_dims(q, s[3], label + ":unchanged")

    # ---- units ----------------------------------------------------------------
    def base_unit(self, name, kind="UnitLength"):
        return getattr(self.pq, kind)(name, symbol=name)

    def bases(self):
        """two fresh, independent base units"""
        class UnitSqA(self.pq.unitquantity.IrreducibleUnit):
            _primary_order = 21

        class UnitSqB(self.pq.unitquantity.IrreducibleUnit):
            _primary_order = 22
        self.clsA, self.clsB = UnitSqA, UnitSqB
        return UnitSqA("qa", symbol="qa"), UnitSqB("qb", symbol="qb")

    def _context(self):
        reg = self.pq.unit_registry
        ctx = getattr(reg, "_Registry__context", None)
        if ctx is None:
            for n in dir(reg):
                o = getattr(reg, n, None)
                for m in dir(o):
                    if m.endswith("__context"):
                        ctx = getattr(o, m)
        if ctx is None:
            o = reg.__getattr__("_Registry__context") if hasattr(type(reg), "__getattr__") else {}
            ctx = o
        return ctx

    def registry(self):
        """{registered name: unit} of the built-in registry (read-only use)"""
        U = self.pq.UnitQuantity
        return {k: v for k, v in self._context().items() if isinstance(v, U)}

    def forget(self, names):
        """as in a process that has not made these units"""
        for n in names:
            self._context().pop(n, None)

    def unit(self, name, definition):
        return self.pq.UnitQuantity(name, definition, symbol=name)


# ---------------------------------------------------------------------------

class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, pq, np, eng):
        super().__init__(pq, np)
        from . import core, alg, symnp
        import z3
        self.eng, self.core, self.alg, self.symnp, self.z3 = eng, core, alg, symnp, z3
        self.inputs = []        # (name, kind, payload)
        self.candidates = []    # (label, model-or-None, neg)
        self.internal = (symnp.ShimError, Failure, z3.Z3Exception)
        core.SHOWN = None

    # inputs
    def _new_input(self, name, kind, payload):
        if any(n == name for n, _, _ in self.inputs):
            raise RuntimeError("input name used twice: " + name)
        self.inputs.append((name, kind, payload))

    def _real(self, name, pos, nonzero, lo, hi):
        z3, alg, core = self.z3, self.alg, self.core
        v = z3.Real(name)
        a = alg.new_atom(v, name, pos=pos, nonzero=nonzero)
        if pos:
            self.eng.add(v > 0)
        elif nonzero:
            self.eng.add(v != 0)
        if lo is not None:
            self.eng.add(v >= lo)
        if hi is not None:
            self.eng.add(v <= hi)
        self._new_input(name, "real", v)
        return alg.Rat.atom(a)

    def real(self, name, pos=False, nonzero=False, lo=None, hi=None):
        return self.core.Sym(self._real(name, pos, nonzero, lo, hi), None)

    def npreal(self, name, dtype="f8", **k):
        """numpy scalar"""
        return self._elem(name, self.np.dtype(dtype), **k)

    def _elem(self, name, dt, pos=False, nonzero=False, lo=None, hi=None):
        core = self.core
        if dt.kind in "iu":
            return core.Sym(self._int(name, lo, hi, pos, nonzero), dt)
        if dt.kind == "c":
            return core.Sym(core.Cx(self._real(name + "_re", False, False, lo, hi),
                                    self._real(name + "_im", False, False, lo, hi)), dt)
        return core.Sym(self._real(name, pos, nonzero, lo, hi), dt)

    def arr(self, name, shape, dtype="f8", **k):
        if isinstance(shape, int):
            shape = (shape,)
        dt = self.np.dtype(dtype)
        es = [self._elem("%s_%d" % (name, i), dt, **k) for i in range(math.prod(shape))]
        return self.symnp.obj_array(shape, es).view(self.symnp.SymND)

    def fparr(self, name, shape, dtype="f8"):
        """IEEE elements (NaN, infinities, -0 included): all binary64 values, or those of a narrower type"""
        core, z3 = self.core, self.z3
        dt = self.np.dtype(dtype)
        if isinstance(shape, int):
            shape = (shape,)
        es = []
        for i in range(math.prod(shape)):
            if dt.itemsize < 8:
                v = z3.fpToFP(core.RNE, z3.FP("%s_%d" % (name, i), z3.Float32() if dt.itemsize == 4 else z3.Float16()), core.FPS)
            else:
                v = z3.FP("%s_%d" % (name, i), core.FPS)
            self._new_input("%s_%d" % (name, i), "fp", v)
            es.append(core.Sym(core.Fp(v), dt))
        return self.symnp.obj_array(shape, es).view(self.symnp.SymND)

    def _int(self, name, lo, hi, pos=False, nonzero=False):
        z3, alg = self.z3, self.alg
        v = z3.Int(name)
        a = alg.new_atom(v, name, is_int=True, pos=pos, nonzero=nonzero)
        if lo is not None:
            self.eng.add(v >= lo)
        if hi is not None:
            self.eng.add(v <= hi)
        if pos:
            self.eng.add(v > 0)
        elif nonzero:
            self.eng.add(v != 0)
        self._new_input(name, "int", v)
        return alg.Rat.atom(a)

    def int(self, name, lo=None, hi=None, nonzero=False, text=False):
        return self.core.Sym(self._int(name, lo, hi, nonzero=nonzero), None, weak_int=True, realise_text=text)

    def choice(self, name, options):
        """solver-chosen option; all of them are explored"""
        options = list(options)
        if len(options) == 1:
            self._new_input(name, "const", 0)
            return options[0]
        v = self._int(name, 0, len(options) - 1)
        return options[self.eng.realise_int(v)]

    # assumptions and obligations
    def assume(self, c):
        if isinstance(c, self.core.SymBool):
            self.eng.assume(c.e)
        elif not c:
            self.eng.abort()

    def check(self, c, label):
        self.labels.append(label)
        if isinstance(c, self.core.SymBool):
            m = self.eng.prove(c.e, label)
            if m is None:
                return
            self.candidates.append((label, None if m == "unknown" else m, self.z3.Not(c.e)))
            if m != "unknown":
                self.eng.assume(c.e)        # go on where it holds
        elif not c:
            self.eng.obligations += 1
            self.candidates.append((label, True, self.z3.BoolVal(True)))
        else:
            self.eng.obligations += 1
            self.eng.trivial += 1

    def _flat(self, q):
        if isinstance(q, self.symnp.rnp.ndarray):
            return list(self.symnp.base(q).flat)
        if isinstance(q, (list, tuple)):
            return [x for i in q for x in self._flat(i)]
        return [q]

    def eq(self, a, b, label, scale=None):
        fa, fb = self._flat(a), self._flat(b)
        if hasattr(a, "shape") and hasattr(b, "shape"):
            self.check(tuple(a.shape) == tuple(b.shape), label + ":shape")
        self.check(len(fa) == len(fb), label + ":length")
        if len(fa) != len(fb):
            return
        sc = self._flat(scale) if scale is not None else None
        self.labels.append(label)
        core, alg, z3 = self.core, self.alg, self.z3
        pairs = set()
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.obs.append((label, x))
            try:
                px, py = core.lift(x), core.lift(y)
            except core.Unliftable:
                self.check(x is y or bool(x == y), label)
                continue
            if len(fa) > 32 and isinstance(px, alg.Rat) and isinstance(py, alg.Rat) and sc is None:
                # long arrays repeat few elements: each distinct pair is decided once
                k = (px.key(), py.key())
                if k in pairs:
                    self.eng.obligations += 1
                    continue
                pairs.add(k)
            self._eq1(px, py, label, None if sc is None else sc[i % len(sc)])

    def _eq1(self, x, y, label, scale):
        core, alg, z3 = self.core, self.alg, self.z3
        eng = self.eng
        if isinstance(x, core.Cx) or isinstance(y, core.Cx):
            x, y = core.cx(x), core.cx(y)
            self._eq1(x.re, y.re, label, scale)
            self._eq1(x.im, y.im, label, scale)
            return
        if isinstance(x, core.Fp) or isinstance(y, core.Fp):
            fx, fy = core.tofp(x), core.tofp(y)
            self.check(core.mkbool(z3.Or(fx == fy, z3.And(z3.fpIsNaN(fx), z3.fpIsNaN(fy)))), label)
            return
        if isinstance(x, float) or isinstance(y, float):
            self.check(type(x) is type(y) and (x == y or (x != x and y != y)), label)
            return
        eng.obligations += 1
        d = x - y
        if not d.n:
            eng.trivial += 1
            eng.quick_unsat(x.z3() != y.z3())
            return
        ex = alg.eq_z3(x, y)
        if self._near(x, y):
            eng.trivial += 1
            if len(x.n) == 1 and len(x.d) == 1:
                eng.quick_unsat(self._tol(x, y, scale, RTOL_SYM))
            return
        r, m = eng.solve(eng.pc + [z3.Not(ex)])
        if r == z3.unsat:
            return
        # rounding of the package's own constants: allow 1e-9 of the scale
        tol = self._tol(x, y, scale, RTOL_SYM)
        r2, m2 = eng.solve(eng.pc + [tol])
        if r2 == z3.unsat:
            return
        if r2 == z3.unknown and r == z3.unknown:
            eng.unknown.append(label)
            self.candidates.append((label, None, self._tol(x, y, scale, Fraction(1, 100))))
            return
        self.candidates.append((label, m2 if r2 == z3.sat else m, self._tol(x, y, scale, Fraction(1, 100))))
        eng.assume(ex)

    def _near(self, x, y):
        """same monomials, coefficients equal up to 1e-9 (package constants are rounded doubles)"""
        if x.d != y.d:
            if len(x.d) != 1 or len(y.d) != 1:
                return False
            if set(x.d) != set(y.d):
                return False
        if set(x.n) != set(y.n) or not x.n:
            return False
        rs = []
        dx, dy = x.d, y.d
        for m, c in x.n.items():
            if y.n[m] == 0:
                return False
            r = c / y.n[m]
            rs.append(r)
        for m, c in dx.items():
            rs.append(c / dy[m])
        return all(abs(r - 1) <= RTOL_SYM / 4 for r in rs)

    def _tol(self, x, y, scale, rt):
        """|x-y| > rt * scale"""
        z3, alg = self.z3, self.alg
        zx, zy = x.z3(), y.z3()
        rtz = z3.Q(rt.numerator, rt.denominator)

        def ab(t):
            return z3.If(t >= 0, t, -t)
        s = ab(zx) + ab(zy)
        if isinstance(scale, AbsSum):
            for t in scale.terms:
                t = self.core.lift(t)
                for t in (t.re, t.im) if isinstance(t, self.core.Cx) else (t,):
                    s = s + ab(t.z3())
        elif scale is not None:
            s = s + ab(self.core.lift(scale).z3())
        return ab(zx - zy) > rtz * s

    def reading(self):
        """texts made from here on can be read by `numbers`"""
        self.core.SHOWN = []

    def numbers(self, text):
        """the numbers shown in a text, in order: [(value, format spec or None if not known)]"""
        import re
        out = []
        for m in re.finditer("\u27e6([0-9]+)\\|([^\u27e7]*)\u27e7|" + NUM, re.sub(DT, "", text)):
            out.append((self.core.SHOWN[int(m.group(1))], m.group(2)) if m.group(1) else (float(m.group(0)), None))
        return out

    def shown(self, text, values, label, spec="", exact=False):
        """the text shows exactly these numbers"""
        got = self.numbers(text)
        self.check(len(got) == len(values) and all(f in (None, spec) for _, f in got), label + ":shown")
        if len(got) == len(values):
            self.eq([v for v, _ in got], list(values), label)

    def absum(self, *terms):
        """|a| + |b| + ... as a tolerance scale, without splitting paths on the signs"""
        return AbsSum(terms)

    def narrow(self, dtype):
        """results of this width are expected (widens the tolerance of concrete runs)"""

    def exact_again(self):
        """what was made so far plays no part in the values compared from here on (concrete runs: its width
        widens their tolerance no longer)"""

    def num(self, name, *args):
        """the numerical ufunc `name` on bare numbers (oracle side)"""
        if any(isinstance(a, self.core.Sym) for a in args):
            return self.symnp.TABLE[name](*args)
        return getattr(self.np, name)(*args)


class ConcEnv(EnvBase):
    def __init__(self, pq, np, values, variant=None):
        super().__init__(pq, np)
        self.values = values
        self.rtol = 1e-9
        self.internal = (Diverged, Failure)
        self.variant = variant

    def _v(self, name, default=0.0):
        if name not in self.values:
            return default
        return self.values[name]

    def real(self, name, pos=False, nonzero=False, lo=None, hi=None):
        v = float(self._v(name, 1.0 if (pos or nonzero) else 0.0))
        return v

    def npreal(self, name, dtype="f8", **k):
        return self._elem(name, self.np.dtype(dtype), **k)

    def _elem(self, name, dt, pos=False, nonzero=False, lo=None, hi=None):
        d = 1 if (pos or nonzero) else (lo or 0)
        if dt.kind in "iu":
            return dt.type(int(self._v(name, d)))
        if dt.kind == "c":
            return dt.type(complex(float(self._v(name + "_re")), float(self._v(name + "_im"))))
        self._prec(dt)
        return dt.type(float(self._v(name, d)))

    def exact_again(self):
        self.rtol = 1e-9

    def narrow(self, dtype):
        self._prec(self.np.dtype(dtype))

    def _prec(self, dt):
        self.rtol = max(self.rtol, RTOL_CONC.get(dt.str[1:], 0))

    def arr(self, name, shape, dtype="f8", **k):
        if isinstance(shape, int):
            shape = (shape,)
        dt = self.np.dtype(dtype)
        self._prec(dt)
        return self.np.array([self._elem("%s_%d" % (name, i), dt, **k) for i in range(math.prod(shape))],
                             dtype=dt).reshape(shape)

    def fparr(self, name, shape, dtype="f8"):
        if isinstance(shape, int):
            shape = (shape,)
        return self.np.array([float(self._v("%s_%d" % (name, i))) for i in range(math.prod(shape))],
                             dtype=dtype).reshape(shape)

    def int(self, name, lo=None, hi=None, nonzero=False, text=False):
        return int(self._v(name, 1 if nonzero else (lo or 0)))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._v(name, 0))]

    def assume(self, c):
        if not bool(c):
            raise Diverged("assumption")

    def check(self, c, label):
        self.labels.append(label)
        if not bool(c):
            self.failures.append(label)

    def _flat(self, q):
        np = self.np
        if isinstance(q, np.ndarray):
            return list(np.ndarray.view(q, np.ndarray).flat)
        if isinstance(q, (list, tuple)):
            return [x for i in q for x in self._flat(i)]
        return [q]

    def eq(self, a, b, label, scale=None):
        fa, fb = self._flat(a), self._flat(b)
        if hasattr(a, "shape") and hasattr(b, "shape"):
            self.check(tuple(a.shape) == tuple(b.shape), label + ":shape")
        self.check(len(fa) == len(fb), label + ":length")
        if len(fa) != len(fb):
            return
        sc = self._flat(scale) if scale is not None else None
        self.labels.append(label)
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.obs.append((label, x))
            ok = self._eq1(x, y, None if sc is None else sc[i % len(sc)])
            if not ok:
                self.failures.append(label)

    def _eq1(self, x, y, scale):
        if isinstance(x, (str, bytes, type(None))) or isinstance(y, (str, bytes, type(None))):
            return x == y
        try:
            x, y = complex(x), complex(y)
        except TypeError:
            return bool(x == y)
        nx, ny = (x != x), (y != y)
        if nx or ny:
            return nx and ny
        if x == y:
            return True
        if any(math.isinf(t) for t in (x.real, x.imag, y.real, y.imag)):
            # overflow while replaying exact-real reasoning is outside the claim
            raise Diverged("overflow")
        s = abs(x) + abs(y)
        if scale is not None:
            s += abs(complex(scale))
        return abs(x - y) <= self.rtol * 10 * s

    def absum(self, *terms):
        return sum(abs(t) for t in terms)

    def reading(self):
        pass

    def numbers(self, text):
        import re
        return [(float(m.group(0)), None) for m in re.finditer(NUM, re.sub(DT, "", text))]

    def shown(self, text, values, label, spec="", exact=False):
        got = [v for v, _ in self.numbers(text)]
        self.check(len(got) == len(values), label + ":shown")
        if len(got) != len(values):
            return
        self.labels.append(label)
        for g, w in zip(got, values):
            self.obs.append((label, None))
            w = float(format(float(w), spec)) if spec else float(w)
            # numpy prints eight digits of arrays, the largest of which may hide small ones
            big = max(abs(float(v)) for v in values)
            tol = 1e-6 * abs(w) + 1e-7 * big + (0 if not spec else 2 * 10.0 ** -int("".join(c for c in spec if c.isdigit()) or 6) * max(abs(w) if "e" in spec else 1, 1e-300))
            if exact:
                tol = 1e-14 * abs(w)
            if not (g == w or abs(g - w) <= tol or g != g and w != w):
                self.failures.append(label)

    def num(self, name, *args):
        return getattr(self.np, name)(*args)
