"""The numpy front end of the symbolic executor.

/repo's quantities package is loaded with ``numpy`` bound to the module built
here.  Everything falls through to the real numpy except

* ``ndarray`` -- ``SymND``, a subclass of the real ndarray.  Arrays that hold
  symbolic scalars are real object arrays, so the real C code still decides
  views, bases, broadcasting, indexing, flags, ``__array_finalize__`` ...;
  SymND reports the dtype the array *stands for* and implements the ufunc
  protocol (type resolution is asked of the real ufunc, element arithmetic is
  done on symbolic scalars, the result is handed to ``__array_wrap__`` exactly
  as numpy's C code would);
* a few constructors/predicates that would otherwise look into the elements.
"""
import math
import operator
import sys
import types
from fractions import Fraction

import numpy as rnp
import z3

from . import alg, core
from .alg import Rat
from .core import Sym, SymBool, Fp, Cx, F8

OBJ = rnp.dtype(object)
BOOL = rnp.dtype(bool)
_real_dtype = rnp.ndarray.dtype.__get__
_real_array = rnp.array


class ShimError(Exception):
    """the executed code needs something the symbolic numpy does not model"""


class SymMeta(type):
    def __instancecheck__(cls, o):
        if type.__instancecheck__(cls, o):
            return True
        return cls is SymND and type.__instancecheck__(rnp.ndarray, o)

    def __subclasscheck__(cls, c):
        if type.__subclasscheck__(cls, c):
            return True
        return cls is SymND and type.__subclasscheck__(rnp.ndarray, c)


def base(a):
    return rnp.ndarray.view(a, rnp.ndarray)


def has_sym(a):
    """a: any ndarray"""
    if _real_dtype(a) != OBJ:
        return False
    for x in base(a).flat:
        if isinstance(x, (Sym, SymBool)):
            return True
    return a.size == 0


def elem_dtype(x):
    if isinstance(x, Sym):
        t = core.weak_type(x)
        if isinstance(t, rnp.dtype):
            return t
        return rnp.dtype({int: "i8", float: "f8", complex: "c16"}[t])
    if isinstance(x, SymBool):
        return BOOL
    if isinstance(x, rnp.generic):
        return x.dtype
    if isinstance(x, bool):
        return BOOL
    if isinstance(x, int):
        return rnp.dtype("i8")
    if isinstance(x, float):
        return F8
    if isinstance(x, complex):
        return rnp.dtype("c16")
    return OBJ


def sim_dtype(a):
    rd = _real_dtype(a)
    if rd != OBJ:
        return rd
    if a.size == 0:
        return F8
    if not has_sym(a):
        return rd
    t = None
    for x in base(a).flat:
        e = elem_dtype(x)
        if t is None or e == t:
            t = e
        elif e == OBJ:
            return OBJ
        else:
            t = rnp.promote_types(t, e)
    return t


def cast_elem(x, dt):
    if dt == OBJ:
        return x
    if isinstance(x, Sym):
        return x.cast(dt)
    if isinstance(x, SymBool):
        return Sym(Rat.const(1 if bool(x) else 0), dt) if dt != BOOL else x
    if x is None:
        return x
    return num_elem(rnp.asarray(x).astype(dt)[()], dt)


def num_elem(x, dt):
    """concrete number -> Sym constant (so that dtype tags survive)"""
    try:
        return Sym(core.lift(x), dt)
    except core.Unliftable:
        return x


def obj_array(shape, elems):
    r = rnp.empty(shape, dtype=object)
    f = r.reshape(-1) if r.ndim else r
    if r.ndim == 0:
        r[()] = elems[0]
    else:
        for i, e in enumerate(elems):
            f[i] = e
    return r


def to_obj(a, dt=None):
    """any ndarray -> object ndarray of Sym (or native) elements"""
    b = base(a)
    if _real_dtype(b) == OBJ:
        if dt is None:
            return b
        return obj_array(b.shape, [cast_elem(x, dt) for x in b.flat])
    d = b.dtype if dt is None else dt
    return obj_array(b.shape, [num_elem(x, d) for x in (b if d == b.dtype else b.astype(d)).flat])


def deep(x):
    """nested sequences / arrays -> nested lists of scalars, 0-d arrays unpacked"""
    if isinstance(x, rnp.ndarray):
        return base(x).tolist() if _real_dtype(x) == OBJ else _np_list(x)
    if isinstance(x, (list, tuple)):
        return [deep(i) for i in x]
    return x


def _np_list(x):
    b = base(x)
    if b.ndim == 0:
        return b[()]
    return [_np_list(i) if isinstance(i, rnp.ndarray) else i for i in b]


def contains_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, rnp.ndarray):
        return _real_dtype(x) == OBJ and has_sym(x)
    if isinstance(x, (list, tuple)):
        return any(contains_sym(i) for i in x)
    return False


def _flat(x):
    if isinstance(x, list):
        for i in x:
            yield from _flat(i)
    else:
        yield x


def sym_array(x, dtype=None):
    """object SymND standing for np.array(x, dtype)"""
    l = deep(x)
    a = rnp.array(l, dtype=object) if isinstance(l, list) else obj_array((), [l])
    if dtype is None:
        t = None
        for e in a.flat:
            d = elem_dtype(e)
            t = d if t is None else (t if t == d else (OBJ if OBJ in (t, d) else rnp.promote_types(t, d)))
        dtype = t if t is not None else F8
    dtype = rnp.dtype(dtype)
    r = obj_array(a.shape, [cast_elem(e, dtype) for e in a.flat])
    return r.view(SymND)


# ---------------------------------------------------------------------------
# element arithmetic

def S(x, dt=None):
    return x if isinstance(x, Sym) else Sym(core.lift(x), dt if dt is not None else (x.dtype if isinstance(x, rnp.generic) else None))


def _nan(x):
    v = x.v if isinstance(x, Sym) else x
    if isinstance(v, float):
        return math.isnan(v)
    if isinstance(v, Fp):
        return core.mkbool(z3.fpIsNaN(v.e))
    return False


def _isinf(x):
    v = S(x).v
    if isinstance(v, float):
        return math.isinf(v)
    if isinstance(v, Fp):
        return core.mkbool(z3.fpIsInf(v.e))
    return False


def _isfinite(x):
    return not bool(_nan(S(x))) and not bool(_isinf(S(x)))


def _cmp(op):
    def f(a, b):
        return core.cmp_payload(op, S(a).v, S(b).v)
    return f


def _maxmin(op, nanprop=True):
    def f(a, b):
        a, b = S(a), S(b)
        if bool(_nan(a)):
            return a if nanprop else b
        if bool(_nan(b)):
            return b if nanprop else a
        return a if bool(core.cmp_payload(op, a.v, b.v)) else b
    return f


def _bin(op):
    def f(a, b):
        return Sym(core.apply_bin(op, S(a).v, S(b).v))
    return f


def _un(name):
    def f(a):
        return S(a).ufunc1(name)
    return f


def _sign(a):
    v = S(a).v
    if isinstance(v, float):
        return math.copysign(1, v)
    return Sym(Rat.const(core.sign_rat(v, "sign")))


def _hypot(a, b):
    a, b = S(a).v, S(b).v
    return Sym(core.root_rat(a * a + b * b, 2))


def _uf2(name):
    def f(a, b):
        return Sym(core.uf(name, S(a).v, S(b).v))
    return f


def _scale(c):
    k = Rat.const(alg.frac_of(c))

    def f(a):
        return Sym(S(a).v * k)
    return f


def _clip(x, lo, hi):
    return _maxmin("le")(_maxmin("ge")(x, lo), hi)


def _b(f):
    return lambda *a: f(*[bool(x) for x in a])


def _power(a, b):
    a, b = S(a), S(b)
    return Sym(core.apply_bin("pow", a.v, b.v))


def _exactlog():
    pass


TABLE = {
    "add": _bin("add"), "subtract": _bin("sub"), "multiply": _bin("mul"),
    "divide": _bin("truediv"), "true_divide": _bin("truediv"),
    "floor_divide": _bin("floordiv"), "remainder": _bin("mod"), "mod": _bin("mod"),
    "fmod": _bin("fmod"), "power": _power, "float_power": _power,
    "maximum": _maxmin("ge"), "minimum": _maxmin("le"),
    "fmax": _maxmin("ge", False), "fmin": _maxmin("le", False),
    "hypot": _hypot, "clip": _clip,
    "less": _cmp("lt"), "less_equal": _cmp("le"), "greater": _cmp("gt"),
    "greater_equal": _cmp("ge"), "equal": _cmp("eq"), "not_equal": _cmp("ne"),
    "logical_and": _b(lambda a, b: a and b), "logical_or": _b(lambda a, b: a or b),
    "logical_xor": _b(lambda a, b: a != b), "logical_not": _b(lambda a: not a),
    "isnan": lambda a: _nan(S(a)), "isinf": _isinf, "isfinite": _isfinite,
    "signbit": lambda a: core.cmp_payload("lt", S(a).v, Rat.const(0)),
    "sign": _sign,
    "negative": lambda a: -S(a), "positive": lambda a: S(a),
    "absolute": lambda a: abs(S(a)), "fabs": lambda a: abs(S(a)),
    "conjugate": lambda a: S(a).conjugate(),
    "sqrt": _un("sqrt"), "square": lambda a: Sym(core.apply_bin("mul", S(a).v, S(a).v)),
    "reciprocal": _un("reciprocal"),
    "floor": _un("floor"), "ceil": _un("ceil"), "rint": _un("rint"), "trunc": _un("trunc"),
    "degrees": _scale(180.0 / math.pi), "rad2deg": _scale(180.0 / math.pi),
    "radians": _scale(math.pi / 180.0), "deg2rad": _scale(math.pi / 180.0),
    "_ones_like": lambda a: Sym(Rat.const(1)),
}
for _n in ("exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan",
           "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "arcsinh", "arccosh",
           "arctanh", "cbrt"):
    TABLE[_n] = _un(_n)
for _n in ("arctan2", "logaddexp", "logaddexp2", "copysign", "nextafter", "ldexp"):
    TABLE[_n] = _uf2(_n)


def is_arr(x):
    return isinstance(x, rnp.ndarray)


def dt_of_input(x):
    if is_arr(x):
        return sim_dtype(x)
    t = core.weak_type(x)
    if isinstance(x, bool):
        return BOOL
    return t


def as_operand(x):
    if is_arr(x):
        return x
    if isinstance(x, (Sym, SymBool, int, float, complex, rnp.generic, Fraction)):
        return x
    return asanyarray(x)


def find_wrap(args):
    best, prio = None, None
    for a in args:
        if not is_arr(a):
            continue
        if type(a) in (rnp.ndarray, SymND):
            p = 0.0
        else:
            p = getattr(a, "__array_priority__", 0.0)
        if prio is None or p > prio:
            best, prio = a, p
    return best


def wrap_result(owner, arr, context, return_scalar):
    """arr: base ndarray result"""
    if owner is None or type(owner) in (rnp.ndarray, SymND):
        if arr.ndim == 0 and return_scalar:
            return scalar_out(arr)
        return arr.view(SymND)
    return owner.__array_wrap__(arr.view(SymND), context, return_scalar)


def scalar_out(arr):
    x = base(arr)[()]
    if isinstance(x, SymBool):
        return rnp.bool_(bool(x))
    return x


def elementwise(uf, ops, indt, outdt):
    name = uf.__name__
    f = TABLE.get(name)
    arrs = []
    for x, d in zip(ops, indt):
        if is_arr(x):
            arrs.append(to_obj(x))
        else:
            arrs.append(obj_array((), [x]))
    bs = rnp.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    shape = bs[0].shape
    if f is None:
        return concrete_elementwise(uf, bs, outdt)
    if name in ("power", "float_power") and outdt.kind in "iu":
        for e in bs[1].flat:
            if bool(S(e) < 0):
                raise ValueError("Integers to negative integer powers are not allowed.")
    res = []
    for tup in zip(*[b.flat for b in bs]):
        r = f(*tup)
        if outdt == BOOL:
            res.append(bool(r))
        elif isinstance(r, Sym):
            r = Sym(r.v, outdt, realise_text=any(getattr(t, "realise_text", False) for t in tup))
            if outdt.kind in "iu" and isinstance(r.v, Rat) and not r.v.is_int():
                r = r.cast(outdt)
            res.append(r)
        else:
            res.append(num_elem(r, outdt))
    if outdt == BOOL:
        return rnp.array(res, dtype=bool).reshape(shape)
    return obj_array(shape, res)


def concrete_elementwise(uf, bs, outdt):
    shape = bs[0].shape
    res = []
    for tup in zip(*[b.flat for b in bs]):
        args = [float(S(t)) for t in tup]
        r = uf(*args)
        if isinstance(r, tuple):
            raise ShimError("ufunc %s with several outputs" % uf.__name__)
        res.append(bool(r) if outdt == BOOL else num_elem(r, outdt))
    if outdt == BOOL:
        return rnp.array(res, dtype=bool).reshape(shape)
    return obj_array(shape, res)


def resolve(uf, indt, outarr, dtype, casting):
    sig = tuple(d for d in indt)
    o = tuple([None] * uf.nout) if outarr is None else tuple(sim_dtype(x) for x in outarr)
    kw = {}
    if casting:
        kw["casting"] = casting
    if dtype is not None:
        kw["signature"] = tuple([None] * uf.nin) + (rnp.dtype(dtype),) * uf.nout
    if all(not isinstance(d, rnp.dtype) for d in sig):
        # resolve_dtypes with weak scalars only: what np.add(1, 2.0) would give
        m = {int: rnp.dtype("i8"), float: F8, complex: rnp.dtype("c16")}
        sig = tuple(m[d] for d in sig)
    return uf.resolve_dtypes(sig + o, **kw)


def store(outarr, res, where=True):
    """write a result into an output array (casting included)"""
    b = base(outarr)
    d = sim_dtype(outarr)
    if _real_dtype(b) == OBJ:
        val = obj_array(res.shape, [cast_elem(x, d) for x in to_obj(res).flat]) if res.size or True else res
    else:
        if _real_dtype(res) == OBJ:
            # the code keeps symbolic results in a buffer of its own making
            # (e.g. numpy.zeros): no tracking, pick values
            val = rnp.array([complex(x) if b.dtype.kind == "c" else float(S(x)) for x in res.flat]).reshape(res.shape)
        else:
            val = res
    rnp.copyto(b, val, casting="unsafe", where=where)


def do_call(uf, inputs, kw):
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    if is_arr(where):
        where = base(where)
    casting = kw.pop("casting", None)
    dtype = kw.pop("dtype", None)
    subok = kw.pop("subok", True)
    kw.pop("order", None)
    sig = kw.pop("signature", kw.pop("sig", None))
    if sig is not None and dtype is None:
        dtype = sig[-1] if isinstance(sig, tuple) else None
    if out is not None and not isinstance(out, tuple):
        out = (out,)
    if out is not None and all(o is None for o in out):
        out = None
    ops = [as_operand(x) for x in inputs]
    for x in ops:
        if is_arr(x) and x.size and sim_dtype(x) == OBJ and has_sym(x):
            raise ShimError("ufunc %s on a non-numeric object array" % uf.__name__)
    symbolic = any(contains_sym(x) for x in ops) or (out is not None and any(has_sym(o) for o in out))
    if uf.nout > 1 or uf.signature is not None:
        return generic_ufunc(uf, ops, out, kw)
    if symbolic:
        indt = [dt_of_input(x) for x in ops]
        if uf.__name__ in ("isnan", "isinf", "isfinite", "logical_and", "logical_or", "logical_not",
                           "less", "less_equal", "greater", "greater_equal", "equal", "not_equal"):
            outdt = BOOL
        else:
            outdt = resolve(uf, indt, out, dtype, casting)[-1]
        res = elementwise(uf, ops, indt, outdt)
        if where is not True:
            w = rnp.broadcast_to(rnp.asarray(where), res.shape)
            if out is None:
                keep = [r if k else Sym(Rat.const(0), outdt) for r, k in zip(res.flat, w.flat)]
                res = obj_array(res.shape, keep)
    else:
        real = [base(x) if is_arr(x) else x for x in ops]
        rk = dict(kw)
        if dtype is not None:
            rk["dtype"] = dtype
        if casting is not None:
            rk["casting"] = casting
        if where is not True:
            rk["where"] = where
        if out is not None:
            rk["out"] = tuple(base(o) for o in out)
        res = uf(*real, **rk)
        res = rnp.asarray(res)
    if out is not None:
        o = out[0]
        if symbolic:
            if rnp.broadcast_shapes(res.shape, o.shape) != o.shape:
                raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s"
                                 % (o.shape, res.shape))
            if not o.flags.writeable:
                raise ValueError("output array is read-only")
            store(o, rnp.broadcast_to(res, o.shape), where if where is not True else True)
        if type(o) in (rnp.ndarray, SymND):
            return o
        return o.__array_wrap__(o, (uf, tuple(inputs) + tuple(out), 0), False)
    owner = find_wrap(ops) if subok else None
    return wrap_result(owner, res, (uf, tuple(inputs), 0), True)


def generic_ufunc(uf, ops, out, kw):
    real = [to_obj(x) if is_arr(x) and has_sym(x) else (base(x) if is_arr(x) else x) for x in ops]
    if any(contains_sym(x) for x in ops):
        if uf.__name__ not in ("matmul",):
            raise ShimError("ufunc %s" % uf.__name__)
        real = [to_obj(x) for x in ops]
    if out is not None:
        raise ShimError("generic ufunc with out")
    res = uf(*real, **kw)
    owner = find_wrap(ops)
    if isinstance(res, tuple):
        return tuple(wrap_result(owner, rnp.asarray(r), (uf, tuple(ops), i), True) for i, r in enumerate(res))
    return wrap_result(owner, rnp.asarray(res) if not isinstance(res, Sym) else obj_array((), [res]),
                       (uf, tuple(ops), 0), True)


def reduce_dtype(uf, a, dtype, out):
    d = sim_dtype(a)
    if dtype is not None:
        return rnp.dtype(dtype)
    if uf.__name__ in ("add", "multiply") and d.kind in "biu" and d.itemsize < 8:
        if out is not None:
            return sim_dtype(out)
        return rnp.dtype("u8") if d.kind == "u" else rnp.dtype("i8")
    if uf.__name__.startswith("logical"):
        return BOOL
    return d


_MARK = object()


def do_reduce(uf, method, inputs, kw):
    a = as_operand(inputs[0])
    if not is_arr(a):
        a = asanyarray(a)
    names = {"reduce": ["axis", "dtype", "out", "keepdims", "initial", "where"],
             "accumulate": ["axis", "dtype", "out"]}[method]
    for n, v in zip(names, inputs[1:]):
        kw[n] = v
    out = kw.pop("out", None)
    if isinstance(out, tuple):
        out = out[0]
    dtype = kw.pop("dtype", None)
    symbolic = has_sym(a) and sim_dtype(a) != OBJ or (out is not None and has_sym(out))
    if kw.get("initial", 0) is rnp._NoValue:
        kw.pop("initial")
    if is_arr(kw.get("where")):
        kw["where"] = base(kw["where"])
    if not symbolic:
        rk = dict(kw)
        if dtype is not None:
            rk["dtype"] = dtype
        if out is not None:
            rk["out"] = base(out)
        res = getattr(uf, method)(base(a), **rk)
        res = rnp.asarray(res)
    else:
        d = reduce_dtype(uf, a, dtype, out)
        if uf.signature is not None or uf.nin != 2 or TABLE.get(uf.__name__) is None:
            raise ShimError("%s.%s" % (uf.__name__, method))
        f = TABLE[uf.__name__]

        def g(x, y):
            r = f(x, y)
            return r if isinstance(r, bool) else (Sym(r.v, d, realise_text=r.realise_text) if isinstance(r, Sym) else r)
        ident = uf.identity
        if method == "reduce" and (a.size == 0 or "initial" in kw or kw.get("where", True) is not True):
            if "initial" in kw:
                ident = kw.pop("initial")
            if ident is None:
                # like numpy: no identity
                if a.size == 0:
                    uf.reduce(rnp.empty(a.shape), **kw)   # raises the real error (or empty result)
                pf = rnp.frompyfunc(g, 2, 1)
            else:
                pf = rnp.frompyfunc(g, 2, 1, identity=num_elem(ident, d))
        else:
            pf = rnp.frompyfunc(g, 2, 1)
        if uf.__name__ in ("logical_and", "logical_or"):
            o = obj_array(a.shape, [bool(x) for x in base(a).flat])
        else:
            src = to_obj(a)
            o = obj_array(src.shape, [cast_elem(x, d) for x in src.flat])
        k = dict(kw)
        if method == "reduce" and isinstance(k.get("axis", 0), tuple) or k.get("axis", 0) is None:
            # frompyfunc ufuncs are not reorderable: reduce one axis at a time
            ax = k.pop("axis", 0)
            ax = tuple(range(o.ndim)) if ax is None else tuple(x % o.ndim for x in ax)
            keep = k.pop("keepdims", False)
            w = k.pop("where", True)
            if w is not True:
                fill = num_elem(ident, d)
                o = obj_array(o.shape, [x if c else fill for x, c in zip(o.flat, rnp.broadcast_to(w, o.shape).flat)])
            r = o
            for x in sorted(ax, reverse=True):
                r = pf.reduce(r, axis=x)
                if not is_arr(r):
                    r = obj_array((), [r])
            if keep:
                r = r.reshape([1 if i in ax else s for i, s in enumerate(o.shape)])
            res = r
        else:
            if k.get("where", True) is True:
                k.pop("where", None)
            else:
                fill = num_elem(ident, d)
                w = k.pop("where")
                o = obj_array(o.shape, [x if c else fill for x, c in zip(o.flat, rnp.broadcast_to(w, o.shape).flat)])
            if o.ndim == 0:
                if method == "accumulate":
                    raise TypeError("cannot accumulate on a scalar")
                k.pop("axis", None)
                k.pop("keepdims", None)
                res = o
            else:
                res = getattr(pf, method)(o, **k)
        if not is_arr(res):
            res = obj_array((), [res])
        if d == BOOL or uf.__name__.startswith("logical"):
            res = rnp.array([bool(x) for x in res.flat], dtype=bool).reshape(res.shape)
        else:
            res = obj_array(res.shape, [Sym(x.v, d, realise_text=x.realise_text) if isinstance(x, Sym) else num_elem(x, d) for x in res.flat])
    if out is not None:
        if symbolic:
            if out.shape != res.shape:
                raise ValueError("output parameter for reduction operation %s has the wrong shape" % uf.__name__)
            if not rnp.can_cast(d, sim_dtype(out), "same_kind"):
                raise TypeError("Cannot cast reduction output")
            store(out, res)
        return out
    return wrap_result(find_wrap([a]), base(res), None, True)


def _like(r, a):
    o = r.view(type(a))
    if type(a) is not SymND:
        o.__array_finalize__(a)
    return o


class SymND(rnp.ndarray, metaclass=SymMeta):
    """stands for numpy.ndarray inside the code under test"""

    @property
    def dtype(self):
        return sim_dtype(self)

    @dtype.setter
    def dtype(self, v):
        rnp.ndarray.dtype.__set__(self, v)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize * self.size

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        # like numpy: somebody else's __array_ufunc__ is not involved here
        if method == "__call__":
            return do_call(uf, inputs, dict(kw))
        if method in ("reduce", "accumulate"):
            return do_reduce(uf, method, inputs, dict(kw))
        if method == "outer":
            a, b = [asanyarray(x) for x in inputs]
            return uf(a.reshape(a.shape + (1,) * b.ndim), b)
        raise ShimError("ufunc method %s" % method)

    def __array_wrap__(self, obj, context=None, return_scalar=False):
        if type(self) is SymND:
            if return_scalar and obj.ndim == 0:
                return scalar_out(obj)
            return base(obj).view(SymND)
        if type(obj) is type(self):
            return obj
        return rnp.ndarray.view(obj, type(self))

    def view(self, *args, **kw):
        t = kw.pop("type", None)
        args = list(args)
        if args and isinstance(args[0], type):
            if issubclass(args[0], rnp.ndarray):
                t = args.pop(0)
        if t is rnp.ndarray:
            t = SymND
        dt = kw.pop("dtype", args.pop(0) if args else None)
        if dt is not None and not (_real_dtype(self) == OBJ and rnp.dtype(dt) == sim_dtype(self)):
            if _real_dtype(self) == OBJ:
                raise ShimError("bit reinterpretation of a symbolic array")
            return rnp.ndarray.view(self, dt, t) if t else rnp.ndarray.view(self, dt)
        return rnp.ndarray.view(self, t) if t is not None else rnp.ndarray.view(self)

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = rnp.dtype(dtype) if dtype is not None else F8
        if not has_sym(self):
            return rnp.ndarray.astype(self, dt, order, casting, subok, copy)
        if sim_dtype(self) == OBJ:
            return rnp.ndarray.astype(self, dt, order, casting, subok, copy)
        if not rnp.can_cast(sim_dtype(self), dt, casting):
            raise TypeError("Cannot cast array data from %r to %r according to the rule '%s'"
                            % (sim_dtype(self), dt, casting))
        if not copy and dt == sim_dtype(self) and (subok or type(self) is SymND):
            return self
        r = rnp.ndarray.astype(self, object, order, "unsafe", subok, True)
        b = base(r)
        if dt == BOOL:
            res = rnp.array([bool(x) for x in b.flat], dtype=bool).reshape(b.shape)
            out = res.view(type(r))
            if hasattr(type(out), "__array_finalize__") and type(r) is not SymND:
                out.__array_finalize__(r)
            return out
        if b.ndim == 0:
            b[()] = cast_elem(b[()], dt)
        else:
            for i in rnp.ndindex(*b.shape):
                b[i] = cast_elem(b[i], dt)
        if not subok:
            return b.view(SymND)
        return r

    def _coerce(self, value):
        """value for storing into this array"""
        d = sim_dtype(self)
        if isinstance(value, rnp.ndarray):
            value = to_obj(value)
        elif contains_sym(value) or isinstance(value, (list, tuple)):
            value = to_obj(sym_array(value))
        else:
            value = to_obj(rnp.asarray(value))
        return obj_array(value.shape, [cast_elem(x, d) for x in value.flat])

    def __setitem__(self, key, value):
        if isinstance(key, rnp.ndarray):
            key = base(key)
        if _real_dtype(self) == OBJ and has_sym(self):
            v = self._coerce(value)
            b = base(self)
            if not self.flags.writeable:
                raise ValueError("assignment destination is read-only")
            if v.ndim and not isinstance(b[key], rnp.ndarray):
                # one element of a numeric array: numpy takes size-1 arrays only
                if v.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                v = v.reshape(())
            b[key] = v if v.ndim else v[()]
            return
        if contains_sym(value):
            v = to_obj(value) if is_arr(value) else to_obj(sym_array(value))
            value = rnp.array([float(S(x)) for x in v.flat]).reshape(v.shape)
        rnp.ndarray.__setitem__(self, key, base(value) if is_arr(value) else value)

    def fill(self, value):
        if _real_dtype(self) == OBJ and has_sym(self):
            v = self._coerce(value)
            base(self)[...] = v if v.ndim else v[()]
            return
        if contains_sym(value):
            value = float(S(base(value)[()] if is_arr(value) else value))
        rnp.ndarray.fill(self, value)

    def put(self, indices, values, mode="raise"):
        if _real_dtype(self) == OBJ and has_sym(self):
            base(self).put(indices, self._coerce(values), mode)
            return
        rnp.ndarray.put(self, indices, values, mode)

    def itemset(self, *a):
        raise AttributeError("itemset")

    def item(self, *args):
        x = rnp.ndarray.item(self, *args)
        return x.item() if isinstance(x, Sym) else x

    def tolist(self):
        def f(l):
            if isinstance(l, list):
                return [f(x) for x in l]
            return l.item() if isinstance(l, Sym) else l
        return f(rnp.ndarray.tolist(self))

    def round(self, decimals=0, out=None):
        if not has_sym(self):
            return rnp.ndarray.round(self, decimals, out)
        b = base(self)
        d = sim_dtype(self)
        res = []
        for x in b.flat:
            if d.kind in "iu" and decimals >= 0:
                res.append(x)
            else:
                s = Rat.const(Fraction(10) ** decimals)
                v = S(x).v
                res.append(Sym(core.rint_rat(v * s) * s.inv(), d) if isinstance(v, Rat) else x)
        r = obj_array(b.shape, res)
        if out is not None:
            store(out, r)
            return out
        if type(self) is SymND:
            return scalar_out(r) if r.ndim == 0 else r.view(SymND)
        o = r.view(type(self))
        o.__array_finalize__(self)
        return o

    @property
    def real(self):
        if not has_sym(self):
            return rnp.ndarray.real.__get__(self)
        if sim_dtype(self).kind == "c":
            b = base(self)
            return _like(obj_array(b.shape, [S(x).real for x in b.flat]), self)
        return self

    @real.setter
    def real(self, v):
        if not has_sym(self):
            rnp.ndarray.real.__set__(self, v)
            return
        if sim_dtype(self).kind == "c":
            b = base(self)
            nv = rnp.broadcast_to(to_obj(asanyarray(v)), b.shape)
            for i in rnp.ndindex(*b.shape):
                b[i] = Sym(Cx(core.cx(S(nv[i]).v).re, core.cx(S(b[i]).v).im), sim_dtype(self))
        else:
            SymND.__setitem__(self, Ellipsis, v)

    @property
    def imag(self):
        if not has_sym(self):
            return rnp.ndarray.imag.__get__(self)
        b = base(self)
        r = _like(obj_array(b.shape, [S(x).imag for x in b.flat]), self)
        if sim_dtype(self).kind != "c":
            r.flags.writeable = False
        return r

    @imag.setter
    def imag(self, v):
        if not has_sym(self):
            rnp.ndarray.imag.__set__(self, v)
            return
        if sim_dtype(self).kind != "c":
            raise TypeError("array does not have imaginary part to set")
        b = base(self)
        nv = rnp.broadcast_to(to_obj(asanyarray(v)), b.shape)
        for i in rnp.ndindex(*b.shape):
            b[i] = Sym(Cx(core.cx(S(b[i]).v).re, core.cx(S(nv[i]).v).re), sim_dtype(self))

    def _int_arg(name):
        real = getattr(rnp.ndarray, name)

        def f(self, *a, **k):
            if has_sym(self) and self.size:
                r = real(base(self), *a, **k)
            else:
                r = real(base(self), *a, **k)
            return r
        f.__name__ = name
        return f

    argsort = _int_arg("argsort")

    def searchsorted(self, v, side="left", sorter=None):
        if has_sym(self) or contains_sym(v):
            a = to_obj(self)
            vv = to_obj(v if is_arr(v) else asanyarray(v))
            res = []
            for x in vv.flat:
                n = 0
                for y in a.flat:
                    c = core.cmp_payload("lt" if side == "left" else "le", S(y).v, S(x).v)
                    if bool(c):
                        n += 1
                    else:
                        break
                res.append(n)
            r = rnp.array(res, dtype=int).reshape(vv.shape)
            return r[()] if r.ndim == 0 else r
        return rnp.ndarray.searchsorted(self, v, side, sorter)

    def __repr__(self):
        return repr(base(self)) if type(self) is SymND else rnp.ndarray.__repr__(self)

    def __array_function__(self, func, types, args, kwargs):
        if func in LIKE and is_arr(args[0]) and has_sym(args[0]) and sim_dtype(args[0]) != OBJ:
            proto = args[0]
            k = dict(kwargs)
            dt = k.get("dtype")
            dt = sim_dtype(proto) if dt is None else rnp.dtype(dt)
            shape = k.get("shape")
            shape = proto.shape if shape is None else shape
            v = LIKE[func]
            if dt == BOOL:
                r = rnp.full(shape, bool(v))
            else:
                n = int(rnp.prod(shape, dtype=int)) if shape != () else 1
                r = obj_array(shape, [Sym(Rat.const(v), dt) for _ in range(n)])
            if k.get("subok", True) and type(proto) is not SymND:
                o = r.view(type(proto))
                o.__array_finalize__(proto)
                return o
            return r.view(SymND)
        if func is rnp.ediff1d and any(is_arr(x) and has_sym(x) for x in list(args) + list(kwargs.values())):
            r = _ediff1d(*args, **kwargs)
            if r is not None:
                return r
        return rnp.ndarray.__array_function__(self, func, types, args, kwargs)

    def __complex__(self):
        return complex(base(self).item())

    def __float__(self):
        x = base(self).item()
        return float(x)

    def __index__(self):
        x = base(self).item()
        return operator.index(x)

    def __bool__(self):
        if has_sym(self) and self.size == 1:
            return bool(base(self).item())
        return bool(base(self))


def asanyarray(a, dtype=None, order=None, **kw):
    if isinstance(a, rnp.ndarray):
        if not isinstance(a, SymND) or type(a) is rnp.ndarray:
            a = rnp.ndarray.view(a, SymND)
        if dtype is None or rnp.dtype(dtype) == sim_dtype(a):
            return a
        return a.astype(dtype)
    if contains_sym(a):
        return sym_array(a, dtype)
    return rnp.asanyarray(a, dtype=dtype).view(SymND)


def asarray(a, dtype=None, order=None, **kw):
    if isinstance(a, rnp.ndarray):
        if type(a) is not SymND:
            a = rnp.ndarray.view(a, SymND)
        if dtype is None or rnp.dtype(dtype) == sim_dtype(a):
            if kw.get("copy"):
                return a.copy()
            return a
        return a.astype(dtype)
    return asanyarray(a, dtype)


def array(a, dtype=None, copy=True, order="K", subok=False, ndmin=0, **kw):
    if isinstance(a, rnp.ndarray):
        r = a if (subok and isinstance(a, SymND)) else rnp.ndarray.view(a, SymND)
        if dtype is not None and rnp.dtype(dtype) != sim_dtype(r):
            r = r.astype(dtype)
        elif copy:
            r = r.copy()
    else:
        r = asanyarray(a, dtype)
        if isinstance(a, rnp.generic):
            r = r.copy()
    while r.ndim < ndmin:
        r = r[rnp.newaxis]
    return r


def result_type(*args):
    xs = []
    for a in args:
        if isinstance(a, rnp.ndarray):
            xs.append(sim_dtype(a))
        elif isinstance(a, Sym):
            t = core.weak_type(a)
            xs.append(t if isinstance(t, rnp.dtype) else {int: 0, float: 0.0, complex: 0j}[t])
        elif isinstance(a, core.FakeDtype):
            xs.append(a.dtype)
        else:
            xs.append(a)
    return rnp.result_type(*xs)


def isscalar(x):
    return isinstance(x, Sym) or rnp.isscalar(x)


def _as_symnd(name):
    f = getattr(rnp, name)

    def g(*a, **k):
        r = f(*a, **k)
        return r.view(SymND) if type(r) is rnp.ndarray else r
    g.__name__ = name
    return g


def fix(x, out=None):
    x = asanyarray(x)
    if not has_sym(x):
        return rnp.fix(x, out)
    return rnp.trunc(x) if out is None else rnp.trunc(x, out=out)


def _ediff1d(ary, to_end=None, to_begin=None):
    """as numpy does it, without the look at the element type of the ends"""
    if to_end is None and to_begin is None or not (type(ary) is SymND or type(ary) is rnp.ndarray):
        return None
    a = to_obj(ary).ravel()
    d = sim_dtype(ary)
    parts = [list(base(a)[1:] - base(a)[:-1])]
    for x, where in ((to_end, 1), (to_begin, 0)):
        if x is not None:
            x = asanyarray(x)
            if not rnp.can_cast(sim_dtype(x), d, casting="same_kind"):
                raise TypeError("dtype of the ends must be compatible with input `ary` under the `same_kind` rule.")
            l = [cast_elem(t, d) for t in to_obj(x).ravel()]
            parts = parts + [l] if where else [l] + parts
    e = [t for l in parts for t in l]
    return obj_array((len(e),), e).view(SymND)


LIKE = {rnp.empty_like: 0, rnp.zeros_like: 0, rnp.ones_like: 1}


class Shim(types.ModuleType):
    def __getattr__(self, name):
        return getattr(rnp, name)


def make_shim():
    m = Shim("numpy")
    m.__path__ = rnp.__path__
    m.__file__ = rnp.__file__
    m.__spec__ = rnp.__spec__
    m.__version__ = rnp.__version__
    m.ndarray = SymND
    m.asarray = asarray
    m.asanyarray = asanyarray
    m.array = array
    m.result_type = result_type
    m.isscalar = isscalar
    for n in ("zeros", "ones", "empty", "arange", "linspace", "full", "zeros_like_", "eye", "identity"):
        if hasattr(rnp, n):
            setattr(m, n, _as_symnd(n))
    m.__wrapped__ = rnp
    return m
