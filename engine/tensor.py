"""Scalars with NaN/Inf flags and tensors with symbolic shapes."""
import builtins
import sys
import ctypes
from fractions import Fraction
from . import terms as T
from .terms import Term, TRUE, FALSE, R0, R1, I0, I1, R, I
from .core import CTX, Unsupported, Infeasible, dimterm, dimval, selection, abstract, mk_sum, Frame


# ====================================================================== dtypes
class Dt(object):
    def __init__(self, name, kind, rank):
        self.name, self.kind, self.rank = name, kind, rank

    def __repr__(self):
        return "torch." + self.name

    @property
    def is_floating_point(self):
        return self.kind == "f"

    def __deepcopy__(self, memo):
        return self

    def __call__(self, x=0):      # np.float64(x)
        return as_scalar(x).to_kind(self.kind).native()


float64 = Dt("float64", "f", 5)
float32 = Dt("float32", "f", 4)
float16 = Dt("float16", "f", 3)
int64 = Dt("int64", "i", 2)
int32 = Dt("int32", "i", 1)
int16 = Dt("int16", "i", 1)
uint8 = Dt("uint8", "i", 1)
boolean = Dt("bool", "b", 0)


def promote(a, b):
    return a if a.rank >= b.rank else b


# ====================================================================== scalars
class S(object):
    """A python level number (or tensor element): real/int/bool with NaN/Inf flags.

    inf: infinite, in which case v is +1/-1 (the sign)."""
    __slots__ = ("v", "nan", "inf")
    __array_priority__ = 1000

    def __init__(self, v, nan=FALSE, inf=FALSE):
        self.v, self.nan, self.inf = v, nan, inf

    # -- helpers
    @property
    def kind(self):
        return {"R": "f", "I": "i", "B": "b"}[self.v.sort]

    def special(self):
        return self.nan is not FALSE or self.inf is not FALSE

    def fin(self):
        return T.and_(T.not_(self.nan), T.not_(self.inf))

    def to_kind(self, k):
        if k == self.kind:
            return self
        if k == "f":
            if self.kind == "i":
                return S(T.toreal(self.v))
            return S(T.ite(self.v, R1, R0))
        if k == "i":
            if self.kind == "b":
                return S(T.ite(self.v, I1, I0))
            r = T.trunc(self.v)
            if r.op == "ite" and not T.free_vars(self.v) & T.BOUNDS.keys() and not any(v.args[0].startswith("$") for v in T.free_vars(self.v)) and CTX.known(T.le(R0, self.v), 200):
                r = T.floor(self.v)
            return S(r)
        if k == "b":
            z = T.ne(self.v, R0 if self.kind == "f" else I0)
            return S(T.or_(self.nan, self.inf, z))

    def native(self):
        """python int / bool when constant"""
        if self.v.op == "const" and not self.special():
            if self.v.sort == "I":
                return int(T.cval(self.v))
            if self.v.sort == "B":
                return bool(T.cval(self.v))
        return self

    # -- python protocol
    def __bool__(self):
        return CTX.decide(self.to_kind("b").v)

    def __index__(self):
        if self.v.op == "const" and self.v.sort == "I":
            return int(T.cval(self.v))
        raise Unsupported("symbolic value used where python needs a concrete int: %s" % T.show(self.v, 4))

    __int__ = None

    def __float__(self):
        raise Unsupported("float() on symbolic value")

    def __hash__(self):
        return hash((self.v, self.nan, self.inf))

    def __repr__(self):
        return "S(%s)" % T.show(self.v, 3)

    def __format__(self, spec):
        return "<%s>" % T.show(self.v, 2)

    def __deepcopy__(self, memo):
        return self

    def __add__(self, o):
        return _sc(s_add, self, o)

    def __radd__(self, o):
        return _sc(s_add, o, self)

    def __sub__(self, o):
        return _sc(s_sub, self, o)

    def __rsub__(self, o):
        return _sc(s_sub, o, self)

    def __mul__(self, o):
        return _sc(s_mul, self, o)

    def __rmul__(self, o):
        return _sc(s_mul, o, self)

    def __truediv__(self, o):
        r = coerce(o)
        if r is None:
            return NotImplemented
        if r.v.op == "const" and T.cval(r.v) == 0 and not r.special():
            raise ZeroDivisionError("division by zero")
        return s_div(self, r)

    def __rtruediv__(self, o):
        r = coerce(o)
        if r is None:
            return NotImplemented
        return s_div(r, self)

    def __floordiv__(self, o):
        return _sc(s_floordiv, self, o)

    def __rfloordiv__(self, o):
        return _sc(s_floordiv, o, self)

    def __mod__(self, o):
        return _sc(s_mod, self, o)

    def __rmod__(self, o):
        return _sc(s_mod, o, self)

    def __pow__(self, o):
        return _sc(s_pow, self, o)

    def __rpow__(self, o):
        return _sc(s_pow, o, self)

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_fn("abs", self)

    def __lt__(self, o):
        return _sc(s_lt, self, o)

    def __le__(self, o):
        return _sc(s_le, self, o)

    def __gt__(self, o):
        return _sc(lambda a, b: s_lt(b, a), self, o)

    def __ge__(self, o):
        return _sc(lambda a, b: s_le(b, a), self, o)

    def __eq__(self, o):
        r = _sc(s_eq, self, o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = _sc(lambda a, b: s_not(s_eq(a, b)), self, o)
        return True if r is NotImplemented else r

    def __and__(self, o):
        return _sc(s_and, self, o)

    __rand__ = __and__

    def __or__(self, o):
        return _sc(s_or, self, o)

    __ror__ = __or__

    def __invert__(self):
        return s_not(self)

    # torch 0-dim / numpy scalar protocol on scalars
    def item(self):
        return self.native()

    def copy(self):
        return self

    def round(self, *a):
        return s_round(self)

    def __round__(self, n=None):
        return s_round(self) if n is None else self

    def __floor__(self):
        return S(T.floor(self.v)).native()

    def __ceil__(self):
        return S(T.neg(T.floor(T.neg(self.v)))).native()

    def astype(self, dt):
        return self.to_kind(npdt(dt).kind)

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def is_cuda(self):
        return False


def _sc(f, a, b):
    a, b = coerce(a), coerce(b)
    if a is None or b is None:
        return NotImplemented
    return f(a, b)


def coerce(x):
    if isinstance(x, S):
        return x
    if isinstance(x, bool):
        return S(T.B(x))
    if isinstance(x, int):
        return S(I(x))
    if isinstance(x, float):
        if x != x:
            return S(R0, TRUE)
        if x in (float("inf"), float("-inf")):
            return S(R(1 if x > 0 else -1), FALSE, TRUE)
        return S(R(x))
    if isinstance(x, Fraction):
        return S(R(x))
    if isinstance(x, Ten):
        return None
    try:
        import numpy
        if isinstance(x, numpy.generic):
            return coerce(x.item())
    except Exception:
        pass
    return None


def as_scalar(x):
    r = coerce(x)
    if r is None:
        if isinstance(x, Ten):
            return x.item_s()
        raise Unsupported("not a scalar: %r" % (type(x),))
    return r


NAN = S(R0, TRUE)
INF = S(R1, FALSE, TRUE)


def _num2(a, b):
    k = "f" if "f" in (a.kind, b.kind) else "i"
    return a.to_kind(k), b.to_kind(k)


def s_add(a, b):
    a, b = _num2(a, b)
    if not (a.special() or b.special()):
        return S(T.add(a.v, b.v))
    opp = T.and_(a.inf, b.inf, T.ne(a.v, b.v))
    nan = T.or_(a.nan, b.nan, opp)
    inf = T.and_(T.or_(a.inf, b.inf), T.not_(nan))
    return S(T.ite(a.inf, a.v, T.ite(b.inf, b.v, T.add(a.v, b.v))), nan, inf)


def s_neg(a):
    if a.kind == "b":
        a = a.to_kind("i")
    return S(T.neg(a.v), a.nan, a.inf)


def s_sub(a, b):
    a, b = _num2(a, b)
    return s_add(a, s_neg(b))


def _sgn(t):
    return T.ite(T.lt(t, R0), R(-1), R1)


def s_mul(a, b):
    a, b = _num2(a, b)
    if not (a.special() or b.special()):
        return S(T.mul(a.v, b.v))
    z = T.or_(T.and_(a.inf, T.eq(b.v, R0), T.not_(b.inf)), T.and_(b.inf, T.eq(a.v, R0), T.not_(a.inf)))
    nan = T.or_(a.nan, b.nan, z)
    inf = T.and_(T.or_(a.inf, b.inf), T.not_(nan))
    if inf is FALSE:
        return S(T.mul(a.v, b.v), nan)
    return S(T.ite(T.or_(a.inf, b.inf), T.mul(_sgn(a.v), _sgn(b.v)), T.mul(a.v, b.v)), nan, inf)


def s_div(a, b):
    a, b = a.to_kind("f"), b.to_kind("f")
    bz = T.and_(T.eq(b.v, R0), T.not_(b.inf)) if b.inf is not FALSE else T.eq(b.v, R0)
    if bz not in (TRUE, FALSE) and CTX.nonzero(b.v):
        bz = FALSE
    if bz is TRUE and b.v.op == "const":
        if not a.special():
            az = T.eq(a.v, R0)
            return S(_sgn(a.v), az, T.not_(az))
    if not (a.special() or b.special()):
        if bz is FALSE:
            return S(T.div(a.v, b.v))
        az = T.eq(a.v, R0)
        nan = T.and_(bz, az)
        inf = T.and_(bz, T.not_(az))
        zs = T.app("zsgn", (b.v,), "R")   # unspecified sign of the zero
        return S(T.ite(inf, T.mul(_sgn(a.v), T.ite(T.lt(zs, R0), R(-1), R1)), T.div(a.v, b.v)), nan, inf)
    az = T.and_(T.eq(a.v, R0), T.not_(a.inf))
    nan = T.or_(a.nan, b.nan, T.and_(a.inf, b.inf), T.and_(az, bz))
    inf = T.and_(T.or_(T.and_(a.inf, T.not_(b.inf)), T.and_(bz, T.not_(az))), T.not_(nan))
    zs = T.app("zsgn", (b.v,), "R")
    sb = T.ite(bz, T.ite(T.lt(zs, R0), R(-1), R1), _sgn(b.v))
    q = T.div(a.v, b.v)
    v = T.ite(inf, T.mul(_sgn(a.v), sb), T.ite(b.inf, R0, q)) if (inf is not FALSE or b.inf is not FALSE) else q
    return S(v, nan, inf)


def s_floordiv(a, b):
    if a.kind in "ib" and b.kind in "ib":
        a, b = a.to_kind("i"), b.to_kind("i")
        return S(T.idivmod(a.v, b.v)[0])
    q = s_div(a, b)
    return S(T.toreal(T.floor(q.v)), q.nan, q.inf)


def s_mod(a, b):
    if a.kind in "ib" and b.kind in "ib":
        return S(T.idivmod(a.to_kind("i").v, b.to_kind("i").v)[1])
    q = s_floordiv(a, b)
    return s_sub(a, s_mul(q, b))


def s_pow(a, b):
    if b.v.op == "const" and not b.special():
        p = T.cval(b.v)
        if b.kind != "i":
            p = T.tofrac(p)
            if p.denominator == 1:
                p = int(p)
                a = a.to_kind("f")
        if isinstance(p, int) or (isinstance(p, Fraction) and p.denominator == 1):
            p = int(p)
            if p == 0:
                return S(R1 if a.kind == "f" else I1)
            if a.kind == "b":
                a = a.to_kind("i")
            if p < 0:
                return s_div(S(R1), s_pow(a.to_kind("f"), S(I(-p))))
            if not a.special():
                return S(T.powi(a.v, p))
            r = a
            for _ in builtins.range(p - 1):
                r = s_mul(r, a)
            return r
        a = a.to_kind("f")
        if Fraction(p) == Fraction(1, 2):
            return s_fn("sqrt", a)
        ngv = T.lt(a.v, R0)
        if a.inf is not FALSE:
            raise Unsupported("pow of inf")
        r = S(T.rpow(a.v, p), T.or_(a.nan, ngv))
        if p < 0:
            r.nan = T.or_(r.nan, T.eq(a.v, R0))
        return r
    if a.v.op == "const" and not a.special():
        # c ** x
        raise Unsupported("constant ** symbolic")
    raise Unsupported("pow with symbolic exponent")


def s_fn(name, a):
    if name == "abs" and a.kind != "f":
        return S(T.fn("abs", a.to_kind("i").v))
    a = a.to_kind("f")
    v, nan, inf = a.v, a.nan, a.inf
    if name in ("sin", "cos", "tan"):
        if name == "tan":
            return s_div(s_fn("sin", a), s_fn("cos", a))
        return S(T.fn(name, v), T.or_(nan, inf))
    if name == "sqrt":
        neg_ = T.lt(v, R0)
        neg_ = T.FALSE if _obv_nonneg(v) else neg_
        return S(T.ite(inf, R1, T.fn("sqrt", v)) if inf is not FALSE else T.fn("sqrt", v), T.or_(nan, neg_), inf)
    if name in ("acos", "asin"):
        bad = T.or_(T.lt(R1, v), T.lt(v, R(-1)), inf)
        return S(T.fn(name, v), T.or_(nan, bad))
    if name == "atan":
        if inf is not FALSE:
            return S(T.ite(inf, T.mul(_sgn(v), T.scale(Fraction(1, 2), T.PI)), T.fn("atan", v)), nan)
        return S(T.fn("atan", v), nan)
    if name == "exp":
        if inf is not FALSE:
            return S(T.ite(inf, T.ite(T.lt(v, R0), R0, R1), T.fn("exp", v)), nan, T.and_(inf, T.lt(R0, v)))
        return S(T.fn("exp", v), nan)
    if name == "log":
        return S(T.fn("log", v), T.or_(nan, T.lt(v, R0)), T.or_(inf, T.eq(v, R0)))
    if name == "abs":
        if inf is not FALSE:
            return S(T.ite(inf, R1, T.fn("abs", v)), nan, inf)
        return S(T.fn("abs", v), nan)
    raise Unsupported(name)


def _obv_nonneg(v):
    """syntactic: sum of squares / squares / abs / sqrt / exp with non negative constants"""
    if v.op == "const":
        return T.cval(v) >= 0
    if v.op == "lin":
        c, items = v.args
        return c >= 0 and all(k >= 0 and _obv_nonneg(x) for x, k in items)
    if v.op == "mul":
        return all(e % 2 == 0 or _obv_nonneg(b) for b, e in v.args)
    if v.op == "app":
        return v.args[0] in ("abs", "sqrt", "exp", "acos", "pi")
    if v.op == "ite":
        return _obv_nonneg(v.args[1]) and _obv_nonneg(v.args[2])
    if v.op == "sum":
        return _obv_nonneg(v.args[1])
    return False


def s_round(a):
    if a.kind != "f":
        return a
    return S(T.toreal(T.rnd(a.v)), a.nan, a.inf)


def s_floor(a):
    if a.kind != "f":
        return a
    return S(T.toreal(T.floor(a.v)), a.nan, a.inf)


def s_ceil(a):
    return s_neg(s_floor(s_neg(a)))


def s_lt(a, b):
    a, b = _num2(a, b)
    r = T.lt(a.v, b.v)
    if a.inf is not FALSE or b.inf is not FALSE:
        z = R0
        r = T.ite(a.inf, T.ite(b.inf, T.and_(T.lt(a.v, z), T.lt(z, b.v)), T.lt(a.v, z)), T.ite(b.inf, T.lt(z, b.v), r))
    return S(T.and_(r, T.not_(a.nan), T.not_(b.nan)))


def s_le(a, b):
    a, b = _num2(a, b)
    r = T.le(a.v, b.v)
    if a.inf is not FALSE or b.inf is not FALSE:
        z = R0
        r = T.ite(a.inf, T.ite(b.inf, T.le(a.v, b.v), T.lt(a.v, z)), T.ite(b.inf, T.lt(z, b.v), r))
    return S(T.and_(r, T.not_(a.nan), T.not_(b.nan)))


def s_eq(a, b):
    if a.kind == "b" and b.kind == "b":
        return S(T.eq(a.v, b.v))
    a, b = _num2(a, b)
    r = T.eq(a.v, b.v)
    if a.inf is not FALSE or b.inf is not FALSE:
        r = T.ite(a.inf, T.and_(b.inf, T.eq(_sgn(a.v), _sgn(b.v))), T.and_(T.not_(b.inf), r))
    return S(T.and_(r, T.not_(a.nan), T.not_(b.nan)))


def s_not(a):
    if a.kind != "b":
        raise Unsupported("~ on number")
    return S(T.not_(a.v))


def s_and(a, b):
    if a.kind == "b" and b.kind == "b":
        return S(T.and_(a.v, b.v))
    raise Unsupported("bitwise & on numbers")


def s_or(a, b):
    if a.kind == "b" and b.kind == "b":
        return S(T.or_(a.v, b.v))
    raise Unsupported("bitwise | on numbers")


def s_ite(c, a, b):
    if isinstance(c, S):
        c = c.v
    if a.kind != b.kind:
        k = "f" if "f" in (a.kind, b.kind) else "i"
        a, b = a.to_kind(k), b.to_kind(k)
    return S(T.ite(c, a.v, b.v), T.ite(c, a.nan, b.nan), T.ite(c, a.inf, b.inf))


def s_min(a, b):
    """torch/numpy minimum: NaN propagates"""
    a, b = _num2(a, b)
    r = s_ite(s_le(a, b), a, b)
    if a.nan is not FALSE or b.nan is not FALSE:
        r = S(r.v, T.or_(a.nan, b.nan), r.inf)
    return r


def s_max(a, b):
    a, b = _num2(a, b)
    r = s_ite(s_le(b, a), a, b)
    if a.nan is not FALSE or b.nan is not FALSE:
        r = S(r.v, T.or_(a.nan, b.nan), r.inf)
    return r


# ====================================================================== storage
class Store(object):
    """fn: tuple of index Terms -> S"""

    def __init__(self, fn, shape):
        self._fn = fn
        self.shape = shape
        self.cache = {}
        CTX.store_clock += 1
        self.born = CTX.store_clock
        self.read_at = 0

    def reader(self, internal=False):
        if not internal and CTX.loops:
            CTX.loops[-1].note_read(self)
        fn, cache = self._fn, self.cache

        def rd(idx):
            r = cache.get(idx)
            if r is None:
                r = fn(idx)
                cache[idx] = r
            return r
        return rd

    def write(self, newfn):
        self._fn = newfn
        self.cache = {}


class Shape(tuple):
    def numel(self):
        r = 1
        for d in self:
            r = r * d
        return r


def wrapdim(d):
    return S(d) if isinstance(d, Term) else d


def normdim(d):
    return dimval(d)


def sprod(dims):
    r = I1
    for d in dims:
        r = T.mul(r, dimterm(d))
    return dimval(r)


def same_dim(a, b):
    """decide equality of dims; forks when undetermined"""
    ta, tb = dimterm(a), dimterm(b)
    e = T.eq(ta, tb)
    if e is TRUE:
        return True
    if e is FALSE:
        return False
    return CTX.decide(e)


def bcast_dim(a, b):
    if a == b if isinstance(a, int) and isinstance(b, int) else dimterm(a) is dimterm(b):
        return a
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if isinstance(a, int) and isinstance(b, int):
        raise RuntimeError("The size of tensor a (%s) must match the size of tensor b (%s)" % (a, b))
    if same_dim(a, b):
        return a if isinstance(a, int) else b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Term) and CTX.decide(T.eq(x, I1)):
            return y
    raise RuntimeError("The size of tensor a (%s) must match the size of tensor b (%s)" % (dimterm(a), dimterm(b)))


def bcast(*shapes):
    n = max([len(s) for s in shapes] + [0])
    out = [1] * n
    for s in shapes:
        for i, d in enumerate(s):
            j = n - len(s) + i
            out[j] = bcast_dim(out[j], d)
    return tuple(out)


def bidx(shape, idx):
    """index into a tensor of `shape` broadcast to the rank/extent of idx"""
    k = len(idx) - len(shape)
    return tuple(I0 if (isinstance(d, int) and d == 1) else idx[k + i] for i, d in enumerate(shape))


def expand_reader(t, out_shape):
    """reader of t at out_shape-indices, deciding which symbolic dims are broadcast 1s"""
    rd = t.reader()
    k = len(out_shape) - len(t._shape)
    one = []
    for i, d in enumerate(t._shape):
        o = out_shape[k + i]
        if isinstance(d, int) and d == 1:
            one.append(True)
        elif isinstance(d, Term) and not (dimterm(d) is dimterm(o)) and not (T.eq(dimterm(d), dimterm(o)) is TRUE):
            one.append(CTX.known(T.eq(d, I1)) and not CTX.known(T.eq(d, dimterm(o))))
        else:
            one.append(False)
    return lambda idx: rd(tuple(I0 if o else idx[k + i] for i, o in enumerate(one)))


# ====================================================================== tensors
class Ten(object):
    lib = "torch"
    __array_priority__ = 2000
    __hash__ = object.__hash__

    def __init__(self, fn, shape, dtype=float64, store=None, view=None):
        shape = tuple(normdim(d) for d in shape)
        self._shape = shape
        self._dtype = dtype
        self.store = store if store is not None else Store(fn, shape)
        self._view = view            # None or (fwd, inv)
        self._names = None

    # -- construction helpers
    def new(self, fn, shape, dtype=None):
        return type(self)(fn, shape, dtype or self._dtype)

    def mkview(self, shape, fwd, inv):
        if self._view is None:
            f, g = fwd, inv
        else:
            f0, g0 = self._view
            f = lambda idx: f0(fwd(idx))

            def g(sidx):
                c0, mid = g0(sidx)
                if c0 is FALSE:
                    return FALSE, None
                c1, i1 = inv(mid)
                return T.and_(c0, c1), i1
        return type(self)(None, shape, self._dtype, store=self.store, view=(f, g))

    def reader(self, internal=False):
        rd = self.store.reader(internal)
        if self._view is None:
            return rd
        f = self._view[0]
        return lambda idx: rd(f(idx))

    def at(self, *idx):
        """element at index terms / ints (no wrap-around)"""
        return self.reader(True)(tuple(dimterm(i) for i in idx))

    def item_s(self):
        idx = []
        for d in self._shape:
            if isinstance(d, int):
                if d != 1:
                    raise ValueError("only one element tensors can be converted to Python scalars")
            elif not CTX.decide(T.eq(d, I1)):
                raise ValueError("only one element tensors can be converted to Python scalars")
            idx.append(I0)
        return self.reader()(tuple(idx))

    def write(self, fn_new):
        """fn_new(idx, old S) -> S, idx in this tensor's coordinates"""
        if CTX.loops:
            CTX.loops[-1].note_write(self.store)
        old = self.store.reader(True)
        k = self._dtype.kind
        if self._view is None:
            self.store.write(lambda idx: fn_new(idx, old(idx)).to_kind(k))
        else:
            inv = self._view[1]

            def w(sidx):
                c, vi = inv(sidx)
                o = old(sidx)
                if c is FALSE:
                    return o
                return s_ite(c, fn_new(vi, o).to_kind(k), o)
            self.store.write(w)

    # -- python protocol
    @property
    def shape(self):
        return Shape(wrapdim(d) for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return self._dtype

    def __deepcopy__(self, memo):
        r = self.clone_()
        memo[id(self)] = r
        return r

    def clone_(self):
        rd = self.reader()
        return self.new(rd, self._shape)

    def __repr__(self):
        return "%s(shape=%s)" % (type(self).__name__, [str(dimterm(d)) for d in self._shape])

    def __format__(self, spec):
        return "<tensor>"

    def __bool__(self):
        return bool(self.item_s())

    def __float__(self):
        raise Unsupported("native float(tensor)")

    def __index__(self):
        return self.item_s().to_kind("i").__index__()

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of a 0-d tensor")
        d = self._shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported("native len() of a symbolic dimension")

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d tensor")
        d = self._shape[0]
        if isinstance(d, int):
            for i in range(d):
                yield self[i]
        else:
            raise Unsupported("iteration over a symbolic number of rows outside a for statement")

    # -- arithmetic
    def _bin(self, f, o, swap=False):
        if not isinstance(o, Ten):
            c = coerce(o)
            if c is None:
                if isinstance(o, (list, tuple)):
                    o = type(self)._from_nested(o)
                else:
                    import numpy
                    if isinstance(o, numpy.ndarray):
                        o = from_numpy_concrete(o, type(self))
                    else:
                        return NotImplemented
        return ewise((lambda a, b: f(b, a)) if swap else f, self, o)

    def __add__(self, o):
        return self._bin(s_add, o)

    def __radd__(self, o):
        return self._bin(s_add, o, True)

    def __sub__(self, o):
        return self._bin(s_sub, o)

    def __rsub__(self, o):
        return self._bin(s_sub, o, True)

    def __mul__(self, o):
        return self._bin(s_mul, o)

    def __rmul__(self, o):
        return self._bin(s_mul, o, True)

    def __truediv__(self, o):
        return self._bin(s_div, o)

    def __rtruediv__(self, o):
        return self._bin(s_div, o, True)

    def __floordiv__(self, o):
        return self._bin(s_floordiv, o)

    def __mod__(self, o):
        return self._bin(s_mod, o)

    def __pow__(self, o):
        return self._bin(s_pow, o)

    def __rpow__(self, o):
        return self._bin(s_pow, o, True)

    def __neg__(self):
        return ewise(s_neg, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ewise(lambda a: s_fn("abs", a), self)

    def __lt__(self, o):
        return self._bin(s_lt, o)

    def __le__(self, o):
        return self._bin(s_le, o)

    def __gt__(self, o):
        return self._bin(s_lt, o, True)

    def __ge__(self, o):
        return self._bin(s_le, o, True)

    def __eq__(self, o):
        r = self._bin(s_eq, o)
        return r

    def __ne__(self, o):
        return self._bin(lambda a, b: s_not(s_eq(a, b)), o)

    def __and__(self, o):
        return self._bin(s_and, o)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(s_or, o)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(lambda a, b: s_not(s_eq(a, b)), o)

    def __invert__(self):
        return ewise(s_not, self)

    def _inplace(self, f, o):
        if CTX.loops:
            CTX.loops[-1].note_write(self.store)
        r = self._bin(f, o)
        if r is NotImplemented:
            return r
        self.assign_all(r)
        return self

    def assign_all(self, r):
        if len(r._shape) > len(self._shape):
            raise RuntimeError("output with shape doesn't match the broadcast shape")
        for a, b in zip(self._shape[::-1], r._shape[::-1]):
            if not (isinstance(b, int) and b == 1) and not same_dim(a, b):
                raise RuntimeError("output with shape %s doesn't match the broadcast shape %s" % (self._shape, r._shape))
        rd = expand_reader(r, self._shape)
        self.write(lambda idx, old: rd(idx))

    def __iadd__(self, o):
        return self._inplace(s_add, o)

    def __isub__(self, o):
        return self._inplace(s_sub, o)

    def __imul__(self, o):
        return self._inplace(s_mul, o)

    def __itruediv__(self, o):
        return self._inplace(s_div, o)

    def __iand__(self, o):
        return self._inplace(s_and, o)

    def __ior__(self, o):
        return self._inplace(s_or, o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    # -- nested python data
    @classmethod
    def _from_nested(cls, data, dtype=None):
        return from_nested(data, cls, dtype)


def ewise(f, *ts, dtype=None):
    tens = [t for t in ts if isinstance(t, Ten)]
    cls = type(tens[0])
    shapes = [t._shape for t in tens]
    out = bcast(*shapes)
    rds = []
    for t in ts:
        if isinstance(t, Ten):
            rds.append(expand_reader(t, out))
        else:
            c = as_scalar(t)
            rds.append(lambda idx, c=c: c)
    fn = lambda idx: f(*[r(idx) for r in rds])
    if dtype is None:
        dtype = infer_dtype(f, ts)
    k = dtype.kind
    return cls(lambda idx: fn(idx).to_kind(k) if True else None, out, dtype)


def infer_dtype(f, ts):
    samples = []
    dts = []
    for t in ts:
        if isinstance(t, Ten):
            dts.append(t._dtype)
            samples.append(S({"f": T.var("~s", "R"), "i": T.var("~i", "I"), "b": T.var("~b", "B")}[t._dtype.kind]))
        else:
            samples.append(as_scalar(t))
    if f in (s_add, s_mul) and len(dts) == len(ts) and all(d.kind == "b" for d in dts):
        return boolean          # + and * of boolean arrays are or and and
    r = f(*samples)
    fl = [d for d in dts if d.kind == r.kind]
    if fl:
        out = fl[0]
        for d in fl[1:]:
            out = promote(out, d)
        return out
    return {"f": float64, "i": int64, "b": boolean}[r.kind]


def from_nested(data, cls, dtype=None):
    """nested lists of scalars / tensors -> tensor"""
    if isinstance(data, Ten):
        return data
    c = coerce(data)
    if c is not None:
        dt = dtype or {"f": float64, "i": int64, "b": boolean}[c.kind]
        c = c.to_kind(dt.kind)
        return cls(lambda idx: c, (), dt)
    if isinstance(data, (list, tuple)):
        if len(data) == 0:
            return cls(lambda idx: S(R0), (0,), dtype or float64)
        parts = [from_nested(x, cls) for x in data]
        shape = bcast(*[p._shape for p in parts])
        for p in parts:
            if len(p._shape) != len(shape):
                raise ValueError("inhomogeneous nested sequence")
        dt = dtype
        if dt is None:
            dt = parts[0]._dtype
            for p in parts[1:]:
                dt = promote(dt, p._dtype)
        rds = [p.reader() for p in parts]
        return cls(pick_fn(rds, dt), (len(parts),) + shape, dt)
    import numpy
    if isinstance(data, numpy.ndarray):
        return from_numpy_concrete(data, cls, dtype)
    if hasattr(data, "__iter__"):
        return from_nested(list(data), cls, dtype)
    raise Unsupported("cannot build a tensor from %r" % (type(data),))


def pick_fn(rds, dt):
    k = dt.kind

    def fn(idx):
        i, rest = idx[0], idx[1:]
        if i.op == "const":
            return rds[T.cval(i)](rest).to_kind(k)
        vals = [r(rest).to_kind(k) for r in rds]
        r = vals[-1]
        for q in range(len(vals) - 2, -1, -1):
            r = s_ite(T.eq(i, I(q)), vals[q], r)
        return r
    return fn


def from_numpy_concrete(a, cls, dtype=None):
    import numpy
    if a.dtype.kind == "f":
        dt = float64
    elif a.dtype.kind in "iu":
        dt = int64
    elif a.dtype.kind == "b":
        dt = boolean
    else:
        raise Unsupported("numpy array of dtype %s" % a.dtype)
    dt = dtype or dt
    if a.ndim == 0:
        c = coerce(a.item()).to_kind(dt.kind)
        return cls(lambda idx: c, (), dt)
    return from_nested(a.tolist(), cls, dt) if a.size else cls(lambda idx: S(R0), a.shape, dt)


def full(cls, shape, val, dtype=float64):
    c = as_scalar(val).to_kind(dtype.kind)
    return cls(lambda idx: c, shape, dtype)


# ====================================================================== indexing
def _as_index_scalar(k):
    if isinstance(k, bool):
        return None
    if isinstance(k, int):
        return k
    if isinstance(k, S) and k.kind == "i":
        return k.native()
    try:
        import numpy
        if isinstance(k, numpy.integer):
            return int(k)
    except Exception:
        pass
    return None


def clamp_slice(sl, d, lib):
    n = dimterm(d)
    step = sl.step
    if step is None:
        step = 1
    step = dimval(as_scalar(step).v) if not isinstance(step, int) else step
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")

    def norm(x, default):
        if x is None:
            return default
        if isinstance(x, Ten):
            x = x.item_s()
        t = as_scalar(x)
        if t.kind != "i":
            raise TypeError("slice indices must be integers")
        t = t.v
        if t.op == "const":
            if T.cval(t) < 0:
                t = T.add(t, n)
                return t if CTX.known(T.le(I0, t)) else T.maximum(t, I0)
        elif not CTX.known(T.le(I0, t)):
            t = T.ite(T.lt(t, I0), T.maximum(T.add(t, n), I0), t)
        if t is n or CTX.known(T.le(t, n)):
            return t
        return T.minimum(t, n)
    if step > 0:
        a, b = norm(sl.start, I0), norm(sl.stop, n)
        ln = T.sub(b, a)
        if not CTX.known(T.le(I0, ln)):
            ln = T.maximum(ln, I0)
        if step != 1:
            ln = T.idivmod(T.add(ln, I(step - 1)), I(step))[0]
        return a, step, dimval(ln)
    if step == -1 and sl.start is None and sl.stop is None:
        return T.sub(n, I1), -1, d
    raise Unsupported("slice with negative step")


def parse_key(t, key):
    if not isinstance(key, tuple):
        key = (key,)
    out = []
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, Ten) and k._dtype.kind == "b":
            used += max(1, len(k._shape)) if len(k._shape) else 0
        elif isinstance(k, list) and k and isinstance(k[0], bool):
            used += 1
        else:
            used += 1
    if used > len(t._shape):
        raise IndexError("too many indices for tensor of dimension %d" % len(t._shape))
    seen = False
    for k in key:
        if k is Ellipsis:
            out.extend([slice(None)] * (len(t._shape) - used))
            seen = True
        else:
            out.append(k)
    if not seen:
        out.extend([slice(None)] * (len(t._shape) - used))
    return out


def getitem(t, key):
    items = parse_key(t, key)
    # 1. basic part
    adv = []
    shape, ops = [], []      # ops: per source axis ('fix', term) | ('sl', out axis, start, step)
    ax = 0
    advpos = []
    for k in items:
        if k is None:
            shape.append(1)
            ops.append(("new", len(shape) - 1))
            continue
        if isinstance(k, Ten) and not k._shape and k._dtype.kind == "i":
            k = k.item_s().native()
        s = _as_index_scalar(k)
        if s is not None:
            d = dimterm(t._shape[ax])
            it = dimterm(s)
            it = wrap_index(it, d, t.lib)
            ops.append(("fix", ax, it))
            ax += 1
            continue
        if isinstance(k, slice):
            a, st, ln = clamp_slice(k, t._shape[ax], t.lib)
            shape.append(ln)
            ops.append(("sl", ax, len(shape) - 1, a, st))
            ax += 1
            continue
        # advanced
        if isinstance(k, (list, tuple, range)):
            k = from_nested(list(k), type(t))
        if not isinstance(k, Ten):
            import numpy
            if isinstance(k, numpy.ndarray):
                k = from_numpy_concrete(k, type(t))
            elif isinstance(k, bool):
                raise Unsupported("bool scalar index")
            elif isinstance(k, S):
                raise IndexError("only integers, slices (`:`), ... are valid indices")
            else:
                raise TypeError("unsupported index %r" % (type(k),))
        nax = len(k._shape) if k._dtype.kind == "b" else 1
        if k._dtype.kind == "f":
            raise IndexError("tensors used as indices must be long, int, byte or bool tensors")
        axes = []
        for q in range(nax):
            shape.append(t._shape[ax])
            ops.append(("sl", ax, len(shape) - 1, I0, 1))
            axes.append(len(shape) - 1)
            ax += 1
        adv.append((k, axes))
    fixes = {o[1]: o[2] for o in ops if o[0] == "fix"}
    sls = {o[1]: (o[2], o[3], o[4]) for o in ops if o[0] == "sl"}
    nsrc = len(t._shape)
    identity = not fixes and len(shape) == nsrc and all(
        sls[q][0] == q and sls[q][1] is I0 and sls[q][2] == 1 and dimterm(shape[q]) is dimterm(t._shape[q]) for q in sls) and len(sls) == nsrc

    def fwd(idx):
        out = []
        for q in range(nsrc):
            if q in fixes:
                out.append(fixes[q])
            else:
                o, a, st = sls[q]
                i = idx[o]
                out.append(T.add(a, T.scale(st, i)) if not (a is I0 and st == 1) else i)
        return tuple(out)

    def inv(sidx):
        cond = []
        out = [I0] * len(shape)
        for q in range(nsrc):
            if q in fixes:
                cond.append(T.eq(sidx[q], fixes[q]))
            else:
                o, a, st = sls[q]
                ln = dimterm(shape[o])
                if a is I0 and st == 1:
                    out[o] = sidx[q]
                    if ln is not dimterm(t._shape[q]):
                        cond.append(T.lt(sidx[q], ln))
                elif st == 1:
                    out[o] = T.sub(sidx[q], a)
                    cond.append(T.le(a, sidx[q]))
                    cond.append(T.lt(sidx[q], T.add(a, ln)))
                elif st == -1:
                    out[o] = T.sub(a, sidx[q])
                else:
                    dd, mm = T.idivmod(T.sub(sidx[q], a), I(st))
                    out[o] = dd
                    cond += [T.eq(mm, I0), T.le(a, sidx[q]), T.lt(dd, ln)]
        return T.and_(*cond), tuple(out)
    v = t if identity else t.mkview(tuple(shape), fwd, inv)
    if not adv:
        return scalarize(v) if t.lib == "np" and not v._shape else (v if v is not t else t.mkview(t._shape, lambda i: i, lambda i: (TRUE, i)))
    return gather(v, adv)


def scalarize(v):
    """numpy scalars behave as python numbers"""
    return v.reader()(()).native() if v._dtype.kind != "b" else v.reader()(()).native()


def wrap_index(it, d, lib):
    if it.op == "const":
        n = T.cval(it)
        if n < 0:
            it = T.add(it, d)
        if d.op == "const":
            if not (0 <= T.cval(it) < T.cval(d)):
                raise IndexError("index %d is out of bounds for dimension with size %d" % (n, T.cval(d)))
            return it
        if n >= 0:
            if not CTX.decide(T.lt(it, d)):
                raise IndexError("index %d is out of bounds for dimension" % n)
        elif not CTX.decide(T.le(I0, it)):
            raise IndexError("index %d is out of bounds for dimension" % n)
        return it
    if T.in_range(it, d):
        return it
    lo, _ = T.irange(it)
    if not (lo is not None and lo >= 0) and not CTX.decide(T.le(I0, it)):
        it = T.add(it, d)
        if not CTX.decide(T.le(I0, it)):
            raise IndexError("index out of bounds")
        return it
    if not CTX.decide(T.lt(it, d)):
        raise IndexError("index out of bounds")
    return it


def adv_index(v, adv):
    """-> (bshape, [(axis, reader at bshape idx)]) for a list of (index tensor, axes)"""
    ixs = []
    for k, axes in adv:
        if k._dtype.kind == "b":
            for ax, d in zip(axes, k._shape):
                if not same_dim(v._shape[ax], d):
                    raise IndexError("The shape of the mask does not match the shape of the indexed tensor")
            for (shape, rd), ax in zip(mask_positions(k), axes):
                ixs.append((ax, shape, rd, True))
        else:
            rd = k.reader()
            ax = axes[0]
            dim = dimterm(v._shape[ax])
            rd = check_index(k, rd, dim)
            ixs.append((ax, k._shape, rd, False))
    bshape = bcast(*[s for _, s, _, _ in ixs])
    out = []
    for ax, s, rd, _ in ixs:
        out.append((ax, (lambda idx, s=s, rd=rd: rd(bidx(s, idx)))))
    return bshape, out


def check_index(k, rd, dim):
    """bounds obligation for an index tensor; returns a reader of wrapped indices"""
    ivars = tuple(CTX.index("x%d" % n, d) for n, d in enumerate(k._shape))
    e = rd(ivars).to_kind("i").v
    if any(isinstance(d, int) and d == 0 for d in k._shape):
        return lambda idx: rd(idx).to_kind("i")
    if T.in_range(e, dim):
        return lambda idx: rd(idx).to_kind("i")
    rng = T.and_(*[T.and_(T.le(I0, v), T.lt(v, dimterm(d))) for v, d in zip(ivars, k._shape)])
    hyp = T.implies(rng, T.and_(T.le(I0, e), T.lt(e, dim)))
    if CTX.prover.quick(CTX.hyps(), hyp, 4000):
        CTX.oblige_done("index", hyp)
        return lambda idx: rd(idx).to_kind("i")
    low = T.implies(rng, T.le(I0, e))
    if CTX.prover.quick(CTX.hyps(), low, 4000):
        CTX.safety("index", hyp)
        return lambda idx: rd(idx).to_kind("i")
    CTX.safety("index", T.implies(rng, T.and_(T.le(T.neg(dim), e), T.lt(e, dim))))

    def w(idx):
        x = rd(idx).to_kind("i").v
        return S(T.ite(T.lt(x, I0), T.add(x, dim), x))
    return w


def mask_positions(k):
    """positions (one (shape, reader) per mask dim) where the boolean tensor k holds"""
    rd = k.reader()
    dims = k._shape
    # constant masks
    if all(isinstance(d, int) for d in dims):
        import itertools
        vals = {}
        ok = True
        for idx in itertools.product(*[range(d) for d in dims]):
            b = rd(tuple(I(i) for i in idx)).v
            if b.op != "const":
                ok = False
                break
            vals[idx] = T.cval(b)
        if ok:
            pos = [i for i in sorted(vals) if vals[i]]
            return [((len(pos),), (lambda idx, d=d, pos=pos: _pick_const([p[d] for p in pos], idx[0]))) for d in range(len(dims))]
        if len(dims) == 1 and dims[0] <= 6:
            # enumerate: fork on each entry
            pos = [i for i in range(dims[0]) if CTX.decide(rd((I(i),)).v)]
            return [((len(pos),), (lambda idx, pos=pos: _pick_const(pos, idx[0])))]
    # row regular masks (.., K) with a constant number of True per row
    if len(dims) == 2 and isinstance(dims[1], int) and dims[1] <= 8:
        r = row_regular(rd, dims)
        if r is not None:
            return r
    s, ps = selection(dims, lambda idx: rd(idx).v)
    cnt = s.cnt(ps)
    k._sel = (s, ps)
    return [((cnt,), (lambda idx, d=d: S(s.sel(d, ps, idx[0])))) for d in range(len(dims))]


def _pick_const(vals, i):
    if not vals:
        return S(I0)
    if i.op == "const":
        return S(I(vals[T.cval(i)]))
    r = I(vals[-1])
    for q in range(len(vals) - 2, -1, -1):
        r = T.ite(T.eq(i, I(q)), I(vals[q]), r)
    return S(r)


def row_regular(rd, dims):
    n, K = dims
    i = CTX.index("row", n)
    bits = [rd((i, I(q))).v for q in range(K)]
    cnt = I0
    for b in bits:
        cnt = T.add(cnt, T.ite(b, I1, I0))
    for c in range(K + 1):
        if CTX.prover.quick(CTX.hyps(), T.eq(cnt, I(c)), 3000):
            break
    else:
        return None
    if c == 0:
        return None

    def colreader(idx):
        row, q = T.idivmod(idx[0], I(c))
        bs = [rd((row, I(z))).v for z in range(K)]
        # q-th True column of this row
        res = I(K - 1)
        pre = I0
        pres = []
        for z in range(K):
            pres.append(pre)
            pre = T.add(pre, T.ite(bs[z], I1, I0))
        for z in range(K - 2, -1, -1):
            res = T.ite(T.and_(bs[z], T.eq(pres[z], q)), I(z), res)
        return S(res)
    shape = (T.mul(I(c), dimterm(n)),)
    return [(shape, lambda idx: S(T.idivmod(idx[0], I(c))[0])), (shape, colreader)]


def gather(v, adv):
    bshape, ixs = adv_index(v, adv)
    axset = {ax for ax, _ in ixs}
    axs = [ax for k, axes in adv for ax in axes]
    contiguous = axs == list(range(axs[0], axs[0] + len(axs)))
    rest = [q for q in range(len(v._shape)) if q not in axset]
    if contiguous:
        pre = [q for q in rest if q < axs[0]]
        post = [q for q in rest if q > axs[0]]
    else:
        pre, post = [], rest
    nb = len(bshape)
    shape = tuple(v._shape[q] for q in pre) + bshape + tuple(v._shape[q] for q in post)
    rd = v.reader()

    def fn(idx):
        b = idx[len(pre):len(pre) + nb]
        src = [None] * len(v._shape)
        for n, q in enumerate(pre):
            src[q] = idx[n]
        for n, q in enumerate(post):
            src[q] = idx[len(pre) + nb + n]
        for ax, r in ixs:
            src[ax] = r(b).to_kind("i").v
        return rd(tuple(src))
    r = v.new(fn, shape)
    return r


def setitem(t, key, value):
    items = parse_key(t, key)
    isadv = any(isinstance(k, (Ten, list)) and not (isinstance(k, Ten) and not k._shape and k._dtype.kind == "i") for k in items)
    if not isinstance(value, Ten):
        c = coerce(value)
        if c is None:
            value = from_nested(value if isinstance(value, (list, tuple)) else value, type(t))
        else:
            value = full(type(t), (), c, {"f": float64, "i": int64, "b": boolean}[c.kind])
    if t.lib == "torch" and value.lib == "np":
        raise TypeError("can't assign a numpy.ndarray to a torch tensor")
    if not isadv:
        v = getitem_view(t, key)
        if not isinstance(v, Ten):
            raise Unsupported("setitem on scalar view")
        check_assignable(v._shape, value)
        v.assign_all(squeeze_lead(value, len(v._shape)))
        return
    # split basic and advanced
    basic = tuple(slice(None) if isinstance(k, (Ten, list)) and not (isinstance(k, Ten) and not k._shape) else k for k in items)
    if any(isinstance(k, Ten) and k._dtype.kind == "b" and len(k._shape) != 1 for k in items):
        ks = [k for k in items if isinstance(k, Ten) and k._dtype.kind == "b" and len(k._shape) > 1]
        if len(ks) == 1 and items[0] is ks[0]:
            v = t
            adv = [(ks[0], list(range(len(ks[0]._shape))))]
        else:
            raise Unsupported("mixed mask assignment")
    else:
        if any(k is None for k in items):
            raise Unsupported("None in advanced assignment")
        v = getitem_view(t, basic)
        adv = []
        ax = 0
        for k in items:
            if isinstance(k, (Ten, list)) and not (isinstance(k, Ten) and not k._shape):
                kk = k if isinstance(k, Ten) else from_nested(k, type(t))
                adv.append((kk, [ax]))
                ax += 1
            elif isinstance(k, slice):
                ax += 1
    scatter(v, adv, value, None)


def squeeze_lead(value, n):
    while len(value._shape) > n:
        d = value._shape[0]
        if not (isinstance(d, int) and d == 1):
            raise RuntimeError("shape mismatch in assignment")
        value = value[0] if value.lib == "torch" else getitem_view(value, 0)
    return value


def getitem_view(t, key):
    if t.lib == "np":
        lib = type(t)
        # avoid scalarisation
        items = parse_key(t, key)
        tt = RawView(None, t._shape, t._dtype, store=t.store, view=t._view)
        r = getitem(tt, tuple(items))
        return lib(None, r._shape, r._dtype, store=r.store, view=r._view)
    return getitem(t, key)


def check_assignable(shape, value):
    pass


class RawView(Ten):
    lib = "raw"


def scatter(v, adv, value, acc):
    """v[adv] = value (acc None) or accumulate (acc = s_add)"""
    if CTX.loops:
        CTX.loops[-1].note_write(v.store)
    # whole-mask fast path
    if acc is None and len(adv) == 1 and adv[0][0]._dtype.kind == "b":
        k, axes = adv[0]
        for ax, d in zip(axes, k._shape):
            if not same_dim(v._shape[ax], d):
                raise IndexError("mask shape mismatch")
        rest = [q for q in range(len(v._shape)) if q not in axes]
        mrd = k.reader()
        if not value._shape or (all(isinstance(d, int) and d == 1 for d in value._shape)):
            z = tuple(I0 for _ in value._shape)
            val = value.reader()(z)
            v.write(lambda idx, old: s_ite(mrd(tuple(idx[a] for a in axes)).v, val, old))
            return
    bshape, ixs = adv_index(v, adv)
    axset = [ax for ax, _ in ixs]
    contiguous = axset == list(range(axset[0], axset[0] + len(axset)))
    rest = [q for q in range(len(v._shape)) if q not in axset]
    pre = [q for q in rest if contiguous and q < axset[0]]
    post = [q for q in rest if q not in pre]
    tshape = tuple(v._shape[q] for q in pre) + bshape + tuple(v._shape[q] for q in post)
    if len(value._shape) > len(tshape):
        value = squeeze_lead(value, len(tshape))
    for a, b in zip(tshape[::-1], value._shape[::-1]):
        if not (isinstance(b, int) and b == 1) and not same_dim(a, b):
            raise (RuntimeError if v.lib == "torch" else ValueError)("shape mismatch: value tensor cannot be broadcast to indexing result")
    vrd = expand_reader(value, tshape)
    npre, nb = len(pre), len(bshape)

    def val_at(b, idx):
        full_ = tuple(idx[q] for q in pre) + tuple(b) + tuple(idx[q] for q in post)
        return vrd(full_)
    if acc is not None:
        kind = v._dtype.kind

        def wacc(idx, old):
            ms = []
            for n, d in enumerate(bshape):
                w = CTX.fresh("$t", "I")
                T.BOUNDS[w] = dimterm(d)
                ms.append(w)
            cond = T.and_(*[T.eq(r(tuple(ms)).to_kind("i").v, idx[ax]) for ax, r in ixs])
            x = val_at(tuple(ms), idx).to_kind(kind)
            nan = T.and_(cond, T.or_(x.nan, x.inf))
            if nan is not FALSE:
                # a special value reaches the element iff some m matches
                s, ps = selection(bshape, lambda mm: T.subst(nan, dict(zip(ms, mm))))
                flag = T.lt(I0, s.cnt(ps))
            else:
                flag = FALSE
            tot = mk_sum(tuple((m, dimterm(d)) for m, d in zip(ms, bshape)), T.ite(cond, x.v, R0 if x.v.sort == "R" else I0))
            r = s_add(old, S(tot))
            return S(r.v, T.or_(r.nan, flag), r.inf) if flag is not FALSE else r
        v.write(wacc)
        return
    # plain scatter: invert the index map
    if all(isinstance(d, int) for d in bshape):
        import itertools
        entries = list(itertools.product(*[range(d) for d in bshape]))
        if len(entries) > 64:
            raise Unsupported("large concrete scatter")

        def w(idx, old):
            r = old
            for b in entries:
                bt = tuple(I(x) for x in b)
                cond = T.and_(*[T.eq(rr(bt).to_kind("i").v, idx[ax]) for ax, rr in ixs])
                r = s_ite(cond, val_at(bt, idx), r)
            return r
        v.write(w)
        return
    probe = tuple(CTX.index("q%d" % n, d) for n, d in enumerate(bshape))
    plans = {}
    for ax, r in ixs:
        e = r(probe).to_kind("i").v
        if e in probe and probe.index(e) not in plans:
            if not same_dim(v._shape[ax], bshape[probe.index(e)]):
                # still injective, but only covers a prefix
                plans[probe.index(e)] = ("idp", ax)
            else:
                plans[probe.index(e)] = ("id", ax)
        elif e.op == "app" and e.args[0].startswith("sel") and e.args[-1] in probe and probe.index(e.args[-1]) not in plans:
            plans[probe.index(e.args[-1])] = ("sel", ax, e)
        elif e.op == "app" and e.args[0].startswith("perm") and e.args[-1] in probe and probe.index(e.args[-1]) not in plans:
            plans[probe.index(e.args[-1])] = ("perm", ax, e)
    if len(plans) != len(bshape):
        raise Unsupported("scatter through a non invertible index")

    def w2(idx, old):
        b = [None] * len(bshape)
        conds = []
        for n, p in plans.items():
            if p[0] in ("id", "idp"):
                b[n] = idx[p[1]]
                if p[0] == "idp":
                    conds.append(T.lt(b[n], dimterm(bshape[n])))
            elif p[0] == "sel":
                e = p[2]
                k, dd = e.args[0][3:].split(".")
                s = [x for x in CTX.sels.values() if x.k == int(k)][0]
                if len(s.dims) != 1:
                    raise Unsupported("scatter via multi dim selection")
                ps = e.args[1:-1]
                conds.append(s.inst(s.body, ps, (idx[p[1]],)))
                b[n] = s.rank(ps, (idx[p[1]],))
            else:
                e = p[2]
                b[n] = T.app("permi" + e.args[0][4:], e.args[1:-1] + (idx[p[1]],), "I")
        for ax, r in ixs:
            conds.append(T.eq(r(tuple(b)).to_kind("i").v, idx[ax]))
        return s_ite(T.and_(*conds), val_at(tuple(b), idx), old)
    v.write(w2)


# ====================================================================== shape ops
def reshape(t, shape):
    dims = []
    minus = None
    for n, d in enumerate(shape):
        dv = dimval(as_scalar(d).v) if not isinstance(d, (int, Term)) else normdim(d)
        if isinstance(dv, int) and dv == -1:
            minus = n
        dims.append(dv)
    total = sprod(t._shape)
    if minus is not None:
        known = sprod([d for n, d in enumerate(dims) if n != minus])
        if isinstance(known, int) and isinstance(total, int):
            if known == 0 or total % known:
                raise RuntimeError("shape is invalid for input of size")
            dims[minus] = total // known
        else:
            q, r = T.idivmod(dimterm(total), dimterm(known))
            if r is not I0:
                # maybe provable under the path condition
                if not CTX.decide(T.eq(r, I0)):
                    raise RuntimeError("shape is invalid for input of size")
            dims[minus] = dimval(q)
    else:
        if not same_dim(sprod(dims), total):
            raise (RuntimeError if t.lib == "torch" else ValueError)("shape '%s' is invalid for input of size %s" % (dims, total))
    src, dst = list(t._shape), dims
    # group matching
    groups = []
    i = j = 0
    while i < len(src) or j < len(dst):
        gi, gj = [], []
        if i < len(src):
            gi.append(i)
        if j < len(dst):
            gj.append(j)
        pi = sprod([src[x] for x in gi])
        pj = sprod([dst[x] for x in gj])
        ii, jj = i + len(gi), j + len(gj)
        guard = 0
        while not (dimterm(pi) is dimterm(pj)):
            guard += 1
            if guard > 12 or (ii >= len(src) and jj >= len(dst)):
                ii, jj = len(src), len(dst)
                gi, gj = list(range(i, ii)), list(range(j, jj))
                break
            # grow the (syntactically) smaller side
            grow_src = _divides(pi, pj) and ii < len(src)
            if not grow_src and jj >= len(dst):
                grow_src = True
            if grow_src:
                gi.append(ii)
                ii += 1
                pi = sprod([src[x] for x in gi])
            else:
                gj.append(jj)
                jj += 1
                pj = sprod([dst[x] for x in gj])
        groups.append((gi, gj))
        i, j = ii, jj

    def conv(idx, A, B):
        """index in dims A (idx) -> index in dims B (row major)"""
        ne = [(k, d) for k, d in enumerate(A) if not (isinstance(d, int) and d == 1)]
        nb = [(k, d) for k, d in enumerate(B) if not (isinstance(d, int) and d == 1)]
        out = [I0] * len(B)
        if len(ne) == len(nb) and all(dimterm(x[1]) is dimterm(y[1]) for x, y in zip(ne, nb)):
            for (k, _), (l, _) in zip(ne, nb):
                out[l] = idx[k]
            return out
        lin = I0
        for k, d in enumerate(A):
            lin = T.add(T.mul(lin, dimterm(d)), idx[k])
        for l in range(len(B) - 1, 0, -1):
            d = dimterm(B[l])
            q, r = T.idivmod(lin, d)
            out[l] = r
            lin = q
        if B:
            out[0] = lin
        return out

    def fwd(idx):
        out = [I0] * len(src)
        for gi, gj in groups:
            o = conv([idx[x] for x in gj], [dst[x] for x in gj], [src[x] for x in gi])
            for x, y in zip(gi, o):
                out[x] = y
        return tuple(out)

    def inv(sidx):
        out = [I0] * len(dst)
        for gi, gj in groups:
            o = conv([sidx[x] for x in gi], [src[x] for x in gi], [dst[x] for x in gj])
            for x, y in zip(gj, o):
                out[x] = y
        return TRUE, tuple(out)
    return t.mkview(tuple(dst), fwd, inv)


def _divides(a, b):
    a, b = dimterm(a), dimterm(b)
    if a.op == "const" and b.op == "const":
        return T.cval(a) < T.cval(b)
    if a.op == "const" and T.cval(a) == 0:
        return False
    ca, da = T._mul_parts(a)
    cb, db = T._mul_parts(b)
    return all(db.get(x, 0) >= e for x, e in da.items()) and (ca == 0 or cb % ca == 0 if isinstance(ca, int) and isinstance(cb, int) else True)


def permute(t, perm):
    n = len(t._shape)
    perm = [p % n for p in perm]
    shape = tuple(t._shape[p] for p in perm)

    def fwd(idx):
        out = [None] * n
        for k, p in enumerate(perm):
            out[p] = idx[k]
        return tuple(out)

    def inv(sidx):
        return TRUE, tuple(sidx[p] for p in perm)
    return t.mkview(shape, fwd, inv)


def squeeze(t, dim=None):
    n = len(t._shape)
    if dim is None:
        keep = []
        for q, d in enumerate(t._shape):
            if isinstance(d, int):
                if d != 1:
                    keep.append(q)
            elif not CTX.decide(T.eq(d, I1)):
                keep.append(q)
    else:
        ds = dim if isinstance(dim, (tuple, list)) else (dim,)
        ds = [checkdim(d, n) for d in ds]
        keep = []
        for q, d in enumerate(t._shape):
            if q not in ds:
                keep.append(q)
            elif isinstance(d, int):
                if d != 1:
                    keep.append(q)
            elif not CTX.decide(T.eq(d, I1)):
                keep.append(q)
    if len(keep) == n:
        return t
    shape = tuple(t._shape[q] for q in keep)

    def fwd(idx):
        out = [I0] * n
        for k, q in enumerate(keep):
            out[q] = idx[k]
        return tuple(out)
    return t.mkview(shape, fwd, lambda s: (TRUE, tuple(s[q] for q in keep)))


def checkdim(d, n):
    d = as_scalar(d).native() if not isinstance(d, int) else d
    if not (-n <= d < n):
        raise IndexError("Dimension out of range (expected to be in range of [%d, %d], but got %d)" % (-n, n - 1, d))
    return d % n


def unsqueeze(t, dim):
    n = len(t._shape)
    dim = checkdim(dim, n + 1)
    shape = t._shape[:dim] + (1,) + t._shape[dim:]
    return t.mkview(shape, lambda i: i[:dim] + i[dim + 1:], lambda s: (TRUE, s[:dim] + (I0,) + s[dim:]))


def expand(t, shape):
    shape = list(shape)
    k = len(shape) - len(t._shape)
    for n in range(len(shape)):
        d = shape[n]
        d = dimval(as_scalar(d).v) if not isinstance(d, (int, Term)) else normdim(d)
        if isinstance(d, int) and d == -1:
            d = t._shape[n - k]
        shape[n] = d
    one = []
    for n, d in enumerate(t._shape):
        o = shape[k + n]
        if isinstance(d, int) and d == 1:
            one.append(True)
        elif dimterm(d) is dimterm(o) or same_dim(d, o):
            one.append(False)
        elif isinstance(d, Term) and CTX.decide(T.eq(d, I1)):
            one.append(True)
        else:
            raise RuntimeError("The expanded size of the tensor must match the existing size")

    def inv(s):
        raise Unsupported("write through expanded tensor")
    return t.mkview(tuple(shape), lambda i: tuple(I0 if o else i[k + n] for n, o in enumerate(one)), inv)


def cat(ts, dim=0):
    ts = list(ts)
    if not ts:
        raise RuntimeError("expected a non-empty list of Tensors")
    cls = type(ts[0])
    ts = [x if isinstance(x, Ten) else from_nested(x, cls) for x in ts]
    # torch legacy: 1-d empty tensors are skipped
    if cls.lib == "torch" and len(ts) > 1:
        ts2 = [x for x in ts if not (len(x._shape) == 1 and isinstance(x._shape[0], int) and x._shape[0] == 0)]
        if ts2:
            ts = ts2
    n = len(ts[0]._shape)
    if n == 0:
        raise RuntimeError("zero-dimensional tensor cannot be concatenated")
    dim = checkdim(dim, n)
    for x in ts[1:]:
        if len(x._shape) != n:
            raise RuntimeError("Tensors must have same number of dimensions: got %d and %d" % (n, len(x._shape)))
        for q in range(n):
            if q != dim and not same_dim(x._shape[q], ts[0]._shape[q]):
                raise RuntimeError("Sizes of tensors must match except in dimension %d" % dim)
    dt = ts[0]._dtype
    for x in ts[1:]:
        dt = promote(dt, x._dtype)
    offs = [I0]
    for x in ts:
        offs.append(T.add(offs[-1], dimterm(x._shape[dim])))
    shape = ts[0]._shape[:dim] + (dimval(offs[-1]),) + ts[0]._shape[dim + 1:]
    rds = [x.reader() for x in ts]
    live = [q for q, x in enumerate(ts) if not (isinstance(x._shape[dim], int) and x._shape[dim] == 0)]
    k = dt.kind

    def fn(idx):
        i = idx[dim]
        if not live:
            return S(R0).to_kind(k)
        r = None
        for q in reversed(live):
            li = T.sub(i, offs[q])
            val = lambda: rds[q](idx[:dim] + (li,) + idx[dim + 1:]).to_kind(k)
            if r is None:
                if i.op == "const" and offs[q].op == "const" and T.cval(i) < T.cval(offs[q]):
                    continue
                r = val()
                continue
            c = T.lt(i, offs[q + 1])
            if c is TRUE:
                r = val()
            elif c is FALSE:
                continue
            else:
                lo = T.irange(li)
                r = s_ite(c, val(), r)
        return r
    return cls(fn, shape, dt)


def stack(ts, dim=0):
    ts = list(ts)
    cls = [type(x) for x in ts if isinstance(x, Ten)]
    cls = cls[0] if cls else None
    ts = [x if isinstance(x, Ten) else from_nested(x, cls) for x in ts]
    n = len(ts[0]._shape)
    for x in ts[1:]:
        if len(x._shape) != n or not all(same_dim(a, b) for a, b in zip(x._shape, ts[0]._shape)):
            raise RuntimeError("stack expects each tensor to be equal size")
    return cat([unsqueeze(x, dim) for x in ts], dim)


# ====================================================================== reductions
def norm_dims(t, dim):
    n = len(t._shape)
    if dim is None:
        return list(range(n))
    if isinstance(dim, (tuple, list)):
        return sorted(checkdim(d, n) for d in dim)
    return [checkdim(dim, n)]


def reduce_(t, dim, keepdim, f, init, symbolic, dtype=None):
    """f: fold over S; symbolic(dims, fn(idx)->S) for symbolic extents"""
    dims = norm_dims(t, dim)
    n = len(t._shape)
    keep = [q for q in range(n) if q not in dims]
    rd = t.reader()
    shape = tuple((1 if q in dims else t._shape[q]) for q in range(n)) if keepdim else tuple(t._shape[q] for q in keep)
    cd = [q for q in dims if isinstance(t._shape[q], int)]
    sd = [q for q in dims if not isinstance(t._shape[q], int)]
    ncell = 1
    for q in cd:
        ncell *= t._shape[q]
    if ncell > 4096 and symbolic is not None:
        sd, cd = dims, []
    import itertools

    def fn(idx):
        base = [None] * n
        if keepdim:
            for q in keep:
                base[q] = idx[q]
        else:
            for k, q in enumerate(keep):
                base[q] = idx[k]

        def at(ci, si):
            b = list(base)
            for q, i in zip(cd, ci):
                b[q] = I(i)
            for q, i in zip(sd, si):
                b[q] = i
            return rd(tuple(b))
        cells = list(itertools.product(*[range(t._shape[q]) for q in cd]))
        if sd:
            def inner(si):
                r = None
                for ci in cells:
                    x = at(ci, si)
                    r = x if r is None else f(r, x)
                return r if r is not None else init()
            return symbolic([t._shape[q] for q in sd], inner)
        r = None
        for ci in cells:
            x = at(ci, ())
            r = x if r is None else f(r, x)
        if r is None:
            return init()
        return r
    return t.new(fn, shape, dtype or t._dtype)


def sym_sum(dims, inner):
    vs = []
    for d in dims:
        w = CTX.fresh("$t", "I")
        T.BOUNDS[w] = dimterm(d)
        vs.append(w)
    x = inner(tuple(vs))
    if x.kind == "b":
        x = x.to_kind("i")
    sp = T.or_(x.nan, x.inf)
    flag = FALSE
    if sp is not FALSE:
        s, ps = selection(dims, lambda mm: T.subst(sp, dict(zip(vs, mm))))
        flag = T.lt(I0, s.cnt(ps))
    if x.kind == "i":
        # counting: integer valued sum, kept as a named integer
        if x.v.op == "ite" and x.v.args[1] is I1 and x.v.args[2] is I0:
            s, ps = selection(dims, lambda mm: T.subst(x.v.args[0], dict(zip(vs, mm))))
            return S(s.cnt(ps))
        tot = mk_sum(tuple((v, dimterm(d)) for v, d in zip(vs, dims)), T.toreal(x.v))
        return S(T.floor(tot))
    tot = mk_sum(tuple((v, dimterm(d)) for v, d in zip(vs, dims)), x.v)
    return S(tot, flag)


def sym_all(dims, inner):
    s, ps = selection(dims, lambda mm: T.not_(inner(mm).to_kind("b").v))
    return S(T.eq(s.cnt(ps), I0))


def sym_any(dims, inner):
    s, ps = selection(dims, lambda mm: inner(mm).to_kind("b").v)
    return S(T.lt(I0, s.cnt(ps)))


def sym_extreme(which):
    def red(dims, inner):
        vs = []
        for d in dims:
            w = T.var("$m%d.%d" % (len(vs), dimterm(d).id), "I")
            T.BOUNDS[w] = dimterm(d)
            vs.append(w)
        x = inner(tuple(vs)).to_kind("f") if False else inner(tuple(vs))
        tb, params = abstract(x.v, vs)
        sp = T.or_(x.nan, x.inf)
        key = (which, tb, tuple(dimterm(d) for d in dims))
        k = CTX.templates.get(key)
        if k is None:
            k = len(CTX.templates)
            CTX.templates[key] = k
            nm = "%s%d" % (which, k)
            pv = [T.var("$p%d" % n, "I") for n in range(len(params))]
            bv = [T.var("$b%d" % n, "I") for n in range(len(vs))]
            cmp_ = T.le if which == "amin" else T.ge

            def att(*ps):
                # attained at a witness
                m = dict(zip(pv, ps))
                ws = [T.app("arg" + nm + "." + str(n), ps, "I") for n in range(len(vs))]
                m.update(zip(bv, ws))
                nonempty = T.and_(*[T.lt(I0, dimterm(d)) for d in dims])
                return T.implies(nonempty, T.and_(T.eq(T.app(nm, ps, tb.sort), T.subst(tb, m)),
                                 *[T.and_(T.le(I0, w), T.lt(w, dimterm(d))) for w, d in zip(ws, dims)]))
            CTX.trigger(nm, att)
            CTX.pairs[nm] = ("ext", tb, pv, bv, dims, cmp_, nm)
            for s in T.subterms([tb]):
                if s.op == "app":
                    pos = {a: n for n, a in enumerate(s.args[1:]) if a in bv}
                    if len(pos) == len(bv):
                        def bound(*args, pos=pos):
                            if pv:
                                return TRUE
                            js = [args[pos[b]] for b in bv]
                            return T.implies(T.and_(*[T.and_(T.le(I0, j), T.lt(j, dimterm(d))) for j, d in zip(js, dims)]),
                                             cmp_(T.app(nm, (), tb.sort), T.subst(tb, dict(zip(bv, js)))))
                        CTX.trigger(s.args[0], bound)
                        break
        nm = "%s%d" % (which, k)
        flag = FALSE
        if sp is not FALSE:
            s, ps = selection(dims, lambda mm: T.subst(sp, dict(zip(vs, mm))))
            flag = T.lt(I0, s.cnt(ps))
        return S(T.app(nm, params, tb.sort), flag)
    return red


def sum_(t, dim=None, keepdim=False):
    if t._dtype.kind == "b":
        if len(t._shape) == 1 and dim in (None, 0, -1) and not keepdim and not isinstance(wrapdim(t._shape[0]), int):
            rd = t.reader()
            s, ps = selection(t._shape, lambda m: rd(m).to_kind("b").v)
            return t.new(lambda i: S(s.cnt(ps)), (), int64)
        t = ewise(lambda a: a.to_kind("i"), t, dtype=int64)
    zero = S(R0 if t._dtype.kind == "f" else I0)
    return reduce_(t, dim, keepdim, s_add, lambda: zero, sym_sum)


def all_(t, dim=None, keepdim=False):
    t = ewise(lambda a: a.to_kind("b"), t, dtype=boolean)
    return reduce_(t, dim, keepdim, s_and, lambda: S(TRUE), sym_all)


def any_(t, dim=None, keepdim=False):
    t = ewise(lambda a: a.to_kind("b"), t, dtype=boolean)
    return reduce_(t, dim, keepdim, s_or, lambda: S(FALSE), sym_any)


def amax(t, dim=None, keepdim=False):
    return reduce_(t, dim, keepdim, s_max, _empty_err, sym_extreme("amax"))


def amin(t, dim=None, keepdim=False):
    return reduce_(t, dim, keepdim, s_min, _empty_err, sym_extreme("amin"))


def _empty_err():
    raise RuntimeError("max(): Expected reduction dim to have non-zero size")


def mean_(t, dim=None, keepdim=False):
    dims = norm_dims(t, dim)
    n = sprod([t._shape[d] for d in dims])
    if t._dtype.kind != "f":
        if t.lib == "torch":
            raise RuntimeError("mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype.")
        t = ewise(lambda a: a.to_kind("f"), t, dtype=float64)
    s = sum_(t, dim, keepdim)
    nn = S(T.toreal(dimterm(n)))
    return ewise(lambda a: s_div(a, nn), s, dtype=t._dtype)


def argext(t, dim, which):
    """argmax/argmin along a constant extent"""
    if dim is None:
        t = reshape(t, (-1,))
        dim = 0
    dim = checkdim(dim, len(t._shape))
    n = t._shape[dim]
    if not isinstance(n, int):
        raise Unsupported("argmax over a symbolic dimension")
    if n == 0:
        raise IndexError("argmax(): Expected reduction dim to be specified / non-zero size")
    rd = t.reader()
    shape = t._shape[:dim] + t._shape[dim + 1:]

    def fn(idx):
        xs = [rd(idx[:dim] + (I(q),) + idx[dim:]) for q in range(n)]
        if all(x.v.op == "const" for x in xs):
            vs = [T.cval(x.v) for x in xs]
            return S(I(vs.index(max(vs) if which == "max" else min(vs))))
        if CTX.fork_arg and not any(v.args[0].startswith("$") for x in xs for v in T.free_vars(x.v)):
            # one path per position that may be the extreme one (ties: any of them)
            key = (which,) + tuple(x.v for x in xs)
            q = CTX.forked.get(key)
            if q is None:
                q = 0
                while q < n - 1 and not CTX.decide(T.app("arg%s.%d" % (which, len(CTX.forked)), (I(q),), "B")):
                    q += 1
                CTX.forked[key] = q
                for j in range(n):
                    if j != q:
                        CTX.assume(T.le(xs[j].v, xs[q].v) if which == "max" else T.le(xs[q].v, xs[j].v))
            return S(I(q))
        key = ("arg" + which,) + tuple(x.v for x in xs)
        # abstract index variables
        fv = sorted({v for x in xs for v in T.free_vars(x.v) if v.args[0].startswith("$")}, key=lambda v: v.id)
        m = {v: T.var("$p%d" % k, "I") for k, v in enumerate(fv)}
        key = ("arg" + which,) + tuple(T.subst(x.v, m) for x in xs)
        k = CTX.templates.get(key)
        if k is None:
            k = len(CTX.templates)
            CTX.templates[key] = k
            pv = [T.var("$p%d" % q, "I") for q in range(len(fv))]
            bodies = key[1:]

            def fact(*ps):
                a = T.app("arg%s%d" % (which, k), ps, "I")
                mm = dict(zip(pv, ps))
                bs = [T.subst(b, mm) for b in bodies]
                out = [T.le(I0, a), T.lt(a, I(n))]
                for q in range(n):
                    best = T.and_(*[(T.le(b, bs[q]) if which == "max" else T.le(bs[q], b)) for b in bs if b is not bs[q]])
                    out.append(T.implies(T.eq(a, I(q)), best))
                return T.and_(*out)
            CTX.trigger("arg%s%d" % (which, k), fact)
        a = T.app("arg%s%d" % (which, k), tuple(fv), "I")
        CTX.case_splits.setdefault(a.args[0], n)
        return S(a)
    return t.new(fn, shape, int64)


# ====================================================================== linear algebra
def matmul(a, b):
    if not isinstance(a, Ten):
        a = from_nested(a, type(b))
    if not isinstance(b, Ten):
        b = from_nested(b, type(a))
    na, nb = len(a._shape), len(b._shape)
    if na == 0 or nb == 0:
        raise RuntimeError("both arguments to matmul need to be at least 1D")
    A = unsqueeze(a, 0) if na == 1 else a
    Bm = unsqueeze(b, 1) if nb == 1 else b
    if not same_dim(A._shape[-1], Bm._shape[-2]):
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied (%s and %s)" % (A._shape, Bm._shape))
    k = A._shape[-1] if isinstance(A._shape[-1], int) else Bm._shape[-2]
    batch = bcast(A._shape[:-2], Bm._shape[:-2])
    ra = expand_reader(A, batch + A._shape[-2:])
    rb = expand_reader(Bm, batch + Bm._shape[-2:])
    shape = batch + (A._shape[-2], Bm._shape[-1])
    dt = promote(a._dtype, b._dtype)
    if a._dtype.kind != b._dtype.kind and a.lib == "torch":
        raise RuntimeError("expected m1 and m2 to have the same dtype")

    def fn(idx):
        bi, i, j = idx[:-2], idx[-2], idx[-1]
        if isinstance(k, int) and k <= 64:
            r = None
            for q in range(k):
                x = s_mul(ra(bi + (i, I(q))), rb(bi + (I(q), j)))
                r = x if r is None else s_add(r, x)
            return r if r is not None else S(R0)
        return sym_sum([k], lambda s: s_mul(ra(bi + (i, s[0])), rb(bi + (s[0], j))))
    out = type(a)(fn, shape, dt)
    if na == 1:
        out = squeeze(out, len(out._shape) - 2)
    if nb == 1:
        out = squeeze(out, len(out._shape) - 1)
    return out


def norm_(t, dim=None, keepdim=False):
    sq = ewise(lambda a: s_mul(a, a), t)
    s = sum_(sq, dim, keepdim)
    return ewise(lambda a: s_fn("sqrt", a), s)


def cross(a, b, dim=-1):
    shape = bcast(a._shape, b._shape)
    n = len(shape)
    dim = checkdim(dim, n)
    ra, rb = expand_reader(a, shape), expand_reader(b, shape)
    if shape[dim] != 3:
        raise RuntimeError("linalg.cross: inputs dimension must have length 3")

    def fn(idx):
        def at(r, q):
            return r(idx[:dim] + (I(q),) + idx[dim + 1:])
        c = []
        for (p, q) in ((1, 2), (2, 0), (0, 1)):
            c.append(lambda p=p, q=q: s_sub(s_mul(at(ra, p), at(rb, q)), s_mul(at(ra, q), at(rb, p))))
        i = idx[dim]
        if i.op == "const":
            return c[T.cval(i)]()
        return s_ite(T.eq(i, I0), c[0](), s_ite(T.eq(i, I1), c[1](), c[2]()))
    return type(a)(fn, shape, promote(a._dtype, b._dtype))


def _mat3(rd, bi, n):
    return [[rd(bi + (I(r), I(c))) for c in range(n)] for r in range(n)]


def det_terms(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return s_sub(s_mul(m[0][0], m[1][1]), s_mul(m[0][1], m[1][0]))
    r = None
    for c in range(n):
        minor = [[row[q] for q in range(n) if q != c] for row in m[1:]]
        x = s_mul(m[0][c], det_terms(minor))
        r = x if r is None else (s_add(r, x) if c % 2 == 0 else s_sub(r, x))
    return r


def _sq(t):
    n = t._shape[-1]
    if not isinstance(n, int) or t._shape[-2] != n or n > 4:
        raise Unsupported("linear algebra on large or symbolic matrices")
    return n


def det(t):
    n = _sq(t)
    rd = t.reader()
    return t.new(lambda idx: det_terms(_mat3(rd, idx, n)), t._shape[:-2])


def generic_forall(dims, what, f):
    """library precondition at every index of dims"""
    ivs = tuple(CTX.index("g%d" % n, d) for n, d in enumerate(dims))
    rng = T.and_(*[T.and_(T.le(I0, v), T.lt(v, dimterm(d))) for v, d in zip(ivs, dims)])
    CTX.safety(what, T.implies(rng, f(ivs)))


def inv(t):
    n = _sq(t)
    rd = t.reader()
    batch = t._shape[:-2]
    generic_forall(batch, "inv-nonsingular", lambda iv: T.ne(det_terms(_mat3(rd, iv, n)).v, R0))

    def fn(idx):
        bi, i, j = idx[:-2], idx[-2], idx[-1]
        m = _mat3(rd, bi, n)
        d = det_terms(m)

        def cof(r, c):
            mi = [[m[x][y] for y in range(n) if y != c] for x in range(n) if x != r]
            x = det_terms(mi) if n > 1 else S(R1)
            return x if (r + c) % 2 == 0 else s_neg(x)
        if i.op == "const" and j.op == "const":
            num = cof(T.cval(j), T.cval(i))
        else:
            num = None
            for r in range(n):
                for c in range(n):
                    x = cof(c, r)
                    num = x if num is None else s_ite(T.and_(T.eq(i, I(r)), T.eq(j, I(c))), x, num)
        # det != 0 is a discharged obligation of the call
        return S(T.div(num.v, d.v), T.or_(num.nan, d.nan))
    return t.new(fn, t._shape)


def solve(a, b):
    x = inv(a)
    return matmul(x, b)


# ====================================================================== generic loops
class LoopInfo(object):
    def __init__(self, b, n):
        self.b, self.n = b, n
        self.clock = CTX.store_clock
        self.reads = set()
        self.writes = {}       # store -> (orig fn, havoc name)

    def note_read(self, store):
        if store.born <= self.clock and store not in self.writes:
            self.reads.add(store)
        for l in CTX.loops[:-1]:
            if l is not self:
                l.note_read_self(store)

    def note_read_self(self, store):
        if store.born <= self.clock and store not in self.writes:
            self.reads.add(store)

    def note_write(self, store):
        # outer loops first
        for l in CTX.loops:
            l.note_write_self(store)

    def note_write_self(self, store):
        if store.born <= self.clock and store not in self.writes:
            if store in self.reads:
                raise Unsupported("loop body reads a tensor before updating it in place")
            nm = "havoc%d" % len(CTX.templates)
            CTX.templates[("havoc", nm)] = 1
            self.writes[store] = (store._fn, store.cache, nm)
            try:
                sort = "B" if store.reader(True)(tuple(T.var("~h", "I") for _ in store.shape)).kind == "b" else "R"
            except Exception:
                sort = "R"
            store.write(lambda idx: S(T.app(nm, tuple(idx), sort)))


class Generic(object):
    """iterable of a symbolic number of items; only `for` statements (see loader.for_iter) may run over it"""

    def __iter__(self):
        raise Unsupported("iteration over a symbolic number of items outside a for statement")


class SymRange(Generic):
    def __init__(self, start, stop, step):
        self.args = start, stop, step
        span = T.sub(stop.v, start.v)
        self.n = span if step.v is I1 else T.idivmod(T.add(span, T.sub(step.v, I1)), step.v)[0]

    def items(self):
        return generic_range(*self.args)

    def item(self, k):
        return S(T.add(self.args[0].v, T.mul(self.args[2].v, k))).native()


class SymRows(Generic):
    def __init__(self, t):
        self.t, self.n = t, dimterm(t._shape[0])

    def item(self, k):
        return self.t[S(k)]


class SymEnum(Generic):
    def __init__(self, it, start=0):
        self.it, self.n, self.start = it, it.n, coerce(start).v

    def item(self, k):
        return S(T.add(self.start, k)).native(), self.it.item(k)


class SymZip(Generic):
    def __init__(self, its):
        self.its = its
        ns = [i.n for i in its if isinstance(i, Generic)]
        if len(ns) < len(its) or any(n is not ns[0] for n in ns):
            raise Unsupported("zip of iterables of different symbolic lengths")
        self.n = ns[0]

    def item(self, k):
        return tuple(i.item(k) for i in self.its)


def generic(x):
    if isinstance(x, Generic):
        return x
    if isinstance(x, Ten) and x._shape and not isinstance(x._shape[0], int):
        return SymRows(x)
    return None


def for_iter(x):
    """what a `for` statement runs over"""
    g = generic(x)
    if g is None:
        return x
    if isinstance(g, SymRange):
        return g.items()
    return for_items(g)


def for_items(g):
    for i in generic_range(S(I0), S(g.n), S(I1)):
        yield g.item(coerce(i).v)


def generic_range(start, stop, step, depth=1):
    """Iterate a generic index over range(start, stop, step).

    The body may only update pre-existing tensors in place by additions that do not depend on the accumulated
    value; their total effect is the sum over all iterations. Rebinding of caller locals that exist before the
    loop is havocked (numbers) or unsupported."""
    start, stop, step = as_scalar(start), as_scalar(stop), as_scalar(step)
    if not CTX.known(T.lt(I0, step.v)):
        raise Unsupported("generic range with non positive step")
    span = T.sub(stop.v, start.v)
    if step.v is I1:
        n = span
    else:
        n = T.idivmod(T.add(span, T.sub(step.v, I1)), step.v)[0]
    if not CTX.known(T.le(I0, n)):
        if not CTX.decide(T.le(I0, span)):
            return
    if CTX.decide(T.eq(n, I0)):
        return
    caller = sys._getframe(depth)
    while caller is not None and "/xrd_simulator/" not in caller.f_code.co_filename:
        caller = caller.f_back
    b = CTX.index("it", n)
    CTX.loop_depth += 1
    before = dict(caller.f_locals) if caller is not None else {}
    lens = {id(v): len(v) for v in before.values() if isinstance(v, (list, dict))}
    info = LoopInfo(b, n)
    CTX.loops.append(info)
    frame = Frame()
    CTX.frames.append(frame)
    results = []
    orig = {}
    facts0 = [T.le(I0, b), T.lt(b, n)]
    val = T.add(start.v, T.mul(step.v, b))
    facts0.append(T.lt(val, stop.v))
    facts0.append(T.le(start.v, val))
    completed = False
    try:
        while True:
            frame.conds = list(facts0)
            frame.pos = 0
            CTX._known.clear()
            yield S(val).native()
            # locals
            if caller is not None:
                now = caller.f_locals
                for k, v in before.items():
                    w = now.get(k)
                    if isinstance(v, (list, dict)) and (w is not v or len(v) != lens[id(v)]):
                        raise Unsupported("loop over a symbolic range grows the container %s" % k)
                    if w is not v and isinstance(v, Ten):
                        raise Unsupported("loop over a symbolic range rebinds tensor %s" % k)
                    if w is not v and isinstance(v, (int, float, S)) and not isinstance(v, bool):
                        CTX.notes.add("loop-carried number %s havocked" % k)
            conds = [c for c in frame.conds if c not in facts0]
            res = {}
            for st, (fn0, ca0, nm) in list(info.writes.items()):
                orig[st] = (fn0, nm)
                res[st] = st._fn
                st.write(fn0)
            results.append((T.and_(*conds), res))
            info.writes.clear()
            info.reads.clear()
            if not CTX.advance(frame):
                break
        completed = True
    finally:
        CTX.loops.remove(info)
        CTX.frames.remove(frame)
        CTX.loop_depth -= 1
        CTX._known.clear()
        if not completed and sys.exc_info()[0] in (None, GeneratorExit):
            for st, (fn0, ca0, nm) in info.writes.items():
                st.write(fn0)
            raise Unsupported("break/return inside a loop over a symbolic range")
    for st, (fn0, nm) in orig.items():
        def total(idx, st=st, fn0=fn0, nm=nm):
            acc = fn0(idx)
            delta = R0
            flags = FALSE
            over = None
            for cond, res in results:
                if st not in res:
                    continue
                fnb = res[st]
                e = fnb(idx)
                h = [x for x in T.subterms([e.v, e.nan, e.inf]) if x.op == "app" and x.args[0].startswith("havoc")]
                h = set(h)
                if len(h) > 1:
                    # an element read in the iteration that writes it: the guard b = E of the write makes it this element
                    e = S(own_element(e.v, b), e.nan, e.inf)
                    h = {x for x in T.subterms([e.v, e.nan, e.inf]) if x.op == "app" and x.args[0].startswith("havoc")}
                if len(h) > 1:
                    raise Unsupported("loop update of an element depends on other elements")
                d = e.v
                if not h:
                    raise Unsupported("loop overwrites a tensor element")
                hx = next(iter(h))
                d = lift_sub(d, hx) if d.sort != "B" else None
                if d is None or hx in T.subterms([d]) or hx in T.subterms([e.nan, e.inf]):
                    # not an accumulation: an element written in at most one iteration
                    at = written_in(e.v, hx, b)
                    if at is None or hx in T.subterms([e.nan, e.inf]) or (over is not None and over[0] is not at):
                        raise Unsupported("loop update is not an accumulation: %s" % T.show(e.v, 6)[:600])
                    over = over or (at, [])
                    over[1].append((cond, e, hx))
                    continue
                delta = T.add(delta, mk_sum(((b, n),), T.ite(cond, d, R0)))
                sp = T.or_(e.nan, e.inf)
                if sp is not FALSE:
                    s, ps = selection((n,), lambda mm: T.subst(T.and_(cond, sp), {b: mm[0]}))
                    flags = T.or_(flags, T.lt(I0, s.cnt(ps)))
            if over is not None:
                if delta is not R0:
                    raise Unsupported("loop both accumulates into and overwrites a tensor")
                at, alts = over
                r = acc
                for cond, e, hx in alts:
                    m = {b: at}
                    hit = T.and_(T.le(I0, at), T.lt(at, n), T.subst(cond, m))
                    v = T.subst(T.subst(e.v, m), {T.subst(hx, m): acc.v})
                    g = T.subst(changes(e.v, hx), m)
                    on = T.and_(hit, g)
                    r = S(T.ite(hit, v, r.v), T.or_(T.and_(on, T.subst(e.nan, m)), T.and_(T.not_(on), r.nan)),
                          T.or_(T.and_(on, T.subst(e.inf, m)), T.and_(T.not_(on), r.inf)))
                return r
            r = s_add(acc, S(delta))
            return S(r.v, T.or_(r.nan, flags), r.inf)
        st.write(total)


def changes(d, h):
    """condition under which the ite tree d is not the leaf h"""
    if d is h:
        return FALSE
    if d.op == "ite":
        return T.or_(T.and_(d.args[0], changes(d.args[1], h)), T.and_(T.not_(d.args[0]), changes(d.args[2], h)))
    return TRUE


def guard_index(c, b):
    """E for a condition that requires b = E"""
    for l in (c.args if c.op == "and" else (c,)):
        if l.op == "eq0" and l.args[0].sort == "I":
            _, parts = T._lin_parts(l.args[0])
            k = parts.get(b)
            if k in (1, -1):
                e = T.scale(-k, T.sub(l.args[0], T.scale(k, b)))
                if b not in T.free_vars(e):
                    return e
    return None


def own_element(d, b):
    """under a guard b = E, elements at index b are elements at index E"""
    if d.op != "ite":
        return d
    c, x, y = d.args

    def under(t, e):
        if e is None:
            return own_element(t, b)
        return T.subst(t, {q: T.subst(q, {b: e}) for q in T.subterms([t]) if q.op == "app" and q.args[0].startswith("havoc") and b in T.free_vars(q)})
    return T.ite(c, under(x, guard_index(c, b)), under(y, guard_index(T.not_(c), b)))


def written_in(d, h, b):
    """the iteration E (free of b) in which an element with new value d is written: every branch of d other than h requires b = E"""
    found = []
    solve = lambda c: guard_index(c, b)

    def walk(d, known):
        if d is h:
            return True
        if h in T.subterms([d]) and d.op == "ite":
            c = d.args[0]
            return walk(d.args[1], solve(c) if known is None else known) and walk(d.args[2], solve(T.not_(c)) if known is None else known)
        if known is None or (found and found[0] is not known):
            return False
        found.append(known)
        return True
    return found[0] if walk(d, None) and found else None


def lift_sub(d, h):
    """d - h with the subtraction distributed into ites"""
    if d.op == "ite":
        return T.ite(d.args[0], lift_sub(d.args[1], h), lift_sub(d.args[2], h))
    return T.sub(d, h)


def npdt(dt):
    if isinstance(dt, Dt):
        return dt
    import builtins as bi
    nm = getattr(dt, "__name__", str(dt))
    if nm in ("float", "float_", "float64", "FloatShim"):
        return float64
    if nm in ("int", "int_", "int64", "IntShim"):
        return int64
    if nm in ("bool", "bool_", "BoolShim"):
        return boolean
    if nm in ("float32",):
        return float32
    if nm in ("int32",):
        return int32
    raise Unsupported("dtype %r" % (dt,))
