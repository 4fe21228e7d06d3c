"""Contracts (models) of the library functions the sources call, over symbolic tensors."""
import builtins
import collections
import copy as _copy
import itertools
import types
from fractions import Fraction
from . import terms as T
from . import tensor as X
from .terms import TRUE, FALSE, R0, R1, I0, I1, R, I
from .core import CTX, Unsupported, dimterm, dimval, mk_sum, selection
from .tensor import (Ten, S, as_scalar, coerce, ewise, float64, float32, int64, int32, int16, uint8, boolean, Dt,
                     s_add, s_sub, s_mul, s_div, s_neg, s_fn, s_not, s_and, s_or, s_lt, s_le, s_eq, s_ite, s_min,
                     s_max, s_round, s_floor, s_ceil, s_pow, s_floordiv, s_mod, npdt, full, from_nested, reshape, permute, squeeze,
                     unsqueeze, expand, cat, stack, sum_, all_, any_, amax, amin, mean_, argext, matmul, norm_, cross,
                     det, inv, solve, NAN, INF, checkdim, norm_dims, sprod, wrapdim, normdim, bcast)

float16 = X.float16
MaxRes = collections.namedtuple("max", ["values", "indices"])
MinRes = collections.namedtuple("min", ["values", "indices"])
SortRes = collections.namedtuple("sort", ["values", "indices"])


class Device(object):
    def __init__(self, name="cpu", index=None):
        if isinstance(name, Device):
            name = name.type
        if not isinstance(name, str):
            raise TypeError("device")
        self.type = name.split(":")[0]
        self.index = index
        if self.type not in ("cpu", "cuda", "mps", "meta"):
            raise RuntimeError("Expected one of cpu, cuda, ... device type at start of device string: " + name)

    def __eq__(self, o):
        return isinstance(o, Device) and o.type == self.type

    def __hash__(self):
        return hash(self.type)

    def __str__(self):
        return self.type

    __repr__ = __str__


CPU = Device("cpu")


def _dt(dt, default=None):
    return default if dt is None else npdt(dt)


def cast(t, dt):
    k = dt.kind
    if t._dtype is dt:
        return t
    return ewise(lambda a: a.to_kind(k), t, dtype=dt)


def tt(x, dtype=None, device=None, **kw):
    """torch.tensor / as_tensor (copy)"""
    dt = _dt(dtype)
    if isinstance(x, Ten):
        r = TTensor(x.reader(), x._shape, x._dtype)
        return cast(r, dt) if dt is not None else r
    r = from_nested(x, TTensor, None)
    if not isinstance(r, TTensor):
        r = TTensor(r.reader(), r._shape, r._dtype)
    if dt is not None:
        r = cast(r, dt)
    return r


def nt(x, dtype=None, copy=True, **kw):
    dt = _dt(dtype)
    if isinstance(x, NArray):
        r = NArray(x.reader(), x._shape, x._dtype)
    elif isinstance(x, Ten):
        r = NArray(x.reader(), x._shape, x._dtype)
    else:
        r = from_nested(x, NArray, None)
        if not isinstance(r, NArray):
            r = NArray(r.reader(), r._shape, r._dtype)
    return cast(r, dt) if dt is not None else r


def shape_args(args):
    if len(args) == 1 and isinstance(args[0], (tuple, list)):
        return tuple(args[0])
    if len(args) == 1 and isinstance(args[0], Ten):
        raise Unsupported("shape from tensor")
    return tuple(args)


def _mkfull(cls, default_dt=float64):
    def f(val):
        def g(*shape, dtype=None, device=None, size=None, **kw):
            shape = shape_args(shape) if shape else tuple(size)
            return full(cls, _dims(shape), val, _dt(dtype, default_dt))
        return g
    return f


def _dims(shape):
    out = []
    for d in shape:
        if isinstance(d, Ten):
            d = d.item_s()
        s = as_scalar(d)
        if s.kind != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        out.append(dimval(s.v))
    return tuple(out)


def eye(cls):
    def f(n, m=None, dtype=None, device=None, **kw):
        m = n if m is None else m
        n, m = _dims((n, m))
        return cls(lambda i: S(T.ite(T.eq(i[0], i[1]), R1, R0)), (n, m), _dt(dtype, float64))
    return f


def arange(cls):
    def f(*a, start=None, end=None, step=None, dtype=None, device=None, **kw):
        if len(a) == 1:
            st, en, sp = 0, a[0], 1
        elif len(a) == 2:
            st, en, sp = a[0], a[1], 1
        elif len(a) == 3:
            st, en, sp = a
        else:
            st, en, sp = (0 if start is None else start), end, 1
        if step is not None:
            sp = step
        if end is not None:
            en = end
        st, en, sp = as_scalar(st), as_scalar(en), as_scalar(sp)
        if st.kind == "i" and en.kind == "i" and sp.kind == "i":
            span = T.sub(en.v, st.v)
            if sp.v is not I1:
                if sp.v.op != "const" or T.cval(sp.v) <= 0:
                    raise Unsupported("arange step")
                span = T.idivmod(T.add(span, T.sub(sp.v, I1)), sp.v)[0]
            if not CTX.known(T.le(I0, span)):
                if not CTX.decide(T.le(I0, span)):
                    span = I0
            return cls(lambda i: S(T.add(st.v, T.mul(sp.v, i[0]))), (dimval(span),), _dt(dtype, int64)) if _dt(dtype, int64).kind == "i" else \
                cls(lambda i: S(T.toreal(T.add(st.v, T.mul(sp.v, i[0])))), (dimval(span),), _dt(dtype, int64))
        st, en, sp = [x.to_kind("f") for x in (st, en, sp)]
        n = T.neg(T.floor(T.neg(T.div(T.sub(en.v, st.v), sp.v))))
        if not CTX.known(T.le(I0, n)):
            n = T.maximum(n, I0)
        dt = _dt(dtype, float64)
        return cls(lambda i: S(T.add(st.v, T.mul(sp.v, T.toreal(i[0])))).to_kind(dt.kind), (dimval(n),), dt)
    return f


def linspace(cls):
    def f(start, stop=None, num=50, endpoint=True, dtype=None, device=None, steps=None, end=None, axis=0, **kw):
        if steps is not None:
            num = steps
        if end is not None:
            stop = end
        a, b = as_scalar(start).to_kind("f"), as_scalar(stop).to_kind("f")
        n = dimval(as_scalar(num).v)
        nm1 = T.sub(dimterm(n), I1) if endpoint else dimterm(n)
        dt = _dt(dtype, float64)

        def fn(i):
            if isinstance(n, int) and n == 1:
                return a.to_kind(dt.kind)
            t = T.div(T.toreal(i[0]), T.toreal(nm1))
            return s_add(a, s_mul(s_sub(b, a), S(t))).to_kind(dt.kind)
        return cls(fn, (n,), dt)
    return f


def meshgrid(*ts, indexing="ij"):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    ts = [t if isinstance(t, Ten) else nt(t) for t in ts]
    n = len(ts)
    dims = [t._shape[0] for t in ts]
    out = []
    if indexing == "xy" and n >= 2:
        order = [1, 0] + list(range(2, n))
    else:
        order = list(range(n))
    shape = tuple(dims[o] for o in order)
    for q, t in enumerate(ts):
        rd = t.reader()
        pos = order.index(q)
        out.append(type(t)(lambda i, rd=rd, pos=pos: rd((i[pos],)), shape, t._dtype))
    return out


def meshgrid_np(*ts, indexing="xy", **kw):
    return meshgrid(*[nt(t) for t in ts], indexing=indexing)


def promote_pair(a, b):
    return a, b


def lift1(name, f):
    def g(x, *a, out=None, **kw):
        if isinstance(x, Ten):
            return ewise(f, x)
        c = coerce(x)
        if c is not None:
            return f(c).native()
        x = nt(x)
        return ewise(f, x)
    g.__name__ = name
    return g


def lift2(name, f):
    def g(a, b, *r, out=None, **kw):
        if isinstance(a, Ten) or isinstance(b, Ten):
            return ewise(f, _t(a), _t(b))
        ca, cb = coerce(a), coerce(b)
        if ca is not None and cb is not None:
            return f(ca, cb).native()
        return ewise(f, nt(a), nt(b))
    g.__name__ = name
    return g


def _t(x):
    if isinstance(x, (list, tuple)):
        return nt(x)
    return x


def f_isnan(a):
    return S(a.nan)


def f_isinf(a):
    return S(T.and_(a.inf, T.not_(a.nan)))


def f_isfinite(a):
    return S(a.fin())


def f_not(a):
    return S(T.not_(a.to_kind("b").v))


def f_and(a, b):
    return S(T.and_(a.to_kind("b").v, b.to_kind("b").v))


def f_or(a, b):
    return S(T.or_(a.to_kind("b").v, b.to_kind("b").v))


def f_xor(a, b):
    return S(T.not_(T.eq(a.to_kind("b").v, b.to_kind("b").v)))


def f_sign(a):
    z = R0 if a.kind == "f" else I0
    o = R1 if a.kind == "f" else I1
    return S(T.ite(T.lt(a.v, z), T.neg(o), T.ite(T.eq(a.v, z), z, o)), a.nan)


def f_deg(a):
    return s_mul(a, S(T.div(R(180), T.PI)))


def f_rad(a):
    return s_mul(a, S(T.div(T.PI, R(180))))


def f_atan2(y, x):
    raise Unsupported("atan2")


def f_j1(x):
    x = x.to_kind("f")
    return S(T.app("bessel_j1", (x.v,), "R"), x.nan)


UNARY = {
    "sin": lambda a: s_fn("sin", a), "cos": lambda a: s_fn("cos", a), "tan": lambda a: s_fn("tan", a),
    "sqrt": lambda a: s_fn("sqrt", a), "exp": lambda a: s_fn("exp", a), "log": lambda a: s_fn("log", a),
    "abs": lambda a: s_fn("abs", a), "absolute": lambda a: s_fn("abs", a),
    "arccos": lambda a: s_fn("acos", a), "acos": lambda a: s_fn("acos", a),
    "arcsin": lambda a: s_fn("asin", a), "asin": lambda a: s_fn("asin", a),
    "arctan": lambda a: s_fn("atan", a), "atan": lambda a: s_fn("atan", a),
    "floor": s_floor, "ceil": s_ceil, "round": s_round, "neg": s_neg, "negative": s_neg, "rint": s_round,
    "isnan": f_isnan, "isinf": f_isinf, "isfinite": f_isfinite, "logical_not": f_not, "sign": f_sign,
    "rad2deg": f_deg, "deg2rad": f_rad, "degrees": f_deg, "radians": f_rad,
    "square": lambda a: s_mul(a, a), "rsqrt": lambda a: s_div(S(R1), s_fn("sqrt", a)),
    "reciprocal": lambda a: s_div(S(R1), a), "bitwise_not": f_not, "trunc": lambda a: S(T.toreal(T.trunc(a.v)), a.nan, a.inf),
}
BINARY = {
    "add": s_add, "subtract": s_sub, "sub": s_sub, "multiply": s_mul, "mul": s_mul, "divide": s_div, "div": s_div,
    "true_divide": s_div, "floor_divide": s_floordiv, "remainder": s_mod, "pow": s_pow, "power": s_pow,
    "maximum": s_max, "minimum": s_min, "logical_and": f_and, "logical_or": f_or, "logical_xor": f_xor,
    "lt": s_lt, "le": s_le, "gt": lambda a, b: s_lt(b, a), "ge": lambda a, b: s_le(b, a), "eq": s_eq,
    "ne": lambda a, b: s_not(s_eq(a, b)), "less": s_lt, "greater": lambda a, b: s_lt(b, a), "arctan2": f_atan2,
    "less_equal": s_le, "greater_equal": lambda a, b: s_le(b, a), "bitwise_and": f_and, "bitwise_or": f_or,
    "hypot": lambda a, b: s_fn("sqrt", s_add(s_mul(a, a), s_mul(b, b))),
}


def _axis(kw, a, default=None):
    for k in ("dim", "axis"):
        if k in kw:
            return kw.pop(k)
    return a[0] if a else default


def _keep(kw, a):
    for k in ("keepdim", "keepdims"):
        if k in kw:
            return bool(kw.pop(k))
    return bool(a[1]) if len(a) > 1 else False


def reducer(f):
    def g(x, *a, **kw):
        d = _axis(kw, a)
        k = _keep(kw, a)
        if not isinstance(x, Ten):
            x = nt(x)
        dt = kw.get("dtype")
        r = f(x, d, k)
        if dt is not None:
            r = cast(r, npdt(dt))
        if x.lib == "np" and not r._shape:
            return X.scalarize(r)
        return r
    return g


def ext(which):
    red = amax if which == "max" else amin
    Res = MaxRes if which == "max" else MinRes
    pair = s_max if which == "max" else s_min

    def g(x, *a, **kw):
        if a and isinstance(a[0], Ten) or "other" in kw:
            return ewise(pair, x, a[0] if a else kw["other"])
        d = _axis(kw, a)
        k = _keep(kw, a)
        if not isinstance(x, Ten):
            x = nt(x)
        for q in norm_dims(x, d):
            n = x._shape[q]
            if isinstance(n, int):
                if n == 0:
                    raise (RuntimeError if x.lib == "torch" else ValueError)("zero-size array to reduction operation")
            else:
                if CTX.decide(T.eq(n, I0)):
                    raise (RuntimeError if x.lib == "torch" else ValueError)("zero-size array to reduction operation")
        r = red(x, d, k)
        if x.lib == "np":
            return X.scalarize(r) if not r._shape else r
        if d is None:
            return r
        return Res(r, _LazyArg(x, d, which, k))
    return g


class _LazyArg(object):
    """indices part of torch.max(dim=..), computed only when used"""

    def __init__(self, x, d, which, k):
        self.a = (x, d, which, k)

    def _get(self):
        x, d, which, k = self.a
        r = argext(x, d, which)
        return unsqueeze(r, d) if k else r

    def __getattr__(self, n):
        return getattr(self._get(), n)

    def __getitem__(self, k):
        return self._get()[k]


def arg_(which):
    def g(x, *a, **kw):
        d = _axis(kw, a)
        k = _keep(kw, a)
        if not isinstance(x, Ten):
            x = nt(x)
        r = argext(x, d, which)
        if k:
            r = unsqueeze(r, d)
        if x.lib == "np" and not r._shape:
            return X.scalarize(r)
        return r
    return g


def where(c, *a):
    if not isinstance(c, Ten):
        cc = coerce(c)
        if cc is not None and not a:
            raise Unsupported("where on a scalar")
        if cc is not None:
            if any(isinstance(z, Ten) for z in a):
                c = full(type([z for z in a if isinstance(z, Ten)][0]), (), cc, boolean)
            else:
                return s_ite(cc.to_kind("b"), as_scalar(a[0]), as_scalar(a[1])).native()
        else:
            c = nt(c)
    if not a:
        return nonzero(c, as_tuple=True)
    x, y = [_t(z) for z in a]
    f = lambda c_, a_, b_: s_ite(c_.to_kind("b"), a_, b_)
    dts = [z._dtype for z in (x, y) if isinstance(z, Ten)]
    dt = None
    sc = [as_scalar(z) for z in (x, y) if not isinstance(z, Ten)]
    if dts:
        dt = dts[0]
        for q in dts[1:]:
            dt = X.promote(dt, q)
        for s in sc:
            if s.kind == "f" and dt.kind != "f":
                dt = float64
            if s.kind == "i" and dt.kind == "b":
                dt = int64
    else:
        dt = float64 if any(s.kind == "f" for s in sc) else (int64 if any(s.kind == "i" for s in sc) else boolean)
    k = dt.kind
    return ewise(lambda c_, a_, b_: f(c_, a_, b_).to_kind(k), c, x, y, dtype=dt)


def nonzero(c, as_tuple=False):
    b = cast(c, boolean)
    if not b._shape:
        raise Unsupported("nonzero of 0-d")
    pos = X.mask_positions(b)
    cls = type(c)
    if c.lib == "np":
        as_tuple = True
    ts = tuple(cls(rd, shape, int64) for shape, rd in pos)
    if as_tuple:
        return ts
    return stack(ts, 1)


def argwhere(c):
    b = cast(c if isinstance(c, Ten) else nt(c), boolean)
    return stack([type(b)(rd, shape, int64) for shape, rd in X.mask_positions(b)], 1)


def clamp(x, min=None, max=None, **kw):
    r = x
    sc = not isinstance(x, Ten)
    if sc:
        r = as_scalar(x)
        if min is not None:
            r = s_max(r, as_scalar(min))
        if max is not None:
            r = s_min(r, as_scalar(max))
        return r.native()
    if min is not None:
        r = ewise(s_max, r, min)
    if max is not None:
        r = ewise(s_min, r, max)
    return r


def einsum(eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = tuple(ops[0])
    ops = [o if isinstance(o, Ten) else nt(o) for o in ops]
    eq = eq.replace(" ", "")
    if "->" in eq:
        lhs, out = eq.split("->")
    else:
        lhs = eq
        cnt = collections.Counter(lhs.replace(",", "").replace(".", ""))
        out = "".join(sorted(k for k in cnt if cnt[k] == 1))
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise RuntimeError("einsum(): operands do not match the equation")
    nell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            nell = max(nell, len(o._shape) - (len(s) - 3))
    ell = [chr(0x3b1 + q) for q in range(nell)]
    new = []
    for s, o in zip(ins, ops):
        if "..." in s:
            k = len(o._shape) - (len(s) - 3)
            s = s.replace("...", "".join(ell[nell - k:]))
        if len(s) != len(o._shape):
            raise RuntimeError("einsum(): the number of subscripts in the equation does not match the number of dimensions")
        new.append(s)
    out = out.replace("...", "".join(ell))
    dims = {}
    for s, o in zip(new, ops):
        for ch, d in zip(s, o._shape):
            if ch not in dims or (isinstance(dims[ch], int) and dims[ch] == 1):
                dims[ch] = d
            elif not (isinstance(d, int) and d == 1 and not (isinstance(dims[ch], int) and dims[ch] == 1)):
                if not X.same_dim(dims[ch], d):
                    raise RuntimeError("einsum(): subscript %s has size mismatch" % ch)
    con = [ch for ch in dims if ch not in out]
    rds = [o.reader() for o in ops]
    cc = [ch for ch in con if isinstance(dims[ch], int)]
    sc = [ch for ch in con if not isinstance(dims[ch], int)]

    def fn(idx):
        env0 = dict(zip(out, idx))

        def prod(env):
            r = None
            for s, o, rd in zip(new, ops, rds):
                v = rd(tuple(I0 if (isinstance(d, int) and d == 1) else env[ch] for ch, d in zip(s, o._shape)))
                r = v if r is None else s_mul(r, v)
            return r

        def inner(si):
            tot = None
            for combo in itertools.product(*[range(dims[ch]) for ch in cc]):
                env = dict(env0)
                env.update({ch: I(i) for ch, i in zip(cc, combo)})
                env.update(zip(sc, si))
                v = prod(env)
                tot = v if tot is None else s_add(tot, v)
            return tot if tot is not None else S(R0)
        if sc:
            return X.sym_sum([dims[ch] for ch in sc], inner)
        return inner(())
    dt = ops[0]._dtype
    for o in ops[1:]:
        dt = X.promote(dt, o._dtype)
    cls = type(ops[0])
    r = cls(fn, tuple(dims[ch] for ch in out), dt)
    return X.scalarize(r) if (cls.lib == "np" and not r._shape) else r


def dot_np(a, b, **kw):
    a = a if isinstance(a, Ten) else (nt(a) if coerce(a) is None else a)
    b = b if isinstance(b, Ten) else (nt(b) if coerce(b) is None else b)
    if not isinstance(a, Ten) or not isinstance(b, Ten) or not a._shape or not b._shape:
        return a * b
    if len(b._shape) <= 2 and len(a._shape) <= 2:
        r = matmul(a, b)
    else:
        raise Unsupported("np.dot with more than two dimensions")
    return X.scalarize(r) if not r._shape else r


def dot_torch(a, b):
    if len(a._shape) != 1 or len(b._shape) != 1:
        raise RuntimeError("1D tensors expected, but got %dD and %dD tensors" % (len(a._shape), len(b._shape)))
    return matmul(a, b)


def transpose_t(t, d0, d1):
    n = len(t._shape)
    d0, d1 = checkdim(d0, n), checkdim(d1, n)
    p = list(range(n))
    p[d0], p[d1] = p[d1], p[d0]
    return permute(t, p)


def transpose_n(t, axes=None):
    t = t if isinstance(t, Ten) else nt(t)
    n = len(t._shape)
    return permute(t, list(axes) if axes is not None else list(range(n))[::-1])


def tile(t, reps):
    t = t if isinstance(t, Ten) else nt(t)
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    reps = list(_dims(reps))
    n = max(len(reps), len(t._shape))
    reps = [1] * (n - len(reps)) + reps
    sh = (1,) * (n - len(t._shape)) + t._shape
    rd = t.reader()
    k = n - len(t._shape)
    shape = tuple(dimval(T.mul(dimterm(a), dimterm(b))) for a, b in zip(sh, reps))

    def fn(idx):
        out = []
        for q in range(n):
            if isinstance(reps[q], int) and reps[q] == 1:
                out.append(idx[q])
            elif isinstance(sh[q], int) and sh[q] == 1:
                out.append(I0)
            else:
                out.append(T.idivmod(idx[q], dimterm(sh[q]))[1])
        return rd(tuple(out[k:]))
    return t.new(fn, shape)


def repeat_interleave(t, reps, dim=None, output_size=None):
    if isinstance(reps, Ten) and reps._shape and not all(isinstance(d, int) and d == 1 for d in reps._shape):
        raise Unsupported("repeat_interleave with per-element counts")
    r = reps.item_s() if isinstance(reps, Ten) else as_scalar(reps)
    if dim is None:
        t = reshape(t, (-1,))
        dim = 0
    dim = checkdim(dim, len(t._shape))
    rd = t.reader()
    shape = t._shape[:dim] + (dimval(T.mul(dimterm(t._shape[dim]), r.v)),) + t._shape[dim + 1:]
    return t.new(lambda i: rd(i[:dim] + (T.idivmod(i[dim], r.v)[0],) + i[dim + 1:]), shape)


def flip(t, dims, *more):
    dims = [dims] if isinstance(dims, int) else list(dims)
    dims += list(more)
    n = len(t._shape)
    dims = [checkdim(d, n) for d in dims]
    rd = t.reader()
    return t.new(lambda i: rd(tuple(T.sub(T.sub(dimterm(t._shape[q]), I1), x) if q in dims else x for q, x in enumerate(i))), t._shape)


def cumsum(t, *a, **kw):
    d = checkdim(_axis(kw, a, 0), len(t._shape))
    n = t._shape[d]
    rd = t.reader()

    def fn(idx):
        i = idx[d]
        if isinstance(n, int) and i.op == "const":
            r = None
            for q in range(T.cval(i) + 1):
                v = rd(idx[:d] + (I(q),) + idx[d + 1:])
                r = v if r is None else s_add(r, v)
            return r
        if isinstance(n, int) and n <= 16:
            r = None
            for q in range(n):
                v = rd(idx[:d] + (I(q),) + idx[d + 1:])
                v = s_ite(T.le(I(q), i), v, S(R0 if v.kind == "f" else I0))
                r = v if r is None else s_add(r, v)
            return r
        def term(m):
            v = rd(idx[:d] + (m,) + idx[d + 1:])
            if v.special():
                raise Unsupported("cumsum of values that may be infinite")
            return T.ite(T.le(m, i), T.toreal(v.v), R0)
        if rd(idx).kind != "f":
            raise Unsupported("cumsum of integers over a symbolic dimension")
        m = CTX.fresh("$t", "I")
        T.BOUNDS[m] = dimterm(n)
        return S(mk_sum(((m, dimterm(n)),), term(m)))
    return t.new(fn, t._shape)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a = a if isinstance(a, Ten) else nt(a)
    b = b if isinstance(b, Ten) else nt(b)
    def f(x, y):
        return s_le(s_fn("abs", s_sub(x, y)), s_add(S(R(atol)), s_mul(S(R(rtol)), s_fn("abs", y))))
    return bool(all_(ewise(f, a, b, dtype=boolean)).item_s())


_UNIQ = [0]


def argsort(x, dim=-1, descending=False, stable=False):
    if len(x._shape) != 1:
        raise Unsupported("argsort of a matrix")
    n = x._shape[0]
    if isinstance(n, int) and n <= 1:
        return x.new(lambda i: S(I0), (n,), int64)
    k = len(CTX.templates)
    nm = "perm%d" % k
    dn = dimterm(n)
    CTX.templates[("perm", k)] = dn
    rd = x.reader()

    def fact(i):
        p = T.app(nm, (i,), "I")
        return T.implies(T.and_(T.le(I0, i), T.lt(i, dn)), T.and_(T.le(I0, p), T.lt(p, dn), T.eq(T.app("permi%d" % k, (p,), "I"), i)))

    def ifact(j):
        p = T.app("permi%d" % k, (j,), "I")
        return T.implies(T.and_(T.le(I0, j), T.lt(j, dn)), T.and_(T.le(I0, p), T.lt(p, dn), T.eq(T.app(nm, (p,), "I"), j)))
    CTX.trigger(nm, fact)
    CTX.trigger("permi%d" % k, ifact)
    CTX.events.append(("argsort", nm, x))
    return x.new(lambda i: S(T.app(nm, (i[0],), "I")), (n,), int64)


def sort(x, dim=-1, descending=False, **kw):
    p = argsort(x, dim, descending)
    return SortRes(x[p], p)


def unique(x, return_inverse=False, return_counts=False, dim=None, sorted=True, **kw):
    if return_inverse or return_counts or dim not in (None, 0) or (dim == 0 and len(x._shape) > 1):
        raise Unsupported("unique extras")
    if len(x._shape) > 1:
        x = reshape(x, (-1,))
    if isinstance(x._shape[0], int):
        rd = x.reader()
        vals = [rd((I(i),)) for i in range(x._shape[0])]
        if all(v.v.op == "const" and not v.special() for v in vals):
            u = builtins.sorted({T.cval(v.v) for v in vals})
            return tt([int(q) if x._dtype.kind == "i" else float(q) for q in u]) if u else x
    raise Unsupported("unique on symbolic data")


def unique_rows(x):
    """np.unique of the entries (rows) of x: every row of the result is a row of x and every row of x is among them.
    That the result is sorted and without repetition is not used"""
    n = x._shape[0]
    rd = x.reader()
    i0 = T.var("$un.i", "I")
    T.BOUNDS[i0] = dimterm(n)
    cols = list(itertools.product(*[range(d) for d in x._shape[1:]]))
    row = [rd((i0,) + tuple(I(q) for q in cq)) for cq in cols]
    if any(a.special() for a in row):
        raise Unsupported("unique of values that may be NaN")
    if any(v.args[0].startswith("$") and v is not i0 for a in row for v in T.free_vars(a.v)):
        raise Unsupported("unique in a loop")
    key = ("unique", tuple(a.v for a in row), dimterm(n))
    if key not in CTX.templates:
        k = len(CTX.templates)
        U = CTX.fresh("nunique", "I")
        src, dst = "usrc%d" % k, "udst%d" % k
        CTX.templates[key] = (U, src, dst)
        CTX.trigger(src, lambda j: T.implies(T.and_(T.le(I0, j), T.lt(j, U)), T.and_(T.le(I0, T.app(src, (j,), "I")), T.lt(T.app(src, (j,), "I"), dimterm(n)))))
        at = lambda i: [T.subst(a.v, {i0: i}) for a in row]

        def kept(i):
            r = T.app(dst, (i,), "I")
            s = T.app(src, (r,), "I")
            return T.implies(T.and_(T.le(I0, i), T.lt(i, dimterm(n))), T.and_(T.le(I0, r), T.lt(r, U), *[T.eq(a, b) for a, b in zip(at(s), at(i))]))
        CTX.trigger(dst, kept)
        seen = set()
        for t in T.subterms([a.v for a in row]):
            if t.op == "app" and t.args[0] not in seen and t.args[0] not in ("toreal", "floor"):
                for pos, q in enumerate(t.args[1:]):
                    if q is i0:
                        seen.add(t.args[0])

                        def fact(*args, pos=pos):
                            if len(args) <= pos:
                                return TRUE
                            i = args[pos]
                            if i.op == "app" and i.args[0] == src:
                                return TRUE
                            return kept(i)
                        CTX.trigger(t.args[0], fact)
                        break
    U, src, dst = CTX.templates[key]
    CTX.assume(T.and_(T.le(I0, U), T.le(U, dimterm(n)), T.implies(T.lt(I0, dimterm(n)), T.lt(I0, U))))
    CTX.notes.add("np.unique: the rows of the result are the rows of the argument (order and repetition not used)")
    return x.new(lambda idx: rd((T.app(src, (idx[0],), "I"),) + tuple(idx[1:])), (X.dimval(U),) + tuple(x._shape[1:]), x._dtype)


def unique_np(x, return_inverse=False, return_counts=False, axis=None, return_index=False):
    x = x if isinstance(x, Ten) else nt(x)
    if axis not in (None, 0):
        raise Unsupported("unique along an axis")
    if axis is None:
        x = reshape(x, (-1,))
    if not (return_inverse or return_counts or return_index) and (not isinstance(x._shape[0], int) or len(x._shape) > 1):
        return unique_rows(x)
    n = x._shape[0]
    if isinstance(n, int):
        rd = x.reader()
        vals = [rd((I(i),)) for i in range(n)]
        if all(v.v.op == "const" for v in vals):
            u = builtins.sorted({T.cval(v.v) for v in vals})
            r = nt([int(q) if x._dtype.kind == "i" else float(q) for q in u]) if u else x
            if return_inverse or return_counts or return_index:
                raise Unsupported("unique extras")
            return r
    raise Unsupported("unique on symbolic data")


def bucketize(x, bounds, right=False, **kw):
    if not isinstance(x, Ten):
        x = tt(x)
    if len(bounds._shape) != 1:
        raise Unsupported("bucketize")
    m = bounds._shape[0]
    rb = bounds.reader()
    dm = dimterm(m)

    def cmp(b, v):
        return s_le(b, v).v if right else s_lt(b, v).v

    j0 = T.var("$bk", "I")
    b0 = rb((j0,))
    name = None
    if not b0.special() and not any(z.args[0].startswith("$") and z is not j0 for z in T.free_vars(b0.v)):
        j = CTX.fresh("$k", "I")
        nxt = lambda i: T.subst(b0.v, {j0: i})
        CTX.oblige("bucketize.sorted boundaries", T.implies(T.and_(T.le(I0, j), T.lt(T.add(j, I1), dm)), T.le(nxt(j), nxt(T.add(j, I1)))), kind="precondition")
        bv = b0.to_kind("f").v
        key = ("bkt", bv, dm, bool(right))
        name = CTX.buckets.get(key)
        if name is None:
            name = CTX.buckets[key] = "bkt%d" % len(CTX.buckets)

            def fact(v, *a, name=name):
                r = T.app(name, (v,), "I")
                at = lambda i: T.subst(bv, {j0: i})
                below = (lambda p: T.le(p, v)) if right else (lambda p: T.lt(p, v))
                lo = T.sub(r, I1)
                return T.and_(T.le(I0, r), T.le(r, dm), T.or_(T.le(r, I0), below(at(lo))), T.or_(T.le(dm, r), T.not_(below(at(r)))))
            CTX.trigger(name, fact)

    def f(v):
        v = v.to_kind("f")
        if name is not None and not v.special():
            return S(T.app(name, (v.v,), "I"))
        s, ps = selection((m,), lambda j: cmp(rb((j[0],)), v))
        # sorted boundaries: the number of boundaries below v is the first index not below
        return S(s.cnt(ps))
    r = ewise(f, x, dtype=int64)
    CTX.notes.add("bucketize(v) = r with boundary[r-1] < v <= boundary[r] for sorted boundaries (sortedness is an obligation)")
    return r


def cholesky(a, upper=False):
    n = X._sq(a)
    rd = a.reader()
    batch = a._shape[:-2]

    def minors(iv):
        m = X._mat3(rd, iv, n)
        # torch reads the lower triangle only
        m = [[m[r][c] if c <= r else m[c][r] for c in range(n)] for r in range(n)]
        return [X.det_terms([row[:k] for row in m[:k]]) for k in range(1, n + 1)]
    s, ps = selection(batch, lambda iv: T.not_(T.and_(*[T.lt(R0, d.v) for d in minors(iv)]))) if batch else (None, None)
    bad = T.lt(I0, s.cnt(ps)) if batch else T.not_(T.and_(*[T.lt(R0, d.v) for d in minors(())]))
    if CTX.decide(bad):
        raise LinAlgError("linalg.cholesky: the input is not positive-definite.")

    def L(iv):
        m = X._mat3(rd, iv, n)
        l = [[S(R0)] * n for _ in range(n)]
        if n == 3:
            # closed form over the leading minors (positive on this path)
            nan = T.or_(*[m[r][c].nan for r in range(3) for c in range(r + 1)])
            m = [[m[r][c] if c <= r else m[c][r] for c in range(3)] for r in range(3)]
            s1, s2, s3 = [T.fn("sqrt", X.det_terms([row[:k] for row in m[:k]]).v) for k in (1, 2, 3)]
            a = [[m[r][c].v for c in range(3)] for r in range(3)]
            l[0][0] = s1
            l[1][0], l[2][0] = T.div(a[1][0], s1), T.div(a[2][0], s1)
            l[1][1] = T.div(s2, s1)
            l[2][1] = T.div(T.sub(T.mul(a[2][1], a[0][0]), T.mul(a[2][0], a[1][0])), T.mul(s1, s2))
            l[2][2] = T.div(s3, s2)
            return [[S(l[r][c], nan) if c <= r else S(R0) for c in range(3)] for r in range(3)]
        for i in range(n):
            for j in range(i + 1):
                sm = m[i][j]
                for q in range(j):
                    sm = s_sub(sm, s_mul(l[i][q], l[j][q]))
                if i == j:
                    l[i][j] = S(T.fn("sqrt", sm.v), sm.nan)
                else:
                    l[i][j] = S(T.div(sm.v, l[j][j].v), T.or_(sm.nan, l[j][j].nan))
        return l
    memo = {}

    def fn(idx):
        iv, i, j = idx[:-2], idx[-2], idx[-1]
        if upper:
            i, j = j, i
        l = memo.get(iv)
        if l is None:
            l = memo[iv] = L(iv)
        if i.op == "const" and j.op == "const":
            return l[T.cval(i)][T.cval(j)]
        r = S(R0)
        for p in range(n):
            for q in range(n):
                r = s_ite(T.and_(T.eq(i, I(p)), T.eq(j, I(q))), l[p][q], r)
        return r
    return a.new(fn, a._shape)


def eigvalsh(a, *k, **kw):
    """smallest eigenvalue positive <=> all leading minors positive: kept opaque but for that fact"""
    n = X._sq(a)
    rd = a.reader()
    batch = a._shape[:-2]

    def fn(idx):
        iv, i = idx[:-1], idx[-1]
        m = X._mat3(rd, iv, n)
        m = [[m[r][c] if c <= r else m[c][r] for c in range(n)] for r in range(n)]
        es = tuple(m[r][c].v for r in range(n) for c in range(r + 1))
        nan = T.or_(*[m[r][c].nan for r in range(n) for c in range(r + 1)])
        return S(T.app("eigvalsh%d" % n, es + (i,), "R"), nan)

    def fact(*args):
        es, i = args[:-1], args[-1]
        sym = [[None] * n for _ in range(n)]
        q = 0
        for r in range(n):
            for c in range(r + 1):
                sym[r][c] = sym[c][r] = S(es[q])
                q += 1
        pd = T.and_(*[T.lt(R0, X.det_terms([row[:k] for row in sym[:k]]).v) for k in range(1, n + 1)])
        lam = [T.app("eigvalsh%d" % n, tuple(es) + (I(k),), "R") for k in range(n)]
        out = [T.le(lam[k], lam[k + 1]) for k in range(n - 1)]
        ap = T.lt(R0, lam[0])
        out += [T.implies(pd, ap), T.implies(ap, pd)]
        return T.and_(*out)
    if not CTX.triggers.get("eigvalsh%d" % n):
        CTX.trigger("eigvalsh%d" % n, fact)
    return a.new(fn, a._shape[:-1])


class LinAlgError(RuntimeError):
    pass


class NpLinAlgError(ValueError):
    pass


def norm(x, *a, ord=None, dim=None, axis=None, keepdim=False, keepdims=False, p=None, **kw):
    x = x if isinstance(x, Ten) else nt(x)
    if a:
        # torch.linalg.norm(A, ord, dim) / np.linalg.norm(x, ord, axis)
        o = a[0]
        if o not in (None, 2, "fro") and not (isinstance(o, int) and o == 2):
            raise Unsupported("norm order")
        if len(a) > 1:
            dim = a[1]
    if ord not in (None, 2, "fro") or p not in (None, 2, "fro"):
        raise Unsupported("norm order")
    d = dim if dim is not None else axis
    if x._dtype.kind != "f":
        if x.lib == "torch":
            raise RuntimeError("linalg.vector_norm: Expected a floating point or complex tensor as input")
        x = cast(x, float64)
    r = norm_(x, d, keepdim or keepdims)
    return X.scalarize(r) if (x.lib == "np" and not r._shape) else r


def cross_(a, b, *r, dim=None, axis=None, axisa=-1, axisb=-1, axisc=-1):
    if r:
        dim = r[0]
    d = dim if dim is not None else axis
    if d is None:
        d = -1
    a = a if isinstance(a, Ten) else nt(a)
    b = b if isinstance(b, Ten) else nt(b)
    return cross(a, b, d)


class _NoGrad(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


# ---------------------------------------------------------------- tensor classes
class TTensor(Ten):
    lib = "torch"

    def __init__(self, fn, shape, dtype=float64, store=None, view=None):
        Ten.__init__(self, fn, shape, dtype, store, view)

    device = CPU
    is_cuda = False
    requires_grad = False

    @property
    def T(self):
        return permute(self, list(range(len(self._shape)))[::-1])

    @property
    def mT(self):
        return transpose_t(self, -1, -2)

    def to(self, *a, dtype=None, device=None, **kw):
        r = self
        for x in a:
            if isinstance(x, (Dt, type)):
                dtype = x
            elif isinstance(x, Ten):
                dtype = x._dtype
        if dtype is not None:
            r = cast(r, npdt(dtype))
        return r

    type = to

    def cpu(self):
        return self

    def cuda(self, *a):
        raise Unsupported("cuda")

    def detach(self):
        return self

    def contiguous(self):
        return self

    def numpy(self, force=False):
        # shares storage
        return NArray(None, self._shape, self._dtype, store=self.store, view=self._view or ((lambda i: i), (lambda s: (TRUE, s))))

    def __array__(self, *a, **k):
        raise Unsupported("native numpy conversion")

    def clone(self, **kw):
        return self.clone_()

    def item(self):
        return self.item_s().native()

    def dim(self):
        return len(self._shape)

    ndimension = dim

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def numel(self):
        return wrapdim(sprod(self._shape))

    nelement = numel

    def float(self):
        return cast(self, float32)

    def double(self):
        return cast(self, float64)

    def long(self):
        return cast(self, int64)

    def int(self):
        return cast(self, int32)

    def bool(self):
        return cast(self, boolean)

    def element_size(self):
        return 8

    def reshape(self, *s):
        return reshape(self, shape_args(s))

    view = reshape

    def flatten(self, start_dim=0, end_dim=-1):
        n = len(self._shape)
        a, b = checkdim(start_dim, n), checkdim(end_dim, n)
        return reshape(self, self._shape[:a] + (sprod(self._shape[a:b + 1]),) + self._shape[b + 1:])

    def ravel(self):
        return reshape(self, (-1,))

    def squeeze(self, dim=None):
        return squeeze(self, dim)

    def unsqueeze(self, dim):
        return unsqueeze(self, dim)

    def permute(self, *p):
        return permute(self, shape_args(p))

    def transpose(self, a, b):
        return transpose_t(self, a, b)

    def t(self):
        return permute(self, list(range(len(self._shape)))[::-1])

    def repeat(self, *r):
        r = shape_args(r)
        if len(r) < len(self._shape):
            raise RuntimeError("Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor")
        return tile(self, r)

    def expand(self, *s):
        return expand(self, shape_args(s))

    def expand_as(self, o):
        return expand(self, o._shape)

    def view_as(self, o):
        return reshape(self, o._shape)

    def tolist(self):
        return _tolist(self)

    def index_put_(self, indices, values, accumulate=False):
        adv = []
        ax = 0
        for k in indices:
            if k._dtype.kind == "b":
                raise Unsupported("index_put_ with masks")
            adv.append((k, [ax]))
            ax += 1
        v = values if isinstance(values, Ten) else full(TTensor, (), values)
        X.scatter(self, adv, v, s_add if accumulate else None)
        return self

    def index_add_(self, dim, index, source, alpha=1):
        dim = checkdim(dim, len(self._shape))
        if dim != 0:
            raise Unsupported("index_add_ on inner dimension")
        X.scatter(self, [(index, [0])], source * alpha if alpha != 1 else source, s_add)
        return self

    def scatter_add_(self, dim, index, src):
        if len(self._shape) != 1:
            raise Unsupported("scatter_add_")
        X.scatter(self, [(index, [0])], src, s_add)
        return self

    def fill_(self, v):
        c = as_scalar(v)
        self.write(lambda i, o: c)
        return self

    def zero_(self):
        return self.fill_(0.0)

    def copy_(self, o):
        self.assign_all(o if isinstance(o, Ten) else full(TTensor, (), o))
        return self

    def masked_fill(self, m, v):
        return where(m, v, self)

    def index_select(self, dim, index):
        return self[(slice(None),) * checkdim(dim, len(self._shape)) + (index,)]

    def norm(self, *a, **kw):
        return norm(self, *a, **kw)

    def mul_(self, o):
        return self._inplace(s_mul, o)

    def add_(self, o):
        return self._inplace(s_add, o)

    def sub_(self, o):
        return self._inplace(s_sub, o)

    def div_(self, o):
        return self._inplace(s_div, o)

    def new_zeros(self, *s, **kw):
        return full(TTensor, _dims(shape_args(s)), 0.0, self._dtype)

    def nonzero(self, as_tuple=False):
        return nonzero(self, as_tuple)

    def unique(self, *a, **k):
        return unique(self, *a, **k)

    def matmul(self, o):
        return matmul(self, o)

    mm = bmm = matmul

    def dot(self, o):
        return dot_torch(self, o)

    def argsort(self, *a, **k):
        return argsort(self, *a, **k)

    def cumsum(self, *a, **k):
        return cumsum(self, *a, **k)

    def clamp(self, min=None, max=None):
        return clamp(self, min, max)

    def is_floating_point(self):
        return self._dtype.kind == "f"

    def get_device(self):
        return -1

    def cross(self, o, dim=-1):
        return cross(self, o, dim)

    def inverse(self):
        return inv(self)

    def flip(self, *d):
        return flip(self, shape_args(d))

    def narrow(self, dim, start, length):
        key = [slice(None)] * len(self._shape)
        key[dim] = slice(start, start + length)
        return self[tuple(key)]

    def where(self, c, o):
        return where(c, self, o)

    def __contains__(self, x):
        return bool(any_(self == x).item_s())


def _tolist(t):
    if not t._shape:
        return t.item_s().native()
    n = t._shape[0]
    if not isinstance(n, int):
        raise Unsupported("tolist of a symbolic dimension")
    return [_tolist(X.getitem_view(t, i) if t.lib == "np" else t[i]) for i in range(n)]


class NArray(Ten):
    lib = "np"

    @property
    def T(self):
        return permute(self, list(range(len(self._shape)))[::-1])

    @property
    def size(self):
        return wrapdim(sprod(self._shape))

    @property
    def flat(self):
        return iter(reshape(self, (-1,)))

    def astype(self, dt, copy=True):
        r = cast(self, npdt(dt))
        return r.clone_() if r is self else r

    def copy(self, order=None):
        return self.clone_()

    def item(self, *a):
        return self.item_s().native()

    def reshape(self, *s, order=None):
        return reshape(self, shape_args(s))

    def flatten(self, order=None):
        return reshape(self, (-1,)).clone_()

    def ravel(self, order=None):
        return reshape(self, (-1,))

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def transpose(self, *p):
        return permute(self, shape_args(p)) if p else self.T

    def tolist(self):
        return _tolist(self)

    def dot(self, o):
        return dot_np(self, o)

    def fill(self, v):
        c = as_scalar(v)
        self.write(lambda i, o: c)

    def nonzero(self):
        return nonzero(self, True)

    def cumsum(self, *a, **k):
        return cumsum(self, *a, **k)

    def clip(self, min=None, max=None):
        return clamp(self, min, max)

    def setflags(self, **kw):
        pass

    def __contains__(self, x):
        return bool(any_(self == x).item_s())

    def __len__(self):
        return Ten.__len__(self)


def _meth_unary(name):
    f = UNARY[name]

    def m(self, *a, **k):
        return ewise(f, self)
    return m


for _c in (TTensor, NArray):
    _c.round = lambda self, decimals=0, **k: np_round(self, decimals)

for _n in UNARY:
    for _c in (TTensor, NArray):
        if not hasattr(_c, _n):
            setattr(_c, _n, _meth_unary(_n))


def _meth_bin(name):
    f = BINARY[name]

    def m(self, o, *a, **k):
        return self._bin(f, o)
    return m


for _n in BINARY:
    if not hasattr(TTensor, _n):
        setattr(TTensor, _n, _meth_bin(_n))

_RED = {"sum": reducer(sum_), "mean": reducer(mean_), "all": reducer(all_), "any": reducer(any_), "max": ext("max"),
        "min": ext("min"), "amax": reducer(amax), "amin": reducer(amin), "argmax": arg_("max"), "argmin": arg_("min")}
for _n in _RED:
    for _c in (TTensor, NArray):
        setattr(_c, _n, (lambda f: (lambda self, *a, **k: f(self, *a, **k)))(_RED[_n]))


def prod_red(x, *a, **kw):
    d = _axis(kw, a)
    one = S(R1 if x._dtype.kind == "f" else I1)
    return X.reduce_(x, d, _keep(kw, a), s_mul, lambda: one, None)


def var_std(*a, **k):
    raise Unsupported("std")


# ---------------------------------------------------------------- torch module
def _generic(name, ns):
    """torch.foo(x, ...) -> ns function"""
    return ns[name]


class Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("%s.%s" % (self.__name__, name))


def build_torch():
    m = Mod("torch")
    d = m.__dict__
    for n, f in UNARY.items():
        d[n] = lift1(n, f)
    for n, f in BINARY.items():
        d[n] = lift2(n, f)
    d.update(_RED)
    d["prod"] = prod_red
    d.update(Tensor=TTensor, FloatTensor=TTensor, dtype=Dt, Size=tuple, device=Device, float64=float64, double=float64, float32=float32, float=float32,
             float16=float16, int64=int64, long=int64, int32=int32, int=int32, int16=int16, uint8=uint8, bool=boolean,
             nan=float("nan"), inf=float("inf"), pi=S(T.PI), newaxis=None)
    fl = _mkfull(TTensor)
    d.update(tensor=tt, asarray=tt_as, as_tensor=tt_as, from_numpy=tt_as, zeros=fl(0.0), ones=fl(1.0), empty=fl_empty(TTensor),
             eye=eye(TTensor), arange=arange(TTensor), linspace=linspace(TTensor), meshgrid=meshgrid)
    d["full"] = lambda size, fill_value, dtype=None, device=None: full(TTensor, _dims(size), fill_value,
                                                                       _dt(dtype) or {"f": float64, "i": int64, "b": boolean}[as_scalar(fill_value).kind])
    d["zeros_like"] = lambda t, dtype=None, **k: full(TTensor, t._shape, 0.0, _dt(dtype, t._dtype))
    d["ones_like"] = lambda t, dtype=None, **k: full(TTensor, t._shape, 1.0, _dt(dtype, t._dtype))
    d["empty_like"] = lambda t, dtype=None, **k: full(TTensor, t._shape, 0.0, _dt(dtype, t._dtype))
    d["full_like"] = lambda t, v, dtype=None, **k: full(TTensor, t._shape, v, _dt(dtype, t._dtype))
    d.update(cat=lambda ts, dim=0, **k: cat([tt_as(x) for x in ts], k.get("axis", dim)), stack=lambda ts, dim=0, **k: stack(ts, k.get("axis", dim)), where=where, nonzero=nonzero,
             argwhere=argwhere, clamp=clamp, clip=clamp, einsum=einsum, matmul=matmul, mm=matmul, bmm=bmm, dot=dot_torch,
             cross=cross_, norm=norm, transpose=transpose_t, permute=lambda t, p: permute(t, p), squeeze=squeeze,
             unsqueeze=unsqueeze, reshape=lambda t, s: reshape(t, s), flatten=lambda t, *a, **k: t.flatten(*a, **k),
             tile=tile, repeat_interleave=repeat_interleave, flip=flip, cumsum=cumsum, allclose=allclose, argsort=argsort,
             sort=sort, unique=unique, bucketize=bucketize, searchsorted=lambda b, x, right=False, **k: bucketize(x, b, right),
             is_tensor=lambda x: isinstance(x, TTensor), is_floating_point=lambda t: t._dtype.kind == "f",
             det=det, inverse=inv, cholesky=cholesky, numel=lambda t: t.numel(), clone=lambda t: t.clone(),
             set_default_dtype=lambda *a: None, set_default_device=lambda *a: CTX.events.append(("set_default_device", a)),
             get_default_dtype=lambda: float64, no_grad=_NoGrad, manual_seed=lambda *a: None, swapaxes=transpose_t,
             broadcast_tensors=broadcast_tensors, broadcast_to=lambda t, s: expand(t, s), mv=matmul, outer=outer,
             ravel=lambda t: reshape(t, (-1,)), concatenate=lambda ts, dim=0, **k: cat([tt_as(x) for x in ts], k.get("axis", dim)),
             hstack=lambda ts: cat(ts, 0 if len(ts[0]._shape) == 1 else 1), vstack=lambda ts: vstack([tt_as(t) for t in ts]),
             index_select=lambda t, d_, i: t.index_select(d_, i), trace=trace, diag=diag, diagonal=diagonal,
             movedim=movedim, moveaxis=movedim, column_stack=lambda ts: column_stack([tt_as(t) for t in ts]), rand=rand_t, atleast_1d=atleast(1, TTensor),
             atleast_2d=atleast(2, TTensor), addmm=lambda a, b, c: a + matmul(b, c), baddbmm=lambda a, b, c: a + matmul(b, c),
             isin=isin, count_nonzero=lambda t, dim=None: sum_(cast(cast(t, boolean), int64), dim))
    la = Mod("torch.linalg")
    la.__dict__.update(norm=norm, vector_norm=norm, inv=inv, det=det, cross=cross_, cholesky=cholesky, eigvalsh=eigvalsh,
                       solve=solve, LinAlgError=LinAlgError, vecdot=lambda a, b, dim=-1: sum_(a * b, dim))
    d["linalg"] = la
    d["_C"] = types.SimpleNamespace(_LinAlgError=LinAlgError)
    cu = Mod("torch.cuda")
    cu.__dict__.update(is_available=cuda_available, current_device=lambda: 0, empty_cache=lambda: None, memory_reserved=lambda *a: S(T.var("cuda_res", "R")),
                       memory_allocated=lambda *a: S(T.var("cuda_alloc", "R")), device_count=lambda: 1,
                       get_device_properties=lambda *a: types.SimpleNamespace(total_memory=S(T.var("cuda_tot", "R")), name="gpu"), get_device_name=lambda *a: "gpu")
    d["cuda"] = cu
    nnf = Mod("torch.nn.functional")
    nnf.__dict__.update(conv2d=conv2d, pad=pad)
    nn = Mod("torch.nn")
    nn.__dict__["functional"] = nnf
    d["nn"] = nn
    return m


def cuda_available():
    """the environment decides: both answers are explored"""
    return bool(S(T.app("cuda_available", (), "B")))


def tt_as(x, dtype=None, device=None, **kw):
    """as_tensor/asarray/from_numpy: shares storage with tensors and numpy arrays"""
    dt = _dt(dtype)
    if isinstance(x, TTensor):
        return cast(x, dt) if dt is not None else x
    if isinstance(x, NArray):
        r = TTensor(None, x._shape, x._dtype, store=x.store, view=x._view or ((lambda i: i), (lambda s: (TRUE, s))))
        return cast(r, dt) if dt is not None else r
    return tt(x, dtype)


def nt_as(x, dtype=None, **kw):
    dt = _dt(dtype)
    if isinstance(x, NArray):
        return cast(x, dt) if dt is not None else x
    if isinstance(x, TTensor):
        r = x.numpy()
        return cast(r, dt) if dt is not None else r
    return nt(x, dtype)


def fl_empty(cls):
    def g(*shape, dtype=None, device=None, **kw):
        shape = shape_args(shape)
        k = len(CTX.templates)
        CTX.templates[("empty", k)] = 1
        dt = _dt(dtype, float64)
        return cls(lambda i: S(T.app("uninit%d" % k, i, "R")).to_kind(dt.kind), _dims(shape), dt)
    return g


def bmm(a, b):
    if len(a._shape) != 3 or len(b._shape) != 3:
        raise RuntimeError("batch1 must be a 3D tensor")
    if not X.same_dim(a._shape[0], b._shape[0]):
        raise RuntimeError("Expected size for first two dimensions of batch2 tensor")
    return matmul(a, b)


def broadcast_tensors(*ts):
    sh = bcast(*[t._shape for t in ts])
    return tuple(expand(t, sh) for t in ts)


def outer(a, b):
    return unsqueeze(a, 1) * unsqueeze(b, 0)


def trace(a):
    n = X._sq(a)
    r = a[..., 0, 0]
    for q in range(1, n):
        r = r + a[..., q, q]
    return r


def diag(a):
    if len(a._shape) == 1:
        rd = a.reader()
        n = a._shape[0]
        return a.new(lambda i: s_ite(T.eq(i[0], i[1]), rd((i[0],)), S(R0)), (n, n))
    return diagonal(a)


def diagonal(a, offset=0, dim1=0, dim2=1, axis1=0, axis2=1):
    n = len(a._shape)
    d1, d2 = checkdim(dim1 if dim1 != 0 else axis1, n), checkdim(dim2 if dim2 != 1 else axis2, n)
    if offset:
        raise Unsupported("diagonal offset")
    keep = [q for q in range(n) if q not in (d1, d2)]
    rd = a.reader()

    def fn(idx):
        src = [None] * n
        for k, q in enumerate(keep):
            src[q] = idx[k]
        src[d1] = src[d2] = idx[-1]
        return rd(tuple(src))
    return a.new(fn, tuple(a._shape[q] for q in keep) + (a._shape[d1],))


def movedim(t, a, b):
    n = len(t._shape)
    a, b = checkdim(a, n), checkdim(b, n)
    p = [q for q in range(n) if q != a]
    p.insert(b, a)
    return permute(t, p)


def column_stack(ts):
    ts = [unsqueeze(t, 1) if len(t._shape) == 1 else t for t in ts]
    return cat(ts, 1)


def vstack(ts):
    ts = [unsqueeze(t, 0) if len(t._shape) == 1 else t for t in ts]
    return cat(ts, 0)


def atleast(n, cls):
    def f(x):
        x = (tt_as if cls is TTensor else nt_as)(x)
        while len(x._shape) < n:
            x = unsqueeze(x, 0)
        return x
    return f


def isin(x, y, **kw):
    y = reshape(y if isinstance(y, Ten) else nt(y), (-1,))
    n = y._shape[0]
    rd = y.reader()
    if isinstance(n, int):
        return ewise(lambda a: S(T.or_(*[s_eq(a, rd((I(q),))).v for q in range(n)])), x, dtype=boolean)
    return ewise(lambda a: X.sym_any((n,), lambda j: s_eq(a, rd(j))), x, dtype=boolean)


def _rand(cls, shape):
    k = len(CTX.templates)
    CTX.templates[("rand", k)] = 1
    nm = "rand%d" % k

    def fact(*a):
        v = T.app(nm, a, "R")
        return T.and_(T.le(R0, v), T.lt(v, R1))
    CTX.trigger(nm, fact)
    return cls(lambda i: S(T.app(nm, i, "R")), _dims(shape), float64)


def rand_t(*shape, **kw):
    return _rand(TTensor, shape_args(shape))


def rand_n(*shape):
    r = _rand(NArray, shape)
    return X.scalarize(r) if not shape else r


def pad(t, p, mode="constant", value=0.0):
    p = [dimterm(as_scalar(x).v) if not isinstance(x, int) else I(x) for x in p]
    n = len(t._shape)
    pads = [(I0, I0)] * n
    for k in range(len(p) // 2):
        pads[n - 1 - k] = (p[2 * k], p[2 * k + 1])
    if mode != "constant":
        raise Unsupported("pad mode " + mode)
    rd = t.reader()
    shape = tuple(dimval(T.add(dimterm(d), a, b)) for d, (a, b) in zip(t._shape, pads))
    v = as_scalar(value if value is not None else 0.0).to_kind(t._dtype.kind)

    def fn(idx):
        cond = []
        src = []
        for i, d, (a, b) in zip(idx, t._shape, pads):
            j = T.sub(i, a)
            src.append(j)
            if a is not I0:
                cond.append(T.le(I0, j))
            if b is not I0 or a is not I0:
                cond.append(T.lt(j, dimterm(d)))
        c = T.and_(*cond)
        if c is FALSE:
            return v
        return s_ite(c, rd(tuple(src)), v)
    return t.new(fn, shape)


def conv2d(input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
    x, w = input, weight
    if bias is not None or stride not in (1, (1, 1)) or dilation not in (1, (1, 1)) or groups != 1:
        raise Unsupported("conv2d options")
    if padding == "same":
        kh, kw = w._shape[-2:]
        if not (isinstance(kh, int) and isinstance(kw, int)):
            raise Unsupported("symbolic same padding")
        p0, p1 = (kh - 1), (kw - 1)
        x = pad(x, (p1 // 2, p1 - p1 // 2, p0 // 2, p0 - p0 // 2))
    elif padding != 0 and padding != "valid" and padding != (0, 0):
        ph, pw = padding if isinstance(padding, (tuple, list)) else (padding, padding)
        x = pad(x, (pw, pw, ph, ph))
    if len(x._shape) != 4 or len(w._shape) != 4:
        raise Unsupported("conv2d rank")
    if not (w._shape[0] == 1 and w._shape[1] == 1 and x._shape[1] == 1):
        raise Unsupported("conv2d channels")
    kh, kw = w._shape[2:]
    H = T.add(T.sub(dimterm(x._shape[2]), dimterm(kh)), I1)
    W = T.add(T.sub(dimterm(x._shape[3]), dimterm(kw)), I1)
    rx, rw = x.reader(), w.reader()

    def fn(idx):
        n, c, i, j = idx

        def term(si):
            return s_mul(rx((n, I0, T.add(i, si[0]), T.add(j, si[1]))), rw((I0, I0, si[0], si[1])))
        if isinstance(kh, int) and isinstance(kw, int):
            r = None
            for a in range(kh):
                for b in range(kw):
                    v = term((I(a), I(b)))
                    r = v if r is None else s_add(r, v)
            return r
        return X.sym_sum([kh, kw], term)
    return x.new(fn, (x._shape[0], 1, dimval(H), dimval(W)))


# ---------------------------------------------------------------- numpy module
def build_numpy(torch_mod):
    m = Mod("numpy")
    d = m.__dict__
    for n, f in UNARY.items():
        d[n] = lift1(n, f)
    for n, f in BINARY.items():
        d[n] = lift2(n, f)
    d.update(_RED)
    d["prod"] = lambda x, *a, **k: prod_red(x if isinstance(x, Ten) else nt(x), *a, **k)

    class NG(object):
        pass

    class NFl(NG):
        pass

    class NIn(NG):
        pass
    fl = _mkfull(NArray)
    d.update(ndarray=NArray, float64=float64, float32=float32, int64=int64, int32=int32, uint8=uint8, bool_=boolean,
             pi=S(T.PI), nan=float("nan"), inf=float("inf"), newaxis=None, e=S(T.fn("exp", R1)), generic=NG, integer=NIn, floating=NFl, number=NG,
             array=nt, asarray=nt_as, copy=nt, ascontiguousarray=nt_as, zeros=fl(0.0), ones=fl(1.0), empty=fl_empty(NArray),
             eye=eye(NArray), identity=eye(NArray), arange=arange(NArray), linspace=linspace(NArray), meshgrid=meshgrid_np)
    d["round"] = lambda x, decimals=0, **k: np_round(x, decimals)
    d["around"] = d["round"]
    d["full"] = lambda size, v, dtype=None: full(NArray, _dims(size if isinstance(size, (tuple, list)) else (size,)), v, _dt(dtype) or {"f": float64, "i": int64, "b": boolean}[as_scalar(v).kind])
    d["zeros_like"] = lambda t, dtype=None, **k: full(NArray, nt_as(t)._shape, 0.0, _dt(dtype, nt_as(t)._dtype))
    d["ones_like"] = lambda t, dtype=None, **k: full(NArray, nt_as(t)._shape, 1.0, _dt(dtype, nt_as(t)._dtype))
    d["empty_like"] = d["zeros_like"]
    d["full_like"] = lambda t, v, dtype=None, **k: full(NArray, t._shape, v, _dt(dtype, t._dtype))
    d.update(concatenate=lambda ts, axis=0, **k: cat([nt_as(x) for x in ts], axis), stack=lambda ts, axis=0, **k: stack([nt_as(x) for x in ts], axis),
             where=where, nonzero=lambda t: nonzero(t, True), argwhere=argwhere, clip=lambda x, a=None, b=None, **k: clamp(x, a, b),
             einsum=einsum, matmul=lambda a, b: dot_np(a, b) if len(nt_as(a)._shape) <= 2 and len(nt_as(b)._shape) <= 2 else matmul(nt_as(a), nt_as(b)), dot=dot_np, cross=cross_, transpose=transpose_n, squeeze=lambda t, axis=None: squeeze(t, axis),
             reshape=lambda t, s, **k: reshape(nt_as(t), s if isinstance(s, (tuple, list)) else (s,)), ravel=lambda t: reshape(nt_as(t), (-1,)), tile=tile,
             repeat=lambda t, r, axis=None: repeat_interleave(nt_as(t), r, axis), expand_dims=lambda t, axis: unsqueeze(nt_as(t), axis),
             flip=flip, cumsum=lambda t, axis=None: cumsum(t, dim=axis or 0), allclose=allclose, argsort=argsort_np, unique=unique_np, outer=outer,
             vstack=lambda ts: vstack([nt_as(t) for t in ts]), hstack=lambda ts: cat([nt_as(t) for t in ts], 0 if len(nt_as(ts[0])._shape) == 1 else 1),
             column_stack=lambda ts: column_stack([nt_as(t) for t in ts]), trace=trace, diag=diag, diagonal=diagonal, moveaxis=movedim,
             swapaxes=transpose_t, isscalar=lambda x: coerce(x) is not None, ndim=lambda x: 0 if coerce(x) is not None else len(nt_as(x)._shape), isin=isin,
             atleast_1d=atleast(1, NArray), atleast_2d=atleast(2, NArray), size=lambda x: nt_as(x).size, shape=lambda x: nt_as(x).shape,
             searchsorted=lambda b, x, side="left": bucketize(nt_as(x), nt_as(b), side == "right"), float_=float64, int_=int64,
             count_nonzero=lambda t: X.scalarize(sum_(cast(cast(t, boolean), int64))), issubdtype=lambda a, b: _issub(a, b, NIn, NFl))
    addmod = Mod("numpy.add")

    class Add(object):
        def __call__(self, a, b, **k):
            return lift2("add", s_add)(a, b)

        def at(self, t, idx, val):
            if not isinstance(idx, tuple):
                idx = (idx,)
            adv = []
            for q, k in enumerate(idx):
                k = nt_as(k) if not isinstance(k, Ten) else k
                adv.append((k, [q]))
            v = val if isinstance(val, Ten) else full(NArray, (), val)
            X.scatter(t, adv, v, s_add)
    d["add"] = Add()
    la = Mod("numpy.linalg")
    la.__dict__.update(norm=norm, inv=lambda a: inv(nt_as(a)), det=lambda a: _sc0(det(nt_as(a))), solve=lambda a, b: solve(nt_as(a), nt_as(b)),
                       cholesky=lambda a: cholesky(nt_as(a)), eigvalsh=lambda a: eigvalsh(nt_as(a)), LinAlgError=NpLinAlgError)
    d["linalg"] = la
    rn = Mod("numpy.random")
    rn.__dict__.update(rand=rand_n, random=lambda size=None: rand_n(*(size if isinstance(size, (tuple, list)) else (() if size is None else (size,)))),
                       seed=lambda *a: None, default_rng=lambda *a: _Rng(), choice=choice)
    d["random"] = rn
    ty = Mod("numpy.typing")
    ty.__dict__.update(NDArray=collections.defaultdict(lambda: NArray), ArrayLike=object)
    d["typing"] = ty
    return m


def _issub(a, b, NIn, NFl):
    a = npdt(a)
    if b is NIn:
        return a.kind == "i"
    if b is NFl:
        return a.kind == "f"
    return a.kind == npdt(b).kind


def _sc0(r):
    return X.scalarize(r) if not r._shape else r


def argsort_np(x, axis=-1, kind=None):
    return argsort(nt_as(x))


def np_round(x, decimals=0):
    """rounding to decimals: an opaque value within half a unit of x"""
    if decimals == 0:
        return lift1("round", s_round)(x)
    p = Fraction(10) ** int(decimals)

    def f(a):
        a = a.to_kind("f")
        return S(T.scale(Fraction(1) / p, T.toreal(T.rnd(T.scale(p, a.v)))), a.nan, a.inf)
    return lift1("round", f)(x)


def choice(a, size=None, replace=True, p=None):
    raise Unsupported("np.random.choice")


class _Rng(object):
    def random(self, size=None):
        return rand_n(*(size if isinstance(size, (tuple, list)) else (() if size is None else (size,))))

    def __getattr__(self, n):
        raise Unsupported("rng." + n)
